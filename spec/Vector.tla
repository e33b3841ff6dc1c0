------------------------------- MODULE Vector -------------------------------
(* The dynamically-sized arrays fm::vector (of plain values and of objects with constructors) and  *)
(* fm::pvector: plain sequences. The capacity is hidden; it is part of the state only to cover      *)
(* every operation both with and without a reallocation.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NVec, MaxLen, Vals, MaxCap, Pos
VARIABLES st, act

Init == /\ st = [v |-> [i \in 1..NVec |-> <<>>], cap |-> [i \in 1..NVec |-> 0]]
        /\ act = [a |-> [op |-> "init"], r |-> "init"]
Min(x, y) == IF x < y THEN x ELSE y
Max(x, y) == IF x > y THEN x ELSE y
(* c: the capacity the implementation is expected to have, for coverage only *)
Set(a, i, w, c, r) == /\ Len(w) <= MaxLen
                      /\ st' = [st EXCEPT !.v[i] = w, !.cap[i] = Min(Max(c, Len(w)), MaxCap)]
                      /\ act' = [a |-> a, r |-> r]
Same(a, r) == st' = st /\ act' = [a |-> a, r |-> r]
V(i) == st.v[i]
Grow(i) == IF Len(V(i)) = st.cap[i] THEN Len(V(i)) + Len(V(i)) + 1 ELSE st.cap[i]
Ins(s, p, x) == SubSeq(s, 1, p) \o <<x>> \o SubSeq(s, p + 1, Len(s))
InsAll(s, p, w) == SubSeq(s, 1, p) \o w \o SubSeq(s, p + 1, Len(s))
Cut(s, p, q) == SubSeq(s, 1, p) \o SubSeq(s, q + 1, Len(s))
Rep(x, n) == [k \in 1..n |-> x]
RECURSIVE FindFrom(_, _, _)
FindFrom(s, x, i) == IF i > Len(s) THEN Len(s) ELSE IF s[i] = x THEN i - 1 ELSE FindFrom(s, x, i + 1)
Find0(s, x) == FindFrom(s, x, 1)
RECURSIVE SortSeqAsc(_)
SortSeqAsc(s) == IF s = <<>> THEN <<>>
                 ELSE LET p == s[1] r == Tail(s)
                      IN SortSeqAsc(SelectSeq(r, LAMBDA x : x < p)) \o <<p>> \o SortSeqAsc(SelectSeq(r, LAMBDA x : x >= p))
Rev(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
MoveCap(i, n) == IF Len(V(i)) + n > st.cap[i] THEN Len(V(i)) + n ELSE st.cap[i]

PushBack(a) == Set(a, a.i, Append(V(a.i), a.x), Grow(a.i), 0)
PushFront(a) == Set(a, a.i, <<a.x>> \o V(a.i), Grow(a.i), 0)
Insert(a) == a.p <= Len(V(a.i)) /\ Set(a, a.i, Ins(V(a.i), a.p, a.x), Grow(a.i), a.p)
InsertN(a) == a.p <= Len(V(a.i)) /\ Set(a, a.i, InsAll(V(a.i), a.p, Rep(a.x, a.n)), MoveCap(a.i, a.n), 0)
InsertArr(a) == a.p <= Len(V(a.i)) /\ Set(a, a.i, InsAll(V(a.i), a.p, a.w), MoveCap(a.i, Len(a.w)), 0)
(* inserts the elements f..l-1 of another vector *)
InsertRange(a) == /\ a.i # a.j /\ a.p <= Len(V(a.i)) /\ a.f < a.l /\ a.l <= Len(V(a.j))
                  /\ Set(a, a.i, InsAll(V(a.i), a.p, SubSeq(V(a.j), a.f + 1, a.l)), MoveCap(a.i, a.l - a.f), 0)
(* the inserted value is an element of the vector itself *)
InsertSelf(a) == /\ a.p <= Len(V(a.i)) /\ a.q < Len(V(a.i))
                 /\ Set(a, a.i, Ins(V(a.i), a.p, V(a.i)[a.q + 1]), Grow(a.i), 0)
InsertSelfN(a) == /\ a.p <= Len(V(a.i)) /\ a.q < Len(V(a.i))
                  /\ Set(a, a.i, InsAll(V(a.i), a.p, Rep(V(a.i)[a.q + 1], 2)), MoveCap(a.i, 2), 0)
EraseAt(a) == a.p < Len(V(a.i)) /\ Set(a, a.i, Cut(V(a.i), a.p, a.p + 1), st.cap[a.i], a.p)
EraseRange(a) == a.p < a.q /\ a.q <= Len(V(a.i)) /\ Set(a, a.i, Cut(V(a.i), a.p, a.q), st.cap[a.i], 0)
EraseVal(a) == LET k == Find0(V(a.i), a.x) IN
               IF k = Len(V(a.i)) THEN Same(a, FALSE) ELSE Set(a, a.i, Cut(V(a.i), k, k + 1), st.cap[a.i], TRUE)
PopBack(a) == V(a.i) # <<>> /\ Set(a, a.i, SubSeq(V(a.i), 1, Len(V(a.i)) - 1), st.cap[a.i], 0)
PopFront(a) == V(a.i) # <<>> /\ Set(a, a.i, Tail(V(a.i)), st.cap[a.i], 0)
Resize(a) == Set(a, a.i, IF a.n <= Len(V(a.i)) THEN SubSeq(V(a.i), 1, a.n) ELSE V(a.i) \o Rep(a.x, a.n - Len(V(a.i))), a.n, 0)
Shrink(a) == a.n <= Len(V(a.i)) /\ Set(a, a.i, SubSeq(V(a.i), 1, a.n), a.n, 0)
Reserve(a) == a.n >= Len(V(a.i)) /\ Set(a, a.i, V(a.i), a.n, a.n)
Clear(a) == Set(a, a.i, <<>>, 0, 0)
Replace(a) == Set(a, a.i, [k \in 1..Len(V(a.i)) |-> IF V(a.i)[k] = a.x THEN a.y ELSE V(a.i)[k]], st.cap[a.i], 0)
ReplaceIn(a) == /\ a.p <= a.q /\ a.q <= Len(V(a.i))
                /\ Set(a, a.i, [k \in 1..Len(V(a.i)) |-> IF k > a.p /\ k <= a.q /\ V(a.i)[k] = a.x THEN a.y ELSE V(a.i)[k]], st.cap[a.i], 0)
Assign(a) == Set(a, a.i, V(a.j), IF a.i = a.j THEN st.cap[a.i] ELSE Len(V(a.j)), 0)
Copy(a) == a.i # a.j /\ Set(a, a.i, V(a.j), Len(V(a.j)), 0)
Sort(a) == Set(a, a.i, IF a.d THEN Rev(SortSeqAsc(V(a.i))) ELSE SortSeqAsc(V(a.i)), st.cap[a.i], 0)
SetAt(a) == a.p < Len(V(a.i)) /\ Set(a, a.i, [V(a.i) EXCEPT ![a.p + 1] = a.x], st.cap[a.i], 0)
Find(a) == Same(a, [at |-> Find0(V(a.i), a.x), has |-> Find0(V(a.i), a.x) < Len(V(a.i))])
Equal(a) == Same(a, V(a.i) = V(a.j))
Ends(a) == V(a.i) # <<>> /\ Same(a, <<V(a.i)[1], V(a.i)[Len(V(a.i))]>>)

Step(a) ==
  \/ a.op = "PushBack" /\ PushBack(a)
  \/ a.op = "PushFront" /\ PushFront(a)
  \/ a.op = "Insert" /\ Insert(a)
  \/ a.op = "InsertN" /\ InsertN(a)
  \/ a.op = "InsertArr" /\ InsertArr(a)
  \/ a.op = "InsertRange" /\ InsertRange(a)
  \/ a.op = "InsertSelf" /\ InsertSelf(a)
  \/ a.op = "InsertSelfN" /\ InsertSelfN(a)
  \/ a.op = "EraseAt" /\ EraseAt(a)
  \/ a.op = "EraseRange" /\ EraseRange(a)
  \/ a.op = "EraseVal" /\ EraseVal(a)
  \/ a.op = "PopBack" /\ PopBack(a)
  \/ a.op = "PopFront" /\ PopFront(a)
  \/ a.op = "Resize" /\ Resize(a)
  \/ a.op = "Shrink" /\ Shrink(a)
  \/ a.op = "Reserve" /\ Reserve(a)
  \/ a.op = "Clear" /\ Clear(a)
  \/ a.op = "Replace" /\ Replace(a)
  \/ a.op = "ReplaceIn" /\ ReplaceIn(a)
  \/ a.op = "Assign" /\ Assign(a)
  \/ a.op = "Copy" /\ Copy(a)
  \/ a.op = "Sort" /\ Sort(a)
  \/ a.op = "SetAt" /\ SetAt(a)
  \/ a.op = "Find" /\ Find(a)
  \/ a.op = "Equal" /\ Equal(a)
  \/ a.op = "Ends" /\ Ends(a)

I == 1..NVec
P == Pos
Acts == [op : {"PushBack", "PushFront", "EraseVal", "Find"}, i : I, x : Vals]
        \cup [op : {"Insert", "SetAt"}, i : I, p : P, x : Vals]
        \cup [op : {"InsertN"}, i : I, p : P, n : 0..2, x : Vals]
        \cup [op : {"InsertArr"}, i : I, p : P, w : [1..2 -> Vals] \cup [1..3 -> Vals]]
        \cup [op : {"InsertRange"}, i : I, j : I, p : P, f : P, l : P]
        \cup [op : {"InsertSelf", "InsertSelfN"}, i : I, p : P, q : P]
        \cup [op : {"EraseAt"}, i : I, p : P]
        \cup [op : {"EraseRange"}, i : I, p : P, q : P]
        \cup [op : {"PopBack", "PopFront", "Clear", "Ends"}, i : I]
        \cup [op : {"Resize"}, i : I, n : P, x : Vals]
        \cup [op : {"Shrink", "Reserve"}, i : I, n : P]
        \cup [op : {"Replace"}, i : I, x : Vals, y : Vals]
        \cup [op : {"ReplaceIn"}, i : I, p : P, q : P, x : {0}, y : {1}]
        \cup [op : {"Assign", "Copy", "Equal"}, i : I, j : I]
        \cup [op : {"Sort"}, i : I, d : BOOLEAN]

Obs(s) == s.v
-----------------------------------------------------------------------------
TypeOK == \A i \in I : Len(st.v[i]) <= MaxLen /\ \A k \in 1..Len(st.v[i]) : st.v[i][k] \in Vals
CapOK == \A i \in I : st.cap[i] >= Len(st.v[i])
(* an operation on one vector leaves the others unchanged *)
OnlyTarget == \A j \in I : st'.v[j] # st.v[j] => act'.a.i = j
SortIsPermutation == act'.a.op = "Sort" =>
   LET s == st.v[act'.a.i] t == st'.v[act'.a.i] IN
   /\ \A x \in Vals : Cardinality({k \in 1..Len(s) : s[k] = x}) = Cardinality({k \in 1..Len(t) : t[k] = x})
   /\ \A k \in 1..(Len(t) - 1) : IF act'.a.d THEN t[k] >= t[k + 1] ELSE t[k] <= t[k + 1]
=============================================================================
