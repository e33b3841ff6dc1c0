------------------------------- MODULE AnimList -------------------------------
(* A list parameter whose elements may be animated: an animation curve stays with the element it was *)
(* attached to, wherever editing the list moves that element, and dies with it.                       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Dims, MaxLen, Vals, NCurve, Pos
VARIABLES st, act
(* st.v : the values, each a tuple of Dims numbers ; st.c : for each value and dimension its curve (0: none) *)
Init == st = [v |-> <<>>, c |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]

Val(x) == [d \in 1..Dims |-> x + 50 * (d - 1)]
None == [d \in 1..Dims |-> 0]
Ins(q, i, n, F(_)) == SubSeq(q, 1, i) \o [k \in 1..n |-> F(k)] \o SubSeq(q, i + 1, Len(q))
Del(q, i, j) == SubSeq(q, 1, i) \o SubSeq(q, j + 1, Len(q))
To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]
Grow(i, n, F(_)) == [v |-> Ins(st.v, i, n, F), c |-> Ins(st.c, i, n, LAMBDA k : None)]
Cut(i, j) == [v |-> Del(st.v, i, j), c |-> Del(st.c, i, j)]
Room(n) == Len(st.v) + n <= MaxLen
N == Len(st.v)
First(x) == LET T == {i \in 1..N : st.v[i] = Val(x)} IN IF T = {} THEN 0 ELSE CHOOSE i \in T : \A j \in T : i <= j

Step(a) ==
  \/ a.op = "Insert" /\ Room(1) /\ a.i <= N /\ To(Grow(a.i, 1, LAMBDA k : Val(a.x)), a, 0)
  \/ a.op = "InsertN" /\ Room(a.n) /\ a.i <= N /\ To(Grow(a.i, a.n, LAMBDA k : Val(a.x)), a, 0)
  \/ a.op = "InsertArr" /\ Room(a.n) /\ a.i <= N /\ To(Grow(a.i, a.n, LAMBDA k : Val(a.x + k)), a, 0)
  \/ a.op = "PushBack" /\ Room(1) /\ To(Grow(N, 1, LAMBDA k : Val(a.x)), a, 0)
  \/ a.op = "PushFront" /\ Room(1) /\ To(Grow(0, 1, LAMBDA k : Val(a.x)), a, 0)
  \/ a.op = "PopBack" /\ N > 0 /\ To(Cut(N - 1, N), a, 0)
  \/ a.op = "PopFront" /\ N > 0 /\ To(Cut(0, 1), a, 0)
  \/ a.op = "EraseAt" /\ a.i < N /\ To(Cut(a.i, a.i + 1), a, 0)
  \/ a.op = "EraseVal" /\ To(IF First(a.x) = 0 THEN st ELSE Cut(First(a.x) - 1, First(a.x)), a, 0)
  \/ a.op = "EraseRange" /\ a.i < a.j /\ a.j <= N /\ To(Cut(a.i, a.j), a, 0)
  \/ a.op = "Clear" /\ To([v |-> <<>>, c |-> <<>>], a, 0)
  \/ a.op = "Shrink" /\ a.n <= N /\ To(Cut(a.n, N), a, 0)
  \/ a.op = "Resize" /\ a.n <= MaxLen /\ To(IF a.n <= N THEN Cut(a.n, N) ELSE Grow(N, a.n - N, LAMBDA k : Val(a.x)), a, 0)
  \/ a.op = "Set" /\ a.i < N /\ To([st EXCEPT !.v[a.i + 1] = Val(a.x)], a, 0)
  \/ a.op = "Create" /\ a.i < N /\ To(st, a, 0)
  \/ a.op = "Curve" /\ a.i < N /\ To([st EXCEPT !.c[a.i + 1][a.d] = a.k], a, 0)
  \/ a.op = "Uncurve" /\ a.i < N /\ To([st EXCEPT !.c[a.i + 1][a.d] = 0], a, st.c[a.i + 1][a.d] # 0)
  \/ a.op = "KillCurve" /\ To([st EXCEPT !.c = [i \in DOMAIN @ |-> [d \in 1..Dims |-> IF @[i][d] = a.k THEN 0 ELSE @[i][d]]]], a, 0)
  \/ a.op = "Evaluate" /\ To([st EXCEPT !.v = [i \in DOMAIN @ |-> [d \in 1..Dims |-> IF st.c[i][d] = 0 THEN @[i][d] ELSE 1000 + st.c[i][d]]]], a, 0)
Obs(s) == [v |-> s.v, c |-> s.c, any |-> \E i \in 1..Len(s.c) : s.c[i] # None]
Acts == [op : {"Insert"}, i : Pos, x : Vals] \cup [op : {"InsertN", "InsertArr"}, i : Pos, n : {0, 2}, x : Vals]
   \cup [op : {"PushBack", "PushFront", "EraseVal"}, x : Vals] \cup [op : {"PopBack", "PopFront", "Clear", "Evaluate"}]
   \cup [op : {"EraseAt", "Create"}, i : Pos] \cup [op : {"EraseRange"}, i : Pos, j : Pos]
   \cup [op : {"Shrink"}, n : Pos] \cup [op : {"Resize"}, n : Pos, x : Vals] \cup [op : {"Set"}, i : Pos, x : Vals]
   \cup [op : {"Curve"}, i : Pos, d : {1, Dims}, k : 1..NCurve] \cup [op : {"Uncurve"}, i : Pos, d : {1, Dims}] \cup [op : {"KillCurve"}, k : 1..NCurve]
-----------------------------------------------------------------------------
SameLength == Len(st.v) = Len(st.c)
(* only evaluation and the explicit edits of one element change a value that stays; curves are only lost with their element *)
CurvesStay == act'.a.op \in {"Insert", "InsertN", "InsertArr", "PushBack", "PushFront", "Set", "Create", "Evaluate"} =>
  SelectSeq(st'.c, LAMBDA x : x # None) = SelectSeq(st.c, LAMBDA x : x # None)
=============================================================================
