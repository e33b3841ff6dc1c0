-------------------------------- MODULE Curve --------------------------------
(* Animation curves: an ordered list of keys, its evaluation in every interpolation and infinity     *)
(* mode, and the clips that move it in time. Times are multiples of 12, evaluations multiples of 6,   *)
(* values multiples of 24, so that every result times 1728 is an integer.                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NCurve, NClip, MaxKeys, Times, Vals, Kinds, Xs, Infs, TMin, TMax, Shifts, Gap
VARIABLES st, act
(* st.c[i] = [k : keys <<[t, v, k]>>, pre, post, clips : <<<<clip, offset>>>>, cur, off]               *)
(* kinds: 1 step, 2 linear, 3 bezier, 4 TCB ; infinities: 0 constant, 1 linear, 2 cycle, 3 relative, 4 oscillate *)
(* a bezier key at (t, v) has its tangents at (t - 4, v - 24) and (t + 4, v + 12)                      *)

C == 1..NCurve
Clips == 1..NClip
NewCurve == [k |-> <<>>, pre |-> 0, post |-> 0, clips |-> <<>>, cur |-> 0, off |-> 0]
Init == st = [c |-> [i \in C |-> NewCurve]] /\ act = [a |-> [op |-> "init"], r |-> 0]
InRange(q) == \A j \in 1..Len(q) : q[j].t >= TMin /\ q[j].t <= TMax /\ q[j].v \in Vals
Set(a, s, r) == (\A i \in C : InRange(s.c[i].k) /\ Len(s.c[i].k) <= MaxKeys) /\ st' = s /\ act' = [a |-> a, r |-> r]
Key(t, v, k) == [t |-> t, v |-> v, k |-> k]
Keys(s, i) == s.c[i].k
Put(a, q, r) == Set(a, [st EXCEPT !.c[a.i].k = q], r)
LastT(q) == IF q = <<>> THEN 0 - Gap ELSE q[Len(q)].t

(* appended keys are placed after the last one *)
Append1(a) == LET q == Keys(st, a.i) IN Put(a, Append(q, Key(LastT(q) + Gap, a.v, a.k)), 0)
(* a key added at a time goes after the keys of that time; the result is its index *)
Pos(q, t) == Cardinality({j \in 1..Len(q) : q[j].t <= t})
Insert(a) == LET q == Keys(st, a.i) p == Pos(q, a.t)
             IN Put(a, SubSeq(q, 1, p) \o <<Key(a.t, a.v, a.k)>> \o SubSeq(q, p + 1, Len(q)), p)
Delete(a) == LET q == Keys(st, a.i) IN a.j <= Len(q) /\ Put(a, SubSeq(q, 1, a.j - 1) \o SubSeq(q, a.j + 1, Len(q)), 1)
(* deleting a key of another curve is refused *)
DeleteOther(a) == Keys(st, a.i) # <<>> /\ Set(a, st, 0)
SetCount(a) == LET q == Keys(st, a.i) n == Len(q)
               IN Put(a, IF a.n <= n THEN SubSeq(q, 1, a.n) ELSE q \o [j \in 1..(a.n - n) |-> Key(LastT(q) + Gap * j, 0, a.k)], 0)
SetInf(a) == Set(a, [st EXCEPT !.c[a.i].pre = a.pre, !.c[a.i].post = a.post], 0)
Convert(a) == Put(a, [j \in 1..Len(Keys(st, a.i)) |-> LET x == Keys(st, a.i)[j] IN Key(x.t + a.dt, x.v + a.dv, x.k)], 0)
(* the curve is replaced by its clone *)
Clone(a) == Set(a, [st EXCEPT !.c[a.j] = [st.c[a.i] EXCEPT !.clips = st.c[a.j].clips, !.cur = st.c[a.j].cur]], 0)

(* clips: clip j starts at 12 j; adding a curve records the offset that moves the clip to time zero *)
ClipAdd(a) == (\A x \in 1..Len(st.c[a.i].clips) : st.c[a.i].clips[x][1] # a.j) /\ Set(a, [st EXCEPT !.c[a.i].clips = Append(@, <<a.j, 0 - 12 * a.j>>)], 0)
ClipOffset(a) == Set(a, [st EXCEPT !.c[a.i].clips = [x \in 1..Len(@) |-> IF @[x][1] = a.j THEN <<a.j, a.o>> ELSE @[x]]], 0)
(* making a clip current moves every key (and tangent) by the change of offset *)
ClipSet(a) == LET c == st.c[a.i]
                  f == SelectSeq(c.clips, LAMBDA x : x[1] = a.j)
                  d == f[1][2] - c.off
              IN IF c.cur = a.j THEN Set(a, st, 0)
                 ELSE IF f = <<>> THEN Set(a, [st EXCEPT !.c[a.i].cur = 0], 0)
                 ELSE Set(a, [st EXCEPT !.c[a.i] = [c EXCEPT !.cur = a.j, !.off = f[1][2],
                                                     !.k = [x \in 1..Len(c.k) |-> [c.k[x] EXCEPT !.t = @ + d]]]], 0)

-----------------------------------------------------------------------------
(* evaluation *)
K == 1728
Ceil(x, y) == (x + y - 1) \div y
Line(a, b, x) == K * a.v + (K * (x - a.t) * (b.v - a.v)) \div (b.t - a.t)
Tangential(a, b) == a.k \in {3, 4} /\ b.k \in {3, 4}
Bez(a, b, x) == LET d == b.t - a.t
                    n == (x - a.t) \div 6  D == d \div 6  m == D - n
                    w == d \div 4
                    p == (a.v + 12) * w  s == (b.v - 24) * w
                    num == a.v * m * m * m + p * m * m * n + s * m * n * n + b.v * n * n * n
                IN ((num * 27) \div (D * D * D)) * 64 + (((num * 27) % (D * D * D)) * 64) \div (D * D * D)
Segment(a, b, x) == IF a.k = 1 THEN K * a.v
                    ELSE IF a.k = 2 THEN Line(a, b, x)
                    ELSE IF b.k = 1 THEN K * a.v
                    ELSE IF b.k = 2 THEN Line(a, b, x)
                    ELSE IF x = a.t THEN K * a.v
                    ELSE Bez(a, b, x)
(* the keys around x *)
Inside(q, x) == LET p == Pos(q, x) IN IF p = 0 THEN K * q[1].v ELSE IF p = Len(q) THEN K * q[p].v ELSE Segment(q[p], q[p + 1], x)
(* the time inside of the curve that stands for x, and the number of periods added to the value *)
Map(c, x) == LET q == c.k b == q[1].t e == q[Len(q)].t s == e - b
                 n == Ceil(b - x, s) m == Ceil(b - x, 2 * s)
                 n2 == Ceil(x - e, s) m2 == Ceil(x - e, 2 * s)
             IN IF x < b THEN IF c.pre = 4 THEN LET y == x + 2 * m * s IN <<IF y > e THEN 2 * e - y ELSE y, 0>>
                              ELSE <<x + n * s, IF c.pre = 3 THEN 0 - n ELSE 0>>
                ELSE IF c.post = 4 THEN LET y == x - 2 * m2 * s IN <<IF y < b THEN 2 * b - y ELSE y, 0>>
                ELSE <<x - n2 * s, IF c.post = 3 THEN n2 ELSE 0>>
Value(c, x) ==
  LET q == c.k  N == Len(q) IN
  IF q = <<>> THEN 0 ELSE IF N = 1 THEN K * q[1].v
  ELSE IF x < q[1].t /\ c.pre = 0 THEN K * q[1].v
  ELSE IF x < q[1].t /\ c.pre = 1 THEN Line(q[1], q[2], x)
  ELSE IF x >= q[N].t /\ c.post = 0 THEN K * q[N].v
  ELSE IF x >= q[N].t /\ c.post = 1 THEN K * q[N].v + (K * (x - q[N].t) * (q[N].v - q[N - 1].v)) \div (q[N].t - q[N - 1].t)
  ELSE IF x < q[1].t \/ x >= q[N].t THEN LET m == Map(c, x) IN Inside(q, m[1]) + K * m[2] * (q[N].v - q[1].v)
  ELSE Inside(q, x)
(* Evaluations are specified unless the outer keys coincide in time, or a TCB tangent takes part *)
Outer(c, x) == LET q == c.k N == Len(q) IN (x < q[1].t \/ x >= q[N].t)
Used(c, x) == IF Outer(c, x) THEN (IF (IF x < c.k[1].t THEN c.pre ELSE c.post) >= 2 THEN Map(c, x)[1] ELSE c.k[1].t) ELSE x
Plain(c, x, two) == LET q == c.k y == Used(c, x) p == Pos(q, y)
                    IN IF p = 0 \/ p = Len(q) THEN TRUE
                       ELSE IF ~Tangential(q[p], q[p + 1]) THEN TRUE
                       ELSE IF q[p].k = 4 \/ q[p + 1].k = 4 THEN y = q[p].t /\ ~two
                       ELSE two => q[p + 1].t - q[p].t = 12
Defined(c, x, two) == LET q == c.k N == Len(q) IN
  IF N <= 1 THEN TRUE
  ELSE IF q[1].t = q[N].t THEN c.pre = 0 /\ c.post = 0
  ELSE IF x < q[1].t /\ c.pre = 1 THEN q[1].t < q[2].t
  ELSE IF x >= q[N].t /\ c.post = 1 THEN q[N - 1].t < q[N].t
  ELSE Plain(c, x, two)
Eval(a) == Defined(st.c[a.i], a.x, FALSE) /\ Set(a, st, Value(st.c[a.i], a.x))
(* the slower evaluation that solves the curve in both dimensions agrees *)
Eval2(a) == Defined(st.c[a.i], a.x, TRUE) /\ Set(a, st, Value(st.c[a.i], a.x))

(* Curves of one kind (step or linear) are merged into one multi-dimensional curve: it has a key at   *)
(* every time where one of them has, and the values of each of them at every time. A missing or empty *)
(* curve contributes a default value.                                                                 *)
Flat(c, x) == Value([c EXCEPT !.pre = 0, !.post = 0], x)
Distinct(q) == \A j \in 1..(Len(q) - 1) : q[j].t < q[j + 1].t
AllTimes == UNION {{Keys(st, i)[j].t : j \in 1..Len(Keys(st, i))} : i \in C}
Merge(a) == LET ts == AllTimes
                hi == CHOOSE t \in ts : \A u \in ts : u <= t
            IN /\ ts # {} /\ \A i \in C : st.c[i].pre = 0 /\ st.c[i].post = 0 /\ Distinct(Keys(st, i)) /\ \A j \in 1..Len(Keys(st, i)) : Keys(st, i)[j].k = a.k
               /\ Set(a, st, <<Cardinality(ts), [i \in C |-> IF Keys(st, i) = <<>> THEN K * 7 ELSE Value(st.c[i], a.x)]>>)

Step(a) ==
  \/ a.op = "Append" /\ Append1(a)
  \/ a.op = "Insert" /\ Insert(a)
  \/ a.op = "Delete" /\ Delete(a)
  \/ a.op = "DeleteOther" /\ DeleteOther(a)
  \/ a.op = "SetCount" /\ SetCount(a)
  \/ a.op = "SetInf" /\ SetInf(a)
  \/ a.op = "Convert" /\ Convert(a)
  \/ a.op = "Clone" /\ Clone(a)
  \/ a.op = "ClipAdd" /\ ClipAdd(a)
  \/ a.op = "ClipOffset" /\ ClipOffset(a)
  \/ a.op = "ClipSet" /\ ClipSet(a)
  \/ a.op = "Eval" /\ Eval(a)
  \/ a.op = "Eval2" /\ Eval2(a)
  \/ a.op = "Merge" /\ Merge(a)
Acts == [op : {"Append"}, i : C, v : Vals, k : Kinds] \cup [op : {"Insert"}, i : C, t : Times, v : Vals, k : Kinds]
        \cup [op : {"Delete"}, i : C, j : 1..MaxKeys] \cup [op : {"DeleteOther"}, i : C]
        \cup [op : {"SetCount"}, i : C, n : 0..MaxKeys, k : Kinds] \cup [op : {"SetInf"}, i : C, pre : Infs, post : Infs]
        \cup [op : {"Convert"}, i : C, dt : Shifts, dv : {-24, 0, 24}] \cup [op : {"Clone"}, i : C, j : C]
        \cup [op : {"ClipAdd"}, i : C, j : Clips] \cup [op : {"ClipSet"}, i : C, j : 0..NClip] \cup [op : {"ClipOffset"}, i : C, j : Clips, o : Shifts]
        \cup [op : {"Eval", "Eval2"}, i : C, x : Xs] \cup [op : {"Merge"}, k : {1, 2} \cap Kinds, x : Xs]
Obs(s) == [i \in C |-> <<[j \in 1..Len(s.c[i].k) |-> <<s.c[i].k[j].t, s.c[i].k[j].v, s.c[i].k[j].k>>], s.c[i].pre, s.c[i].post, s.c[i].clips>>]
-----------------------------------------------------------------------------
Sorted == \A i \in C : \A j \in 1..(Len(Keys(st, i)) - 1) : Keys(st, i)[j].t <= Keys(st, i)[j + 1].t
(* a curve goes through its keys, and repeats or extends its shape outside of them *)
ThroughKeys == \A i \in C : LET q == Keys(st, i) IN \A j \in 1..Len(q) :
                  (IF j < Len(q) THEN q[j].t < q[j + 1].t ELSE TRUE) /\ Defined(st.c[i], q[j].t, FALSE) => Value(st.c[i], q[j].t) = K * q[j].v
Periodic == \A i \in C : LET c == st.c[i] q == c.k IN
               Len(q) > 1 /\ c.post \in {2, 3, 4} /\ q[1].t < q[Len(q)].t =>
               LET s == q[Len(q)].t - q[1].t IN \A x \in Xs : x > q[Len(q)].t /\ Defined(c, x, FALSE) =>
                   CASE c.post = 2 -> Value(c, x + s) = Value(c, x)
                     [] c.post = 3 -> Value(c, x + s) = Value(c, x) + K * (q[Len(q)].v - q[1].v)
                     [] OTHER -> Value(c, x + 2 * s) = Value(c, x)
=============================================================================
