--------------------------------- MODULE Bounds ---------------------------------
(* A bounding box with integer corners and a bounding sphere whose centre and radius lie on the X axis *)
(* (in units of 1/U), both growing by what they include.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Points, Boxes, Lines, Balls, Moves, U, MaxR
VARIABLES st, act
(* st.box : <<>> or <<min, max>> ; st.in : points included since it was empty ; st.ball : <<>> or <<centre, radius>> *)
I3 == 1..3
Init == st = [box |-> <<>>, ball |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]
Lo(x, y) == IF x < y THEN x ELSE y
Hi(x, y) == IF x < y THEN y ELSE x
AbsOf(x) == IF x < 0 THEN -x ELSE x
Hull(b, c) == IF b = <<>> THEN c ELSE IF c = <<>> THEN b ELSE <<[i \in I3 |-> Lo(b[1][i], c[1][i])], [i \in I3 |-> Hi(b[2][i], c[2][i])]>>
Inside(b, p) == b # <<>> /\ \A i \in I3 : b[1][i] <= p[i] /\ p[i] <= b[2][i]
Meet(b, c) == b # <<>> /\ c # <<>> /\ \A i \in I3 : b[1][i] <= c[2][i] /\ c[1][i] <= b[2][i]
\* twice the centre of the overlap
Middle(b, c) == [i \in I3 |-> Hi(b[1][i], c[1][i]) + Lo(b[2][i], c[2][i])]
Corners(b) == {<<b[i][1], b[j][2], b[k][3]>> : i \in 1..2, j \in 1..2, k \in 1..2}
(* m: twelve numbers, the rows of an affine matrix *)
Moved(m, p) == [i \in I3 |-> m[4 * i - 3] * p[1] + m[4 * i - 2] * p[2] + m[4 * i - 1] * p[3] + m[4 * i]]
Around(S) == LET pick(i, up) == CHOOSE x \in {p[i] : p \in S} : \A y \in {p[i] : p \in S} : IF up THEN y <= x ELSE y >= x
             IN <<[i \in I3 |-> pick(i, FALSE)], [i \in I3 |-> pick(i, TRUE)]>>
(* the smallest ball around two balls *)
Join(b, c) == IF b = <<>> THEN c ELSE IF c = <<>> THEN b
  ELSE LET d == AbsOf(b[1] - c[1]) IN
       IF d + c[2] <= b[2] THEN b ELSE IF d + b[2] <= c[2] THEN c
       ELSE LET lo == Lo(b[1] - b[2], c[1] - c[2]) hi == Hi(b[1] + b[2], c[1] + c[2]) IN <<(lo + hi) \div 2, (hi - lo) \div 2>>
Even(b, c) == IF b = <<>> \/ c = <<>> THEN TRUE ELSE LET lo == Lo(b[1] - b[2], c[1] - c[2]) hi == Hi(b[1] + b[2], c[1] + c[2]) IN (lo + hi) % 2 = 0
To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]
Sq(p) == p[1] * p[1] + p[2] * p[2] + p[3] * p[3]
Dist2(c, p) == Sq(<<p[1] * U - c, p[2] * U, p[3] * U>>)
Clamp(x, lo, hi) == IF x < lo THEN lo ELSE IF x > hi THEN hi ELSE x

Step(a) == LET b == st.box s == st.ball IN
  \/ a.op = "BoxPoint" /\ To([st EXCEPT !.box = Hull(b, <<a.p, a.p>>)], a, 0)
  \/ a.op = "BoxBox" /\ To([st EXCEPT !.box = Hull(b, a.b)], a, 0)
  \/ a.op = "BoxSet" /\ To([st EXCEPT !.box = a.b], a, 0)
  \/ a.op = "BoxReset" /\ To([st EXCEPT !.box = <<>>], a, 0)
  \/ a.op = "BoxMove" /\ b # <<>> /\ To([st EXCEPT !.box = Around({Moved(a.m, p) : p \in Corners(b)})], a, 0)
  \/ a.op = "BoxHas" /\ To(st, a, Inside(b, a.p))
  \/ a.op = "BoxMeets" /\ To(st, a, <<Meet(b, a.b), Meet(b, a.b), IF Meet(b, a.b) THEN Middle(b, a.b) ELSE <<>> >>)
  \/ a.op = "BoxSame" /\ To(st, a, b = a.b)
  \/ a.op = "BallPoint" /\ To([st EXCEPT !.ball = IF s = <<>> THEN <<a.x, 0>> ELSE IF AbsOf(s[1] - a.x) > s[2] THEN <<s[1], AbsOf(s[1] - a.x)>> ELSE s], a, 0)
  \/ a.op = "BallBall" /\ Even(s, a.c) /\ (IF s = <<>> \/ a.c = <<>> THEN TRUE ELSE Join(s, a.c)[2] <= MaxR) /\ To([st EXCEPT !.ball = Join(s, a.c)], a, 0)
  \/ a.op = "BallSet" /\ To([st EXCEPT !.ball = a.c], a, 0)
  \* a box without extent along Y and Z
  \/ a.op = "BallBox" /\ (IF s = <<>> /\ a.l # <<>> THEN (a.l[1] + a.l[2]) % 2 = 0 ELSE TRUE)
       /\ To([st EXCEPT !.ball = IF a.l = <<>> THEN s ELSE IF s = <<>> THEN <<(a.l[1] + a.l[2]) \div 2, (a.l[2] - a.l[1]) \div 2>>
                                  ELSE <<s[1], Hi(s[2], Hi(AbsOf(s[1] - a.l[1]), AbsOf(s[1] - a.l[2])))>>], a, 0)
  \/ a.op = "BallReset" /\ To([st EXCEPT !.ball = <<>>], a, 0)
  \* scaled by f (negative: mirrored), then moved by t along X
  \/ a.op = "BallMove" /\ s # <<>> /\ AbsOf(a.f) * s[2] <= MaxR /\ AbsOf(a.f * s[1] + a.t) <= MaxR /\ To([st EXCEPT !.ball = <<a.f * s[1] + a.t, AbsOf(a.f) * s[2]>>], a, 0)
  \/ a.op = "BallHas" /\ To(st, a, s # <<>> /\ Dist2(s[1], a.p) <= s[2] * s[2])
  \* balls that touch in one point are left out
  \/ a.op = "BallMeets" /\ (IF s # <<>> /\ a.c # <<>> THEN AbsOf(s[1] - a.c[1]) # s[2] + a.c[2] ELSE TRUE)
       /\ LET yes == s # <<>> /\ a.c # <<>> /\ AbsOf(s[1] - a.c[1]) < s[2] + a.c[2] IN
          To(st, a, <<yes, yes, IF yes THEN Hi(s[1] - s[2], a.c[1] - a.c[2]) + Lo(s[1] + s[2], a.c[1] + a.c[2]) ELSE 0>>)
  \/ a.op = "Across" /\ LET near(q) == IF s = <<>> \/ q = <<>> THEN 0 ELSE Sq(<<Clamp(s[1], q[1][1] * U, q[2][1] * U) - s[1], Clamp(0, q[1][2] * U, q[2][2] * U), Clamp(0, q[1][3] * U, q[2][3] * U)>>) IN
       /\ (IF s # <<>> /\ a.b # <<>> THEN near(a.b) # s[2] * s[2] ELSE TRUE)
       /\ To(st, a, s # <<>> /\ a.b # <<>> /\ near(a.b) < s[2] * s[2])
Obs(s) == [box |-> s.box, ball |-> s.ball]
Acts == [op : {"BoxPoint", "BoxHas", "BallHas"}, p : Points] \cup [op : {"BoxBox", "BoxMeets", "BoxSet", "BoxSame", "Across"}, b : Boxes] \cup [op : {"BoxReset", "BallReset"}]
   \cup [op : {"BoxMove"}, m : Moves] \cup [op : {"BallPoint"}, x : {l[1] : l \in Lines \ {<<>>}}] \cup [op : {"BallBox"}, l : Lines] \cup [op : {"BallBall", "BallMeets", "BallSet"}, c : Balls]
   \cup [op : {"BallMove"}, f : {-1, 1, 2}, t : {0, U, -2 * U}]
-----------------------------------------------------------------------------
Grows == \A p \in Points : Inside(st.box, p) /\ act'.a.op \in {"BoxPoint", "BoxBox"} => Inside(st'.box, p)
Included ==
  /\ act'.a.op = "BoxPoint" => Inside(st'.box, act'.a.p)
  /\ act'.a.op = "BallPoint" => AbsOf(st'.ball[1] - act'.a.x) <= st'.ball[2]
  /\ act'.a.op = "BallBall" => \A c \in {st.ball, act'.a.c} \ {<<>>} : AbsOf(st'.ball[1] - c[1]) + c[2] <= st'.ball[2]
  /\ act'.a.op = "BoxMove" => \A p \in Corners(st.box) : Inside(st'.box, Moved(act'.a.m, p))
=============================================================================
