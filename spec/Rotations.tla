------------------------------- MODULE Rotations -------------------------------
(* Rotations as quaternions, matrices, axes and angles, and Euler angles. A quaternion is an integer  *)
(* vector <<x, y, z, w>> without common factor that stands for itself divided by its length; with N   *)
(* the square of the length, N times its rotation matrix has integer entries.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Gens, MaxN, Points, Scales, Moves, Quarters
VARIABLES st, act
I3 == 1..3
I4 == 1..4
Init == st = [q |-> <<0, 0, 0, 1>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]
AbsOf(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GcdOf(_, _)
GcdOf(x, y) == IF y = 0 THEN x ELSE GcdOf(y, x % y)
Prim(v) == LET g == GcdOf(GcdOf(AbsOf(v[1]), AbsOf(v[2])), GcdOf(AbsOf(v[3]), AbsOf(v[4]))) IN [i \in I4 |-> (IF v[i] < 0 THEN -1 ELSE 1) * (AbsOf(v[i]) \div g)]
N(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3] + v[4] * v[4]
(* the rotation of b after the rotation of a, as the library orders its products *)
Times(a, b) == Prim(<<b[4] * a[1] + b[1] * a[4] + b[2] * a[3] - b[3] * a[2],
                      b[4] * a[2] + b[2] * a[4] + b[3] * a[1] - b[1] * a[3],
                      b[4] * a[3] + b[3] * a[4] + b[1] * a[2] - b[2] * a[1],
                      b[4] * a[4] - b[1] * a[1] - b[2] * a[2] - b[3] * a[3]>>)
Conj(v) == <<-v[1], -v[2], -v[3], v[4]>>
NegOf(v) == [i \in I4 |-> -v[i]]
(* N times the rotation matrix, [row][column] *)
Rot(v) == LET x == v[1] y == v[2] z == v[3] w == v[4] IN
  << <<x * x + w * w - y * y - z * z, 2 * (x * y - z * w), 2 * (x * z + y * w)>>,
     <<2 * (x * y + z * w), y * y + w * w - x * x - z * z, 2 * (y * z - x * w)>>,
     <<2 * (x * z - y * w), 2 * (y * z + x * w), z * z + w * w - x * x - y * y>> >>
MatVec(m, p) == [r \in I3 |-> m[r][1] * p[1] + m[r][2] * p[2] + m[r][3] * p[3]]
Tr(m) == [r \in I3 |-> [c \in I3 |-> m[c][r]]]
MatMul(a, b) == [r \in I3 |-> [c \in I3 |-> a[r][1] * b[1][c] + a[r][2] * b[2][c] + a[r][3] * b[3][c]]]
Flat(m) == FlattenSeq(m)
Cos(k) == CASE k % 4 = 0 -> 1 [] k % 4 = 2 -> -1 [] OTHER -> 0
Sin(k) == CASE k % 4 = 1 -> 1 [] k % 4 = 3 -> -1 [] OTHER -> 0
RX(k) == << <<1, 0, 0>>, <<0, Cos(k), -Sin(k)>>, <<0, Sin(k), Cos(k)>> >>
RY(k) == << <<Cos(k), 0, Sin(k)>>, <<0, 1, 0>>, <<-Sin(k), 0, Cos(k)>> >>
RZ(k) == << <<Cos(k), -Sin(k), 0>>, <<Sin(k), Cos(k), 0>>, <<0, 0, 1>> >>
RXYZ(e) == MatMul(MatMul(RX(e[1]), RY(e[2])), RZ(e[3]))
(* the 3 x 4 part of a translation, a rotation (N times) and a scale *)
TRS(t, m, s, n) == [r \in I3 |-> <<m[r][1] * s[1], m[r][2] * s[2], m[r][3] * s[3], n * t[r]>>]
RootOf(n) == IF \E x \in 0..n : x * x = n THEN CHOOSE x \in 0..n : x * x = n ELSE -1
SignOf(x) == IF x < 0 THEN -1 ELSE 1

To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]
Step(a) == LET q == st.q n == N(q) IN
  \/ a.op = "Set" /\ To([q |-> a.v], a, 0)
  \/ a.op = "Mul" /\ N(Times(q, a.v)) <= MaxN /\ To([q |-> Times(q, a.v)], a, 0)
  \/ a.op = "PreMul" /\ N(Times(a.v, q)) <= MaxN /\ To([q |-> Times(a.v, q)], a, 0)
  \/ a.op = "Conj" /\ To([q |-> Conj(q)], a, 0)
  \* the product with a vector turns it the other way round
  \/ a.op = "Rotate" /\ To(st, a, <<MatVec(Tr(Rot(q)), a.p), MatVec(Rot(q), a.p)>>)
  \/ a.op = "Matrix" /\ To(st, a, <<Flat(Rot(q)), Flat(Rot(q))>>)
  \/ a.op = "AngleAxis" /\ To(st, a, <<Flat(Rot(q)), Flat(Rot(q)), TRUE>>)
  \/ a.op = "Euler" /\ To(st, a, <<Flat(Rot(q)), Flat(Rot(q))>>)
  \/ a.op = "EulerNear" /\ To(st, a, <<Flat(Rot(q)), Flat(Rot(q)), TRUE>>)
  \/ a.op = "FromEuler" /\ To(st, a, <<Flat(RXYZ(a.e)), Flat(RXYZ(a.e))>>)
  \/ a.op = "Slerp" /\ a.t \in {0, 2} /\ a.v # NegOf(q) /\ To(st, a, IF a.t = 0 THEN q ELSE a.v)
  \/ a.op = "Slerp" /\ a.t = 1 /\ a.v # NegOf(q) /\ RootOf(n * N(a.v)) > 0 /\ N(Prim([i \in I4 |-> q[i] * N(a.v) + a.v[i] * RootOf(n * N(a.v))])) <= 4 * MaxN
       /\ To(st, a, Prim([i \in I4 |-> q[i] * N(a.v) + a.v[i] * RootOf(n * N(a.v))]))
  \/ a.op = "Parts" /\ To(st, a, <<Flat(TRS(a.t, Rot(q), a.s, n)), [i \in I3 |-> AbsOf(a.s[i])], a.t, SignOf(a.s[1] * a.s[2] * a.s[3])>>)
  \/ a.op = "Compose" /\ To(st, a, Flat(TRS(a.t, RXYZ(a.e), [i \in I3 |-> a.s[i] * a.i], 1)))
Obs(s) == [q |-> s.q]
Acts == [op : {"Set", "Mul", "PreMul"}, v : Gens] \cup [op : {"Conj", "Matrix", "AngleAxis", "Euler"}] \cup [op : {"Rotate"}, p : Points]
   \cup [op : {"EulerNear", "FromEuler"}, e : Quarters \X Quarters \X Quarters] \cup [op : {"Slerp"}, v : Gens, t : 0..2]
   \cup [op : {"Parts"}, s : Scales, t : Moves] \cup [op : {"Compose"}, s : Scales, t : Moves, e : Quarters \X Quarters \X Quarters, i : {1, -1}]
-----------------------------------------------------------------------------
Orthogonal == LET m == Rot(st.q) n == N(st.q) IN MatMul(m, Tr(m)) = [r \in I3 |-> [c \in I3 |-> IF r = c THEN n * n ELSE 0]]
Antipodes == Rot(st.q) = Rot(NegOf(st.q))
Undone == Times(st.q, Conj(st.q)) = <<0, 0, 0, 1>>
=============================================================================
