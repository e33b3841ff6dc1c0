------------------------------ MODULE Transforms ------------------------------
(* Scene nodes in a hierarchy, each with an ordered stack of transforms: the local matrix is the     *)
(* product of the transforms from first to last, the world matrix goes through the parents.           *)
(* Every value is chosen so that all the matrices have integer entries.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NNode, MaxT, Pick, Subs
VARIABLES st, act
(* st.t[n] : the transforms of node n, as [k : kind, v : numbers, s : sub id] ; st.pa[n] : parent     *)
Nodes == 1..NNode
Init == st = [t |-> [n \in Nodes |-> <<>>], pa |-> [n \in Nodes |-> 0]] /\ act = [a |-> [op |-> "init"], r |-> "init"]

I3 == 1..3
I4 == 1..4
Mul(A, B) == [r \in I4 |-> [c \in I4 |-> A[r][1] * B[1][c] + A[r][2] * B[2][c] + A[r][3] * B[3][c] + A[r][4] * B[4][c]]]
Id == [r \in I4 |-> [c \in I4 |-> IF r = c THEN 1 ELSE 0]]
Affine(L, t) == [r \in I4 |-> [c \in I4 |-> IF r = 4 THEN (IF c = 4 THEN 1 ELSE 0) ELSE IF c = 4 THEN t[r] ELSE L[r][c]]]
Zero3 == <<0, 0, 0>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Minus(a, b) == <<a[1] - b[1], a[2] - b[2], a[3] - b[3]>>
Neg(a) == <<-a[1], -a[2], -a[3]>>
Root(n) == CHOOSE x \in 0..30 : x * x = n
Unit(a) == LET l == Root(Dot(a, a)) IN <<a[1] \div l, a[2] \div l, a[3] \div l>>
Skewed(a) == << <<0, -a[3], a[2]>>, <<a[3], 0, -a[1]>>, <<-a[2], a[1], 0>> >>
Rot(a, deg) == LET n == Dot(a, a) d == ((deg % 360) + 360) % 360 K == Skewed(a) IN
  [r \in I3 |-> [c \in I3 |->
     LET i == IF r = c THEN 1 ELSE 0 IN
     CASE d = 0 -> i
       [] d = 180 -> (2 * a[r] * a[c]) \div n - i
       [] d = 90 -> (a[r] * a[c]) \div n + K[r][c] \div Root(n)
       [] d = 270 -> (a[r] * a[c]) \div n - K[r][c] \div Root(n)
       [] d = 120 -> (a[r] * a[c] + K[r][c] - i) \div 2
       [] d = 240 -> (a[r] * a[c] - K[r][c] - i) \div 2]]
LookAt(e, t, u) == LET f == Unit(Minus(t, e)) x == Cross(f, u)
                       s == IF x # Zero3 THEN Unit(x) ELSE IF f[1] # 0 THEN <<0, 0, 1>> ELSE <<1, 0, 0>>
                       w == Cross(s, f)
                   IN Affine([r \in I3 |-> <<s[r], w[r], -f[r]>>], e)
Tan(d) == IF d = 45 THEN 1 ELSE IF d = -45 THEN -1 ELSE 0
Part(v, i) == SubSeq(v, i, i + 2)
M(x) == LET v == x.v IN
  CASE x.k = "translate" -> Affine([r \in I3 |-> [c \in I3 |-> IF r = c THEN 1 ELSE 0]], v)
    [] x.k = "scale" -> Affine([r \in I3 |-> [c \in I3 |-> IF r = c THEN v[r] ELSE 0]], Zero3)
    [] x.k = "rotate" -> Affine(Rot(Part(v, 1), v[4]), Zero3)
    [] x.k = "matrix" -> [r \in I4 |-> [c \in I4 |-> v[4 * (r - 1) + c]]]
    [] x.k = "lookat" -> LookAt(Part(v, 1), Part(v, 4), Part(v, 7))
    \* a point moves along the rotated axis as far as it lies along the other one
    [] x.k = "skew" -> Affine([r \in I3 |-> [c \in I3 |-> (IF r = c THEN 1 ELSE 0) + Tan(v[7]) * Part(v, 1)[r] * Part(v, 4)[c]]], Zero3)
Default(k) == CASE k = "translate" -> <<0, 0, 0>> [] k = "scale" -> <<1, 1, 1>> [] k = "rotate" -> <<1, 0, 0, 0>>
                [] k = "matrix" -> <<1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1>> [] k = "lookat" -> <<0, 0, 0, 0, 0, -1, 0, 1, 0>>
                [] k = "skew" -> <<1, 0, 0, 0, 1, 0, 0>>
Local(s, n) == FoldLeft(LAMBDA m, x : Mul(m, M(x)), Id, s.t[n])
RECURSIVE World(_, _)
World(s, n) == IF s.pa[n] = 0 THEN Local(s, n) ELSE Mul(World(s, s.pa[n]), Local(s, n))
RECURSIVE Above(_, _)
Above(s, n) == IF s.pa[n] = 0 THEN {n} ELSE {n} \cup Above(s, s.pa[n])
Apply(m, p) == [r \in I3 |-> m[r][1] * p[1] + m[r][2] * p[2] + m[r][3] * p[3] + m[r][4]]
Flat(m) == FlattenSeq(m)
(* what a transform undoes *)
Undoes(x, y) == x.k = y.k /\ ((x.k = "translate" /\ x.v = Neg(y.v))
                            \/ (x.k = "rotate" /\ ((Part(x.v, 1) = Part(y.v, 1) /\ x.v[4] = -y.v[4]) \/ (Part(x.v, 1) = Neg(Part(y.v, 1)) /\ x.v[4] = y.v[4]))))

Values ==
  [translate |-> << <<1, 0, 0>>, <<-1, 0, 0>>, <<2, -3, 5>>, <<-2, 3, -5>>, <<0, 4, 0>> >>,
   scale |-> << <<2, 1, 1>>, <<1, -1, 3>>, <<0, 1, 2>>, <<-1, -1, -1>> >>,
   rotate |-> << <<0, 0, 1, 90>>, <<1, 0, 0, -90>>, <<0, 0, -1, 90>>, <<0, 2, 0, 270>>, <<1, 1, 1, 120>>, <<1, 1, 0, 180>>, <<-1, 1, -1, 240>>, <<0, 0, 1, -90>>, <<0, 1, 0, 450>> >>,
   matrix |-> << <<1, 2, 0, 4, 0, 1, 3, -1, 0, 0, 1, 2, 0, 0, 0, 1>>, <<0, -1, 0, 3, 1, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1>>, <<1, 0, 0, 0, 0, 2, 0, 0, 0, 0, 1, 0, 1, 0, 0, 1>> >>,
   lookat |-> << <<1, 2, 3, 1, 2, -4, 0, 1, 0>>, <<0, 0, 0, 5, 0, 0, 0, 0, 1>>, <<1, 0, 0, 1, 7, 0, 0, 1, 0>>, <<0, 0, 2, -3, 0, 2, 1, 0, 0>>, <<0, 1, 0, 0, -1, 0, 0, 3, 1>>, <<0, 0, 2, 3, 0, 2, -1, 0, 0>>, <<0, 0, 0, 0, 0, 3, 0, 2, 4>> >>,
   skew |-> << <<1, 0, 0, 0, 1, 0, 45>>, <<0, 0, 1, 1, 0, 0, -45>>, <<0, 1, 0, 0, 0, 1, 0>>, <<0, 1, 0, 1, 0, 0, 45>> >>]
Fits(k) == {i \in 1..Len(Values[k]) : i \in Pick[k]}
Kinds == {k \in DOMAIN Pick : Fits(k) # {}}
To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]
At(n, i) == st.t[n][i]

Step(a) ==
  \/ a.op = "Add" /\ Len(st.t[a.n]) < MaxT
       /\ To([st EXCEPT !.t[a.n] = LET i == IF a.i > Len(@) THEN Len(@) + 1 ELSE a.i IN InsertAt(@, i, [k |-> a.k, v |-> a.v, s |-> ""])], a, Flat(M([k |-> a.k, v |-> a.v])))
  \/ a.op = "AddPlain" /\ Len(st.t[a.n]) < MaxT /\ To([st EXCEPT !.t[a.n] = Append(@, [k |-> a.k, v |-> Default(a.k), s |-> ""])], a, 0)
  \/ a.op = "Set" /\ a.i <= Len(st.t[a.n]) /\ At(a.n, a.i).k = a.k /\ To([st EXCEPT !.t[a.n][a.i].v = a.v], a, 0)
  \/ a.op = "Copy" /\ a.i <= Len(st.t[a.n]) /\ a.j <= Len(st.t[a.m])
       /\ To(IF At(a.n, a.i).k = At(a.m, a.j).k THEN [st EXCEPT !.t[a.m][a.j].v = At(a.n, a.i).v] ELSE st, a, 0)
  \/ a.op = "SetSub" /\ a.i <= Len(st.t[a.n]) /\ To([st EXCEPT !.t[a.n][a.i].s = a.s], a, 0)
  \/ a.op = "Remove" /\ a.i <= Len(st.t[a.n]) /\ To([st EXCEPT !.t[a.n] = RemoveAt(@, a.i)], a, 0)
  \/ a.op = "Attach" /\ st.pa[a.n] = 0 /\ a.n \notin Above(st, a.m) /\ To([st EXCEPT !.pa[a.n] = a.m], a, 1)
  \/ a.op = "Detach" /\ st.pa[a.n] # 0 /\ To([st EXCEPT !.pa[a.n] = 0], a, 0)
  \/ a.op = "Inverse" /\ a.i <= Len(st.t[a.n]) /\ a.j <= Len(st.t[a.m]) /\ To(st, a, Undoes(At(a.n, a.i), At(a.m, a.j)))
  \/ a.op = "Point" /\ To(st, a, <<Apply(World(st, a.n), a.p), Minus(Apply(World(st, a.n), a.p), Apply(World(st, a.n), Zero3))>>)
  \/ a.op = "Clone" /\ To(st, a, Flat(Local(st, a.n)))
  \/ a.op = "Orient" /\ a.i <= Len(st.t[a.n]) /\ At(a.n, a.i).k = "rotate" /\ Dot(Part(At(a.n, a.i).v, 1), Part(At(a.n, a.i).v, 1)) = 1 /\ To(st, a, Flat(M(At(a.n, a.i))))
  \/ a.op = "Again" /\ To(st, a, 0)
Obs(s) == [t |-> s.t, pa |-> s.pa, local |-> [n \in DOMAIN s.t |-> Flat(Local(s, n))], world |-> [n \in DOMAIN s.t |-> Flat(World(s, n))]]
Acts == UNION {UNION {[op : {"Add"}, n : Nodes, k : {k}, v : {Values[k][i]}, i : 1..(MaxT + 1)] : i \in Fits(k)} : k \in Kinds}
   \cup [op : {"AddPlain"}, n : Nodes, k : Kinds]
   \cup UNION {UNION {[op : {"Set"}, n : Nodes, k : {k}, v : {Values[k][i]}, i : 1..MaxT] : i \in Fits(k)} : k \in Kinds}
   \cup [op : {"Copy", "Inverse"}, n : Nodes, i : 1..MaxT, m : Nodes, j : 1..MaxT] \cup [op : {"Remove", "Orient"}, n : Nodes, i : 1..MaxT]
   \cup [op : {"SetSub"}, n : Nodes, i : 1..MaxT, s : Subs]
   \cup [op : {"Attach"}, n : Nodes, m : Nodes] \cup [op : {"Detach", "Clone"}, n : Nodes] \cup [op : {"Again"}]
   \cup [op : {"Point"}, n : Nodes, p : {<<1, 0, 0>>, <<2, -1, 3>>}]
-----------------------------------------------------------------------------
Det3(m) == m[1][1] * (m[2][2] * m[3][3] - m[2][3] * m[3][2]) - m[1][2] * (m[2][1] * m[3][3] - m[2][3] * m[3][1]) + m[1][3] * (m[2][1] * m[3][2] - m[2][2] * m[3][1])
Rigid == \A n \in Nodes : \A i \in 1..Len(st.t[n]) : LET x == At(n, i) IN
            /\ x.k \in {"rotate", "lookat", "translate", "skew"} => Det3(M(x)) = 1
            /\ x.k \in {"rotate", "lookat"} => \A r \in I3, c \in I3 : M(x)[r][1] * M(x)[c][1] + M(x)[r][2] * M(x)[c][2] + M(x)[r][3] * M(x)[c][3] = IF r = c THEN 1 ELSE 0
UndoneByInverse == \A n \in Nodes, m \in Nodes : \A i \in 1..Len(st.t[n]), j \in 1..Len(st.t[m]) : Undoes(At(n, i), At(m, j)) => Mul(M(At(n, i)), M(At(m, j))) = Id
=============================================================================
