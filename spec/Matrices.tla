------------------------------- MODULE Matrices -------------------------------
(* Square integer matrices of dimension 3 or 4, m[row][column]. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Dim, Gens, MaxE, MaxD, Vecs, Factors
VARIABLES st, act
R == 1..Dim
Unit == [i \in R |-> [j \in R |-> IF i = j THEN 1 ELSE 0]]
Of(v) == [i \in R |-> [j \in R |-> v[Dim * (i - 1) + j]]]
Init == st = [m |-> Unit, d |-> 0] /\ act = [a |-> [op |-> "init"], r |-> "init"]
SumOf(f) == FoldLeft(LAMBDA x, y : x + y, 0, f)
Mul(a, b) == [i \in R |-> [j \in R |-> SumOf([k \in R |-> a[i][k] * b[k][j]])]]
Tr(a) == [i \in R |-> [j \in R |-> a[j][i]]]
Minor(a, i, j) == [x \in 1..(Len(a) - 1) |-> [y \in 1..(Len(a) - 1) |-> a[IF x < i THEN x ELSE x + 1][IF y < j THEN y ELSE y + 1]]]
RECURSIVE Det(_)
Det(a) == IF Len(a) = 1 THEN a[1][1] ELSE SumOf([j \in 1..Len(a) |-> (IF j % 2 = 1 THEN 1 ELSE -1) * a[1][j] * Det(Minor(a, 1, j))])
(* the inverse times the determinant *)
Adj(a) == [i \in R |-> [j \in R |-> (IF (i + j) % 2 = 0 THEN 1 ELSE -1) * Det(Minor(a, j, i))]]
Small(m) == \A i \in R, j \in R : m[i][j] <= MaxE /\ m[i][j] >= -MaxE
Flat(m) == FlattenSeq(m)
MatVec(m, v) == [i \in R |-> SumOf([k \in R |-> m[i][k] * v[k]])]
To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]
Go(m, a, r) == Small(m) /\ st.d < MaxD /\ To([m |-> m, d |-> st.d + 1], a, r)
Step(a) ==
  \/ a.op = "Set" /\ To([m |-> Of(a.v), d |-> 0], a, 0)
  \/ a.op = "Mul" /\ Go(Mul(st.m, Of(a.v)), a, 0)
  \/ a.op = "PreMul" /\ Go(Mul(Of(a.v), st.m), a, 0)
  \/ a.op = "Transpose" /\ To([st EXCEPT !.m = Tr(@)], a, 0)
  \/ a.op = "Invert" /\ Det(st.m) \in {1, -1} /\ Go([i \in R |-> [j \in R |-> Det(st.m) * Adj(st.m)[i][j]]], a, 0)
  \/ a.op = "Inverse" /\ Det(st.m) \notin {0} /\ To(st, a, Flat(Adj(st.m)))
  \/ a.op = "Det" /\ Dim = 4 /\ To(st, a, Det(st.m))
  \/ a.op = "Scale" /\ Dim = 4 /\ Go([i \in R |-> [j \in R |-> a.f * st.m[i][j]]], a, 0)
  \/ a.op = "Vec" /\ Dim = 4 /\ To(st, a, LET v == MatVec(st.m, a.p) p == MatVec(st.m, [a.p EXCEPT ![4] = 1]) d == MatVec(st.m, [a.p EXCEPT ![4] = 0]) IN
                                    <<v, v, SubSeq(p, 1, 3), SubSeq(d, 1, 3)>>)
  \/ a.op = "Same" /\ To(st, a, st.m = Of(a.v))
Obs(s) == Flat(s.m)
Acts == [op : {"Set", "Mul", "PreMul", "Same"}, v : Gens] \cup [op : {"Transpose", "Invert", "Inverse", "Det"}] \cup [op : {"Scale"}, f : Factors] \cup [op : {"Vec"}, p : Vecs]
-----------------------------------------------------------------------------
Inverts == Mul(st.m, Adj(st.m)) = [i \in R |-> [j \in R |-> IF i = j THEN Det(st.m) ELSE 0]]
SameDet == Det(Tr(st.m)) = Det(st.m)
=============================================================================
