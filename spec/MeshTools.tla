------------------------------ MODULE MeshTools -------------------------------
(* The geometry tools, at the level of what is drawn: each polygons set is a list of faces, each face *)
(* a list of corners, each corner the data values that its inputs give it.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS Off,      \* offset of each input (input 1 is the position, 2 the normal, 3 the texture coordinate)
          NVal,     \* values per source
          NSet, MaxFaces, MaxCorners, Degrees, Tags, Prims, Fits, Reverses, Packs, Holes
VARIABLES st, act
(* st.sets : [k: primitive type (0 polygons, 1 fans, 2 strips, 3 lines), f: faces]; a face: [h: hole?, c: corners] *)
(* st.sign : 1 or -1: the direction of the normals                                                      *)
(* st.raw  : no tool has rewritten the sources ; st.new: the mesh is still being built                   *)
(* st.iso  : a set has been isolated with sources of its own: the mesh no longer has one index buffer  *)
Init == st = [sets |-> <<>>, sign |-> 1, raw |-> TRUE, new |-> TRUE, iso |-> FALSE] /\ act = [a |-> [op |-> "init"], r |-> "init"]

RECURSIVE Flat(_), Chunks(_, _, _), Firsts(_, _), Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Flat(fs) == IF fs = <<>> THEN <<>> ELSE fs[1].c \o Flat(Tail(fs))
In(x, q) == \E i \in 1..Len(q) : q[i] = x
MinOf(T) == CHOOSE x \in T : \A y \in T : x <= y
Pos(x, q) == MinOf({i \in 1..Len(q) : q[i] = x})
Firsts(q, acc) == IF q = <<>> THEN acc ELSE Firsts(Tail(q), IF In(q[1], acc) THEN acc ELSE Append(acc, q[1]))

To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]

(* ---- building ---- *)
Index(t, j, o) == IF o = 0 THEN (t + j) % NVal ELSE IF o = 1 THEN (t * j) % NVal ELSE (t + (j \div 2)) % NVal
Corner(t, j) == [i \in 1..Len(Off) |-> Index(t, j, Off[i])]
AddSet(a) == Len(st.sets) < NSet /\ st.new /\ To([st EXCEPT !.sets = Append(@, [k |-> a.k, f |-> <<>>])], a, 0)
AddFace(a) == a.p <= Len(st.sets) /\ st.new /\ Len(st.sets[a.p].f) < MaxFaces
  /\ Len(Flat(st.sets[a.p].f)) + a.d <= MaxCorners
  /\ (a.h => st.sets[a.p].f # <<>> /\ st.sets[a.p].k = 0)
  /\ To([st EXCEPT !.sets[a.p].f = Append(@, [h |-> a.h, c |-> [j \in 1..a.d |-> Corner(a.t, j)]])], a, 0)

(* ---- tools ---- *)
Tri(f, k) == [n \in 1..(Len(f.c) - 2) |->
   [h |-> FALSE, c |-> IF k = 2 THEN IF n % 2 = 1 THEN <<f.c[n], f.c[n + 1], f.c[n + 2]>> ELSE <<f.c[n], f.c[n + 2], f.c[n + 1]>>
                       ELSE <<f.c[1], f.c[n + 1], f.c[n + 2]>>]]
RECURSIVE Tris(_, _)
Tris(fs, k) == IF fs = <<>> THEN <<>> ELSE (IF fs[1].h \/ Len(fs[1].c) < 3 THEN <<>> ELSE Tri(fs[1], k)) \o Tris(Tail(fs), k)
TriSet(s) == IF s.k = 3 THEN s ELSE [k |-> 0, f |-> Tris(s.f, s.k)]
Triangulate(a) == a.p <= Len(st.sets)
  /\ To([st EXCEPT !.new = FALSE, !.sets = [i \in DOMAIN @ |-> IF a.p \in {0, i} THEN TriSet(@[i]) ELSE @[i]]], a, 0)

(* one index per corner: two corners of a set get the same index exactly when they have the same values *)
Number(s) == LET q == Flat(s.f) u == Firsts(q, <<>>) IN [i \in 1..Len(q) |-> Pos(q[i], u)]
RECURSIVE Base(_, _)
Base(sets, i) == IF i = 1 THEN 0 ELSE Base(sets, i - 1) + Len(Firsts(Flat(sets[i - 1].f), <<>>))
(* the translation map: where each vertex position went (as the number of the position and of the corners it became) *)
Went(sets, ps) == [v \in 1..NVal |-> LET S == UNION {{<<i, Number(sets[i])[j]>> : j \in {x \in 1..Len(Flat(sets[i].f)) : Flat(sets[i].f)[x][1] = v - 1}} : i \in ps} IN Cardinality(S)]
UniqueR(a) == LET ps == IF a.p = 0 THEN 1..Len(st.sets) ELSE {a.p} IN
   [idx |-> [i \in 1..Len(st.sets) |-> IF i \in ps THEN Number(st.sets[i]) ELSE <<>>], went |-> Went(st.sets, ps)]
Unique(a) == st.sets # <<>> /\ a.p <= Len(st.sets) /\ (a.p = 0 => ~st.iso)
  /\ To([st EXCEPT !.raw = FALSE, !.new = FALSE, !.iso = a.p # 0], a, IF st.raw THEN UniqueR(a) ELSE [UniqueR(a) EXCEPT !.went = <<>>])
(* the same numbering, without changing the mesh *)
Number2(a) == st.raw /\ st.sets # <<>> /\ a.p <= Len(st.sets) /\ To(st, a, UniqueR(a))

(* no set keeps more than m corners; the faces that do not fit move, in order, to new sets at the end *)
Chunks(fs, cur, m) == IF fs = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
                      ELSE IF Len(Flat(cur)) + Len(fs[1].c) > m THEN <<cur>> \o Chunks(Tail(fs), <<fs[1]>>, m)
                      ELSE Chunks(Tail(fs), Append(cur, fs[1]), m)
RECURSIVE Extra(_, _, _)
Extra(sets, i, m) == IF i > Len(sets) THEN <<>>
  ELSE LET ch == Chunks(sets[i].f, <<>>, m) IN
       (IF Len(ch) <= 1 THEN <<>> ELSE [n \in 1..(Len(ch) - 1) |-> [k |-> sets[i].k, f |-> ch[n + 1]]]) \o Extra(sets, i + 1, m)
Fit(a) == (\A i \in 1..Len(st.sets) : \A n \in 1..Len(st.sets[i].f) : ~st.sets[i].f[n].h /\ Len(st.sets[i].f[n].c) <= a.m)
  /\ Len(st.sets) + Len(Extra(st.sets, 1, a.m)) <= NSet + 4
  /\ To([st EXCEPT !.new = FALSE, !.sets = [i \in DOMAIN @ |-> LET ch == Chunks(@[i].f, <<>>, a.m) IN IF ch = <<>> THEN @[i] ELSE [@[i] EXCEPT !.f = ch[1]]]
                     \o Extra(@, 1, a.m)], a, 0)
Reverse(a) == To([st EXCEPT !.sign = -@, !.new = FALSE], a, 0)

(* packing: consume indices until the index or the vertex budget is used up *)
RECURSIVE PackR(_, _, _, _, _)
PackR(q, maxI, maxV, seen, out) ==
  IF Len(out) >= maxI \/ Len(seen) >= maxV THEN [n |-> Len(out), v |-> Len(seen), out |-> out]
  ELSE LET x == q[Len(out) + 1] s2 == IF In(x, seen) THEN seen ELSE Append(seen, x)
       IN PackR(q, maxI, maxV, s2, Append(out, Pos(x, s2) - 1))
Pack(a) == st.raw /\ a.p <= Len(st.sets) /\ st.sets[a.p].f # <<>> /\ a.n <= Len(Flat(st.sets[a.p].f))
  /\ LET q == Flat(st.sets[a.p].f) IN To(st, a, PackR([i \in 1..Len(q) |-> q[i][1]], a.n, a.v, <<>>, <<>>))

Obs(s) == [sign |-> s.sign, sets |-> s.sets,
           total |-> <<Sum([i \in 1..Len(s.sets) |-> Len(SelectSeq(s.sets[i].f, LAMBDA f : ~f.h))]), Sum([i \in 1..Len(s.sets) |-> Len(Flat(s.sets[i].f))])>>]
Clone(a) == To(st, a, Obs(st).sets)

Step(a) ==
  \/ a.op = "AddSet" /\ AddSet(a)
  \/ a.op = "AddFace" /\ AddFace(a)
  \/ a.op = "Triangulate" /\ Triangulate(a)
  \/ a.op = "Unique" /\ Unique(a)
  \/ a.op = "Number" /\ Number2(a)
  \/ a.op = "Fit" /\ Fit(a)
  \/ a.op = "Reverse" /\ Reverse(a)
  \/ a.op = "Pack" /\ Pack(a)
  \/ a.op = "Clone" /\ Clone(a)
Acts == [op : {"AddSet"}, k : Prims]
   \cup [op : {"AddFace"}, p : 1..NSet, d : Degrees, t : Tags, h : Holes]
   \cup [op : {"Triangulate", "Unique", "Number"}, p : 0..NSet]
   \cup [op : {"Fit"}, m : Fits]
   \cup [op : {"Clone"}]
   \cup [op : {"Reverse"}, x : Reverses]
   \cup [op : {"Pack"}, p : 1..NSet, n : Packs, v : 1..3]
-----------------------------------------------------------------------------
Corners(s) == UNION {{Flat(s.sets[i].f)[j] : j \in 1..Len(Flat(s.sets[i].f))} : i \in 1..Len(s.sets)}
(* no tool invents a corner, and none but triangulation (which drops what is no triangle) loses or duplicates one *)
NothingInvented == act'.a.op \notin {"AddFace"} => Corners(st') \subseteq Corners(st)
Kept == act'.a.op \in {"Unique", "Number", "Fit", "Reverse", "Pack", "Clone"} =>
   /\ Corners(st') = Corners(st)
   /\ Sum([i \in 1..Len(st'.sets) |-> Len(Flat(st'.sets[i].f))]) = Sum([i \in 1..Len(st.sets) |-> Len(Flat(st.sets[i].f))])
Fits2 == act'.a.op = "Fit" => \A i \in 1..Len(st'.sets) : Len(Flat(st'.sets[i].f)) <= act'.a.m
Triangles == act'.a.op = "Triangulate" /\ act'.a.p = 0 => \A i \in 1..Len(st'.sets) : st'.sets[i].k # 3 => st'.sets[i].k = 0 /\ \A n \in 1..Len(st'.sets[i].f) : Len(st'.sets[i].f[n].c) = 3 /\ ~st'.sets[i].f[n].h
=============================================================================
