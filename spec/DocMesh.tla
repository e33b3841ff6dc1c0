------------------------------ MODULE DocMesh ------------------------------
(* The geometries of a document through saving and loading: sources of every semantic, per-vertex or  *)
(* not, polygons sets of every primitive type with holes, inputs at offsets that share index lists,    *)
(* and their input set numbers and material semantics.                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NSrc, NSet, MaxFaces, MaxInputs, Degrees, Types, Kinds, Offsets, Groups, Seeds, Data, Mats, Named
VARIABLES st, act
(* st.src : sources in order, [t : semantic (0 unknown), v : per-vertex?, d : a variant of the data, n : named?]  *)
(* st.set : polygons sets in order, [k : primitive type (0 is polygons), m : material, fv, holes : as in  *)
(*          Mesh.tla, ins : [s : source, o : offset, g : set number], idx : [offset -> index list]]     *)
Init == st = [src |-> <<>>, set |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]
To(s, a, r) == st' = s /\ act' = [a |-> a, r |-> r]
In(x, q) == \E k \in 1..Len(q) : q[k] = x
Vertex(s) == SelectSeq([k \in 1..Len(s.src) |-> k], LAMBDA k : s.src[k].v = 1)
Used(s, i) == s.src[i].v = 1 \/ \E p \in 1..Len(s.set) : \E k \in 1..Len(s.set[p].ins) : s.set[p].ins[k].s = i
Offs(q) == {q.ins[k].o : k \in 1..Len(q.ins)}
(* the indices that the user gives to the corners of a new face *)
New(o, d, x) == [j \in 1..d |-> (x + (o + 1) * j) % 4]
Idx(q, o) == IF o \in DOMAIN q.idx THEN q.idx[o] ELSE <<>>

(* what is left after loading: the semantic of a source is that of its inputs, and the inputs of a set start with *)
(* those of the per-vertex sources, whose set numbers are those in the first set                                  *)
Group(s, i) == LET ins == s.set[1].ins IN ins[CHOOSE k \in 1..Len(ins) : ins[k].s = i].g
Loaded(s) == [src |-> [i \in 1..Len(s.src) |-> IF Used(s, i) THEN s.src[i] ELSE [s.src[i] EXCEPT !.t = 0]],
  set |-> [p \in 1..Len(s.set) |-> LET q == s.set[p] v == Vertex(s) IN
    [q EXCEPT !.ins = [k \in 1..Len(v) |-> LET x == CHOOSE y \in ToSet(q.ins) : y.s = v[k] IN [s |-> v[k], o |-> x.o, g |-> Group(s, v[k])]]
                      \o SelectSeq(q.ins, LAMBDA x : s.src[x.s].v = 0)]]]

(* a document that can be saved has positions, and a set has one input for each per-vertex source *)
Ready(s) == \E i \in 1..Len(s.src) : s.src[i].v = 1 /\ s.src[i].t = 1
Set(a) == st.set[a.p]
Step(a) ==
  \/ a.op = "Source" /\ st.set = <<>> /\ Len(st.src) < NSrc /\ (IF a.t = 1 THEN a.v = 1 /\ ~Ready(st) ELSE Ready(st) \/ Len(st.src) < NSrc - 1)
       /\ To([st EXCEPT !.src = Append(@, [t |-> a.t, v |-> a.v, d |-> a.d, n |-> a.n])], a, 0)
  \/ a.op = "Set" /\ Ready(st) /\ Len(st.set) < NSet
       /\ To([st EXCEPT !.set = Append(@, [k |-> a.k, m |-> a.m, fv |-> <<>>, holes |-> <<>>, idx |-> <<>>,
                                          ins |-> LET v == Vertex(st) IN [k \in 1..Len(v) |-> [s |-> v[k], o |-> 0, g |-> -1]]])], a, 0)
  \/ a.op = "Input" /\ a.p <= Len(st.set) /\ a.s <= Len(st.src) /\ st.src[a.s].v = 0 /\ st.src[a.s].t # 0 /\ Set(a).fv = <<>> /\ Len(Set(a).ins) < MaxInputs
       /\ (\A k \in 1..Len(Set(a).ins) : Set(a).ins[k].s # a.s)
       /\ To([st EXCEPT !.set[a.p].ins = Append(@, [s |-> a.s, o |-> a.o, g |-> a.g])], a, 0)
  \* the per-vertex inputs of a set move to another offset together
  \/ a.op = "Move" /\ a.p <= Len(st.set) /\ Set(a).fv = <<>>
       /\ To([st EXCEPT !.set[a.p].ins = [k \in DOMAIN @ |-> IF st.src[@[k].s].v = 1 THEN [@[k] EXCEPT !.o = a.o] ELSE @[k]]], a, 0)
  \* the set number of a per-vertex source, in every set
  \/ a.op = "Group" /\ a.s <= Len(st.src) /\ st.src[a.s].v = 1 /\ Len(st.set) > 0
       /\ To([st EXCEPT !.set = [p \in DOMAIN @ |-> [@[p] EXCEPT !.ins = [k \in DOMAIN @ |-> IF @[k].s = a.s THEN [@[k] EXCEPT !.g = a.g] ELSE @[k]]]]], a, 0)
  \/ a.op = "Face" /\ a.p <= Len(st.set) /\ Len(Set(a).fv) < MaxFaces
       /\ (IF a.h = 1 THEN Set(a).k = 0 /\ Set(a).fv # <<>> ELSE TRUE)
       /\ To([st EXCEPT !.set[a.p].fv = Append(@, a.d), !.set[a.p].holes = IF a.h = 1 THEN Append(@, Len(Set(a).fv)) ELSE @,
                        !.set[a.p].idx = [o \in Offs(Set(a)) |-> Idx(Set(a), o) \o New(o, a.d, a.x)]], a, 0)
  \/ a.op = "Save" /\ Ready(st) /\ To(st, a, 1)   \* saving changes nothing: twice in a row gives the same file
  \/ a.op = "Again" /\ Ready(st) /\ To(Loaded(st), a, 0)

RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Obs(s) == [src |-> s.src, vert |-> Vertex(s),
           set |-> [p \in 1..Len(s.set) |-> LET q == s.set[p] IN
                    [k |-> q.k, m |-> q.m, fv |-> q.fv, holes |-> q.holes, faces |-> Len(q.fv) - Len(q.holes), n |-> Sum(q.fv),
                     off |-> Sum([r \in 1..p - 1 |-> Sum(s.set[r].fv)]),
                     ins |-> [k \in 1..Len(q.ins) |-> [s |-> q.ins[k].s, o |-> q.ins[k].o, g |-> q.ins[k].g, idx |-> Idx(q, q.ins[k].o)]]]]]
Acts == [op : {"Source"}, t : Types, v : {0, 1}, d : Data, n : Named] \cup [op : {"Set"}, k : Kinds, m : Mats]
   \cup [op : {"Input"}, p : 1..NSet, s : 1..NSrc, o : Offsets, g : Groups] \cup [op : {"Move"}, p : 1..NSet, o : Offsets]
   \cup [op : {"Group"}, s : 1..NSrc, g : Groups] \cup [op : {"Face"}, p : 1..NSet, d : Degrees, x : Seeds, h : {0, 1}] \cup [op : {"Save", "Again"}]
-----------------------------------------------------------------------------
(* every input has one index for each corner *)
Filled == \A p \in 1..Len(st.set) : LET q == st.set[p] IN \A k \in 1..Len(q.ins) : Len(Idx(q, q.ins[k].o)) = Sum(q.fv)
(* what a corner draws is kept: each input gives each corner the same value of the same source; a second time changes nothing more *)
Kept == Ready(st) => LET s == Loaded(st) IN
  /\ \A p \in 1..Len(st.set) : LET q == st.set[p] r == s.set[p] IN
     /\ <<q.k, q.m, q.fv, q.holes>> = <<r.k, r.m, r.fv, r.holes>>
     /\ {<<x.s, x.o, Idx(q, x.o)>> : x \in ToSet(q.ins)} = {<<x.s, x.o, Idx(r, x.o)>> : x \in ToSet(r.ins)}
  /\ \A i \in 1..Len(st.src) : Used(st, i) => s.src[i] = st.src[i]
  /\ Loaded(s) = s
=============================================================================
