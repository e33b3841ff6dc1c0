--------------------------------- MODULE Mesh ---------------------------------
(* The data model of a mesh: its sources (some of them per-vertex), its polygons sets, their faces    *)
(* and holes, and the inputs that tie sources to index lists shared by all inputs of one offset.       *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NSrc, NSet, MaxFaces, MaxInputs, Degrees, Tags, Offsets, Prims
VARIABLES st, act
(* st.src  : source slot -> 0 absent, 1 present ; st.order: the sources of the mesh, in order          *)
(* st.vert : the per-vertex sources, in order                                                           *)
(* st.sets : polygons sets in mesh order; each [k, fv, holes, ins]                                         *)
(*   k     : the kind of the set: its primitive type and its material semantic                          *)
(*   fv    : number of vertices of each face or hole, in order                                           *)
(*   holes : increasing (0-based) positions of the holes within fv                                       *)
(*   ins   : inputs in order; each [s: source (0: released), o: offset, g: set number, own: the indices it owns]        *)

S == 1..NSrc
Init == st = [order |-> <<>>, vert |-> <<>>, sets |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]

In(x, q) == \E i \in 1..Len(q) : q[i] = x
RECURSIVE Sum(_)
Sum(q) == IF q = <<>> THEN 0 ELSE q[1] + Sum(Tail(q))
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
Cut(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
MinOf(T) == CHOOSE x \in T : \A y \in T : x <= y
First(n, P(_)) == LET T == {i \in 1..n : P(i)} IN IF T = {} THEN 0 ELSE MinOf(T)

(* the owner of the index list that input i uses (0: none) *)
Owner(ins, i) == IF ins[i].own # <<>> THEN i
                 ELSE First(Len(ins), LAMBDA j : ins[j].o = ins[i].o /\ ins[j].own # <<>>)
Idx(ins, i) == IF Owner(ins, i) = 0 THEN <<>> ELSE ins[Owner(ins, i)].own
(* input i gives its indices to another input of its offset, when there is one *)
HandOver(ins, i) ==
  LET j == First(Len(ins), LAMBDA k : k # i /\ ins[k].o = ins[i].o)
  IN IF ins[i].own = <<>> \/ j = 0 THEN ins ELSE [ins EXCEPT ![j].own = ins[i].own, ![i].own = <<>>]
Drop(ins, i) == Cut(HandOver(ins, i), i)

(* ---- faces ---- *)
Faces(p) == SelectSeq([k \in 1..Len(p.fv) |-> k - 1], LAMBDA k : ~In(k, p.holes))   \* raw positions of the faces
NFaces(p) == Len(p.fv) - Len(p.holes)
HolesOf(p, raw) == LET T == {k \in 0..Len(p.fv) : k > raw /\ ~In(k, p.holes)} IN MinOf(T) - raw - 1
Off(p, raw) == Sum(SubSeq(p.fv, 1, raw))

New(a, v, t) ==   \* the index values that the user stores for a new face
  [j \in 1..a.d |-> v * 1000 + t * 100 + a.d * 10 + j]

To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]

AddSource(a) == ~In(a.s, st.order) /\ To([st EXCEPT !.order = Append(@, a.s)], a, 0)
(* a new per-vertex source becomes an input of every set *)
AddVertex(a) == ~In(a.s, st.order)
  /\ (\A k \in 1..Len(st.sets) : Len(st.sets[k].ins) < MaxInputs)
  /\ To([st EXCEPT !.order = Append(@, a.s), !.vert = Append(@, a.s),
              !.sets = [p \in DOMAIN @ |-> [@[p] EXCEPT !.ins = Append(@, [s |-> a.s, o |-> 0, g |-> -1, own |-> <<>>])]]], a, 0)
(* an existing source becomes per-vertex: its input moves to offset 0 and keeps its indices there *)
Promote(q, s) ==
  LET i == First(Len(q.ins), LAMBDA k : q.ins[k].s = s)
  IN IF i = 0 THEN [q EXCEPT !.ins = Append(@, [s |-> s, o |-> 0, g |-> -1, own |-> <<>>])]
     ELSE IF q.ins[i].o = 0 THEN q
     ELSE [q EXCEPT !.ins = Append(Drop(@, i), [s |-> s, o |-> 0, g |-> q.ins[i].g, own |-> <<>>])]
MakeVertex(a) == In(a.s, st.order) /\ ~In(a.s, st.vert)
  /\ (\A k \in 1..Len(st.sets) : Len(st.sets[k].ins) < MaxInputs)
  /\ To([st EXCEPT !.vert = Append(@, a.s), !.sets = [p \in DOMAIN @ |-> Promote(@[p], a.s)]], a, 0)
UnmakeVertex(a) == In(a.s, st.order) /\ To([st EXCEPT !.vert = Del(@, a.s)], a, 0)
(* a released source leaves its inputs without data, and without indices that other inputs need *)
RECURSIVE Orphan(_, _)
Orphan(ins, s) == LET i == First(Len(ins), LAMBDA k : ins[k].s = s)
                  IN IF i = 0 THEN ins ELSE Orphan([HandOver(ins, i) EXCEPT ![i].s = 0], s)
ReleaseSource(a) == In(a.s, st.order)
  /\ To([st EXCEPT !.order = Del(@, a.s), !.vert = Del(@, a.s),
              !.sets = [q \in DOMAIN @ |-> [@[q] EXCEPT !.ins = Orphan(@, a.s)]]], a, 0)
AddSet(a) == Len(st.sets) < NSet
  /\ To([st EXCEPT !.sets = Append(@, [k |-> a.k, fv |-> <<>>, holes |-> <<>>,
              ins |-> [k \in 1..Len(st.vert) |-> [s |-> st.vert[k], o |-> 0, g |-> -1, own |-> <<>>]]])], a, 0)
ReleaseSet(a) == a.p <= Len(st.sets) /\ To([st EXCEPT !.sets = Cut(@, a.p)], a, 0)
AddInput(a) == a.p <= Len(st.sets) /\ In(a.s, st.order) /\ Len(st.sets[a.p].ins) < MaxInputs
  /\ To([st EXCEPT !.sets[a.p].ins = Append(@, [s |-> a.s, o |-> a.o, g |-> a.s + a.o, own |-> <<>>])], a, 0)
ReleaseInput(a) == a.p <= Len(st.sets) /\ a.i <= Len(st.sets[a.p].ins)
  /\ To([st EXCEPT !.sets[a.p].ins = Drop(@, a.i)], a, 0)
(* the user provides the indices of an input that has none yet *)
Fill(a) == a.p <= Len(st.sets) /\ a.i <= Len(st.sets[a.p].ins)
  /\ LET p == st.sets[a.p] n == Sum(p.fv) IN
     n > 0 /\ Idx(p.ins, a.i) = <<>>
     /\ To([st EXCEPT !.sets[a.p].ins[a.i].own = [k \in 1..n |-> a.t * 100 + k]], a, 0)

(* a new face extends each index list; the first face starts the index list of every offset *)
RECURSIVE Start(_, _, _)
Start(ins, i, a) == IF i > Len(ins) THEN ins
                    ELSE Start(IF Idx(ins, i) = <<>> THEN [ins EXCEPT ![i].own = New(a, ins[i].o, a.t)] ELSE ins, i + 1, a)
AddFace(a) == a.p <= Len(st.sets) /\ Len(st.sets[a.p].fv) < MaxFaces
  /\ To([st EXCEPT !.sets[a.p] =
          [k |-> @.k, fv |-> Append(@.fv, a.d), holes |-> @.holes,
           ins |-> IF @.fv = <<>> THEN Start(@.ins, 1, a)
                   ELSE [k \in DOMAIN @.ins |-> IF @.ins[k].own = <<>> THEN @.ins[k]
                           ELSE [@.ins[k] EXCEPT !.own = @ \o New(a, st.sets[a.p].ins[k].o, a.t)]]]], a, 0)
(* removing a face removes its holes and the indices of both, and nothing else *)
RemoveFace(a) == a.p <= Len(st.sets) /\ a.f < NFaces(st.sets[a.p])
  /\ LET p == st.sets[a.p] raw == Faces(p)[a.f + 1] h == HolesOf(p, raw)
         o == Off(p, raw) n == Sum(SubSeq(p.fv, raw + 1, raw + 1 + h))
     IN To([st EXCEPT !.sets[a.p] =
          [k |-> p.k, fv |-> SubSeq(p.fv, 1, raw) \o SubSeq(p.fv, raw + h + 2, Len(p.fv)),
           holes |-> SelectSeq(p.holes, LAMBDA k : k < raw)
                     \o [k \in 1..Len(SelectSeq(p.holes, LAMBDA x : x > raw + h)) |->
                            SelectSeq(p.holes, LAMBDA x : x > raw + h)[k] - h - 1],
           ins |-> [k \in DOMAIN p.ins |-> [p.ins[k] EXCEPT !.own = IF @ = <<>> THEN @ ELSE SubSeq(@, 1, o) \o SubSeq(@, o + n + 1, Len(@))]]]], a, 0)
AddHole(a) == a.p <= Len(st.sets) /\ a.f >= 1 /\ a.f < Len(st.sets[a.p].fv) /\ ~In(a.f, st.sets[a.p].holes)
  /\ To([st EXCEPT !.sets[a.p].holes = SelectSeq(@, LAMBDA k : k < a.f) \o <<a.f>> \o SelectSeq(@, LAMBDA k : k > a.f)], a, 0)

ObsSet(p) == [k |-> p.k, fv |-> p.fv, holes |-> p.holes, n |-> Sum(p.fv),
   faces |-> [f \in 1..NFaces(p) |-> LET raw == Faces(p)[f] IN
                [off |-> Off(p, raw), n |-> Sum(SubSeq(p.fv, raw + 1, raw + 1 + HolesOf(p, raw))), holes |-> HolesOf(p, raw), before |-> raw - f + 1]],
   ins |-> [i \in 1..Len(p.ins) |-> [s |-> p.ins[i].s, o |-> p.ins[i].o, g |-> p.ins[i].g, idx |-> Idx(p.ins, i)]]]
Before(sets, p, F(_)) == Sum([q \in 1..(p - 1) |-> F(sets[q])])
Obs(s) == [order |-> s.order, vert |-> s.vert,
           sets |-> [p \in 1..Len(s.sets) |-> [set |-> ObsSet(s.sets[p]),
                faceOffset |-> Before(s.sets, p, NFaces), holeOffset |-> Before(s.sets, p, LAMBDA x : Len(x.holes)),
                fvOffset |-> Before(s.sets, p, LAMBDA x : Sum(x.fv))]],
           total |-> << Before(s.sets, Len(s.sets) + 1, NFaces), Before(s.sets, Len(s.sets) + 1, LAMBDA x : Len(x.holes)), Before(s.sets, Len(s.sets) + 1, LAMBDA x : Sum(x.fv))>>]
(* a clone is an equal mesh *)
NoOrphans == \A p \in 1..Len(st.sets) : \A i \in 1..Len(st.sets[p].ins) : st.sets[p].ins[i].s # 0
Clone(a) == NoOrphans /\ To(st, a, Obs([st EXCEPT !.vert = SelectSeq(st.order, LAMBDA x : In(x, st.vert))]))

Step(a) ==
  \/ a.op = "AddSource" /\ AddSource(a)
  \/ a.op = "AddVertex" /\ AddVertex(a)
  \/ a.op = "MakeVertex" /\ MakeVertex(a)
  \/ a.op = "UnmakeVertex" /\ UnmakeVertex(a)
  \/ a.op = "ReleaseSource" /\ ReleaseSource(a)
  \/ a.op = "AddSet" /\ AddSet(a)
  \/ a.op = "ReleaseSet" /\ ReleaseSet(a)
  \/ a.op = "AddInput" /\ AddInput(a)
  \/ a.op = "ReleaseInput" /\ ReleaseInput(a)
  \/ a.op = "Fill" /\ Fill(a)
  \/ a.op = "AddFace" /\ AddFace(a)
  \/ a.op = "RemoveFace" /\ RemoveFace(a)
  \/ a.op = "AddHole" /\ AddHole(a)
  \/ a.op = "Clone" /\ Clone(a)
Acts == [op : {"AddSource", "AddVertex", "MakeVertex", "UnmakeVertex", "ReleaseSource"}, s : S]
        \cup [op : {"Clone"}]
        \cup [op : {"AddSet"}, k : Prims]
        \cup [op : {"ReleaseSet"}, p : 1..NSet]
        \cup [op : {"AddInput"}, p : 1..NSet, s : S, o : Offsets]
        \cup [op : {"ReleaseInput"}, p : 1..NSet, i : 1..MaxInputs]
        \cup [op : {"Fill"}, p : 1..NSet, i : 1..MaxInputs, t : {0}]
        \cup [op : {"AddFace"}, p : 1..NSet, d : Degrees, t : Tags]
        \cup [op : {"RemoveFace"}, p : 1..NSet, f : 0..(MaxFaces - 1)]
        \cup [op : {"AddHole"}, p : 1..NSet, f : 1..(MaxFaces - 1)]
-----------------------------------------------------------------------------
(* at most one input of an offset owns indices, and an index list covers every face-vertex pair *)
OneOwner == \A p \in 1..Len(st.sets) : LET ins == st.sets[p].ins IN
  /\ \A i, j \in 1..Len(ins) : i # j /\ ins[i].o = ins[j].o => ins[i].own = <<>> \/ ins[j].own = <<>>
  /\ \A i \in 1..Len(ins) : ins[i].own = <<>> \/ Len(ins[i].own) = Sum(st.sets[p].fv)
(* the faces and holes partition the face-vertex counts *)
Partition == \A p \in 1..Len(st.sets) : LET q == st.sets[p] IN
  /\ \A k \in 1..Len(q.holes) : q.holes[k] < Len(q.fv) /\ (k > 1 => q.holes[k - 1] < q.holes[k])
  /\ LET ob == ObsSet(q) IN \A f \in 1..NFaces(q) : f = NFaces(q) => (0 \notin {q.holes[k] : k \in 1..Len(q.holes)} => ob.faces[f].off + ob.faces[f].n = ob.n)
(* inputs only refer to sources of the mesh; per-vertex sources belong to it *)
SourcesLive == (\A p \in 1..Len(st.sets) : \A i \in 1..Len(st.sets[p].ins) : st.sets[p].ins[i].s = 0 \/ In(st.sets[p].ins[i].s, st.order))
  /\ \A k \in 1..Len(st.vert) : In(st.vert[k], st.order)
(* no operation but releasing data changes the data that an input sees at a face that stays *)
IndexStable == act'.a.op \in {"AddSource", "AddVertex", "UnmakeVertex", "ReleaseSource", "AddSet", "AddHole", "Clone"} =>
  \A p \in 1..Len(st.sets) : \A i \in 1..Len(st.sets[p].ins) : Idx(st'.sets[p].ins, i) = Idx(st.sets[p].ins, i)
=============================================================================
