------------------------------ MODULE DocScene ------------------------------
(* The scenes of a document through saving and loading: visual scenes, nodes shared between several  *)
(* parents, joint and visibility flags, names, notes, sub ids, and instances of other entities.       *)
(* Node i translates by 2^i units, so the world transforms tell which parent comes first.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NNode, Vals, Kinds, InstMax
VARIABLES st, act
(* st.n[i] : live, ch (children in order), pa (parents in order), f (flags), inst (instances)         *)
(* st.roots: the visual scenes in order, st.main the instantiated one, st.fresh: never loaded         *)
N == 1..NNode
None == [live |-> FALSE, ch |-> <<>>, pa |-> <<>>, inst |-> <<>>, f |-> [joint |-> 0, hidden |-> 0, sub |-> 0, name |-> 0, note |-> 0]]
New == [None EXCEPT !.live = TRUE]
Init == st = [n |-> [i \in N |-> None], roots |-> <<>>, main |-> 0, fresh |-> TRUE] /\ act = [a |-> [op |-> "init"], r |-> "init"]
To(s, a, r) == st' = s /\ act' = [a |-> a, r |-> r]
In(x, q) == \E k \in 1..Len(q) : q[k] = x
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)
Live(s, i) == s.n[i].live
IsRoot(s, i) == In(i, s.roots)
RECURSIVE Anc(_, _)
Anc(s, i) == UNION {{p} \cup Anc(s, p) : p \in ToSet(s.n[i].pa)}
Link(s, p, c) == [s EXCEPT !.n[p].ch = Append(@, c), !.n[c].pa = Append(@, p)]
Own(s, i) == SelectSeq(s.n[i].ch, LAMBDA c : s.n[c].pa[1] = i)
Shared(s, i) == {c \in ToSet(s.n[i].ch) : s.n[c].pa[1] # i}
Sorted(S) == SetToSortSeq(S, <)

(* strings: 2 is not a valid name and cleaned up into 3; 9 is the id of the entity *)
Clean(x, v) == IF x = "name" /\ v = 2 THEN 3 ELSE v
(* instances: kinds above 4 are not part of COLLADA and written apart from the others *)
Extra(x) == x.k > 4
Insts(q) == SelectSeq(q, LAMBDA x : ~Extra(x)) \o SelectSeq(q, Extra)
Named(v) == IF v = 0 THEN 9 ELSE v
(* a visual scene has no flags; a node without a name gets its id *)
Flags(s, i) == LET f == s.n[i].f IN IF IsRoot(s, i) THEN [f EXCEPT !.joint = 0, !.hidden = 0, !.sub = 0, !.name = Named(@)] ELSE [f EXCEPT !.name = Named(@)]
Loaded(s) == [s EXCEPT !.fresh = FALSE,
  !.n = [i \in N |-> IF ~Live(s, i) THEN None ELSE
         [s.n[i] EXCEPT !.f = Flags(s, i), !.inst = Insts(@), !.ch = Sorted(Shared(s, i)) \o Own(s, i),
                        !.pa = IF @ = <<>> THEN <<>> ELSE <<Head(@)>> \o Sorted(ToSet(Tail(@)))]]]

Next(i) == ~Live(st, i) /\ \A j \in 1..i - 1 : Live(st, j)   \* nodes are numbered in the order of their creation
Step(a) ==
  \/ a.op = "Root" /\ Next(a.i) /\ To([st EXCEPT !.n[a.i] = New, !.roots = Append(@, a.i)], a, 0)
  \/ a.op = "Child" /\ Live(st, a.p) /\ Next(a.i) /\ To(Link([st EXCEPT !.n[a.i] = New], a.p, a.i), a, 0)
  \/ a.op = "Link" /\ Live(st, a.p) /\ Live(st, a.c) /\ ~IsRoot(st, a.c)
       /\ IF a.p # a.c /\ ~In(a.c, st.n[a.p].ch) /\ a.c \notin Anc(st, a.p) THEN To(Link(st, a.p, a.c), a, 1) ELSE To(st, a, 0)
  \/ a.op = "Unlink" /\ In(a.c, st.n[a.p].ch) /\ Len(st.n[a.c].pa) > 1
       /\ (IF st.n[a.c].pa[1] = a.p THEN st.fresh ELSE TRUE)
       /\ To([st EXCEPT !.n[a.p].ch = Del(@, a.c), !.n[a.c].pa = Del(@, a.p)], a, 0)
  \/ a.op = "Release" /\ Live(st, a.i) /\ st.n[a.i].ch = <<>>
       /\ To([st EXCEPT !.n = [j \in N |-> IF j = a.i THEN None ELSE [st.n[j] EXCEPT !.ch = Del(@, a.i)]],
                        !.roots = Del(@, a.i), !.main = IF @ = a.i THEN 0 ELSE @], a, 0)
  \/ a.op = "Flag" /\ Live(st, a.i)
       /\ (IF a.f = "sub" /\ a.v # 0 THEN \A j \in N : j = a.i \/ st.n[j].f.sub # a.v ELSE TRUE)
       /\ To([st EXCEPT !.n[a.i].f[a.f] = Clean(a.f, a.v)], a, 0)
  \/ a.op = "Main" /\ IsRoot(st, a.i) /\ To([st EXCEPT !.main = a.i], a, 0)
  \/ a.op = "Inst" /\ Live(st, a.i) /\ Len(st.n[a.i].inst) < InstMax
       /\ (IF a.s # 0 THEN \A k \in 1..Len(st.n[a.i].inst) : st.n[a.i].inst[k].s # a.s ELSE TRUE)
       /\ To([st EXCEPT !.n[a.i].inst = Append(@, [k |-> a.k, s |-> a.s, n |-> a.n])], a, 0)
  \/ a.op = "DelInst" /\ a.x <= Len(st.n[a.i].inst) /\ To([st EXCEPT !.n[a.i].inst = RemoveAt(@, a.x)], a, 0)
  \/ a.op = "Save" /\ To(st, a, 1)   \* saving changes nothing: twice in a row gives the same file
  \/ a.op = "Again" /\ To(Loaded(st), a, 0)
Acts == [op : {"Root", "Release", "Main"}, i : N] \cup [op : {"Child"}, i : N, p : N] \cup [op : {"Link", "Unlink"}, p : N, c : N]
   \cup UNION {[op : {"Flag"}, i : N, f : {x}, v : Vals[x]] : x \in DOMAIN Vals}
   \cup [op : {"Inst"}, i : N, k : Kinds, s : {0, 1}, n : {0, 4}] \cup [op : {"DelInst"}, i : N, x : 1..InstMax] \cup [op : {"Save", "Again"}]

RECURSIVE W(_, _)
W(s, i) == 2^i + (IF s.n[i].pa = <<>> THEN 0 ELSE W(s, s.n[i].pa[1]))
Obs(s) == [n |-> [i \in N |-> IF Live(s, i) THEN [own |-> Own(s, i), shared |-> Sorted(Shared(s, i)), first |-> IF s.n[i].pa = <<>> THEN 0 ELSE s.n[i].pa[1],
                                                  pa |-> Sorted(ToSet(s.n[i].pa)), f |-> s.n[i].f, inst |-> s.n[i].inst, w |-> W(s, i)]
                              ELSE [own |-> <<>>]],
           roots |-> s.roots, main |-> s.main]
-----------------------------------------------------------------------------
Acyclic == \A i \in N : i \notin Anc(st, i)
Symmetric == \A i, j \in N : In(j, st.n[i].ch) <=> In(i, st.n[j].pa)
(* every node but the visual scenes has a parent: what is saved is everything *)
Rooted == \A i \in N : Live(st, i) => (IsRoot(st, i) <=> st.n[i].pa = <<>>)
Main == st.main = 0 \/ IsRoot(st, st.main)
(* loading keeps the graph, the first parents, the order of the children each node owns, and the instances; a second time changes nothing more *)
Kept == LET s == Loaded(st) IN
  /\ \A i \in N : /\ ToSet(s.n[i].ch) = ToSet(st.n[i].ch) /\ Own(s, i) = Own(st, i)
                  /\ ToSet(s.n[i].pa) = ToSet(st.n[i].pa)
                  /\ (\A x \in {"joint", "hidden", "sub", "note"} : ~IsRoot(st, i) => s.n[i].f[x] = st.n[i].f[x])
                  /\ (\A y \in {TRUE, FALSE} : SelectSeq(s.n[i].inst, LAMBDA x : Extra(x) = y) = SelectSeq(st.n[i].inst, LAMBDA x : Extra(x) = y))
                  /\ (Live(st, i) => W(s, i) = W(st, i))
  /\ Loaded(s) = s
=============================================================================
