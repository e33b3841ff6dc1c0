-------------------------------- MODULE Scene --------------------------------
(* The scene graph: scene nodes with ordered lists of children and of parents, the libraries that    *)
(* own the root nodes, the cascade of releases, sub ids, searches and world transforms.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NNode, NDoc, Subs
VARIABLES st, act
(* st.n[i] = [d : document (0: not alive), ch, pa, sub] ; st.lib[d] = root nodes of document d        *)

N == 1..NNode
None == [d |-> 0, ch |-> <<>>, pa |-> <<>>, sub |-> <<>>]
Init == st = [n |-> [i \in N |-> None], lib |-> [d \in 1..NDoc |-> <<>>]] /\ act = [a |-> [op |-> "init"], r |-> 0]
Set(a, s, r) == st' = s /\ act' = [a |-> a, r |-> r]
Live(s, i) == s.n[i].d # 0
In(x, q) == \E k \in 1..Len(q) : q[k] = x
Del(q, x) == SelectSeq(q, LAMBDA y : y # x)

(* the ancestors of i *)
RECURSIVE Anc(_, _)
Anc(s, i) == UNION {{p} \cup Anc(s, p) : p \in {s.n[i].pa[k] : k \in 1..Len(s.n[i].pa)}}
Link(s, p, c) == [s EXCEPT !.n[p].ch = Append(@, c), !.n[c].pa = Append(@, p)]
CanLink(s, p, c) == p # c /\ ~In(c, s.n[p].ch) /\ c \notin Anc(s, p)

MakeRoot(a) == ~Live(st, a.i) /\ Set(a, [st EXCEPT !.n[a.i].d = a.d, !.lib[a.d] = Append(@, a.i)], 0)
MakeChild(a) == Live(st, a.p) /\ ~Live(st, a.i) /\ Set(a, Link([st EXCEPT !.n[a.i].d = st.n[a.p].d], a.p, a.i), 0)
AddChild(a) == Live(st, a.p) /\ Live(st, a.c)
               /\ IF CanLink(st, a.p, a.c) THEN Set(a, Link(st, a.p, a.c), 1) ELSE Set(a, st, 0)
RemoveChild(a) == Live(st, a.p) /\ Live(st, a.c) /\ In(a.c, st.n[a.p].ch)
                  /\ Set(a, [st EXCEPT !.n[a.p].ch = Del(@, a.c), !.n[a.c].pa = Del(@, a.p)], 0)

(* A released node leaves its parents and library. It releases, in order, the children that no other *)
(* node of its document holds.                                                                       *)
RECURSIVE Kill(_, _)
RECURSIVE Drop(_, _, _)
Drop(s, i, q) == IF q = <<>> THEN s
                 ELSE LET c == Head(q)
                          s1 == [s EXCEPT !.n[c].pa = Del(@, i)]
                          kept == \E k \in 1..Len(s1.n[c].pa) : s1.n[s1.n[c].pa[k]].d = s.n[i].d
                          s2 == [s1 EXCEPT !.n[i].ch = Del(@, c)]
                      IN Drop(IF kept THEN s2 ELSE Kill(s2, c), i, Tail(q))
Kill(s, i) == LET s1 == Drop(s, i, s.n[i].ch)
              IN [n |-> [j \in N |-> IF j = i THEN None ELSE [s1.n[j] EXCEPT !.ch = Del(@, i)]],
                  lib |-> [d \in 1..NDoc |-> Del(s1.lib[d], i)]]
Release(a) == Live(st, a.i) /\ Set(a, Kill(st, a.i), 0)

(* cloning duplicates the tree below a node (a shared node once for each path); the copies take the   *)
(* free slots in depth-first order                                                                   *)
RECURSIVE Size(_, _)
Size(s, i) == 1 + (LET q == s.n[i].ch F[k \in 0..Len(q)] == IF k = 0 THEN 0 ELSE F[k - 1] + Size(s, q[k]) IN F[Len(q)])
Free(s) == CHOOSE i \in N : ~Live(s, i) /\ \A j \in N : j < i => Live(s, j)
RECURSIVE Copy(_, _, _)   \* copies node i of the original state below node p (0: none)
RECURSIVE CopyAll(_, _, _)
CopyAll(s, q, p) == IF q = <<>> THEN s ELSE CopyAll(Copy(s, Head(q), p), Tail(q), p)
Copy(s, i, p) == LET c == Free(s)
                     s1 == [s EXCEPT !.n[c].d = IF p = 0 THEN s.n[i].d ELSE s.n[p].d]
                 IN CopyAll(IF p = 0 THEN s1 ELSE Link(s1, p, c), s.n[i].ch, c)
FreeCount == Cardinality({i \in N : ~Live(st, i)})
Clone(a) == Live(st, a.i) /\ IF a.deep THEN Size(st, a.i) <= FreeCount /\ Set(a, Copy(st, a.i, 0), Free(st))
                             ELSE FreeCount > 0 /\ Set(a, [st EXCEPT !.n[Free(st)].d = st.n[a.i].d], Free(st))

(* sub ids: unique among the ancestors and descendants of the node at the time they are set *)
Wanted(k) == CASE k = 1 -> <<97>> [] k = 2 -> <<97, 95, 48>> [] k = 3 -> <<98, 58, 49>> [] OTHER -> <<>>
Clean(w) == [i \in 1..Len(w) |-> IF w[i] = 58 THEN 95 ELSE w[i]]
RECURSIVE Desc(_, _)
Desc(s, i) == {i} \cup UNION {Desc(s, c) : c \in {s.n[i].ch[k] : k \in 1..Len(s.n[i].ch)}}
Taken(s, i) == {s.n[j].sub : j \in (Desc(s, i) \cup Anc(s, i)) \ {i}}
RECURSIVE Num(_, _, _)
Num(w, T, k) == LET x == w \o <<95, 48 + k>> IN IF x \notin T THEN x ELSE Num(w, T, k + 1)
NewSub(s, i, w) == IF w = <<>> THEN <<>> ELSE IF w \notin Taken(s, i) THEN w ELSE Num(w, Taken(s, i), 0)
SetSub(a) == Live(st, a.i) /\ LET w == NewSub(st, a.i, Clean(Wanted(a.k))) IN Set(a, [st EXCEPT !.n[a.i].sub = w], 0)
RECURSIVE Find(_, _, _)
RECURSIVE FindAll(_, _, _)
FindAll(s, q, w) == IF q = <<>> THEN 0 ELSE LET f == Find(s, Head(q), w) IN IF f # 0 THEN f ELSE FindAll(s, Tail(q), w)
Find(s, i, w) == IF s.n[i].sub = w THEN i ELSE FindAll(s, s.n[i].ch, w)
FindSub(a) == Live(st, a.i) /\ Set(a, st, Find(st, a.i, Clean(Wanted(a.k))))
(* a node finds every node below it by its id, and no other node of its document *)
FindId(a) == Live(st, a.i) /\ Live(st, a.j) /\ (\A k \in Desc(st, a.i) : st.n[k].d = st.n[a.j].d)
             /\ Set(a, st, IF a.j \in Desc(st, a.i) THEN 1 ELSE 0)

(* node i has a translation of 2^i units: the world transform adds up the first parents *)
RECURSIVE W(_, _)
W(s, i) == 2^i + (IF s.n[i].pa = <<>> THEN 0 ELSE W(s, s.n[i].pa[1]))
World(a) == Live(st, a.i) /\ Set(a, st, W(st, a.i))

Step(a) ==
  \/ a.op = "MakeRoot" /\ MakeRoot(a)
  \/ a.op = "MakeChild" /\ MakeChild(a)
  \/ a.op = "AddChild" /\ AddChild(a)
  \/ a.op = "RemoveChild" /\ RemoveChild(a)
  \/ a.op = "Release" /\ Release(a)
  \/ a.op = "Clone" /\ Clone(a)
  \/ a.op = "SetSub" /\ SetSub(a)
  \/ a.op = "FindSub" /\ FindSub(a)
  \/ a.op = "FindId" /\ FindId(a)
  \/ a.op = "World" /\ World(a)
Acts == [op : {"MakeRoot"}, i : N, d : 1..NDoc] \cup [op : {"MakeChild"}, i : N, p : N]
        \cup [op : {"AddChild", "RemoveChild"}, p : N, c : N] \cup [op : {"Release", "World"}, i : N]
        \cup [op : {"Clone"}, i : N, deep : BOOLEAN] \cup [op : {"SetSub", "FindSub"}, i : N, k : Subs]
        \cup [op : {"FindId"}, i : N, j : N]
Obs(s) == [n |-> [i \in N |-> IF Live(s, i) THEN <<s.n[i].d, s.n[i].ch, s.n[i].pa, s.n[i].sub>> ELSE <<>>], lib |-> s.lib]
-----------------------------------------------------------------------------
Acyclic == \A i \in N : i \notin Anc(st, i)
Symmetric == \A i, j \in N : In(j, st.n[i].ch) <=> In(i, st.n[j].pa)
NoDuplicates == \A i \in N : \A q \in {st.n[i].ch, st.n[i].pa} : \A x, y \in 1..Len(q) : x # y => q[x] # q[y]
OnlyLive == \A i \in N : /\ Live(st, i) => \A k \in 1..Len(st.n[i].ch) : Live(st, st.n[i].ch[k])
                         /\ ~Live(st, i) => st.n[i] = None
(* releasing kills exactly the nodes that are held by released nodes of their document only *)
ReleaseCascade == act'.a.op = "Release" =>
  \A i \in N : Live(st, i) /\ i # act'.a.i =>
     LET locals == {p \in {st.n[i].pa[k] : k \in 1..Len(st.n[i].pa)} : st.n[p].d = st.n[i].d}
     IN NDoc = 1 => (Live(st', i) <=> st.n[i].pa = <<>> \/ \E p \in locals : Live(st', p))
SubIdsUnique == act'.a.op = "SetSub" /\ st'.n[act'.a.i].sub # <<>> =>
                  LET i == act'.a.i IN st'.n[i].sub \notin Taken(st', i)
=============================================================================
