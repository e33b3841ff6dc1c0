----------------------------- MODULE Controllers -----------------------------
(* Skins and morphs, chained upon one another and upon geometries, with their joints, influences and    *)
(* targets, and their instances in the scene with the nodes that are their joints.                      *)
EXTENDS Nest
CONSTANTS Weights, Reductions
Kid(o, i, k) == {c \in 1..Len(o) : o[c].p = i /\ o[c].k = k}
Pick(S) == CHOOSE x \in S : TRUE
(* the base target of a controller, and the geometry and the last controller at the end of its chain *)
BaseOf(o, c) ==
  LET s == Kid(o, c, "skin") m == Kid(o, c, "morph")
      q == IF s # {} THEN o[Pick(s)].r.target ELSE IF m # {} THEN o[Pick(m)].r.base ELSE <<>>
  IN IF q = <<>> THEN 0 ELSE q[1]
RECURSIVE Bottom(_, _, _)
Bottom(o, i, above) == IF i = 0 THEN <<0, 0>> ELSE IF o[i].k = "geo" THEN <<i, above>> ELSE Bottom(o, BaseOf(o, i), i)
BaseGeo(o, i) == Bottom(o, i, 0)[1]
(* geometries of one type with the same number of vertices *)
Similar(o, g, h) == g # 0 /\ h # 0 /\ o[g].f.shape = o[h].f.shape
Vertices(x) == <<2, 3, 2>>[x.f.shape[1] + 1]

(* influences: for each vertex the number of joints, their indices and weights (12ths) *)
RECURSIVE Starts(_, _)
Starts(v, i) == IF i > Len(v) THEN <<>> ELSE <<i>> \o Starts(v, i + 1 + 2 * v[i])
Verts(v) == LET s == TLCEval(Starts(v, 1)) IN TLCEval([i \in 1..Len(s) |-> [n \in 1..v[s[i]] |-> <<v[s[i] + 2 * n - 1], v[s[i] + 2 * n]>>]])
Flat(vs) == TLCEval(FlattenSeq([i \in 1..Len(vs) |-> <<Len(vs[i])>> \o FlattenSeq(vs[i])]))
Total(q) == FoldSeq(LAMBDA x, t : x[2] + t, 0, q)
Scaled(q, from, to) == [n \in 1..Len(q) |-> <<q[n][1], (q[n][2] * to) \div from>>]
Exact(q, from, to) == \A n \in 1..Len(q) : (q[n][2] * to) % from = 0
Resized(vs, n) == [i \in 1..n |-> IF i <= Len(vs) THEN vs[i] ELSE <<>>]
(* the heaviest joints of a vertex, in the order of their weights; their weights have the same total as before *)
Kept(q, n, w) == LET s == SortSeq(SelectSeq(q, LAMBDA x : x[2] >= w), LAMBDA x, y : x[2] > y[2]) IN SubSeq(s, 1, Min2(n, Len(s)))
Reduced(q, n, w) == LET s == Kept(q, n, w) IN IF Len(s) = Len(q) THEN q ELSE IF s = <<>> THEN s ELSE Scaled(s, Total(s), Total(q))
Reducible(q, n, w) == LET s == Kept(q, n, w) IN /\ \A i, j \in 1..Len(q) : i # j => q[i][2] # q[j][2]
                                               /\ \A i \in 1..Len(q) : q[i][2] > 0
                                               /\ s # <<>> => Exact(s, Total(s), Total(q))
Effect(k, f, x, v) == [f EXCEPT ![x] = v]
-----------------------------------------------------------------------------
(* a skin gets an influence for each vertex of its target, unless it has them already *)
SetTarget(o, i, q) ==
  LET o1 == [o EXCEPT ![i].r.target = <<>>]
      g == IF q = <<>> THEN 0 ELSE BaseGeo(o1, q[1])
  IN IF g = 0 THEN o1
     ELSE [o1 EXCEPT ![i].r.target = q, ![i].f.infl = IF @ = <<>> THEN Flat(Resized(<<>>, Vertices(o[g]))) ELSE @]
SkinFits(o, i, q) == LET o1 == [o EXCEPT ![i].r.target = <<>>] g == IF q = <<>> THEN 0 ELSE BaseGeo(o1, q[1])
                     IN g # 0 /\ o[i].f.infl # <<>> => Len(Verts(o[i].f.infl)) = Vertices(o[g])
(* targets that are not similar to the new base of a morph are released *)
Drop(o, S) == [c \in 1..Len(o) |-> IF c \in S THEN [o[c] EXCEPT !.p = -1] ELSE o[c]]
SetBase(o, i, q) ==
  LET o1 == [o EXCEPT ![i].r.base = <<>>]
      g == IF q = <<>> THEN 0 ELSE BaseGeo(o1, q[1])
      geom(c) == IF o[c].r.geom = <<>> THEN 0 ELSE o[c].r.geom[1]
  IN Drop(IF g = 0 THEN o1 ELSE [o1 EXCEPT ![i].r.base = q], {c \in Kid(o, i, "target") : ~Similar(o, g, geom(c))})
(* a target has a geometry that is similar to the base, if there is a base *)
Fits(o, m, j) == o[m].r.base = <<>> \/ Similar(o, BaseGeo(o, o[m].r.base[1]), j)
(* a geometry that a target gives up for another is released when nothing else refers to it *)
Used(o, g) == \E c \in 1..Len(o) : \E x \in DOMAIN o[c].r : \E n \in 1..Len(o[c].r[x]) : o[c].r[x][n] = g
SetGeom(o, i, q) == LET o1 == TLCEval([o EXCEPT ![i].r.geom = q]) g == o[i].r.geom IN IF g = <<>> THEN o1 ELSE IF Used(o1, g[1]) THEN o1 ELSE Norm(Drop(o1, {g[1]}))
First(q) == IF q = <<>> THEN 0 ELSE q[1]
SetRef(o, i, x, q) ==
  IF x = "target" THEN SetTarget(o, i, q) ELSE IF x = "base" THEN Norm(SetBase(o, i, q))
  ELSE IF x = "geom" THEN (IF Fits(o, o[i].p, First(q)) THEN SetGeom(o, i, q) ELSE o)
  ELSE IF x = "joints" THEN [c \in 1..Len(o) |-> IF c = i THEN [o[c] EXCEPT !.r.joints = q] ELSE IF \E n \in 1..Len(q) : q[n] = c THEN [o[c] EXCEPT !.f.joint = <<1>>] ELSE o[c]]
  ELSE [o EXCEPT ![i].r[x] = q]
(* the roots of the skeleton: the joints whose parent is none *)
Roots(o, i) == SelectSeq(o[i].r.joints, LAMBDA j : ~\E n \in 1..Len(o[i].r.joints) : o[i].r.joints[n] = o[j].p)
-----------------------------------------------------------------------------
(* the first node with a sub id, in a node and then in its children; nodes are in that order *)
RECURSIVE Above(_, _)
Above(o, n) == IF n = 0 THEN {0} ELSE {n} \cup Above(o, o[n].p)
RECURSIVE Find(_, _, _)
Find(o, roots, sid) == IF roots = <<>> THEN <<>> ELSE
  LET c == {n \in 1..Len(o) : o[n].k = "node" /\ roots[1] \in Above(o, n) /\ o[n].f.sid = <<sid>>}
  IN IF c # {} THEN <<CHOOSE x \in c : \A y \in c : x <= y>> ELSE Find(o, Tail(roots), sid)
RECURSIVE SkinOf(_, _)
SkinOf(o, c) == IF c = 0 THEN 0 ELSE IF o[c].k # "controller" THEN 0 ELSE IF Kid(o, c, "skin") # {} THEN Pick(Kid(o, c, "skin")) ELSE SkinOf(o, BaseOf(o, c))
(* the nodes that the skin's joints name, from the roots of the skeleton or in the whole scene *)
Joints(o, i) ==
  LET s == SkinOf(o, First(o[i].r.of))
      from == IF o[i].r.roots = <<>> THEN <<0>> ELSE o[i].r.roots
  IN IF s = 0 THEN <<>> ELSE FlattenSeq([n \in 1..(Len(o[s].f.joints) \div 2) |-> Find(o, from, o[s].f.joints[2 * n - 1])])
SavedVertex(q, joints) ==
  LET t == Total(q) p == [n \in 1..Len(q) |-> <<IF q[n][1] >= joints THEN -1 ELSE q[n][1], q[n][2]>>]
  IN IF t \in {0, 12} THEN p ELSE Scaled(p, t, 12)
SavedOne(o, x) ==
  LET named == IF "name" \in DOMAIN x.f /\ x.f.name = <<0>> THEN [x EXCEPT !.f.name = <<9>>] ELSE x
  IN IF x.k = "skin" THEN LET vs == Verts(x.f.infl) IN [x EXCEPT !.f.infl = Flat([i \in 1..Len(vs) |-> SavedVertex(vs[i], Len(x.f.joints) \div 2)])] ELSE named
RECURSIVE Rebased(_, _)
Rebased(o, S) == IF S = {} THEN o ELSE LET i == Pick(S) IN Rebased(TLCEval(SetBase(o, i, o[i].r.base)), S \ {i})
Saved(o) ==
  LET o1 == TLCEval([i \in 1..Len(o) |-> SavedOne(o, o[i])])
      o2 == TLCEval([i \in 1..Len(o) |-> IF o1[i].k = "inst" THEN [o1[i] EXCEPT !.r.joints = Joints(o1, i)] ELSE o1[i]])
      used == UNION {{o2[i].r.joints[n] : n \in 1..Len(o2[i].r.joints)} : i \in {i \in 1..Len(o) : o2[i].k = "inst"}}
      o3 == TLCEval([i \in 1..Len(o) |-> IF i \in used THEN [o2[i] EXCEPT !.f.joint = <<1>>] ELSE o2[i]])
  IN Norm(Rebased(o3, {i \in 1..Len(o) : o3[i].k = "morph" /\ o3[i].r.base # <<>>}))
Savable(o) == \A i \in 1..Len(o) : o[i].k = "skin" => \A n \in 1..Len(Verts(o[i].f.infl)) : LET q == Verts(o[i].f.infl)[n] IN Total(q) = 0 \/ Exact(q, Total(q), 12)
-----------------------------------------------------------------------------
Step(a) ==
  \/ a.op = "Make" /\ a.k \in {"skin", "morph"} /\ Len(st) < NMax /\ KindAt(st, a.p) = "controller"
       /\ To(LET o == Drop(st, Kid(st, a.p, "skin") \cup Kid(st, a.p, "morph")) IN Norm(Append(o, New(o, a.k, a.p))), a, 0)
  \/ (IF a.op = "Make" THEN a.k \notin {"skin", "morph", "target"} ELSE a.op # "Ref")
       \* sub ids are told apart in the scene
       /\ (IF a.op # "Set" THEN TRUE ELSE IF a.f = "sid" THEN \A i \in 1..Len(st) : st[i].k = "node" => st[i].f.sid # a.v \/ a.v = <<0>> ELSE TRUE) = TRUE
       /\ BaseStep(a, Effect)
  \/ a.op = "Ref" /\ KindAt(st, a.i) = a.k /\ (\A n \in 1..Len(a.j) : KindAt(st, a.j[n]) \in Refs(a.k)[a.f]) /\ a.f # "roots"
       /\ (IF a.f = "target" THEN SkinFits(st, a.i, a.j) = TRUE ELSE TRUE) /\ To(SetRef(st, a.i, a.f, a.j), a, 0)
  \/ a.op = "Target" /\ KindAt(st, a.i) = "morph" /\ KindAt(st, a.j) \in {"geo", "doc"} /\ Len(st) < NMax
       /\ LET yes == Fits(st, a.i, a.j) t == [New(st, "target", a.i) EXCEPT !.f.w = <<a.w>>, !.r.geom = IF a.j = 0 THEN <<>> ELSE <<a.j>>]
          IN To(IF yes THEN Norm(Append(st, t)) ELSE st, a, IF yes THEN 1 ELSE 0)
  \/ a.op = "Reduce" /\ KindAt(st, a.i) = "skin"
       /\ LET vs == Verts(st[a.i].f.infl) IN
            /\ (\A n \in 1..Len(vs) : Reducible(vs[n], a.n, a.w)) = TRUE
            /\ To([st EXCEPT ![a.i].f.infl = Flat([n \in 1..Len(vs) |-> Reduced(vs[n], a.n, a.w)])], a, 0)
  \/ a.op = "Roots" /\ KindAt(st, a.i) = "inst" /\ To([st EXCEPT ![a.i].r.roots = Roots(st, a.i)], a, 0)
  \/ a.op = "Base" /\ KindAt(st, a.i) = "controller" /\ To(st, a, Bottom(st, BaseOf(st, a.i), a.i))
  \/ a.op = "Again" /\ Savable(st) = TRUE /\ To(Saved(st), a, 0)
Acts == BaseActs \cup [op : {"Target"}, i : 1..NMax, j : 0..NMax, w : Weights] \cup {[op |-> "Reduce", i |-> i, n |-> r[1], w |-> r[2]] : i \in 1..NMax, r \in Reductions}
   \cup [op : {"Roots", "Base"}, i : 1..NMax]
OfKind(k) == {i \in 1..Len(st) : st[i].k = k}
LiveAll == Live \cup [op : {"Target"}, i : OfKind("morph"), j : {0} \cup OfKind("geo"), w : Weights] \cup [op : {"Roots"}, i : OfKind("inst")] \cup [op : {"Base"}, i : OfKind("controller")]
   \cup {[op |-> "Reduce", i |-> i, n |-> r[1], w |-> r[2]] : i \in OfKind("skin"), r \in Reductions}
-----------------------------------------------------------------------------
Stable == Savable(st) => LET o == TLCEval(Saved(st)) IN Savable(o) /\ Saved(o) = o
(* chains of controllers end *)
Chained == \A i \in OfKind("controller") : Bottom(st, i, 0)[1] \in {0} \cup OfKind("geo")
(* targets are similar to their base when they are added; each vertex keeps its joints, and its weights are one or none *)
Normal == Savable(st) => LET o == TLCEval(Saved(st)) IN
  \A i \in 1..Len(o) : o[i].k = "skin" => LET vs == Verts(o[i].f.infl) IN \A n \in 1..Len(vs) : Total(vs[n]) \in {0, 12}
=============================================================================
