--------------------------------- MODULE Nest ---------------------------------
(* Objects of several kinds that own one another, with fields and references, as a sequence in the    *)
(* order in which they are found in their document: an object comes before the ones it owns, kinds     *)
(* in the order of KindSeq and objects of one kind in the order of their creation.                     *)
(* Field values are lists of integers, references lists of indices of objects.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS KindSeq, Kinds, Parents, Single, Default, Vals, RefTo, RefLen, Lists, NMax, Numbered
VARIABLES st, act
(* st[i] = [k : kind, p : index of the owner (0: the document), f : field -> list, r : reference -> list] *)
Init == st = <<>> /\ act = [a |-> [op |-> "init"], r |-> "init"]
To(s2, a, r) == st' = TLCEval(s2) /\ act' = [a |-> a, r |-> r]
Min2(a, b) == IF a < b THEN a ELSE b

RECURSIVE Below(_, _)
Below(o, p) == FlattenSeq([n \in 1..Len(KindSeq) |->
  LET is == SelectSeq([i \in 1..Len(o) |-> i], LAMBDA i : o[i].p = p /\ o[i].k = KindSeq[n])
  IN FlattenSeq([m \in 1..Len(is) |-> <<is[m]>> \o Below(o, is[m])])])
(* in the order of the document; objects whose owner is -1, and what they own, are gone, with the references to them *)
Norm(o) ==
  LET perm == TLCEval(Below(o, 0))
      new(i) == IF i = 0 THEN 0 ELSE IF \E n \in 1..Len(perm) : perm[n] = i THEN CHOOSE n \in 1..Len(perm) : perm[n] = i ELSE 0
      map(q) == SelectSeq([n \in 1..Len(q) |-> new(q[n])], LAMBDA j : j # 0)
  IN [n \in 1..Len(perm) |-> LET x == o[perm[n]] IN [x EXCEPT !.p = new(x.p), !.r = [y \in DOMAIN x.r |-> map(x.r[y])]]]
KindAt(o, i) == IF i = 0 THEN "doc" ELSE IF i > Len(o) THEN "none" ELSE o[i].k
Refs(k) == IF k \in DOMAIN RefTo THEN RefTo[k] ELSE [x \in {} |-> {}]
(* numbered objects get the first free number as a name *)
Number(o) == CHOOSE n \in 1..(Len(o) + 1) : \A m \in 1..(Len(o) + 1) :
  LET free(z) == \A i \in 1..Len(o) : o[i].k \in Numbered => o[i].f.num # <<z>> IN free(n) /\ (free(m) => n <= m)
New(o, k, p) == [k |-> k, p |-> p, r |-> [x \in DOMAIN Refs(k) |-> <<>>],
                 f |-> IF k \in Numbered THEN [Default[k] EXCEPT !.num = <<Number(o)>>, !.gen = IF KindAt(o, p) = "material" THEN <<2>> ELSE <<1>>] ELSE Default[k]]
Gone(o, S) == Norm([i \in 1..Len(o) |-> IF i \in S THEN [o[i] EXCEPT !.p = -1] ELSE o[i]])

BaseStep(a, Effect(_, _, _, _)) ==
  \/ a.op = "Make" /\ Len(st) < NMax /\ KindAt(st, a.p) \in Parents[a.k]
       /\ (IF a.k \in Single THEN \A i \in 1..Len(st) : ~(st[i].p = a.p /\ st[i].k = a.k) ELSE TRUE)
       /\ To(Norm(Append(st, New(st, a.k, a.p))), a, 0)
  \/ a.op = "Set" /\ KindAt(st, a.i) = a.k /\ To([st EXCEPT ![a.i].f = Effect(a.k, @, a.f, a.v)], a, 0)
  \/ a.op = "Ref" /\ KindAt(st, a.i) = a.k /\ (\A n \in 1..Len(a.j) : KindAt(st, a.j[n]) \in Refs(a.k)[a.f])
       /\ To([st EXCEPT ![a.i].r[a.f] = a.j], a, 0)
  \/ a.op = "Release" /\ a.i <= Len(st) /\ To(Gone(st, {a.i}), a, 0)
  \/ a.op = "Save" /\ To(st, a, 1)   \* saving changes nothing: twice in a row gives the same file
Few(x, S) == UNION {[1..n -> S] : n \in 0..(IF x \in Lists THEN RefLen ELSE 1)}
BaseActs == [op : {"Make"}, k : Kinds, p : 0..(NMax - 1)] \cup [op : {"Release"}, i : 1..NMax] \cup [op : {"Save", "Again"}]
   \cup UNION {UNION {[op : {"Set"}, i : 1..NMax, k : {k}, f : {x}, v : Vals[k][x]] : x \in DOMAIN Vals[k]} : k \in Kinds \cap DOMAIN Vals}
   \cup UNION {UNION {[op : {"Ref"}, i : 1..NMax, k : {k}, f : {x}, j : {q \in Few(x, 1..NMax) : \A m, n \in DOMAIN q : q[m] = q[n] => m = n}] : x \in DOMAIN Refs(k)} : k \in Kinds \cap DOMAIN RefTo}
(* the acts that are about the objects that there are *)
Live == {[op |-> "Save"], [op |-> "Again"]} \cup {[op |-> "Release", i |-> i] : i \in 1..Len(st)}
   \cup UNION {{[op |-> "Make", k |-> k, p |-> p] : k \in {x \in Kinds : KindAt(st, p) \in Parents[x]}} : p \in 0..Len(st)}
   \cup UNION {LET k == st[i].k IN IF k \in DOMAIN Vals THEN UNION {{[op |-> "Set", i |-> i, k |-> k, f |-> x, v |-> v] : v \in Vals[k][x]} : x \in DOMAIN Vals[k]} ELSE {} : i \in 1..Len(st)}
   \cup UNION {LET k == st[i].k IN UNION {{[op |-> "Ref", i |-> i, k |-> k, f |-> x, j |-> q] : q \in {q \in Few(x, {c \in 1..Len(st) : st[c].k \in Refs(k)[x]}) : \A m, n \in DOMAIN q : q[m] = q[n] => m = n}} : x \in DOMAIN Refs(k)} : i \in 1..Len(st)}
Obs(s) == [i \in 1..Len(s) |-> IF DOMAIN s[i].r = {} THEN [k |-> s[i].k, p |-> s[i].p, f |-> s[i].f] ELSE s[i]]
-----------------------------------------------------------------------------
(* owners and references are live objects of the kinds that they may be *)
WellFormed == \A i \in 1..Len(st) : st[i].p < i /\ KindAt(st, st[i].p) \in Parents[st[i].k]
  /\ \A x \in DOMAIN st[i].r : \A n \in 1..Len(st[i].r[x]) : KindAt(st, st[i].r[x][n]) \in Refs(st[i].k)[x]
InOrder == Norm(st) = st
=============================================================================
