--------------------------------- MODULE Anims ---------------------------------
(* The animation library: animations own sub-animations and channels, channels own curves; curves are    *)
(* bound to the single values of animatable parameters. A curve is known to everything it is bound to    *)
(* until it is released, and a value follows the first curve that is bound to it.                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Kind, NAnim, NChan, NCurve, NObj, Vals, Queries, MaxBind, D
VARIABLES st, act
(* kids : for the library (1) and animation a (a + 1) its sub-animations in order ; chans, curves : what  *)
(* each animation and channel owns, in order ; val, cur : for each live object the values and the curves  *)
Quals == CASE Kind = "float" -> <<"">>
           [] Kind = "vector2" -> <<".X", ".Y">>
           [] Kind = "vector3" -> <<".X", ".Y", ".Z">>
           [] Kind = "color3" -> <<".R", ".G", ".B">>
           [] Kind = "vector4" -> <<".X", ".Y", ".Z", ".W">>
           [] Kind = "color4" -> <<".R", ".G", ".B", ".A">>
           [] Kind = "rotation" -> <<".X", ".Y", ".Z", ".ANGLE">>
           [] Kind = "lookat" -> <<".POSITIONX", ".POSITIONY", ".POSITIONZ", ".TARGETX", ".TARGETY", ".TARGETZ", ".UPX", ".UPY", ".UPZ">>
           [] Kind = "skew" -> <<".ROTATEX", ".ROTATEY", ".ROTATEZ", ".AROUNDX", ".AROUNDY", ".AROUNDZ", ".ANGLE">>
           [] Kind = "matrix" -> <<"(0)(0)", "(1)(0)", "(2)(0)", "(3)(0)", "(0)(1)", "(1)(1)", "(2)(1)", "(3)(1)", "(0)(2)", "(1)(2)", "(2)(2)", "(3)(2)", "(0)(3)", "(1)(3)", "(2)(3)", "(3)(3)">>
Dims == Len(Quals)
Ds == {d \in D : d <= Dims}
Objs == 1..NObj
Init == st = [kids |-> [a \in 1..(NAnim + 1) |-> <<>>], chans |-> [a \in 1..NAnim |-> <<>>], curves |-> [c \in 1..NChan |-> <<>>],
              val |-> [o \in Objs |-> [d \in 1..Dims |-> d]], cur |-> [o \in Objs |-> [d \in 1..Dims |-> <<>>]], live |-> [o \in Objs |-> TRUE]]
        /\ act = [a |-> [op |-> "init"], r |-> "init"]

Flat(q) == FlattenSeq(q)
Anims(s) == ToSet(Flat(s.kids))
Chans(s) == ToSet(Flat(s.chans))
Curves(s) == ToSet(Flat(s.curves))
RECURSIVE Below(_, _)
Below(s, a) == <<a>> \o Flat([k \in 1..Len(s.kids[a + 1]) |-> Below(s, s.kids[a + 1][k])])
RECURSIVE CurvesOf(_, _)
CurvesOf(s, a) == Flat([k \in 1..Len(s.chans[a]) |-> s.curves[s.chans[a][k]]]) \o Flat([k \in 1..Len(s.kids[a + 1]) |-> CurvesOf(s, s.kids[a + 1][k])])
Free(S, n) == CHOOSE x \in 1..n : x \notin S /\ \A y \in 1..(x - 1) : y \in S
Drop(q, S) == SelectSeq(q, LAMBDA x : x \notin S)
NoCurves(s, S) == [s EXCEPT !.curves = [c \in DOMAIN @ |-> Drop(@[c], S)],
                            !.cur = [o \in DOMAIN @ |-> [d \in 1..Dims |-> Drop(@[o][d], S)]]]
NoChans(s, S) == [NoCurves(s, UNION {ToSet(s.curves[c]) : c \in S}) EXCEPT !.chans = [a \in DOMAIN @ |-> Drop(@[a], S)]]
NoAnims(s, S) == [NoChans(s, UNION {ToSet(s.chans[a]) : a \in S}) EXCEPT !.kids = [a \in DOMAIN @ |-> IF a > 1 /\ (a - 1) \in S THEN <<>> ELSE Drop(@[a], S)]]
First(o, d) == IF st.cur[o][d] = <<>> THEN st.val[o][d] ELSE 1000 + st.cur[o][d][1]
IsAnimated(s, o) == \E d \in 1..Dims : s.cur[o][d] # <<>>
(* a qualifier, or else an index in parentheses *)
Index(x) == CASE x = "(0)" -> 1 [] x = "(2)" -> 3 [] x = "(12)" -> 13 [] x = "[1]" -> 2 [] x = "(" -> 0 [] x = "(1" -> 0 [] OTHER -> 0
QualAt(x) == LET T == {d \in 1..Dims : Quals[d] = x} IN IF T # {} THEN CHOOSE d \in T : \A e \in T : d <= e ELSE IF Index(x) <= Dims THEN Index(x) ELSE 0
To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]
Multi(os) == IF \E k \in 1..Len(os) : IsAnimated(st, os[k]) THEN Flat([k \in 1..Len(os) |-> [d \in 1..Dims |-> First(os[k], d)]]) ELSE <<>>

Step(a) ==
  \/ a.op = "AddAnim" /\ (a.p = 0 \/ a.p \in Anims(st)) /\ Cardinality(Anims(st)) < NAnim
       /\ LET x == Free(Anims(st), NAnim) IN To([st EXCEPT !.kids[a.p + 1] = Append(@, x)], a, x)
  \/ a.op = "AddChan" /\ a.p \in Anims(st) /\ Cardinality(Chans(st)) < NChan
       /\ LET x == Free(Chans(st), NChan) IN To([st EXCEPT !.chans[a.p] = Append(@, x)], a, x)
  \/ a.op = "AddCurve" /\ a.p \in Chans(st) /\ Cardinality(Curves(st)) < NCurve
       /\ LET x == Free(Curves(st), NCurve) IN To([st EXCEPT !.curves[a.p] = Append(@, x)], a, x)
  \/ a.op = "KillAnim" /\ a.p \in Anims(st) /\ To(NoAnims(st, ToSet(Below(st, a.p))), a, 0)
  \/ a.op = "KillChan" /\ a.p \in Chans(st) /\ To(NoChans(st, {a.p}), a, 0)
  \/ a.op = "KillCurve" /\ a.p \in Curves(st) /\ To(NoCurves(st, {a.p}), a, 0)
  \/ a.op = "Bind" /\ st.live[a.o] /\ a.c \in Curves(st) /\ ~Contains(st.cur[a.o][a.d], a.c) /\ Len(st.cur[a.o][a.d]) < MaxBind
       /\ To([st EXCEPT !.cur[a.o][a.d] = Append(@, a.c)], a, TRUE)
  \/ a.op = "BindAll" /\ st.live[a.o] /\ st.cur[a.o][a.d] = <<>> /\ a.p \in Chans(st) /\ st.curves[a.p] # <<>>
       /\ To([st EXCEPT !.cur[a.o][a.d] = st.curves[a.p]], a, TRUE)
  \/ a.op = "Unbind" /\ st.live[a.o] /\ To([st EXCEPT !.cur[a.o][a.d] = <<>>], a, st.cur[a.o][a.d] # <<>>)
  \/ a.op = "Set" /\ st.live[a.o] /\ To([st EXCEPT !.val[a.o][a.d] = a.x], a, 0)
  \/ a.op = "Evaluate" /\ st.live[a.o] /\ To([st EXCEPT !.val[a.o] = [d \in 1..Dims |-> First(a.o, d)]], a, 0)
  \/ a.op = "CopyTo" /\ a.o # a.o2 /\ st.live[a.o] /\ st.live[a.o2] /\ To([st EXCEPT !.cur[a.o2] = st.cur[a.o]], a, 0)
  \/ a.op = "Release" /\ st.live[a.o] /\ To([st EXCEPT !.live[a.o] = FALSE, !.cur[a.o] = [d \in 1..Dims |-> <<>>], !.val[a.o] = [d \in 1..Dims |-> d]], a, 0)
  \/ a.op = "Again" /\ ~st.live[a.o] /\ To([st EXCEPT !.live[a.o] = TRUE], a, 0)
  \/ a.op = "Multi" /\ st.live[a.o] /\ To(st, a, Multi(<<a.o>>))
  \/ a.op = "MultiAll" /\ To(st, a, Multi(SelectSeq([k \in Objs |-> k], LAMBDA k : st.live[k])))
  \/ a.op = "Find" /\ st.live[a.o] /\ To(st, a, <<QualAt(a.q), IF QualAt(a.q) = 0 \/ st.cur[a.o][QualAt(a.q)] = <<>> THEN 0 ELSE st.cur[a.o][QualAt(a.q)][1]>>)
  \/ a.op = "CurvesOf" /\ a.p \in Anims(st) /\ To(st, a, CurvesOf(st, a.p))
Obs(s) == [kids |-> s.kids, chans |-> s.chans, curves |-> s.curves, val |-> s.val, cur |-> s.cur, any |-> [o \in DOMAIN s.cur |-> IsAnimated(s, o)]]
Acts == [op : {"AddAnim"}, p : 0..NAnim] \cup [op : {"AddChan", "KillAnim", "CurvesOf"}, p : 1..NAnim] \cup [op : {"AddCurve", "KillChan"}, p : 1..NChan]
   \cup [op : {"KillCurve"}, p : 1..NCurve] \cup [op : {"Bind"}, o : Objs, d : Ds, c : 1..NCurve] \cup [op : {"BindAll"}, o : Objs, d : Ds, p : 1..NChan]
   \cup [op : {"Unbind"}, o : Objs, d : Ds] \cup [op : {"Set"}, o : Objs, d : Ds, x : Vals] \cup [op : {"Evaluate", "Release", "Again", "Multi"}, o : Objs]
   \cup [op : {"CopyTo"}, o : Objs, o2 : Objs] \cup [op : {"MultiAll"}] \cup [op : {"Find"}, o : Objs, q : ToSet(Quals) \cup Queries]
-----------------------------------------------------------------------------
Bound(s) == UNION {ToSet(s.cur[o][d]) : o \in Objs, d \in 1..Dims}
OneOwner == /\ Len(Flat(st.kids)) = Cardinality(Anims(st)) /\ Len(Flat(st.chans)) = Cardinality(Chans(st)) /\ Len(Flat(st.curves)) = Cardinality(Curves(st))
            /\ \A a \in 1..NAnim : a \notin Anims(st) => st.kids[a + 1] = <<>> /\ st.chans[a] = <<>>
            /\ \A c \in 1..NChan : c \notin Chans(st) => st.curves[c] = <<>>
OnlyLiveCurves == Bound(st) \subseteq Curves(st)
AllReachable == Anims(st) = UNION {ToSet(Below(st, a)) : a \in ToSet(st.kids[1])}
=============================================================================
