------------------------------ MODULE DocAnim ------------------------------
(* The animations of a document through saving and loading: a forest of animations whose channels     *)
(* hold the curves of the animated values of the document, drivers, infinities, and clips.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NAnim, Par, Kinds, Dims, Shapes, Groups, Vals, NClip, Infs
VARIABLES st, act
(* Par[i]: the parent of animation i (0: none) ; Dims[t]: number of values of target t ; Kinds[t]: what it animates *)
(* Shapes: <<[k |-> keys <<t, v, kind>>, pre, post]>> ; kinds 1 step, 2 linear, 3 bezier, 4 TCB        *)
(* st.c[t][d] = the curve of a value: [a : animation (0: none), g : channel, k : keys, pre, post, drv : <<t, d>> or <<>>] *)
(* a key [t, v, k, f] : f = 1 when its bezier tangents are flat, a third of the way to the next keys   *)
T == 1..Len(Dims)
D(t) == 1..Dims[t]
A == 1..NAnim
J == 1..NClip
None == [a |-> 0, g |-> 0, k |-> <<>>, pre |-> 0, post |-> 0, drv |-> <<>>]
(* array elements and extra data, which some numbers of a light are, do not drive *)
Undriving == {8, 14, 15, 16, 17, 20, 22}
Base(t, d) == 10 * t + d
Init == st = [c |-> [t \in T |-> [d \in D(t) |-> None]], v |-> [t \in T |-> [d \in D(t) |-> Base(t, d)]],
              x |-> [i \in A |-> 0], clip |-> [j \in J |-> [s |-> 0, e |-> 0, inst |-> <<>>, cur |-> <<>>]], fresh |-> TRUE]
        /\ act = [a |-> [op |-> "init"], r |-> "init"]
To(s, a, r) == st' = s /\ act' = [a |-> a, r |-> r]
Live(s, t, d) == s.c[t][d].a # 0
Keys(q) == [i \in 1..Len(q) |-> [t |-> q[i][1], v |-> q[i][2], k |-> q[i][3], f |-> 0]]

(* the curves of one channel are saved together when their keys are at the same times, with the same    *)
(* interpolations and infinities; the other values then get a constant curve                           *)
Channels(s, t) == {<<s.c[t][d].a, s.c[t][d].g>> : d \in {d \in D(t) : Live(s, t, d)}}
Of(s, t, ch) == {d \in D(t) : Live(s, t, d) /\ <<s.c[t][d].a, s.c[t][d].g>> = ch}
Same(x, y) == /\ Len(x.k) = Len(y.k) /\ x.pre = y.pre /\ x.post = y.post
              /\ \A i \in 1..Len(x.k) : x.k[i].t = y.k[i].t /\ x.k[i].k = y.k[i].k /\ x.k[i].k # 4
Merged(s, t, ch) == LET o == Of(s, t, ch) IN
  /\ Cardinality(o) > 1
  /\ \A d \in D(t) : Live(s, t, d) => d \in o
  /\ LET x == s.c[t][CHOOSE d \in o : TRUE] IN \A e \in o : Same(x, s.c[t][e]) /\ s.c[t][e].drv = <<>>
Const(x, v) == [x EXCEPT !.k = [i \in 1..Len(x.k) |-> [x.k[i] EXCEPT !.v = v, !.f = IF x.k[i].k = 3 THEN 1 ELSE 0]]]
LoadCurves(s, t) ==
  LET m == {ch \in Channels(s, t) : Merged(s, t, ch)}
      o == Of(s, t, CHOOSE ch \in m : TRUE)
      y == s.c[t][CHOOSE e \in o : TRUE]
      alive == \E d \in D(t) : Live(s, t, d)
  IN IF ~alive THEN s.c[t] ELSE IF m # {} THEN [d \in D(t) |-> IF d \in o THEN s.c[t][d] ELSE Const(y, s.v[t][d])]
     ELSE [d \in D(t) |-> IF Live(s, t, d) THEN [s.c[t][d] EXCEPT !.g = 10 + d] ELSE None]
(* a clip is saved with the animations it instantiates and those of its curves *)
RECURSIVE Add(_, _)
Add(q, r) == IF r = <<>> THEN q ELSE Add(IF \E i \in 1..Len(q) : q[i][1] = Head(r)[1] THEN q ELSE Append(q, Head(r)), Tail(r))
CurveInst(s, c) == [i \in 1..Len(c.cur) |-> <<s.c[c.cur[i][1]][c.cur[i][2]].a, 0>>]
Loaded(s) == TLCEval([s EXCEPT !.fresh = FALSE, !.c = [t \in T |-> LoadCurves(s, t)],
                       !.clip = [j \in J |-> [s.clip[j] EXCEPT !.inst = Add(@, CurveInst(s, s.clip[j])), !.cur = <<>>]]])

Kill(s, P(_, _)) == [s EXCEPT !.c = [t \in T |-> [d \in D(t) |-> IF P(t, d) THEN None ELSE s.c[t][d]]],
                              !.clip = [j \in J |-> [s.clip[j] EXCEPT !.cur = SelectSeq(@, LAMBDA y : ~P(y[1], y[2]))]]]
InClip(s, j, t, d) == \E i \in 1..Len(s.clip[j].cur) : s.clip[j].cur[i] = <<t, d>>
Step(a) ==
  \/ a.op = "Curve" /\ st.fresh /\ a.d <= Dims[a.t] /\ ~Live(st, a.t, a.d)
       /\ To([st EXCEPT !.c[a.t][a.d] = [a |-> a.i, g |-> a.g, k |-> Keys(a.k), pre |-> a.pre, post |-> a.post, drv |-> <<>>]], a, 0)
  \/ a.op = "Uncurve" /\ a.d <= Dims[a.t] /\ Live(st, a.t, a.d) /\ To(Kill(st, LAMBDA t, d : t = a.t /\ d = a.d), a, 0)
  \/ a.op = "Inf" /\ a.d <= Dims[a.t] /\ Live(st, a.t, a.d) /\ st.c[a.t][a.d].k # <<>> /\ To([st EXCEPT !.c[a.t][a.d].pre = a.pre, !.c[a.t][a.d].post = a.post], a, 0)
  \/ a.op = "Val" /\ a.d <= Dims[a.t] /\ Kinds[a.t] \notin {6, 21} /\ To([st EXCEPT !.v[a.t][a.d] = a.v], a, 0)
  (* a curve may take its input from another animated value *)
  \/ a.op = "Drive" /\ a.d <= Dims[a.t] /\ a.d2 <= Dims[a.t2] /\ Live(st, a.t, a.d) /\ a.t # a.t2 /\ Kinds[a.t2] \notin Undriving /\ To([st EXCEPT !.c[a.t][a.d].drv = <<a.t2, a.d2>>], a, 0)
  \/ a.op = "Undrive" /\ a.d <= Dims[a.t] /\ Live(st, a.t, a.d) /\ To([st EXCEPT !.c[a.t][a.d].drv = <<>>], a, 0)
  \/ a.op = "Extra" /\ To([st EXCEPT !.x[a.i] = a.v], a, 0)
  \/ a.op = "ClipTime" /\ To([st EXCEPT !.clip[a.j].s = a.s, !.clip[a.j].e = a.e], a, 0)
  \/ a.op = "ClipCurve" /\ a.d <= Dims[a.t] /\ Live(st, a.t, a.d) /\ ~InClip(st, a.j, a.t, a.d) /\ To([st EXCEPT !.clip[a.j].cur = Append(@, <<a.t, a.d>>)], a, 0)
  \/ a.op = "ClipInst" /\ (\A k \in 1..Len(st.clip[a.j].inst) : st.clip[a.j].inst[k][1] # a.i) /\ To([st EXCEPT !.clip[a.j].inst = Append(@, <<a.i, a.n>>)], a, 0)
  \/ a.op = "Save" /\ To(st, a, 1)
  \/ a.op = "Again" /\ To(Loaded(st), a, 0)
MaxD == CHOOSE n \in {Dims[t] : t \in T} : \A t \in T : Dims[t] <= n
Acts == UNION {[op : {"Curve"}, t : T, d : 1..MaxD, k : {h.k}, pre : {h.pre}, post : {h.post}, i : A, g : Groups] : h \in ToSet(Shapes)} \cup [op : {"Uncurve", "Undrive"}, t : T, d : 1..MaxD]
   \cup [op : {"Inf"}, t : T, d : 1..MaxD, pre : Infs, post : Infs] \cup [op : {"Val"}, t : T, d : 1..MaxD, v : Vals]
   \cup [op : {"Drive"}, t : T, d : 1..MaxD, t2 : T, d2 : 1..MaxD]
   \cup [op : {"Extra"}, i : A, v : {0, 1}] \cup [op : {"ClipTime"}, j : J, s : {0, 2}, e : {5, 9}] \cup [op : {"ClipCurve"}, j : J, t : T, d : 1..MaxD]
   \cup [op : {"ClipInst"}, j : J, i : A, n : {0, 1}] \cup [op : {"Save", "Again"}]
Key(x) == <<x.t, x.v, x.k, x.f>>
Obs(s) == [c |-> [t \in T |-> [d \in D(t) |-> LET x == s.c[t][d] IN IF x.a = 0 THEN <<>> ELSE <<x.a, [i \in 1..Len(x.k) |-> Key(x.k[i])], x.pre, x.post, x.drv>>]],
           v |-> s.v, x |-> s.x,
           clip |-> [j \in J |-> <<s.clip[j].s, s.clip[j].e, s.clip[j].inst, s.clip[j].cur>>]]
-----------------------------------------------------------------------------
(* every curve is kept on its value, in its animation; a value without one gets at most a constant one; *)
(* loading a second time changes nothing more                                                          *)
Kept == LET s == Loaded(st) IN
  /\ \A t \in T : \A d \in D(t) : Live(st, t, d) => [s.c[t][d] EXCEPT !.g = 0] = [st.c[t][d] EXCEPT !.g = 0]
  /\ \A t \in T : \A d \in D(t) : ~Live(st, t, d) /\ Live(s, t, d) => \A i \in 1..Len(s.c[t][d].k) : s.c[t][d].k[i].v = st.v[t][d]
  /\ s.v = st.v /\ Loaded(s) = s
=============================================================================
