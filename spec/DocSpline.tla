------------------------------ MODULE DocSpline ------------------------------
(* A geometry made of splines (linear, Bezier or NURBS) through saving and loading.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS NSpline, Points, MaxPoints, Weights, Knots, Counts, Degrees
VARIABLES st, act
(* st.t : the type of the splines (0: none yet, 1 linear, 2 Bezier, 3 NURBS), st.s : the splines in order,      *)
(* each [c : closed?, p : control points, w : weights, k : knots, g : degree] (the last three of NURBS only)    *)
New == [c |-> 0, p |-> <<>>, w |-> <<>>, k |-> <<>>, g |-> 0]
Init == st = [t |-> 0, s |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]
To(s, a, r) == st' = s /\ act' = [a |-> a, r |-> r]
Valid(x) == CASE st.t = 1 -> Len(x.p) >= 2 [] st.t = 2 -> Len(x.p) >= 1 [] st.t = 3 -> Len(x.p) >= 1 /\ Len(x.w) = Len(x.p) /\ Len(x.k) = Len(x.p) + x.g + 1 [] OTHER -> FALSE
Ready == st.t # 0 /\ st.s # <<>> /\ \A i \in DOMAIN st.s : Valid(st.s[i])
Step(a) ==
  \/ a.op = "Type" /\ To([t |-> a.t, s |-> IF a.t = st.t THEN st.s ELSE <<>>], a, 0)   \* another type drops the splines
  \/ a.op = "Add" /\ st.t # 0 /\ Len(st.s) < NSpline /\ To([st EXCEPT !.s = Append(@, IF st.t = 3 THEN [New EXCEPT !.g = a.g] ELSE New)], a, 0)
  \/ a.op = "Close" /\ a.i <= Len(st.s) /\ To([st EXCEPT !.s[a.i].c = a.c], a, 0)
  \/ a.op = "Point" /\ a.i <= Len(st.s) /\ Len(st.s[a.i].p) < MaxPoints
       /\ To([st EXCEPT !.s[a.i].p = Append(@, a.p), !.s[a.i].w = IF st.t = 3 THEN Append(@, a.w) ELSE @], a, 0)
  \* knots are added one by one, up to the number that the NURBS needs, or up to it at once
  \/ a.op = "Knot" /\ a.i <= Len(st.s) /\ st.t = 3
       /\ LET m == Len(st.s[a.i].p) + st.s[a.i].g + 1 - Len(st.s[a.i].k) IN
          m > 0 /\ To([st EXCEPT !.s[a.i].k = @ \o [j \in 1..(IF a.n = 0 THEN m ELSE 1) |-> a.k + j]], a, 0)
  \/ a.op = "Remove" /\ a.i <= Len(st.s) /\ To([st EXCEPT !.s = RemoveAt(@, a.i)], a, 0)
  \/ a.op = "Save" /\ Ready /\ To(st, a, 1)
  \/ a.op = "Again" /\ Ready /\ To(st, a, 0)   \* a spline geometry comes back exactly
Obs(s) == [t |-> s.t, s |-> s.s]
Acts == [op : {"Type"}, t : {1, 2, 3}] \cup [op : {"Add"}, g : Degrees] \cup [op : {"Close"}, i : 1..NSpline, c : {0, 1}]
   \cup [op : {"Point"}, i : 1..NSpline, p : Points, w : Weights] \cup [op : {"Knot"}, i : 1..NSpline, k : Knots, n : Counts] \cup [op : {"Remove"}, i : 1..NSpline] \cup [op : {"Save", "Again"}]
-----------------------------------------------------------------------------
Typed == st.t # 3 => \A i \in DOMAIN st.s : st.s[i].w = <<>> /\ st.s[i].k = <<>> /\ st.s[i].g = 0
Weighted == st.t = 3 => \A i \in DOMAIN st.s : Len(st.s[i].w) = Len(st.s[i].p) /\ Len(st.s[i].k) <= Len(st.s[i].p) + st.s[i].g + 1
=============================================================================
