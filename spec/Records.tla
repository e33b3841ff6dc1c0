------------------------------- MODULE Records -------------------------------
(* Entities of a document (lights, cameras, images, force fields, emitters, the asset information    *)
(* of the document, its scene settings), each with its fields, through edits, releases, and saving    *)
(* and loading.  Every field value is a list of integers: numbers in quarters, strings as indices     *)
(* into a table of the driver (0 is the empty string).                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt
CONSTANTS Kinds, NObj, Default, Vals, Lib
VARIABLES st, act
(* st.o[i] : entity i, as [k : kind, f : field -> value], or k = "none"                               *)
(* st.q    : the entities in the order of their creation                                              *)
Objs == 1..NObj
None == [k |-> "none", f |-> [name |-> <<0>>]]
Init == st = [o |-> [i \in Objs |-> None], q |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]
Live == {i \in Objs : st.o[i].k # "none"}
Is(k, S) == k \in S

(* strings: 2 is not a valid name and cleaned up into 3; 9 means "the same as the id" *)
Clean(v) == IF v = <<2>> THEN <<3>> ELSE v
(* what setting a field does *)
Effect(k, f, x, v) ==
  IF x = "name" THEN [f EXCEPT !.name = Clean(v)]
  ELSE IF k \in {"persp", "ortho"} /\ x = "viewX"
       THEN [f EXCEPT !.viewX = v, !.hasX = <<1>>, !.aspect = IF f.hasY = <<1>> THEN <<(4 * v[1]) \div f.viewY[1]>> ELSE @]
  ELSE IF k \in {"persp", "ortho"} /\ x = "viewY"
       THEN [f EXCEPT !.viewY = v, !.hasY = <<1>>, !.aspect = IF f.hasX = <<1>> THEN <<(4 * f.viewX[1]) \div v[1]>> ELSE @]
  ELSE [f EXCEPT ![x] = v]
(* the fields that the COLLADA element of a light does not have *)
Lost(k) == CASE k = "point" -> {"falloffAngle", "falloffExp", "outer", "dropoff"}
             [] k = "directional" -> {"dropoff"}
             [] k = "ambient" -> {"const", "lin", "quad", "falloffAngle", "falloffExp", "outer", "dropoff"}
             [] OTHER -> {}
(* contributors without any information are not written *)
Group(v) == [i \in 1..(Len(v) \div 4) |-> SubSeq(v, 4 * i - 3, 4 * i)]
Contributors(v) == FlattenSeq(SelectSeq(Group(v), LAMBDA c : c # <<0, 0, 0, 0>>))
(* what remains of an entity that is saved and loaded *)
Saved(k, f) ==
  LET g == IF "name" \in DOMAIN f /\ f.name = <<0>> THEN [f EXCEPT !.name = <<9>>] ELSE f
      h == [x \in DOMAIN g |-> IF x \in Lost(k) THEN Default[k][x] ELSE g[x]]
  IN IF k \in {"persp", "ortho"} THEN
        \* the vertical view is written unless there is only a horizontal one, the aspect ratio when one of them is missing
        LET y == h.hasX = <<0>> \/ h.hasY = <<1>> both == h.hasX = <<1>> /\ h.hasY = <<1>> IN
        [h EXCEPT !.viewX = IF h.hasX = <<1>> THEN @ ELSE Default[k].viewX, !.viewY = IF y THEN @ ELSE Default[k].viewY, !.hasY = IF y THEN <<1>> ELSE <<0>>,
                  !.aspect = IF both THEN <<(4 * h.viewX[1]) \div h.viewY[1]>> ELSE @]
     ELSE IF k \in {"asset", "owned"} THEN [h EXCEPT !.contrib = Contributors(@), !.unitName = IF h.unit[1] = 0 THEN Default[k].unitName ELSE @]
     ELSE h
To(s2, a, r) == st' = s2 /\ act' = [a |-> a, r |-> r]

Step(a) ==
  \/ a.op = "Make" /\ st.o[a.i].k = "none" /\ (IF a.k \in {"asset", "scene"} THEN \A j \in Objs : st.o[j].k # a.k ELSE TRUE)
       /\ To([st EXCEPT !.o[a.i] = [k |-> a.k, f |-> Default[a.k]], !.q = Append(@, a.i)], a, 0)
  \/ a.op = "Set" /\ st.o[a.i].k = a.k /\ To([st EXCEPT !.o[a.i].f = Effect(a.k, @, a.f, a.v)], a, 0)
  \/ a.op = "Release" /\ st.o[a.i].k \notin {"none", "asset", "scene"} /\ To([st EXCEPT !.o[a.i] = None, !.q = SelectSeq(@, LAMBDA j : j # a.i)], a, 0)
  \/ a.op = "Save" /\ To(st, a, 1)   \* saving changes nothing: twice in a row gives the same file
  \/ a.op = "Again" /\ To([st EXCEPT !.o = [i \in Objs |-> IF st.o[i].k = "none" THEN None ELSE [k |-> st.o[i].k, f |-> Saved(st.o[i].k, st.o[i].f)]]], a, 0)
Libs == {Lib[k] : k \in DOMAIN Lib}
Obs(s) == [o |-> [i \in DOMAIN s.o |-> IF s.o[i].k = "none" THEN [k |-> "none"] ELSE [k |-> s.o[i].k, f |-> s.o[i].f]],
           q |-> [l \in Libs |-> SelectSeq(s.q, LAMBDA i : Lib[s.o[i].k] = l)]]
Acts == [op : {"Make"}, i : Objs, k : Kinds] \cup [op : {"Release"}, i : Objs] \cup [op : {"Save", "Again"}]
   \cup UNION {UNION {[op : {"Set"}, i : Objs, k : {k}, f : {x}, v : Vals[k][x]] : x \in DOMAIN Vals[k]} : k \in Kinds}
-----------------------------------------------------------------------------
(* saving and loading a second time changes nothing more *)
Stable == \A i \in Live : LET k == st.o[i].k f == Saved(k, st.o[i].f) IN Saved(k, f) = f
(* what an entity of its kind can have is kept *)
Kept == \A i \in Live : LET k == st.o[i].k f == st.o[i].f IN
  \A x \in DOMAIN f \ ({"name", "viewX", "viewY", "hasY", "aspect", "contrib", "unitName"} \cup Lost(k)) : Saved(k, f)[x] = f[x]
Queued == ToSet(st.q) = Live /\ Len(st.q) = Cardinality(Live)
=============================================================================
