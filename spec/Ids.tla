--------------------------------- MODULE Ids ---------------------------------
(* The COLLADA ids of the entities of one document. An id is given to an entity lazily, the first    *)
(* time it is asked for, and stays with it until it is changed, dropped or the entity is cloned.     *)
EXTENDS Names, TLC
CONSTANTS NEnt,      \* entity slots
          Kinds,     \* 1: geometry, 2: image, 3: scene node, 4: material
          Wanted,    \* indices in WantedIds
          MaxNum     \* bound on the numbers given to ids
VARIABLES st, act
(* st.e[i] = [k : kind (0: none), id, reg : whether the id is registered]; st.lib = order in the libraries *)

BaseId(k) == CASE k = 1 -> <<71, 101, 111, 109, 101, 116, 114, 121>>
               [] k = 2 -> <<73, 109, 97, 103, 101>>
               [] k = 3 -> <<86, 105, 115, 117, 97, 108, 83, 99, 101, 110, 101, 78, 111, 100, 101>>
               [] OTHER -> <<86, 105, 115, 117, 97, 108, 77, 97, 116, 101, 114, 105, 97, 108>>
WantedId(n) == CASE n = 1 -> <<65>> [] n = 2 -> <<65, 49>> [] n = 3 -> <<65, 48, 49>> [] n = 4 -> <<49, 66>>
                 [] n = 5 -> <<73, 109, 97, 103, 101>> [] n = 6 -> <<65, 58, 32, 46, 45, 233>> [] n = 7 -> <<71, 101, 111, 109, 101, 116, 114, 121, 50>>
                 [] n = 8 -> <<65, 46, 49>> [] OTHER -> <<95, 49>>
Clean(w) == [i \in 1..Len(w) |->
               IF IsAlpha(w[i]) THEN w[i]
               ELSE IF i > 1 /\ IsDigit(w[i]) THEN w[i]
               ELSE IF i > 1 /\ w[i] \in {45, 46} THEN w[i] ELSE 95]
None == [k |-> 0, id |-> <<>>, reg |-> FALSE]
E == 1..NEnt
Live(s) == {i \in E : s.e[i].k # 0}
Names(s) == {s.e[i].id : i \in {j \in Live(s) : s.e[j].reg}}

Init == st = [e |-> [i \in E |-> None], lib |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> <<>>]
Set(a, s, r) == (\A i \in E : Suf(s.e[i].id) <= MaxNum) /\ st' = s /\ act' = [a |-> a, r |-> r]

(* asking for the id of entity i *)
Ask(s, i) == IF s.e[i].reg THEN s ELSE [s EXCEPT !.e[i].id = Fresh(s.e[i].id, Names(s)), !.e[i].reg = TRUE]
Drop(s, i) == [s EXCEPT !.e[i].reg = FALSE]

Make(a) == st.e[a.i].k = 0 /\ Set(a, [st EXCEPT !.e[a.i] = [k |-> a.k, id |-> BaseId(a.k), reg |-> FALSE], !.lib = Append(@, a.i)], <<>>)
Release(a) == st.e[a.i].k # 0 /\ Set(a, [st EXCEPT !.e[a.i] = None, !.lib = SelectSeq(@, LAMBDA x : x # a.i)], <<>>)
GetId(a) == st.e[a.i].k # 0 /\ LET s == Ask(st, a.i) IN Set(a, s, s.e[a.i].id)
SetId(a) == st.e[a.i].k # 0
            /\ LET s == Ask([Drop(st, a.i) EXCEPT !.e[a.i].id = Clean(WantedId(a.n))], a.i) IN Set(a, s, s.e[a.i].id)
RemoveId(a) == st.e[a.i].k # 0 /\ Set(a, Drop(st, a.i), <<>>)
(* the clone takes over the id, neither entity keeps it registered *)
Clone(a) == st.e[a.i].k # 0 /\ st.e[a.j].k = st.e[a.i].k /\ a.i # a.j
            /\ Set(a, Drop([Drop(st, a.j) EXCEPT !.e[a.j].id = st.e[a.i].id], a.i), <<>>)
(* the entities of one kind, in the order of their library *)
OfKind(s, k) == SelectSeq(s.lib, LAMBDA x : s.e[x].k = k)
(* searching asks the entities for their ids, one after the other, until one matches *)
RECURSIVE Search(_, _, _)
Search(s, q, w) == IF q = <<>> THEN <<s, 0>>
                   ELSE LET t == Ask(s, Head(q)) IN IF t.e[Head(q)].id = w THEN <<t, Head(q)>> ELSE Search(t, Tail(q), w)
FindIn(a) == LET x == Search(st, OfKind(st, a.k), a.w) IN Set(a, x[1], <<x[2]>>)
FindAny(a) == LET x == Search(st, OfKind(st, 1) \o OfKind(st, 2) \o OfKind(st, 4) \o OfKind(st, 3), a.w) IN Set(a, x[1], <<x[2]>>)
IsTaken(a) == Set(a, st, <<IF a.w \in Names(st) THEN 1 ELSE 0>>)

Step(a) ==
  \/ a.op = "Make" /\ Make(a)
  \/ a.op = "Release" /\ Release(a)
  \/ a.op = "GetId" /\ GetId(a)
  \/ a.op = "SetId" /\ SetId(a)
  \/ a.op = "RemoveId" /\ RemoveId(a)
  \/ a.op = "Clone" /\ Clone(a)
  \/ a.op = "FindIn" /\ FindIn(a)
  \/ a.op = "FindAny" /\ FindAny(a)
  \/ a.op = "IsTaken" /\ IsTaken(a)
Ws == {Clean(WantedId(n)) : n \in Wanted} \cup {BaseId(k) : k \in Kinds} \cup {st.e[i].id : i \in Live(st)}
Acts == [op : {"Make"}, i : E, k : Kinds] \cup [op : {"Release", "GetId", "RemoveId"}, i : E]
        \cup [op : {"SetId"}, i : E, n : Wanted] \cup [op : {"Clone"}, i : E, j : E]
        \cup [op : {"FindIn"}, k : Kinds, w : Ws] \cup [op : {"FindAny", "IsTaken"}, w : Ws]
(* The names in use. Asking an entity for its id may register it, so the ids are results of GetId  *)
(* and SetId; the driver asks again after every operation as long as the id must be unchanged.     *)
Obs(s) == SortStr(Names(s))
-----------------------------------------------------------------------------
IdsDistinct == \A i, j \in Live(st) : i # j /\ st.e[i].reg /\ st.e[j].reg => st.e[i].id # st.e[j].id
IdsClean == \A i \in Live(st) : st.e[i].id # <<>> /\ Clean(st.e[i].id) = st.e[i].id
(* a registered id changes only when it is set, removed, cloned or released *)
IdStable == \A i \in E : st.e[i].reg /\ ~(act'.a.op \in {"SetId", "RemoveId", "Release", "Clone"}) => st'.e[i] = st.e[i]
OthersKeep == act'.a.op \in {"SetId", "RemoveId", "Release"} => \A i \in E : i # act'.a.i => st'.e[i] = st.e[i]
=============================================================================
