------------------------------ MODULE UniqueMap ------------------------------
(* FUUniqueStringMap: the set of names in use.                                                       *)
EXTENDS Names, TLC
CONSTANTS Prefixes,  \* lengths of the prefixes used: "", "A", "AB"
          Zeros,     \* numbers of leading zeros
          Nums,      \* numbers used as suffixes; -1: none
          Max, MaxNum  \* bounds: names in use, number given to a name
VARIABLES st, act

Prefix(n) == IF n = 0 THEN <<>> ELSE IF n = 1 THEN <<65>> ELSE <<65, 66>>
Num(n) == IF n = -1 THEN <<>> ELSE IF n = -2 THEN Dec(429496729) \o <<53>> ELSE Dec(n)
Words == {Prefix(p) \o [k \in 1..z |-> 48] \o Num(n) : p \in Prefixes, z \in Zeros, n \in Nums} \ {<<>>}

Init == st = {} /\ act = [a |-> [op |-> "init"], r |-> <<>>]
Insert(a) == LET n == Fresh(a.w, st) IN Cardinality(st) < Max /\ (IF n \in Words THEN TRUE ELSE Suf(n) <= MaxNum) /\ st' = st \cup {n} /\ act' = [a |-> a, r |-> n]
Erase(a) == st' = st \ {a.w} /\ act' = [a |-> a, r |-> <<>>]
Contains(a) == st' = st /\ act' = [a |-> a, r |-> IF a.w \in st THEN <<1>> ELSE <<0>>]
Step(a) ==
  \/ a.op = "Insert" /\ Insert(a)
  \/ a.op = "Erase" /\ Erase(a)
  \/ a.op = "Contains" /\ Contains(a)
Acts == [op : {"Insert", "Erase", "Contains"}, w : Words \cup st]
Obs(s) == SortStr(s)
-----------------------------------------------------------------------------
(* a name handed out was not in use before and is in use afterwards; no other name is affected *)
HandsOutFresh == act'.a.op = "Insert" => act'.r \notin st /\ st' = st \cup {act'.r} /\ (act'.a.w \notin st => act'.r = act'.a.w)
Canonical == \A w \in st : w = Pre(w) \o (IF Suf(w) = -1 THEN <<>> ELSE Dec(Suf(w)))
=============================================================================
