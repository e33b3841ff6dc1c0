-------------------------------- MODULE Tree --------------------------------
(* The ordered associative containers fm::tree / fm::map / fm::set. What a user sees is a finite    *)
(* map; the balanced search tree inside it is part of the state only so that every operation is      *)
(* explored on every shape of tree that operations can produce.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS NTree, Keys, Vals, MaxSize
VARIABLES st, act
(* a tree is <<>> or <<left, key, value, right>> *)

Init == st = [i \in 1..NTree |-> <<>>] /\ act = [a |-> [op |-> "init"], r |-> "init"]

RECURSIVE H(_)
H(t) == IF t = <<>> THEN 0 ELSE LET l == H(t[1]) r == H(t[4]) IN 1 + (IF l > r THEN l ELSE r)
W(t) == H(t[4]) - H(t[1])
RotL(t) == LET r == t[4] IN << <<t[1], t[2], t[3], r[1]>>, r[2], r[3], r[4]>>
RotR(t) == LET l == t[1] IN <<l[1], l[2], l[3], <<l[4], t[2], t[3], t[4]>> >>
Bal(t) == IF W(t) > 1 THEN RotL(IF W(t[4]) < 0 THEN <<t[1], t[2], t[3], RotR(t[4])>> ELSE t)
          ELSE IF W(t) < -1 THEN RotR(IF W(t[1]) > 0 THEN <<RotL(t[1]), t[2], t[3], t[4]>> ELSE t)
          ELSE t
RECURSIVE InsT(_, _, _)
InsT(t, k, v) == IF t = <<>> THEN << <<>>, k, v, <<>> >>
                 ELSE IF k = t[2] THEN <<t[1], k, v, t[4]>>
                 ELSE IF k < t[2] THEN Bal(<<InsT(t[1], k, v), t[2], t[3], t[4]>>)
                 ELSE Bal(<<t[1], t[2], t[3], InsT(t[4], k, v)>>)
RECURSIVE MaxT(_)
MaxT(t) == IF t[4] = <<>> THEN <<t[2], t[3]>> ELSE MaxT(t[4])
RECURSIVE MinT(_)
MinT(t) == IF t[1] = <<>> THEN <<t[2], t[3]>> ELSE MinT(t[1])
RECURSIVE DelT(_, _)
DelT(t, k) == IF t = <<>> THEN <<>>
              ELSE IF k < t[2] THEN Bal(<<DelT(t[1], k), t[2], t[3], t[4]>>)
              ELSE IF k > t[2] THEN Bal(<<t[1], t[2], t[3], DelT(t[4], k)>>)
              ELSE IF t[1] = <<>> /\ t[4] = <<>> THEN <<>>
              ELSE IF W(t) <= 0 /\ t[1] # <<>> THEN LET m == MaxT(t[1]) IN Bal(<<DelT(t[1], m[1]), m[1], m[2], t[4]>>)
              ELSE LET m == MinT(t[4]) IN Bal(<<t[1], m[1], m[2], DelT(t[4], m[1])>>)
RECURSIVE Flat(_)
Flat(t) == IF t = <<>> THEN <<>> ELSE Flat(t[1]) \o << <<t[2], t[3]>> >> \o Flat(t[4])
Get(t, k) == LET s == SelectSeq(Flat(t), LAMBDA x : x[1] = k) IN IF s = <<>> THEN -1 ELSE s[1][2]

Set(a, i, t, r) == Len(Flat(t)) <= MaxSize /\ st' = [st EXCEPT ![i] = t] /\ act' = [a |-> a, r |-> r]
Same(a, r) == st' = st /\ act' = [a |-> a, r |-> r]

Insert(a) == Set(a, a.i, InsT(st[a.i], a.k, a.v), <<a.k, a.v>>)
Put(a) == Set(a, a.i, InsT(st[a.i], a.k, a.v), 0)
(* reading an absent key creates it with the default value *)
Touch(a) == LET g == Get(st[a.i], a.k) IN IF g = -1 THEN Set(a, a.i, InsT(st[a.i], a.k, 0), 0) ELSE Same(a, g)
Erase(a) == Set(a, a.i, DelT(st[a.i], a.k), 0)
EraseIt(a) == Get(st[a.i], a.k) # -1 /\ Set(a, a.i, DelT(st[a.i], a.k), 0)
Find(a) == Same(a, Get(st[a.i], a.k))
Clear(a) == Set(a, a.i, <<>>, 0)
Assign(a) == Set(a, a.i, st[a.j], 0)
Copy(a) == a.i # a.j /\ Set(a, a.i, st[a.j], 0)
Last(a) == st[a.i] # <<>> /\ Same(a, MaxT(st[a.i]))

Step(a) ==
  \/ a.op = "Insert" /\ Insert(a)
  \/ a.op = "Put" /\ Put(a)
  \/ a.op = "Touch" /\ Touch(a)
  \/ a.op = "Erase" /\ Erase(a)
  \/ a.op = "EraseIt" /\ EraseIt(a)
  \/ a.op = "Find" /\ Find(a)
  \/ a.op = "Clear" /\ Clear(a)
  \/ a.op = "Assign" /\ Assign(a)
  \/ a.op = "Copy" /\ Copy(a)
  \/ a.op = "Last" /\ Last(a)
I == 1..NTree
Acts == [op : {"Insert", "Put"}, i : I, k : Keys, v : Vals]
        \cup [op : {"Touch", "Erase", "EraseIt", "Find"}, i : I, k : Keys]
        \cup [op : {"Clear", "Last"}, i : I]
        \cup [op : {"Assign", "Copy"}, i : I, j : I]
Obs(s) == [i \in I |-> Flat(s[i])]
-----------------------------------------------------------------------------
RECURSIVE Balanced(_)
Balanced(t) == t = <<>> \/ (W(t) \in -1..1 /\ Balanced(t[1]) /\ Balanced(t[4]))
AllBalanced == \A i \in I : Balanced(st[i])
Ordered == \A i \in I : LET s == Flat(st[i]) IN \A k \in 1..(Len(s) - 1) : s[k][1] < s[k + 1][1]
(* the map is changed at the key of the operation only *)
OnlyKey == act'.a.op \in {"Insert", "Put", "Touch", "Erase", "EraseIt"} =>
   /\ \A k \in Keys : k # act'.a.k => Get(st'[act'.a.i], k) = Get(st[act'.a.i], k)
   /\ \A j \in I : j # act'.a.i => st'[j] = st[j]
   /\ Get(st'[act'.a.i], act'.a.k) = (CASE act'.a.op \in {"Insert", "Put"} -> act'.a.v
                                        [] act'.a.op = "Touch" -> (IF Get(st[act'.a.i], act'.a.k) = -1 THEN 0 ELSE Get(st[act'.a.i], act'.a.k))
                                        [] OTHER -> -1)
=============================================================================
