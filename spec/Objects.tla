------------------------------ MODULE Objects ------------------------------
(* The object kernel of FCollada (FUtils/FUObject.h, FUtils/FUTracker.h).               *)
(* Objects are owned by at most one owner: a container (FUObjectContainer; every object *)
(* carries one, and container 0 belongs to nobody) or a reference (FUObjectRef).        *)
(* They may be weakly tracked by pointers (FUTrackedPtr) and lists (FUTrackedList).     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS NObj,   \* objects
          NCont,  \* containers 0..NCont, container k > 0 is carried by object k
          NRef,   \* references
          NPtr,   \* tracked pointers
          NList,  \* tracked lists
          NHold   \* references carried by an object: ref NRef+k is carried by object k, k in 1..NHold

Obj == 1..NObj
ObjOr0 == 0..NObj
ContIds == 0..NCont
Refs == 1..(NRef + NHold)

VARIABLES st, act

(* st.alive : Obj -> BOOLEAN; st.cont : sequence, cont[c+1] the content of container c  *)
(* st.ref : sequence of ObjOr0; st.ptr : sequence of ObjOr0; st.lst : sequence of lists *)
(* st.dead : how many times each object was destroyed (modulo its re-creations)         *)

Init == /\ st = [alive |-> [o \in Obj |-> FALSE],
                 cont |-> [c \in 1..(NCont + 1) |-> <<>>],
                 ref |-> [r \in Refs |-> 0],
                 ptr |-> [p \in 1..NPtr |-> 0],
                 lst |-> [p \in 1..NList |-> <<>>]]
        /\ act = [a |-> [op |-> "init"], r |-> "init"]

Range(s) == {s[i] : i \in 1..Len(s)}
Without(s, D) == SelectSeq(s, LAMBDA x : x \notin D)
InsertAt(s, i, x) == SubSeq(s, 1, i - 1) \o <<x>> \o SubSeq(s, i, Len(s))
InsertSeq(s, i, t) == SubSeq(s, 1, i - 1) \o t \o SubSeq(s, i, Len(s))
CutRange(s, i, j) == SubSeq(s, 1, i - 1) \o SubSeq(s, j, Len(s))    \* removes i..j-1
Injective(s) == \A i, j \in 1..Len(s) : i # j => s[i] # s[j]

Carrier(c) == c   \* the object carrying container c (0: none)
ContUsable(c) == IF c \in 1..NCont THEN st.alive[c] ELSE c = 0
RefCarrier(r) == IF r > NRef THEN r - NRef ELSE 0
RefUsable(r) == IF RefCarrier(r) = 0 THEN r \in Refs ELSE st.alive[RefCarrier(r)]
Owned(s, o) == (\E c \in ContIds : o \in Range(s.cont[c + 1])) \/ (\E r \in Refs : s.ref[r] = o)
(* direct possessions of o *)
Kids(s, o) == (IF o <= NCont THEN Range(s.cont[o + 1]) ELSE {})
              \cup (IF o <= NHold /\ s.ref[NRef + o] # 0 THEN {s.ref[NRef + o]} ELSE {})
RECURSIVE Closure(_, _)
Closure(s, S) == LET T == S \cup UNION {Kids(s, o) : o \in S} IN IF T = S THEN S ELSE Closure(s, T)

(* destroys the objects of S and all that they own; every owner and tracker forgets them *)
Destroy(s, S) ==
  LET D == Closure(s, S) IN
  [alive |-> [o \in Obj |-> s.alive[o] /\ o \notin D],
   cont |-> [c \in 1..(NCont + 1) |-> IF c - 1 \in D THEN <<>> ELSE Without(s.cont[c], D)],
   ref |-> [r \in Refs |-> IF s.ref[r] \in D \/ RefCarrier(r) \in D THEN 0 ELSE s.ref[r]],
   ptr |-> [p \in 1..NPtr |-> IF s.ptr[p] \in D THEN 0 ELSE s.ptr[p]],
   lst |-> [p \in 1..NList |-> Without(s.lst[p], D)]]

Free(o) == o \in Obj /\ st.alive[o] /\ ~Owned(st, o)
NotAbove(o, c) == IF c = 0 THEN TRUE ELSE c \notin Closure(st, {o})   \* o may be put below c

Done(a, s, r) == /\ st' = s /\ act' = [a |-> a, r |-> r]

New(a) == /\ ~st.alive[a.o]
          /\ Done(a, [st EXCEPT !.alive[a.o] = TRUE], 0)
Release(a) == /\ st.alive[a.o] /\ Done(a, Destroy(st, {a.o}), 0)

(* ---- containers *)
C(c) == st.cont[c + 1]
Push(a) == /\ ContUsable(a.c) /\ Free(a.o) /\ NotAbove(a.o, a.c)
           /\ Done(a, [st EXCEPT !.cont[a.c + 1] = Append(@, a.o)], Len(C(a.c)) + 1)
Insert(a) == /\ ContUsable(a.c) /\ Free(a.o) /\ NotAbove(a.o, a.c) /\ a.i \in 1..(Len(C(a.c)) + 1)
             /\ Done(a, [st EXCEPT !.cont[a.c + 1] = InsertAt(@, a.i, a.o)], Len(C(a.c)) + 1)
InsertMany(a) == /\ ContUsable(a.c) /\ a.l # <<>> /\ Injective(a.l) /\ a.i \in 1..(Len(C(a.c)) + 1)
                 /\ \A k \in 1..Len(a.l) : Free(a.l[k]) /\ NotAbove(a.l[k], a.c)
                 /\ Done(a, [st EXCEPT !.cont[a.c + 1] = InsertSeq(@, a.i, a.l)], Len(C(a.c)) + Len(a.l))
Erase(a) == /\ ContUsable(a.c) /\ a.i \in 1..Len(C(a.c))
            /\ Done(a, Destroy(st, {C(a.c)[a.i]}), Len(C(a.c)) - 1)
EraseVal(a) == /\ ContUsable(a.c) /\ st.alive[a.o]
               /\ IF a.o \in Range(C(a.c)) THEN Done(a, Destroy(st, {a.o}), TRUE) ELSE Done(a, st, FALSE)
EraseRange(a) == /\ ContUsable(a.c) /\ a.i \in 1..(Len(C(a.c)) + 1) /\ a.j \in (a.i + 1)..(Len(C(a.c)) + 1)
                 /\ Done(a, Destroy(st, {C(a.c)[k] : k \in a.i..(a.j - 1)}), Len(C(a.c)) - (a.j - a.i))
PopBack(a) == /\ ContUsable(a.c) /\ C(a.c) # <<>>
              /\ Done(a, Destroy(st, {C(a.c)[Len(C(a.c))]}), Len(C(a.c)) - 1)
PopFront(a) == /\ ContUsable(a.c) /\ C(a.c) # <<>>
               /\ Done(a, Destroy(st, {C(a.c)[1]}), Len(C(a.c)) - 1)
Clear(a) == /\ ContUsable(a.c) /\ Done(a, Destroy(st, Range(C(a.c))), 0)
Detach(a) == /\ ContUsable(a.c) /\ a.i \in 1..Len(C(a.c))
             /\ Done(a, [st EXCEPT !.cont[a.c + 1] = CutRange(@, a.i, a.i + 1)], Len(C(a.c)) - 1)
DetachVal(a) == /\ ContUsable(a.c) /\ st.alive[a.o]
                /\ Done(a, [st EXCEPT !.cont[a.c + 1] = Without(@, {a.o})], a.o \in Range(C(a.c)))
DetachRange(a) == /\ ContUsable(a.c) /\ a.i \in 1..(Len(C(a.c)) + 1) /\ a.j \in (a.i + 1)..(Len(C(a.c)) + 1)
                  /\ Done(a, [st EXCEPT !.cont[a.c + 1] = CutRange(@, a.i, a.j)], Len(C(a.c)) - (a.j - a.i))
Transfer(a) == \* detach from one container and hand over to another
  /\ ContUsable(a.c) /\ ContUsable(a.d) /\ a.c # a.d /\ a.i \in 1..Len(C(a.c))
  /\ LET o == C(a.c)[a.i] IN
     /\ NotAbove(o, a.d)
     /\ Done(a, [st EXCEPT !.cont[a.c + 1] = CutRange(@, a.i, a.i + 1), !.cont[a.d + 1] = Append(@, o)], 0)

(* ---- references *)
RefSet(a) == /\ RefUsable(a.k) /\ (IF a.o = 0 THEN TRUE ELSE Free(a.o) /\ NotAbove(a.o, RefCarrier(a.k)))
             \* the object so far referenced, with all that it owns, is released
             /\ RefCarrier(a.k) \notin Closure(st, {st.ref[a.k]} \ {0})
             /\ LET s == IF st.ref[a.k] = 0 THEN st ELSE Destroy(st, {st.ref[a.k]})
                IN Done(a, [s EXCEPT !.ref[a.k] = a.o], 0)
RefMove(a) == /\ RefUsable(a.k) /\ RefUsable(a.m) /\ a.k # a.m
              /\ (IF st.ref[a.m] = 0 THEN TRUE ELSE NotAbove(st.ref[a.m], RefCarrier(a.k)))
              /\ LET D == IF st.ref[a.k] = 0 THEN {} ELSE Closure(st, {st.ref[a.k]})
                     s == Destroy(st, D)
                 IN /\ RefCarrier(a.m) \notin D /\ st.ref[a.m] \notin D
                    /\ Done(a, [s EXCEPT !.ref[a.k] = st.ref[a.m], !.ref[a.m] = 0], 0)

(* ---- weak pointers and lists *)
PtrSet(a) == /\ a.p \in 1..NPtr /\ (IF a.o = 0 THEN TRUE ELSE st.alive[a.o])
             /\ Done(a, [st EXCEPT !.ptr[a.p] = a.o], 0)
PtrCopy(a) == \* p := q
             /\ a.p \in 1..NPtr /\ a.q \in 1..NPtr /\ a.p # a.q
             /\ Done(a, [st EXCEPT !.ptr[a.p] = st.ptr[a.q]], 0)
PtrClone(a) == \* p is destroyed and copy-constructed from q
             /\ a.p \in 1..NPtr /\ a.q \in 1..NPtr /\ a.p # a.q
             /\ Done(a, [st EXCEPT !.ptr[a.p] = st.ptr[a.q]], 0)
L(p) == st.lst[p]
ListPush(a) == /\ a.p \in 1..NList /\ st.alive[a.o] /\ a.o \notin Range(L(a.p))
               /\ Done(a, [st EXCEPT !.lst[a.p] = Append(@, a.o)], Len(L(a.p)) + 1)
ListInsert(a) == /\ a.p \in 1..NList /\ st.alive[a.o] /\ a.o \notin Range(L(a.p)) /\ a.i \in 1..(Len(L(a.p)) + 1)
                 /\ Done(a, [st EXCEPT !.lst[a.p] = InsertAt(@, a.i, a.o)], Len(L(a.p)) + 1)
ListInsertMany(a) == /\ a.p \in 1..NList /\ a.l # <<>> /\ Injective(a.l) /\ a.i \in 1..(Len(L(a.p)) + 1)
                     /\ \A k \in 1..Len(a.l) : st.alive[a.l[k]] /\ a.l[k] \notin Range(L(a.p))
                     /\ Done(a, [st EXCEPT !.lst[a.p] = InsertSeq(@, a.i, a.l)], Len(L(a.p)) + Len(a.l))
ListErase(a) == /\ a.p \in 1..NList /\ a.i \in 1..Len(L(a.p))
                /\ Done(a, [st EXCEPT !.lst[a.p] = CutRange(@, a.i, a.i + 1)], Len(L(a.p)) - 1)
ListEraseVal(a) == /\ a.p \in 1..NList /\ st.alive[a.o]
                   /\ Done(a, [st EXCEPT !.lst[a.p] = Without(@, {a.o})], a.o \in Range(L(a.p)))
ListEraseRange(a) == /\ a.p \in 1..NList /\ a.i \in 1..(Len(L(a.p)) + 1) /\ a.j \in (a.i + 1)..(Len(L(a.p)) + 1)
                     /\ Done(a, [st EXCEPT !.lst[a.p] = CutRange(@, a.i, a.j)], Len(L(a.p)) - (a.j - a.i))
ListPopBack(a) == /\ a.p \in 1..NList
                  /\ Done(a, [st EXCEPT !.lst[a.p] = SubSeq(@, 1, Len(@) - 1)], 0)
                  /\ L(a.p) # <<>>
ListPopFront(a) == /\ a.p \in 1..NList /\ L(a.p) # <<>>
                   /\ Done(a, [st EXCEPT !.lst[a.p] = Tail(@)], 0)
ListClear(a) == /\ a.p \in 1..NList /\ Done(a, [st EXCEPT !.lst[a.p] = <<>>], 0)
ListRelease(a) == /\ a.p \in 1..NList /\ st.alive[a.o]
                  /\ IF a.o \in Range(L(a.p)) THEN Done(a, Destroy(st, {a.o}), TRUE) ELSE Done(a, st, FALSE)
ListCopy(a) == \* p := q
               /\ a.p \in 1..NList /\ a.q \in 1..NList /\ a.p # a.q
               /\ Done(a, [st EXCEPT !.lst[a.p] = st.lst[a.q]], 0)
ListClone(a) == \* p is destroyed and copy-constructed from q
               /\ a.p \in 1..NList /\ a.q \in 1..NList /\ a.p # a.q
               /\ Done(a, [st EXCEPT !.lst[a.p] = st.lst[a.q]], 0)

Step(a) ==
  \/ a.op = "New" /\ New(a)
  \/ a.op = "Release" /\ Release(a)
  \/ a.op = "Push" /\ Push(a)
  \/ a.op = "Insert" /\ Insert(a)
  \/ a.op = "InsertMany" /\ InsertMany(a)
  \/ a.op = "Erase" /\ Erase(a)
  \/ a.op = "EraseVal" /\ EraseVal(a)
  \/ a.op = "EraseRange" /\ EraseRange(a)
  \/ a.op = "PopBack" /\ PopBack(a)
  \/ a.op = "PopFront" /\ PopFront(a)
  \/ a.op = "Clear" /\ Clear(a)
  \/ a.op = "Detach" /\ Detach(a)
  \/ a.op = "DetachVal" /\ DetachVal(a)
  \/ a.op = "DetachRange" /\ DetachRange(a)
  \/ a.op = "Transfer" /\ Transfer(a)
  \/ a.op = "RefSet" /\ RefSet(a)
  \/ a.op = "RefMove" /\ RefMove(a)
  \/ a.op = "PtrSet" /\ PtrSet(a)
  \/ a.op = "PtrCopy" /\ PtrCopy(a)
  \/ a.op = "PtrClone" /\ PtrClone(a)
  \/ a.op = "ListPush" /\ ListPush(a)
  \/ a.op = "ListInsert" /\ ListInsert(a)
  \/ a.op = "ListInsertMany" /\ ListInsertMany(a)
  \/ a.op = "ListErase" /\ ListErase(a)
  \/ a.op = "ListEraseVal" /\ ListEraseVal(a)
  \/ a.op = "ListEraseRange" /\ ListEraseRange(a)
  \/ a.op = "ListPopBack" /\ ListPopBack(a)
  \/ a.op = "ListPopFront" /\ ListPopFront(a)
  \/ a.op = "ListClear" /\ ListClear(a)
  \/ a.op = "ListRelease" /\ ListRelease(a)
  \/ a.op = "ListCopy" /\ ListCopy(a)
  \/ a.op = "ListClone" /\ ListClone(a)

Pairs == {<<x, y>> : x, y \in Obj}
Acts ==
  LET I == 1..(NObj + 1)
      P == 1..NPtr
      Q == 1..NList
      Many == {<<x, y>> : x \in Obj, y \in Obj} \cup {<<x>> : x \in Obj}
      ContOps == IF NCont + 1 = 0 THEN {} ELSE
         [op : {"Push", "EraseVal", "DetachVal"}, c : ContIds, o : Obj]
         \cup [op : {"Insert"}, c : ContIds, i : I, o : Obj]
         \cup [op : {"InsertMany"}, c : ContIds, i : I, l : Many]
         \cup [op : {"Erase", "Detach"}, c : ContIds, i : I]
         \cup [op : {"EraseRange", "DetachRange"}, c : ContIds, i : I, j : I]
         \cup [op : {"PopBack", "PopFront", "Clear"}, c : ContIds]
         \cup [op : {"Transfer"}, c : ContIds, d : ContIds, i : I]
  IN [op : {"New", "Release"}, o : Obj]
     \cup ContOps
     \cup [op : {"RefSet"}, k : Refs, o : ObjOr0]
     \cup [op : {"RefMove"}, k : Refs, m : Refs]
     \cup [op : {"PtrSet"}, p : P, o : ObjOr0]
     \cup [op : {"PtrCopy", "PtrClone"}, p : P, q : P]
     \cup [op : {"ListPush", "ListEraseVal", "ListRelease"}, p : Q, o : Obj]
     \cup [op : {"ListInsert"}, p : Q, i : I, o : Obj]
     \cup [op : {"ListInsertMany"}, p : Q, i : I, l : Many]
     \cup [op : {"ListErase"}, p : Q, i : I]
     \cup [op : {"ListEraseRange"}, p : Q, i : I, j : I]
     \cup [op : {"ListPopBack", "ListPopFront", "ListClear"}, p : Q]
     \cup [op : {"ListCopy", "ListClone"}, p : Q, q : Q]

(* what the driver observes: the number of trackers of each living object is observable too *)
Trackers(s, o) == Cardinality({p \in 1..NPtr : s.ptr[p] = o}) + Cardinality({p \in 1..NList : o \in Range(s.lst[p])})
Obs(s) == [alive |-> s.alive, cont |-> s.cont, ref |-> s.ref, ptr |-> s.ptr, lst |-> s.lst,
           trk |-> [o \in Obj |-> IF s.alive[o] THEN Trackers(s, o) ELSE 0]]

-----------------------------------------------------------------------------
(* Properties *)
Owners(o) == {<<"c", c, i>> : c \in ContIds, i \in 1..NObj} \cap
             {<<"c", x[1], x[2]>> : x \in {y \in ContIds \X (1..NObj) : y[2] <= Len(C(y[1])) /\ C(y[1])[y[2]] = o}}
SingleOwner == \A o \in Obj : Cardinality(Owners(o)) + Cardinality({r \in Refs : st.ref[r] = o}) <= 1
NoDanglingOwnership == /\ \A c \in ContIds : \A o \in Range(C(c)) : st.alive[o]
                       /\ \A r \in Refs : st.ref[r] # 0 => st.alive[st.ref[r]]
DeadOwnNothing == /\ \A c \in ContIds : c # 0 /\ ~st.alive[c] => C(c) = <<>>
                  /\ \A r \in Refs : RefCarrier(r) # 0 /\ ~st.alive[RefCarrier(r)] => st.ref[r] = 0
AcyclicOwnership == \A o \in Obj : o \notin Closure(st, Kids(st, o))
NoDanglingTracker == /\ \A p \in 1..NPtr : st.ptr[p] # 0 => st.alive[st.ptr[p]]
                     /\ \A p \in 1..NList : \A o \in Range(L(p)) : st.alive[o]
ListsHaveNoDuplicates == \A p \in 1..NList : Injective(L(p))
(* an object only disappears through a release of itself or of something above it *)
OnlyReleaseKills == \A o \in Obj : (st.alive[o] /\ ~st'.alive[o]) =>
   act'.a.op \in {"Release", "Erase", "EraseVal", "EraseRange", "PopBack", "PopFront", "Clear", "RefSet", "RefMove", "ListRelease"}
=============================================================================
