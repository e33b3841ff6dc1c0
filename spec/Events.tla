------------------------------- MODULE Events -------------------------------
(* Notification: FUEvent (list 0) and the error sinks of FUError (levels 1 DEBUG,        *)
(* 2 WARNING, 3 ERROR), with the handlers built on them: FUErrorSimpleHandler, FUErrorLog. *)
(* A handler is <<o, k>>: registered by object o, with a behaviour k:                     *)
(*   0 plain; 1 releases itself while it is called; 2 registers a new plain handler of    *)
(*   object o the first time it is called, and is plain afterwards; 3 raises a DEBUG notification while it is called;       *)
(*   4 the handler of simple handler o; 5 the handler of error log o; 6 plain, the second *)
(*   registration kind (to tell two registrations of one object apart).                   *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS Cap, NObj, MaxLen, NSimple, NLog, Kinds, NLev, Lists
VARIABLES st, act
(* st.h[l+1] : handlers of list l, oldest first; st.fatal : 1..4 ; st.sim[i] = [up, lv, n, fails] ; st.log[i] = [up, lv, c] *)

Init == /\ st = [h |-> [l \in 1..(NLev + 1) |-> <<>>], fatal |-> 3,
                 sim |-> [i \in 1..NSimple |-> [up |-> FALSE, lv |-> 0, n |-> 0, fails |-> FALSE]],
                 log |-> [i \in 1..NLog |-> [up |-> FALSE, lv |-> 0, c |-> <<0, 0, 0>>]]]
        /\ act = [a |-> [op |-> "init"], r |-> "init"]
Done(a, s, r) == st' = s /\ act' = [a |-> a, r |-> r]

RECURSIVE FirstOf(_, _, _)
FirstOf(s, o, i) == IF i > Len(s) THEN 0 ELSE IF s[i][1] = o THEN i ELSE FirstOf(s, o, i + 1)
CutAt(s, i) == IF i = 0 THEN s ELSE SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
(* releasing object o from a list removes its oldest registration, and nothing when there is none *)
ReleaseOne(s, o) == CutAt(s, FirstOf(s, o, 1))

SimKey(i) == 100 + i
LogKey(i) == 200 + i

(* The dispatch: from the most recent to the oldest of the handlers registered when the notification *)
(* was raised. c = [s, calls].                                                                       *)
RECURSIVE Dispatch(_, _, _, _, _)
Call(c, l, i0, depth) ==
  LET x == c.s.h[l + 1][i0]
      calls == Append(c.calls, <<x[1], x[2], l>>)
  IN CASE x[2] = 1 -> [s |-> [c.s EXCEPT !.h[l + 1] = ReleaseOne(@, x[1])], calls |-> calls]
       [] x[2] = 2 -> [s |-> [c.s EXCEPT !.h[l + 1] = Append([@ EXCEPT ![i0] = <<x[1], 0>>], <<x[1], 0>>)], calls |-> calls]
       [] x[2] = 3 -> IF l > 1 /\ depth = 0
                      THEN LET d == [s |-> c.s, calls |-> calls] IN Dispatch(d, 1, Len(d.s.h[2]), 1, 0)
                      ELSE [s |-> c.s, calls |-> calls]
       [] x[2] = 4 -> LET i == x[1] - 100 IN
                      [s |-> [c.s EXCEPT !.sim[i].n = @ + 1, !.sim[i].fails = @ \/ (l >= c.s.sim[i].lv)], calls |-> c.calls]
       [] x[2] = 5 -> LET i == x[1] - 200 IN [s |-> [c.s EXCEPT !.log[i].c[l] = @ + 1], calls |-> c.calls]
       [] OTHER -> [s |-> c.s, calls |-> calls]
Dispatch(c, l, i, depth, dummy) ==
  IF i = 0 THEN c
  ELSE Dispatch(Call(c, l, i, depth), l, i - 1, depth, dummy)

Grown(s) == Len(s) + Cardinality({i \in 1..Len(s) : s[i][2] = 2})
Once(s, o) == Cardinality({i \in 1..Len(s) : s[i][1] = o})

Add(a) == /\ Grown(st.h[a.l + 1]) + (IF a.k = 2 THEN 2 ELSE 1) <= MaxLen
          \* an object which releases itself while called is registered once
          /\ (IF a.k = 1 THEN Once(st.h[a.l + 1], a.o) = 0 ELSE TRUE)
          /\ \A i \in 1..Len(st.h[a.l + 1]) : ~(st.h[a.l + 1][i][1] = a.o /\ st.h[a.l + 1][i][2] = 1)
          /\ Done(a, [st EXCEPT !.h[a.l + 1] = Append(@, <<a.o, a.k>>)], 0)
Remove(a) == Done(a, [st EXCEPT !.h[a.l + 1] = ReleaseOne(@, a.o)], 0)
Raise(a) == LET c == Dispatch([s |-> st, calls |-> <<>>], a.l, Len(st.h[a.l + 1]), 0, 0)
            IN /\ \A i \in 1..NSimple : c.s.sim[i].n <= Cap + 1
               /\ \A i \in 1..NLog : \A k \in 1..3 : c.s.log[i].c[k] <= Cap
               /\ Done(a, c.s, [calls |-> c.calls, fatal |-> IF a.l = 0 THEN FALSE ELSE a.l >= st.fatal])
SetFatal(a) == Done(a, [st EXCEPT !.fatal = a.l], 0)
SimUp(a) == /\ ~st.sim[a.i].up
            /\ \A l \in 1..NLev : Grown(st.h[l + 1]) < MaxLen
            /\ Done(a, [st EXCEPT !.sim[a.i] = [up |-> TRUE, lv |-> a.l, n |-> 0, fails |-> FALSE],
                               !.h = [l \in 1..(NLev + 1) |-> IF l = 1 THEN @[1] ELSE Append(@[l], <<SimKey(a.i), 4>>)]], 0)
SimDown(a) == /\ st.sim[a.i].up
              /\ Done(a, [st EXCEPT !.sim[a.i] = [up |-> FALSE, lv |-> 0, n |-> 0, fails |-> FALSE],
                                 !.h = [l \in 1..(NLev + 1) |-> ReleaseOne(@[l], SimKey(a.i))]], 0)
LogUp(a) == /\ ~st.log[a.i].up
            /\ \A l \in 1..NLev : Grown(st.h[l + 1]) < MaxLen
            /\ Done(a, [st EXCEPT !.log[a.i] = [up |-> TRUE, lv |-> a.l, c |-> <<0, 0, 0>>],
                               !.h = [l \in 1..(NLev + 1) |-> IF l - 1 < a.l THEN @[l] ELSE Append(@[l], <<LogKey(a.i), 5>>)]], 0)
LogDown(a) == /\ st.log[a.i].up
              /\ Done(a, [st EXCEPT !.log[a.i] = [up |-> FALSE, lv |-> 0, c |-> <<0, 0, 0>>],
                                 !.h = [l \in 1..(NLev + 1) |-> ReleaseOne(@[l], LogKey(a.i))]], 0)
LogQuery(a) == /\ st.log[a.i].up
               /\ Done(a, [st EXCEPT !.log[a.i].c = <<0, 0, 0>>], st.log[a.i].c)

Step(a) ==
  \/ a.op = "Add" /\ Add(a)
  \/ a.op = "Remove" /\ Remove(a)
  \/ a.op = "Raise" /\ Raise(a)
  \/ a.op = "SetFatal" /\ SetFatal(a)
  \/ a.op = "SimUp" /\ SimUp(a)
  \/ a.op = "SimDown" /\ SimDown(a)
  \/ a.op = "LogUp" /\ LogUp(a)
  \/ a.op = "LogDown" /\ LogDown(a)
  \/ a.op = "LogQuery" /\ LogQuery(a)

Acts == [op : {"Add"}, l : Lists, o : 1..NObj, k : Kinds]
        \cup [op : {"Remove"}, l : Lists, o : 1..NObj]
        \cup [op : {"Raise"}, l : Lists]
        \cup (IF NLev = 3 THEN [op : {"SetFatal"}, l : 1..3] ELSE {})
        \cup [op : {"SimUp"}, i : 1..NSimple, l : 2..3]
        \cup [op : {"SimDown"}, i : 1..NSimple]
        \cup [op : {"LogUp"}, i : 1..NLog, l : 1..3]
        \cup [op : {"LogDown", "LogQuery"}, i : 1..NLog]

(* the handlers themselves are not observable, only how many an event has (FUEvent), and who is called *)
Obs(s) == [n |-> Len(s.h[1]), fatal |-> s.fatal,
           sim |-> [i \in 1..NSimple |-> <<s.sim[i].n, s.sim[i].fails>>]]
-----------------------------------------------------------------------------
Bounded == \A l \in Lists : Grown(st.h[l + 1]) <= MaxLen
(* a simple handler and a log listen exactly while they live, once per level they cover *)
SimRegistered == \A i \in 1..NSimple : \A l \in 1..NLev : Once(st.h[l + 1], SimKey(i)) = (IF st.sim[i].up THEN 1 ELSE 0)
LogRegistered == \A i \in 1..NLog : \A l \in 1..NLev : Once(st.h[l + 1], LogKey(i)) = (IF st.log[i].up /\ l >= st.log[i].lv THEN 1 ELSE 0)
FailsOnlyAtLevel == \A i \in 1..NSimple : st.sim[i].fails => st.sim[i].n > 0
(* exactly-once: a raise calls each plain handler registered at the time once, most recent first *)
Plain(s) == SelectSeq(s, LAMBDA x : x[2] \in {0, 1, 2, 3, 6})
Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
ExactlyOnce == act'.a.op = "Raise" =>
   LET l == act'.a.l
       own == SelectSeq(act'.r.calls, LAMBDA x : x[3] = l)
       reg == Rev(Plain(st.h[l + 1]))
   IN Len(own) = Len(reg) /\ \A i \in 1..Len(reg) : own[i][1] = reg[i][1] /\ own[i][2] = reg[i][2]
=============================================================================
