----------------------------- MODULE TimedTrace -----------------------------
(***************************************************************************)
(* Histories in real time (C16).  GuardTrace decides whether a history is  *)
(* possible at all: in particular a call times out only when its timeout   *)
(* has passed and nothing was provided for it before that.  Here, also:    *)
(* calls with a timeout return in time, at most Slack microseconds after   *)
(* it.  The machine may be busy, so a program that was late is executed    *)
(* again (again = 1), alone, and one of these attempts has to be in time;  *)
(* j is how much a control thread, asleep all the time, overslept.         *)
(***************************************************************************)
EXTENDS GuardTrace
Slack == 150000

\* microseconds after its timeout at which the call that returns with event j did so
Lateness(t, j) ==
  LET c == CHOOSE a \in 1..j : t[a].e = "c" /\ t[a].c = t[j].c
  IN IF t[c].tm = 0 THEN 0 ELSE t[j].at - t[c].at - t[c].T
InTime(n) == \A j \in 1..Len(File[n].t) :
               File[n].t[j].e = "r" => Lateness(File[n].t, j) <= Slack + 10 * File[n].j
Again == {n \in 1..NT : File[n].again = 1}
LatePrograms == {p \in {File[n].p : n \in Again} :
                   \A n \in Again : File[n].p = p => ~InTime(n)}
ASSUME \A p \in LatePrograms : PrintT(<< "LATE", p >>)
=============================================================================
