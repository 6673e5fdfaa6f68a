------------------------------- MODULE GuardMC -------------------------------
(***************************************************************************)
(* Threads that call the concurrent cache of GuardProtocol in all possible *)
(* ways: lookups, inserts and removals, guards, get_or_insert, timed waits *)
(* and futures that are polled, polled early, dropped or never finished.   *)
(* Every thread makes at most N calls, holds at most one guard and, while  *)
(* it holds one, makes only calls that do not wait.                        *)
(*                                                                         *)
(* Checked: at most one holder per load (C10), waiters are registered with *)
(* a pending load that somebody is responsible for, and every call ends    *)
(* under every fair schedule (C11), the result of a guard's insert is      *)
(* decided by whether its reservation stands (C12).                        *)
(***************************************************************************)
EXTENDS GuardProtocol

CONSTANTS T,        \* number of threads
          N,        \* calls per thread (not counting the end of a guard)
          NK,       \* keys
          Ops,      \* operations offered
          Polls     \* early polls per future

Keys == 1..NK
VARIABLES S, th
vars == << S, th >>

Waiting == {"jn", "jt", "goi", "fj", "ga"}
Id(t) == t * 100 + th[t].n + 1

Clean(R) == [R EXCEPT !.h = 0, !.m = 0]

Init == /\ S = NewS(Keys)
        /\ th = [t \in 1..T |-> [cur |-> 0, fut |-> 0, g |-> 0, gk |-> 0, n |-> 0, ep |-> 0]]

\* op "jt" is "jn" with a timeout
Start(t, o, k) ==
  LET x == th[t]
      c == Id(t)
      oo == IF o = "jt" THEN "jn" ELSE o
  IN /\ x.cur = 0 /\ x.fut = 0
     /\ x.n < N
     /\ o \in Waiting => x.g = 0
     /\ S' = [S EXCEPT !.c = (c :> [NewCall(oo, k, c, 0, IF o = "jt" THEN 1 ELSE 0,
                                            IF o = "clr" THEN Keys ELSE {k})
                                    EXCEPT !.nw = IF oo \in {"fj", "ga"} THEN 1 ELSE 0]) @@ @]
     /\ th' = [th EXCEPT ![t].cur = c, ![t].n = @ + 1, ![t].ep = 0,
                         ![t].fut = IF oo \in {"fj", "ga"} THEN c ELSE 0]

EndGuard(t) ==
  LET x == th[t]
      c == t * 100 + 50 + x.n
  IN /\ x.cur = 0 /\ x.fut = 0 /\ x.g # 0
     /\ \E o \in {"gin", "gdr"} :
          S' = [S EXCEPT !.c = (c :> NewCall(o, x.gk, c, x.g, 0, {})) @@ @]
     /\ th' = [th EXCEPT ![t].cur = c]

\* the step of a call that is running (a future: being polled)
Step(t) ==
  LET c == th[t].cur IN
  /\ c # 0 /\ UNCHANGED th
  /\ \/ \E R \in Steps(S, c) : S' = Clean(R)
     \/ S.c[c].st = "w" /\ S.c[c].nw # 0 /\ ~S.c[c].chk /\ S' = StillWaiting(S, c)
     \/ S.c[c].st = "g" /\ ~S.c[c].chk /\ S' = [S EXCEPT !.c[c].st = "b"]

\* the loader of get_or_insert ends, one way or another
LoaderEnds(t) ==
  LET c == th[t].cur IN
  /\ c # 0 /\ S.c[c].st = "b" /\ UNCHANGED th
  /\ \E v \in {c, 0} : S' = [S EXCEPT !.c[c].st = "l", !.c[c].v = v]

\* the wake-ups that a call owes
Wakes(t) ==
  LET c == th[t].cur IN
  /\ c # 0 /\ ~WakesDone(S, c) /\ UNCHANGED th
  /\ \E o \in S.c[c].gr : o[1] \in DOMAIN S.c /\ o[2] \notin S.c[o[1]].wok
                         /\ S' = [S EXCEPT !.c[o[1]].wok = @ \cup {o[2]}]

Return(t) ==
  LET c == th[t].cur
      x == S.c[c]
  IN /\ c # 0 /\ x.st = "x" /\ ~x.chk /\ WakesDone(S, c)
     /\ S' = [S EXCEPT !.c = Drop1(@, c), !.gd = IF GotGuard(x) THEN (c :> x.ph) @@ @ ELSE @]
     /\ th' = [th EXCEPT ![t].cur = 0, ![t].fut = 0,
                         ![t].g = IF GotGuard(x) THEN c ELSE IF x.o \in {"gin", "gdr"} THEN 0 ELSE @,
                         ![t].gk = IF GotGuard(x) THEN x.k ELSE @]

\* the poll returns Pending: somebody else's load, or the own loader is not ready
PollPending(t) ==
  LET c == th[t].cur IN
  /\ c # 0 /\ c = th[t].fut
  /\ S.c[c].chk \/ S.c[c].st = "b"
  /\ WakesDone(S, c)
  /\ S' = [S EXCEPT !.c[c].nw = 0, !.c[c].chk = FALSE]
  /\ th' = [th EXCEPT ![t].cur = 0]

\* the future is polled again: because its latest waker was woken, because its own
\* loader is running, or just so
Poll(t) ==
  LET f == th[t].fut
      x == S.c[f]
      w == th[t].ep + 2
  IN /\ f # 0 /\ th[t].cur = 0
     /\ \/ x.wk \in x.wok \/ x.st = "b"
        \/ th[t].ep < Polls
     /\ S' = [S EXCEPT !.c[f].nw = w, !.c[f].chk = FALSE]
     /\ th' = [th EXCEPT ![t].cur = f, ![t].ep = IF @ < Polls THEN @ + 1 ELSE @]
Woken(t) == th[t].fut # 0 /\ (S.c[th[t].fut].wk \in S.c[th[t].fut].wok \/ S.c[th[t].fut].st = "b")

DropFut(t) ==
  LET f == th[t].fut
      c == t * 100 + 70 + th[t].n
  IN /\ f # 0 /\ th[t].cur = 0
     /\ S' = [S EXCEPT !.c = (c :> NewCall("fd", 0, 0, f, 0, {})) @@ @]
     /\ th' = [th EXCEPT ![t].cur = c, ![t].fut = 0]

Running(t) == Step(t) \/ LoaderEnds(t) \/ Wakes(t) \/ Return(t) \/ PollPending(t)
Next == \E t \in 1..T :
          \/ Running(t) \/ EndGuard(t) \/ Poll(t) \/ DropFut(t)
          \/ \E o \in Ops : \E k \in Keys : Start(t, o, k)

\* a running call is scheduled, a held guard is ended and a woken future is polled
Fair == \A t \in 1..T :
          /\ WF_vars(Running(t))
          /\ WF_vars(EndGuard(t))
          /\ WF_vars(Woken(t) /\ Poll(t))
          /\ SF_vars(LoaderEnds(t))
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ Fair

Sound == OneLoader(S) /\ KeyLoads(S) /\ NeverBoth(S) /\ WaitersRegistered(S)
\* C12: what a guard's insert returned is what the reservation said; no step of it
\* displaces another value or load
Displaces ==
  [][\A k \in Keys : \A t \in 1..T :
      LET c == th[t].cur IN
      (c # 0 /\ S.c[c].st = "p" /\ c \in DOMAIN S'.c /\ S'.c[c].st = "x" /\ S.ph[S.c[c].ph].k = k)
        => IF S.pk[k] = S.c[c].ph THEN S'.v[k] = S.c[c].v ELSE S'.v[k] = S.v[k] /\ S'.pk[k] = S.pk[k]]_vars
\* C11: whatever was called returns; whatever future waits is finished, or dropped
Progress == \A t \in 1..T : (th[t].cur # 0 \/ th[t].fut # 0) ~> (th[t].cur = 0 /\ th[t].fut = 0)
\* nothing is left behind when everybody is done
Finished == (\A t \in 1..T : th[t].cur = 0 /\ th[t].fut = 0 /\ th[t].g = 0)
              => S.c = NoFn /\ S.gd = NoFn /\ S.ph = NoFn /\ \A k \in Keys : S.pk[k] = 0
=============================================================================
