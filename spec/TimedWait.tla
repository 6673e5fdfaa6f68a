----------------------------- MODULE TimedWait -----------------------------
(***************************************************************************)
(* One load and the calls that wait for it with timeouts, in discrete time *)
(* (C16).  A waiting call parks for at most the time it has left, and may  *)
(* be unparked early: by the load (which has set its `notified` flag), or  *)
(* by somebody else for no reason (spurious), any number of times.  Having *)
(* been unparked it looks at its flag, then at the clock; if its time is   *)
(* up it looks at the flag once more under the lock of the waiters' list   *)
(* and leaves the list.  A running call runs at most Delay ticks before    *)
(* its next step.                                                          *)
(*                                                                         *)
(* Restart = TRUE is a wrong variant (the whole timeout starts over after  *)
(* a spurious unpark), Early = TRUE another one (any unpark counts as      *)
(* expiry); TLC refutes both, which shows that the properties have teeth.  *)
(***************************************************************************)
EXTENDS Integers, FiniteSets
CONSTANTS Callers, Timeouts, Horizon, Delay, MaxSpurious, Restart, Early
VARIABLES now, load, tenure, list, c, spurious
vars == << now, load, tenure, list, c, spurious >>
\* load: "L" being loaded, "V" value published; tenure: who holds the guard
\* (0: the first loader, otherwise a caller); list: registered waiters
\* c[x]: [st, T, from, due, flag, res, at, run]
\*   st: "idle", "parked" (until due), "awake", "locked", "done"
\*   flag: notified; run: when it last became runnable

Idle == [st |-> "idle", T |-> 0, from |-> 0, due |-> 0, flag |-> FALSE, res |-> "none", at |-> 0, run |-> 0, pub |-> -1]
Init == /\ now = 0 /\ load = "L" /\ tenure = 0 /\ list = {} /\ spurious = 0
        /\ c = [x \in Callers |-> Idle]

Start(x) ==
  /\ c[x].st = "idle"
  /\ \E T \in Timeouts :
       IF load = "V"
         THEN c' = [c EXCEPT ![x] = [@ EXCEPT !.st = "done", !.T = T, !.from = now, !.res = "value", !.at = now]]
              /\ UNCHANGED list
         ELSE c' = [c EXCEPT ![x] = [@ EXCEPT !.st = "parked", !.T = T, !.from = now, !.due = now + T, !.run = now]]
              /\ list' = list \cup {x}
  /\ UNCHANGED << now, load, tenure, spurious >>

\* the park ends because time is up, or because of an unpark
Wake(x) ==
  /\ c[x].st = "parked" /\ now >= c[x].due
  /\ c' = [c EXCEPT ![x].st = "awake", ![x].run = now]
  /\ UNCHANGED << now, load, tenure, list, spurious >>
Spurious(x) ==
  /\ c[x].st = "parked" /\ spurious < MaxSpurious
  /\ spurious' = spurious + 1
  /\ c' = [c EXCEPT ![x].st = "awake", ![x].run = now]
  /\ UNCHANGED << now, load, tenure, list >>

Look(x) ==
  /\ c[x].st = "awake"
  /\ IF c[x].flag THEN
        /\ c' = [c EXCEPT ![x].st = "done", ![x].at = now, ![x].res = IF load = "V" THEN "value" ELSE "guard"]
        /\ tenure' = IF load = "V" THEN tenure ELSE x
     ELSE /\ UNCHANGED tenure
          /\ IF now >= c[x].from + c[x].T \/ Early
               THEN c' = [c EXCEPT ![x].st = "locked", ![x].run = now]
               ELSE c' = [c EXCEPT ![x].st = "parked", ![x].due = IF Restart THEN now + c[x].T ELSE c[x].from + c[x].T]
  /\ UNCHANGED << now, load, list, spurious >>

\* under the lock: the flag is final
Leave(x) ==
  /\ c[x].st = "locked"
  /\ IF c[x].flag
       THEN c' = [c EXCEPT ![x].st = "awake", ![x].run = now] /\ UNCHANGED list
       ELSE /\ c' = [c EXCEPT ![x].st = "done", ![x].at = now, ![x].res = "timeout"]
            /\ list' = list \ {x}
  /\ UNCHANGED << now, load, tenure, spurious >>

Notify(W) == [x \in Callers |-> IF x \in W
               THEN [c[x] EXCEPT !.flag = TRUE, !.pub = now,
                                 !.st = IF @ = "parked" THEN "awake" ELSE @,
                                 !.run = IF c[x].st = "parked" THEN now ELSE @] ELSE c[x]]
MayAct(h) == IF h = 0 THEN TRUE ELSE c[h].st = "done" /\ c[h].res = "guard"
Publish == /\ load = "L" /\ MayAct(tenure) /\ load' = "V" /\ list' = {} /\ c' = Notify(list)
           /\ UNCHANGED << now, tenure, spurious >>
\* the holder gives up while somebody waits: any one waiter is told
GiveUp == /\ load = "L" /\ MayAct(tenure) /\ tenure # -1
          /\ \E x \in list : list' = list \ {x} /\ c' = Notify({x}) /\ tenure' = -1
          /\ UNCHANGED << now, load, spurious >>

\* time passes unless somebody runnable has not moved for too long
Tick == /\ now < Horizon
        /\ \A x \in Callers : c[x].st \in {"awake", "locked"} => now - c[x].run < Delay
        /\ \A x \in Callers : c[x].st = "parked" => now - c[x].due < Delay
        /\ now' = now + 1 /\ UNCHANGED << load, tenure, list, c, spurious >>

Next == \/ \E x \in Callers : Start(x) \/ Wake(x) \/ Spurious(x) \/ Look(x) \/ Leave(x)
        \/ (tenure # -1 /\ (Publish \/ GiveUp)) \/ Tick
Spec == Init /\ [][Next]_vars

-----------------------------------------------------------------------------
Done(x, r) == c[x].st = "done" /\ c[x].res = r
\* never earlier than the timeout, and only if nothing was provided before it expired
NotEarly == \A x \in Callers : Done(x, "timeout") =>
              c[x].at >= c[x].from + c[x].T /\ c[x].pub = -1
\* never much later: woken, looked, locked, possibly told at the last moment
NotLate == \A x \in Callers : c[x].st = "done" => c[x].at <= c[x].from + c[x].T + 5 * Delay
NotStuck == \A x \in Callers : c[x].st \in {"parked", "awake", "locked"} => now <= c[x].from + c[x].T + 5 * Delay
\* with a zero timeout and no delay the call returns at once
ZeroIsImmediate == \A x \in Callers : (Delay = 0 /\ c[x].st = "done" /\ c[x].T = 0) => c[x].at = c[x].from
\* a timed-out caller is on no list, everybody else who waits still is
Undisturbed == \A x \in Callers :
   /\ c[x].st \in {"parked", "awake", "locked"} => (x \in list) # c[x].flag
   /\ c[x].st = "done" => x \notin list
=============================================================================
