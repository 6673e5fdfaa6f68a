----------------------------- MODULE ProbeTrace -----------------------------
(***************************************************************************)
(* Timed waits for a load that stays pending (C16), see conc/src/probe.rs: *)
(* of every recorded group of waits (same situation, same timeout), all    *)
(* report a timeout, none before it, and the best of them hardly after it. *)
(* A wait that is late because the machine is busy does not make the whole *)
(* group late; and the best plain sleep of the same thread and length is   *)
(* allowed for.                                                            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
Slack == 5000     \* microseconds
VARIABLES i, bad
Init == i = 1 /\ bad = 0

Range(s) == {s[j] : j \in 1..Len(s)}
Best(s) == CHOOSE x \in Range(s) : \A y \in Range(s) : x <= y
Allowed(e) ==
  /\ e.wrong = 0
  /\ \A x \in Range(e.late) : x >= 0
  /\ Best(e.late) <= Slack + 5 * Best(e.over)

Next == /\ i <= NT /\ i' = i + 1
        /\ IF Allowed(Trace[i]) THEN bad' = bad
           ELSE PrintT(<< "REJECT", i, {IOEnv.PROPS} >>) /\ bad' = bad + 1
Spec == Init /\ [][Next]_<< i, bad >>
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
