--------------------------- MODULE ContractTrace ---------------------------
(***************************************************************************)
(* Validates recorded traces of the real code against CacheContract.       *)
(* The file TRACE holds many traces one after another; a "new" line starts *)
(* one.  PROPS is the set of properties to decide.  A call that the        *)
(* contract does not allow is printed as REJECT and the rest of its trace  *)
(* is skipped, so that one run judges all traces.                          *)
(***************************************************************************)
EXTENDS CacheContract, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
Props == LET p == IOEnv.PROPS IN IF p = "all" THEN SeqProps ELSE {p}
NT == Len(Trace)

VARIABLES i, s, skip, bad
vars == << i, s, skip, bad >>

Fresh(e) == NewState(e.nk, e.cap, e.thot, e.api, e.sh)
Idle == NewState(1, 0, 0, 0, 1)

Init == i = 1 /\ s = Idle /\ skip = TRUE /\ bad = 0

Broken(e) ==
  IF ~Returned(e) THEN Props
  ELSE IF e.o = "end" THEN {p \in Props \cap {"C15"} : e.lk # 0 \/ e.lv # 0}
  ELSE {p \in Props : ~Holds(p, s, e)}

Next ==
  /\ i <= NT
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.o = "new" THEN s' = Fresh(e) /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED << s, skip, bad >>
     ELSE LET b == Broken(e) IN
          IF b # {} THEN /\ PrintT(<< "REJECT", i, b >>)
                         /\ skip' = TRUE /\ s' = Idle /\ bad' = bad + 1
          ELSE IF e.o = "end" THEN skip' = TRUE /\ s' = Idle /\ bad' = bad
          ELSE s' = Apply(s, e) /\ UNCHANGED << skip, bad >>

Spec == Init /\ [][Next]_vars
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
