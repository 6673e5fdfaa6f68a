------------------------------ MODULE MemTrace ------------------------------
(***************************************************************************)
(* Validates sampled allocations of long runs of the real code.            *)
(*  new  a new cache                                                       *)
(*  mem  after n calls the cache holds b bytes; p is the greatest number   *)
(*       of items plus loads in progress so far, g the number of keys it   *)
(*       may remember per shard, s the number of shards                    *)
(*  end  b bytes are left when the cache and everything handed out is gone *)
(* Storage: the slots are bounded by the keys known at once, p + g * s.    *)
(* PerKey bytes pay for a slot, its index entry, the spare room of growing *)
(* tables and the value's own memory; Base for a cache without keys.       *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
PerKey == 400
Base == 16384
VARIABLES i, bad, skip
Init == i = 1 /\ bad = 0 /\ skip = FALSE
Allowed(e) ==
  IF e.o = "new" THEN TRUE
  ELSE IF e.o = "mem" THEN e.b <= Base + PerKey * (e.p + e.s * e.g)
  ELSE IF e.o = "end" THEN e.b = 0
  ELSE FALSE      \* "hang", "panic"
Next == /\ i <= NT /\ i' = i + 1
        /\ LET e == Trace[i] IN
           IF e.o # "new" /\ skip THEN UNCHANGED << bad, skip >>
           ELSE IF Allowed(e) THEN bad' = bad /\ skip' = FALSE
           ELSE PrintT(<< "REJECT", i, {IOEnv.PROPS} >>) /\ bad' = bad + 1 /\ skip' = TRUE
Spec == Init /\ [][Next]_<< i, bad, skip >>
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
