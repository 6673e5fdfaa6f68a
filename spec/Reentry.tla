------------------------------ MODULE Reentry ------------------------------
(***************************************************************************)
(* Why user code has to run outside the shard lock (C21).                   *)
(*                                                                         *)
(* Threads run calls, each a program of steps; at the user code steps       *)
(* (begin_request, a loader, end_request) the thread may start a nested    *)
(* call on the same shard.  The lock is not reentrant.                     *)
(* Wrong names a user code step that is moved inside the lock.             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Threads, Depth, Calls, Wrong
VARIABLES lock, stk, left
vars == << lock, stk, left >>

User == {"begin", "load", "end"}
Prog(op) ==
  CASE op = "get" -> << "acq", "eff", "rel" >>
    [] op = "ins" -> CASE Wrong = "begin" -> << "acq", "begin", "eff", "rel", "end" >>
                       [] Wrong = "end" -> << "begin", "acq", "eff", "end", "rel" >>
                       [] OTHER -> << "begin", "acq", "eff", "rel", "end" >>
    [] op = "goi" -> CASE Wrong = "load" -> << "acq", "load", "rel", "begin", "acq", "eff", "rel", "end" >>
                       [] OTHER -> << "acq", "rel", "load", "begin", "acq", "eff", "rel", "end" >>
Ops == {"get", "ins", "goi"}
Init == lock = 0 /\ stk = [t \in Threads |-> << >>] /\ left = [t \in Threads |-> Calls]
Top(t) == stk[t][Len(stk[t])]
At(t) == Prog(Top(t).op)[Top(t).pc]
Advance(t) ==
  LET n == Len(stk[t]) IN
  IF Top(t).pc = Len(Prog(Top(t).op)) THEN SubSeq(stk[t], 1, n - 1)
  ELSE [stk[t] EXCEPT ![n].pc = @ + 1]
Start(t) == /\ left[t] > 0 /\ Len(stk[t]) < Depth
            /\ IF stk[t] = << >> THEN TRUE ELSE At(t) \in User
            /\ \E op \in Ops : stk' = [stk EXCEPT ![t] = Append(@, [op |-> op, pc |-> 1])]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED lock
Step(t) == /\ stk[t] # << >>
           /\ CASE At(t) = "acq" -> lock = 0 /\ lock' = t
                [] At(t) = "rel" -> lock' = 0
                [] OTHER -> UNCHANGED lock
           /\ stk' = [stk EXCEPT ![t] = Advance(t)] /\ UNCHANGED left
Next == \E t \in Threads : Start(t) \/ Step(t)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))

NoSelfDeadlock == \A t \in Threads : stk[t] # << >> /\ At(t) = "acq" => lock # t
UserCodeUnlocked == \A t \in Threads : stk[t] # << >> /\ At(t) \in User => lock # t
Completes == \A t \in Threads : (stk[t] # << >>) ~> (stk[t] = << >>)
=============================================================================
