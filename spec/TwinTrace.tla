----------------------------- MODULE TwinTrace -----------------------------
(***************************************************************************)
(* Validates recorded executions of two caches side by side (C14, C18).    *)
(*                                                                         *)
(* The specification is about a pair: side 0 (left) and side 1 (right) are *)
(* given the same calls, one of them possibly ahead of the other.  `q`     *)
(* holds what the side that is ahead did and the other has still to do;    *)
(* when the other side does it, everything observable must be the same:    *)
(* result, details, lifecycle callbacks (hence every eviction, in order)   *)
(* and, where both were observed, the contents.                            *)
(*                                                                         *)
(* nt  0  a call of the common workload                                    *)
(*     1  a call on one side only, which must leave that side's contents   *)
(*        as they are and must have no influence on anything later         *)
(*     2  left: a soft replace; right: overwriting the value in place      *)
(*     3  a call before the right side exists                              *)
(* cln    the right side is created as a clone of the left side            *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
Prop == IOEnv.PROPS
VARIABLES i, q, ahead, last, skip, bad
vars == << i, q, ahead, last, skip, bad >>

Unknown == << >>
Init == i = 1 /\ q = << >> /\ ahead = 0 /\ last = << Unknown, Unknown >> /\ skip = TRUE /\ bad = 0

\* the callbacks without the identity of the request
Cb5(c) == [j \in 1..Len(c) |-> << c[j][1], c[j][2], c[j][3], c[j][4], c[j][5] >>]
Seen(e) == "i" \in DOMAIN e
Contents(e) == IF Seen(e) THEN << e.i, e.w, e.it, e.ck, e.n, e.t, e.e, e.cp >> ELSE Unknown
Call(e) == << e.o, e.k, e.f, e.v, e.u, e.ks, e.g >>
Did(e) == [call |-> Call(e), r |-> e.r, x |-> e.x, c |-> Cb5(e.c), s |-> Contents(e)]
Same(a, b) == /\ a.call = b.call /\ a.r = b.r /\ a.x = b.x /\ a.c = b.c
              /\ (a.s = Unknown \/ b.s = Unknown \/ a.s = b.s)
Returned(e) == e.r = << >> \/ e.r[1] > -8

\* what each kind of event demands; side s was last seen with contents last[s + 1]
Untouched(e) == ~Seen(e) \/ last[e.sd + 1] = Unknown \/ Contents(e) = last[e.sd + 1]

Allowed(e) ==
  /\ Returned(e)
  /\ CASE e.o = "cln" -> q = << >>
       [] e.nt = 3 -> e.sd = 0
       [] e.nt = 2 -> IF e.sd = 0 THEN e.r = << 0 >> ELSE e.r[1] # 0
       [] e.nt = 1 -> Untouched(e)
       [] OTHER -> (q = << >> \/ e.sd = ahead) \/ Same(q[1], Did(e))

Next ==
  /\ i <= NT
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.o = "new" THEN q' = << >> /\ ahead' = 0 /\ last' = << Unknown, Unknown >> /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED << q, ahead, last, skip, bad >>
     ELSE IF ~Allowed(e)
       THEN /\ PrintT(<< "REJECT", i, {Prop} >>)
            /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED << q, ahead, last >>
     ELSE IF e.o = "cln" THEN last' = << last[1], last[1] >> /\ UNCHANGED << q, ahead, skip, bad >>
     ELSE LET sd == e.sd
              \* on the right side of a "neutral" pair nothing is observed before the
              \* end: then it must show what the left side shows
              l1 == IF Seen(e) THEN [last EXCEPT ![sd + 1] = Contents(e)] ELSE last
              l2 == IF Prop = "C14" THEN << l1[1], l1[1] >> ELSE l1
          IN /\ last' = l2
             /\ IF e.nt # 0 THEN UNCHANGED << q, ahead >>
                ELSE IF q = << >> \/ sd = ahead THEN q' = Append(q, Did(e)) /\ ahead' = sd
                ELSE q' = Tail(q) /\ ahead' = ahead
             /\ UNCHANGED << skip, bad >>

Spec == Init /\ [][Next]_vars
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
