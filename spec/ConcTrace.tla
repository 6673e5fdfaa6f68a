----------------------------- MODULE ConcTrace -----------------------------
(***************************************************************************)
(* Validates concurrent histories of calls that each take effect in one    *)
(* atomic step, against the same contract that sequential traces must      *)
(* satisfy: there has to be an order of the calls, compatible with which   *)
(* returned before which started, in which every call does what            *)
(* CacheContract demands.  Contents are not observed after every call;     *)
(* they are what the callbacks and the calls so far explain.  Which items  *)
(* are evicted stays open, so the histories of every eviction policy that  *)
(* keeps the contract are explained.                                       *)
(*                                                                         *)
(* One line per history: nk, cap, thot and the calls t in the order in     *)
(* which they returned; s and f are the positions where a call started and *)
(* returned.  A history that is explained is printed as ACC.               *)
(***************************************************************************)
EXTENDS CacheContract, Json, IOUtils

File == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(File)
Prop == IOEnv.PROPS
\* what is demanded of every call besides C01
Also == IF Prop = "C02" THEN {"C08", "C09"} ELSE {Prop} \cap SeqProps

VARIABLES tr, D, S
vars == << tr, D, S >>
H == File[tr]
N(h) == Len(h.t)

\* a call that did not return, or panicked
Whole(h) == \A j \in 1..N(h) : "o" \in DOMAIN h.t[j] /\ h.t[j].o # "panic"

Init == /\ tr \in {j \in 1..NT : Whole(File[j])}
        /\ D = {} /\ S = NewState(File[tr].nk, File[tr].cap, File[tr].thot, 1, 1)

\* the call with the observations that the contents explained so far imply
Full(s, a) ==
  LET b == [o |-> a.o, k |-> a.k, f |-> a.fl, v |-> a.v, u |-> << >>, ks |-> a.ks, g |-> a.g,
            r |-> a.r, x |-> a.x, c |-> a.c]
      x == Expected(s, b)
      i == [k \in Keys(s) |-> x[k][1]]
      w == [k \in Keys(s) |-> x[k][2]]
      n == Count({k \in Keys(s) : i[k] # 0})
      ct == Counted(s, b)
      pa == PendAfter(s, b)
  IN b @@ [i |-> i, w |-> w, it |-> i, ck |-> [k \in Keys(s) |-> IF i[k] # 0 THEN 1 ELSE 0],
           n |-> n, t |-> SumSeq(w, s.nk), e |-> IF n = 0 THEN 1 ELSE 0, cp |-> s.cap,
           h |-> s.h + ct[1], m |-> s.m + ct[2],
           lv |-> n, lk |-> n + Count({k \in Keys(s) : pa[k] # 0})]

Live(s) == Count({k \in Keys(s) : Hit(s, k)})
\* the states after the call (none: it cannot take effect here)
After(s, a) ==
  CASE a.o = "len" -> IF a.r = << Live(s) >> THEN {s} ELSE {}
    [] a.o = "wgt" -> IF a.r = << TotalPre(s) >> THEN {s} ELSE {}
    [] a.o = "emp" -> IF a.r = << IF Live(s) = 0 THEN 1 ELSE 0 >> THEN {s} ELSE {}
    [] a.o = "end" -> IF Prop = "C17" => a.r = << s.h, s.m >> THEN {s} ELSE {}
    [] a.o \in {"nop", "rsv"} -> {s}
    [] OTHER -> LET e == Full(s, a)
                    \* requests of different threads may begin in any order
                    q == [s EXCEPT !.rq = 0]
                IN IF C01(q, e) /\ (\A p \in Also : Holds(p, q, e)) THEN {Apply(q, e)} ELSE {}

\* nobody who has yet to take effect returned before j started
Next ==
  /\ UNCHANGED tr
  /\ \E j \in (1..N(H)) \ D :
       /\ \A i \in (1..N(H)) \ D : i < j => H.t[i].f > H.t[j].s
       /\ D' = D \cup {j}
       /\ S' \in After(S, H.t[j])

Spec == Init /\ [][Next]_vars
Complete == Cardinality(D) = N(H)
View == IF Complete THEN << tr, D, 0 >> ELSE << tr, D, S >>
Accept == Complete => PrintT(<< "ACC", tr >>)
=============================================================================
