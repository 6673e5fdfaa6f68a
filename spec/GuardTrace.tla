----------------------------- MODULE GuardTrace -----------------------------
(***************************************************************************)
(* Validates recorded concurrent histories of the real code against        *)
(* GuardProtocol.  The steps inside calls are not recorded; TLC looks for  *)
(* steps that explain what was observed.  They are only taken when the     *)
(* next event of the history cannot be consumed otherwise, which loses no  *)
(* explanation (a step can always be delayed until somebody depends on it).*)
(*                                                                         *)
(* Events: c call started (o k v g tm ks), r call returned (r), ps / pe    *)
(* poll of a future started (waker w) / returned (r, <<3>> pending), lb /  *)
(* le loader of a call began / ended with v, wk a waker was woken, end.    *)
(* A history that is explained up to its end is printed as ACC.            *)
(***************************************************************************)
EXTENDS GuardProtocol, Json, IOUtils

File == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(File)
Prop == IOEnv.PROPS

VARIABLES tr, i, S
vars == << tr, i, S >>
\* one line per history: [nk, ev, t (the events)]
H == File[tr]
SetOf(q) == {q[j] : j \in 1..Len(q)}

Init == tr \in 1..NT /\ i = 1 /\ S = NewS(1..File[tr].nk)

\* missing wake-ups and calls that never return concern the properties about progress
Progress == Prop \notin {"C01", "C02", "C09", "C15", "C17"}
Woken(c) == Progress => WakesDone(S, c)

\* the event can be consumed: the state after it, or {} if it cannot be (yet)
Consume(e) ==
  CASE e.e = "c" -> {[S EXCEPT !.c = (e.c :> NewCall(e.o, e.k, e.v, e.g, e.tm,
                                        IF e.o = "clr" THEN 1..H.nk ELSE SetOf(e.ks))) @@ @]}
    [] e.e = "r" -> LET x == S.c[e.c] IN
                    IF x.st = "x" /\ x.r = e.r /\ Woken(e.c)
                      THEN {[S EXCEPT !.c = Drop1(@, e.c),
                                      !.gd = IF GotGuard(x) THEN (e.c :> x.ph) @@ @ ELSE @]}
                      ELSE {}
    [] e.e = "ps" -> {[S EXCEPT !.c[e.c].nw = e.w, !.c[e.c].chk = FALSE]}
    [] e.e = "pe" -> LET x == S.c[e.c] IN
                     IF e.r = << 3 >>
                       THEN IF (x.chk \/ x.st = "b") /\ Woken(e.c)
                              THEN {[S EXCEPT !.c[e.c].nw = 0, !.c[e.c].chk = FALSE]} ELSE {}
                       ELSE IF x.st = "x" /\ ~x.chk /\ x.r = e.r /\ Woken(e.c)
                              THEN {[S EXCEPT !.c = Drop1(@, e.c),
                                              !.gd = IF GotGuard(x) THEN (e.c :> x.ph) @@ @ ELSE @]}
                              ELSE {}
    [] e.e = "lb" -> IF S.c[e.c].st = "g" /\ ~S.c[e.c].chk THEN {[S EXCEPT !.c[e.c].st = "b"]} ELSE {}
    [] e.e = "le" -> IF S.c[e.c].st = "b" THEN {[S EXCEPT !.c[e.c].st = "l", !.c[e.c].v = e.v]} ELSE {}
    [] e.e = "wk" -> {IF e.c \in DOMAIN S.c THEN [S EXCEPT !.c[e.c].wok = @ \cup {e.w}] ELSE S}
    [] e.e = "end" ->
         IF /\ DOMAIN S.c = {} /\ S.gd = NoFn
            /\ Prop = "C17" => e.h = S.h /\ e.m = S.m
            /\ Prop = "C15" => LET n == Cardinality({k \in 1..H.nk : S.v[k] # 0})
                               IN e.lv = n /\ e.lk = n
           THEN {S} ELSE {}
    [] e.e = "dead" -> IF Progress THEN {} ELSE {S}
    [] OTHER -> {}

\* no step can make this state explain the event any more: its call has another result
Hopeless(e) ==
  /\ e.e \in {"r", "pe", "lb"}
  /\ LET x == S.c[e.c] IN
     /\ x.st = "x"
     /\ \/ e.e = "lb"
        \/ e.e = "r" /\ x.r # e.r
        \/ e.e = "pe" /\ e.r # << 3 >> /\ x.r # e.r
        \/ e.e = "pe" /\ e.r = << 3 >> /\ ~x.chk

\* calls that may take a step now: futures only while they are polled
Active(c) == LET x == S.c[c] IN ~IsFuture(x) \/ x.nw # 0

\* where events carry the time (at, in microseconds), a call whose timeout is T
\* may give up only when that much time has passed since it started: steps happen
\* no later than the next event
CallOf(c) == H.t[CHOOSE j \in 1..i : H.t[j].e = "c" /\ H.t[j].c = c]
MayExpire(c) == IF "at" \notin DOMAIN H.t[i] THEN TRUE ELSE H.t[i].at - CallOf(c).at + 1 >= CallOf(c).T

Silent ==
  \/ \E c \in DOMAIN S.c : Active(c) /\ (IF S.c[c].st = "w" THEN MayExpire(c) ELSE TRUE) /\ S' \in Steps(S, c)
  \/ \E f \in DOMAIN S.c : S.c[f].st = "w" /\ S.c[f].nw # 0 /\ ~S.c[f].chk /\ S' = StillWaiting(S, f)
  \/ H.ev = 1 /\ \E k \in 1..H.nk : S.v[k] # 0 /\ S' = Evict(S, k)

Next ==
  /\ i <= Len(H.t)
  /\ UNCHANGED tr
  /\ LET n == Consume(H.t[i]) IN
     \/ n # {} /\ i' = i + 1 /\ S' \in n
     \/ n = {} /\ ~Hopeless(H.t[i]) /\ i' = i /\ Silent

Spec == Init /\ [][Next]_vars
\* the state after the last event is the same however it was reached
View == IF i > Len(H.t) THEN << tr, i, 0 >> ELSE << tr, i, S >>
Sound == OneLoader(S) /\ KeyLoads(S) /\ NeverBoth(S) /\ WaitersRegistered(S)
Accept == i > Len(H.t) => PrintT(<< "ACC", tr >>)
=============================================================================
