----------------------------- MODULE ClockTrace -----------------------------
(***************************************************************************)
(* Validates recorded traces of the real code against the exact model:     *)
(* every call must return what CacheModel returns, evict exactly the same  *)
(* items in the same order and leave the same contents.                    *)
(***************************************************************************)
EXTENDS CacheModel, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
VARIABLES i, st, api, skip, bad
vars == << i, st, api, skip, bad >>

Idle == NewModel({1}, 0, 0, 0)
Init == i = 1 /\ st = Idle /\ api = "unsync" /\ skip = TRUE /\ bad = 0

\* the callbacks without the identity of the request
Cb5(c) == [j \in 1..Len(c) |-> << c[j][1], c[j][2], c[j][3], c[j][4], c[j][5] >>]

\* a hand-over names a future which the model knows to be waiting
Legal(e) ==
  e.o = "gdr" =>
     LET ph == st.gd[e.g][2] IN
     IF st.wn[ph] = 0 THEN e.x = << >>
     ELSE Len(e.x) = 3 /\ e.x[1] \in DOMAIN st.fu /\ st.fu[e.x[1]] = ph

Agrees(e, m) ==
  /\ e.r = m.r
  /\ Cb5(e.c) = m.st.s.cb
  /\ \A k \in DOMAIN m.st.s.e :
       /\ e.i[k] = IF m.st.s.e[k].t = "R" THEN m.st.s.e[k].id ELSE 0
       /\ e.w[k] = IF m.st.s.e[k].t = "R" THEN m.st.s.e[k].w ELSE 0
  /\ e.t = Total(m.st.s)

Next ==
  /\ i <= NT
  /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.o = "new" THEN
        /\ st' = NewModel(1..e.nk, e.cap, e.thot, e.gcap)
        /\ api' = IF e.api = 1 THEN "sync" ELSE "unsync"
        /\ skip' = (e.inj = 0 \/ e.sh > 1) /\ bad' = bad
     ELSE IF skip \/ e.o = "end" THEN UNCHANGED << st, api, skip, bad >>
     ELSE IF (e.r = << >> \/ e.r[1] > -8) /\ Legal(e) THEN
        LET m == Step(st, e, api) IN
        IF Agrees(e, m) THEN st' = m.st /\ UNCHANGED << api, skip, bad >>
        ELSE /\ PrintT(<< "REJECT", i, {"C13"} >>)
             /\ skip' = TRUE /\ st' = Idle /\ bad' = bad + 1 /\ api' = api
     ELSE /\ PrintT(<< "REJECT", i, {"C13"} >>)
          /\ skip' = TRUE /\ st' = Idle /\ bad' = bad + 1 /\ api' = api

Spec == Init /\ [][Next]_vars
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
