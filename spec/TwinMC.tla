------------------------------- MODULE TwinMC -------------------------------
(***************************************************************************)
(* Two caches side by side (C14, C18), on the exact model.                 *)
(*                                                                         *)
(* st is the left cache, tw the right one (created as a copy of the left   *)
(* one at any moment), q the calls (with their observations) that the left *)
(* cache has made and the right one still has to make, at most Lag.        *)
(* Neutral calls are made on the left cache only.                          *)
(*   Agree     the right cache, making the same call, shows the same       *)
(*             result, callbacks and contents (the call is asserted to)    *)
(*   InStep    whenever the right cache has caught up, the two are in the  *)
(*             same state, whatever neutral calls the left one made        *)
(***************************************************************************)
EXTENDS ContractMC
CONSTANT Lag
VARIABLES tw, q
tvars == << st, tw, q >>

\* calls documented not to influence eviction, in state x
Neutral(x) ==
  UNION {
    {CK(o, k) : o \in {"peek", "has", "pmu"}, k \in K},
    {Cmd0("rsv")},
    {CK("get", k) : k \in {j \in K : ~IsRes(x.s, j)}},
    {[CK("rep", k) EXCEPT !.v = Val(x, sh), !.f = f] :
        k \in {j \in K : ~IsRes(x.s, j)}, sh \in Shapes, f \in {0, 1}},
    \* a soft replace by an equal value, while nothing needs to be evicted
    {[CK("rep", k) EXCEPT !.v = << NK + 1, x.s.e[k].w, x.s.e[k].p, x.s.e[k].z >>, !.f = 1] :
        k \in {j \in K : /\ IsRes(x.s, j) /\ Total(x.s) <= Cap
                         /\ (x.s.e[j].w <= Thot \/ x.s.e[j].p = 1)}}
  }
\* a soft replace is an overwrite in place followed by whatever eviction the new total needs
SoftIsOverwrite(x) ==
  \A k \in {j \in K : IsRes(x.s, j)} : \A sh \in Shapes :
    LET v == Val(x, sh)
        ok == sh.w <= Thot \/ sh.p = 1
    IN (ok /\ Total(x.s) - x.s.e[k].w + sh.w <= Cap) =>
       Canon(Step(x, [CK("rep", k) EXCEPT !.v = v, !.f = 1] @@ [x |-> << >>], Api).st)
         = Canon(Step(x, [CK("pmu", k) EXCEPT !.u = v] @@ [x |-> << >>], Api).st)

Shown(x, c, m) == LET e == Event(x, c, m) IN [e EXCEPT !.h = 0, !.m = 0]

TInit == Init /\ tw = st /\ q = << >>
LeftStep ==
  /\ Len(q) < Lag
  /\ \E c \in Commands(st) : \E cx \in WithX(st, c) :
       LET m == Step(st, cx, Api) IN
       st' = Canon(m.st) /\ q' = Append(q, << cx, Shown(st, cx, m) >>) /\ UNCHANGED tw
RightStep ==
  /\ q # << >>
  /\ LET cx == q[1][1]
         m == Step(tw, cx, Api)
     IN /\ Assert(Shown(tw, cx, m) = q[1][2], << "the twins differ", cx >>)
        /\ tw' = Canon(m.st) /\ q' = Tail(q) /\ UNCHANGED st
NeutralStep ==
  \E c \in Neutral(st) :
    LET m == Step(st, c @@ [x |-> << >>], Api) IN st' = Canon(m.st) /\ UNCHANGED << tw, q >>
TNext == LeftStep \/ RightStep \/ NeutralStep
TSpec == TInit /\ [][TNext]_tvars
InStep == q = << >> => st = tw
Soft == SoftIsOverwrite(st)
=============================================================================
