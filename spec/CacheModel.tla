----------------------------- MODULE CacheModel -----------------------------
(***************************************************************************)
(* One step of the public API of a single-shard cache (sync with one       *)
(* shard, or unsync), on top of the shard of ClockOps.                     *)
(*                                                                         *)
(* A command is an event record without its observations; fields used:     *)
(*   o  operation name          k  key            f  flags (see each op)   *)
(*   v  new value <<id,w,p,z>>  u  second value   q  closure outcome       *)
(*   ks set of keys that a retain predicate rejects                        *)
(*   g  guard id                                                           *)
(* The model state is [s, gd, wn, fu]: shard, live guards (g -> <<k, ph>>),*)
(* number of waiting futures per placeholder (only placeholders which have *)
(* a guard), and waiting futures (f -> ph).                                *)
(*                                                                         *)
(* Step returns [st, r, q]: next model state, the result the call must     *)
(* return, and whether / how the user's closure must have been run:        *)
(* q = -1 not called, otherwise the outcome given in the command.          *)
(***************************************************************************)
EXTENDS ClockOps, TLC

EmptyFn == [x \in {} |-> 0]
NewModel(K, cap, thot, gcap) ==
  [s |-> NewShard(K, cap, thot, gcap), gd |-> EmptyFn, wn |-> EmptyFn, fu |-> EmptyFn]

CbBegin == <<1, 0, 0, 0, 0>>
CbEnd   == <<4, 0, 0, 0, 0>>
CbDrop  == <<5, 0, 0, 0, 0>>
CbGive  == <<6, 0, 0, 0, 0>>

Ret(st, r)     == [st |-> st, r |-> r, q |-> -1]
RetQ(st, r, q) == [st |-> st, r |-> r, q |-> q]
WithS(st, s)   == [st EXCEPT !.s = s]

Begin(s) == [s EXCEPT !.cb = << CbBegin >>]
\* lc = 1: the `_with_lifecycle` flavour, which hands the request state to the caller
EndReq(s, lc) == [s EXCEPT !.cb = Append(@, IF lc = 1 THEN CbGive ELSE CbEnd)]
\* a failed call drops the request state
DropReq(s) == [s EXCEPT !.cb = Append(@, CbDrop)]

Without1(fn, x) == [y \in DOMAIN fn \ {x} |-> fn[y]]

\* ---- single operations ---------------------------------------------------

DoGet(st, k)  == IF IsRes(st.s, k) THEN Ret(WithS(st, Use(st.s, k)), << st.s.e[k].id >>)
                                   ELSE Ret(st, << 0 >>)
DoPeek(st, k) == Ret(st, << IF IsRes(st.s, k) THEN st.s.e[k].id ELSE 0 >>)
DoHas(st, k)  == Ret(st, << IF IsRes(st.s, k) THEN 1 ELSE 0 >>)

DoIns(st, k, v, lc) ==
  LET x == Insert(Begin(st.s), k, v, "ins") IN Ret(WithS(st, EndReq(x.s, lc)), << >>)

DoRep(st, k, v, soft, lc) ==
  LET x == Insert(Begin(st.s), k, v, IF soft = 1 THEN "soft" ELSE "rep") IN
  IF x.ok THEN Ret(WithS(st, EndReq(x.s, lc)), << 0 >>)
          ELSE Ret(WithS(st, DropReq(x.s)), << 1, k, v[1] >>)

DoRem(st, k) ==
  Ret(WithS(st, RemoveKey(st.s, k)),
      IF IsRes(st.s, k) THEN << k, st.s.e[k].id >> ELSE << 0, 0 >>)

DoRet(st, ks) ==
  Ret(WithS(st, RemoveAll(st.s, ResKeys(st.s) \cap ks)), << >>)

DoClr(st) == Ret(WithS(st, ClearAll(st.s)), << >>)

\* get_mut / peek_mut, optionally overwriting the value with u (u # << >>)
DoMut(st, k, u, use) ==
  IF ~IsRes(st.s, k) THEN Ret(st, << 0 >>)
  ELSE LET s1 == IF use THEN Use(st.s, k) ELSE st.s
           s2 == IF u = << >> THEN s1 ELSE Mutate(s1, k, u)
       IN Ret(WithS(st, s2), << st.s.e[k].id >>)

\* fill with an already reserved placeholder, as one request
FillReq(s, k, v, ref, lc) == EndReq(Fill(Begin(s), k, v, ref).s, lc)

\* get_or_insert_with (sync: always hands out the value), get_mut_or_insert_with
\* q: 0 closure succeeds with v, 1 closure fails, 2 closure panics
DoGoi(st, k, v, u, q, api, mut) ==
  IF IsRes(st.s, k) THEN
     LET s1 == Use(st.s, k)
         s2 == IF mut /\ u # << >> THEN Mutate(s1, k, u) ELSE s1
     IN Ret(WithS(st, s2), << 1, st.s.e[k].id >>)
  ELSE IF st.s.e[k].t = "P" THEN Ret(st, << 6 >>)  \* would block (sync only), never issued
  ELSE
     LET s1 == Reserve(st.s, k, 0) IN
     IF q # 0 THEN RetQ(WithS(st, Abandon(s1, k, 0)), << IF q = 1 THEN 3 ELSE 4 >>, q)
     ELSE LET s2 == FillReq(s1, k, v, 0, 0)
              in == IsRes(s2, k) /\ s2.e[k].id = v[1]
              s3 == IF mut /\ in /\ u # << >> THEN Mutate(s2, k, u) ELSE s2
          IN RetQ(WithS(st, s3),
                  IF in \/ api = "sync" THEN << 1, v[1] >> ELSE << 2 >>, q)

\* unsync get_ref_or_guard / get_mut_or_guard and what is done with the guard
\* f: 0 drop it, 1 insert, 2 insert_with_lifecycle
DoGui(st, k, v, u, f, mut) ==
  IF IsRes(st.s, k) THEN
     LET s1 == Use(st.s, k)
         s2 == IF mut /\ u # << >> THEN Mutate(s1, k, u) ELSE s1
     IN Ret(WithS(st, s2), << 1, st.s.e[k].id >>)
  ELSE LET s1 == Reserve(st.s, k, 0) IN
       IF f = 0 THEN Ret(WithS(st, Abandon(s1, k, 0)), << 5 >>)
       ELSE Ret(WithS(st, FillReq(s1, k, v, 0, IF f = 2 THEN 1 ELSE 0)), << 5 >>)

\* sync get_value_or_guard[_async]: value, guard named g, or timeout / pending
DoJoin(st, k, g) ==
  IF IsRes(st.s, k) THEN Ret(WithS(st, Use(st.s, k)), << 1, st.s.e[k].id >>)
  ELSE IF st.s.e[k].t = "P" THEN Ret(st, << 3 >>)
  ELSE Ret([st EXCEPT !.s = Reserve(st.s, k, g), !.gd = (g :> << k, g >>) @@ @,
                      !.wn = (g :> 0) @@ @], << 2, g >>)

\* poll a new future fu on a key whose load is pending: it becomes a waiter
DoWait(st, k, fu) ==
  LET j == DoJoin(st, k, fu) IN
  IF j.r # << 3 >> THEN j
  ELSE LET ph == st.s.e[k].ph IN
       Ret([st EXCEPT !.wn[ph] = @ + 1, !.fu = (fu :> ph) @@ @], << 3 >>)

DoUnwait(st, fu) ==
  Ret([st EXCEPT !.wn[st.fu[fu]] = @ - 1, !.fu = Without1(@, fu)], << >>)

\* guard.insert; every future waiting on the placeholder obtains the value
DoGin(st, g, v, lc) ==
  LET k  == st.gd[g][1]
      ph == st.gd[g][2]
      ref == IF st.wn[ph] > 0 THEN 1 ELSE 0
      st1 == [st EXCEPT !.gd = Without1(@, g), !.wn = Without1(@, ph),
                        !.fu = [f \in {x \in DOMAIN st.fu : st.fu[x] # ph} |-> st.fu[f]]]
  IN IF st.s.e[k].t = "P" /\ st.s.e[k].ph = ph
       THEN Ret(WithS(st1, FillReq(st.s, k, v, ref, lc)), << 0 >>)
       ELSE Ret(WithS(st1, DropReq(Begin(st.s))), << 1, v[1] >>)

\* drop of a guard; fu is the future that takes over as guard g2 (0: none waits)
DoGdr(st, g, fu, g2) ==
  LET k  == st.gd[g][1]
      ph == st.gd[g][2]
  IN IF st.wn[ph] = 0
       THEN Ret([st EXCEPT !.s = Abandon(st.s, k, ph), !.gd = Without1(@, g),
                           !.wn = Without1(@, ph)], << >>)
       ELSE Ret([st EXCEPT !.gd = (g2 :> << k, ph >>) @@ Without1(@, g),
                           !.wn[ph] = @ - 1, !.fu = Without1(@, fu)], << >>)

\* ---- dispatch --------------------------------------------------------------

ClearCb(st) == [st EXCEPT !.s.cb = << >>]

Step(st0, ev, api) ==
  LET st == ClearCb(st0) IN
  CASE ev.o = "get"  -> DoGet(st, ev.k)
    [] ev.o = "peek" -> DoPeek(st, ev.k)
    [] ev.o = "has"  -> DoHas(st, ev.k)
    [] ev.o = "ins"  -> DoIns(st, ev.k, ev.v, ev.f)
    [] ev.o = "rep"  -> DoRep(st, ev.k, ev.v, ev.f % 2, ev.f \div 2)
    [] ev.o = "rem"  -> DoRem(st, ev.k)
    [] ev.o = "ret"  -> DoRet(st, {ev.ks[j] : j \in 1..Len(ev.ks)})
    [] ev.o = "clr"  -> DoClr(st)
    [] ev.o = "drn"  -> LET n == Cardinality(ResKeys(st.s))
                        IN Ret(DoClr(st).st, << IF ev.f < n THEN ev.f ELSE n >>)
    [] ev.o \in {"nop", "rsv"} -> Ret(st, << >>)
    [] ev.o = "pin"  -> IF IsRes(st.s, ev.k) THEN Ret([st EXCEPT !.s.e[ev.k].p = ev.f], << 1 >>)
                        ELSE Ret(st, << 0 >>)
    [] ev.o = "gmu"  -> DoMut(st, ev.k, ev.u, TRUE)
    [] ev.o = "pmu"  -> DoMut(st, ev.k, ev.u, FALSE)
    [] ev.o \in {"goi", "ga"} -> DoGoi(st, ev.k, ev.v, ev.u, ev.f, api, FALSE)
    [] ev.o = "gmi"  -> DoGoi(st, ev.k, ev.v, ev.u, ev.f, api, TRUE)
    [] ev.o = "gui"  -> DoGui(st, ev.k, ev.v, ev.u, ev.f, FALSE)
    [] ev.o = "gum"  -> DoGui(st, ev.k, ev.v, ev.u, ev.f, TRUE)
    [] ev.o = "jn"   -> DoJoin(st, ev.k, ev.g)
    [] ev.o = "wt"   -> DoWait(st, ev.k, ev.g)
    [] ev.o = "uw"   -> DoUnwait(st, ev.g)
    [] ev.o = "pl"   -> Ret(st, << 3 >>)
    [] ev.o = "gin"  -> DoGin(st, ev.g, ev.v, ev.f)
    [] ev.o = "gdr"  -> LET f == IF ev.x = << >> THEN 0 ELSE ev.x[1] IN DoGdr(st, ev.g, f, f)
=============================================================================
