--------------------------- MODULE GuardProtocol ---------------------------
(***************************************************************************)
(* The concurrent cache: calls of threads and futures that overlap, the    *)
(* loading protocol (guards, waiters, hand-over, timeouts, cancellation)   *)
(* and the atomic steps that calls take between their start and their      *)
(* return.  Capacity is ample (or evictions are allowed at any time, see   *)
(* Evict), so the state per key is just its value and its pending load.    *)
(*                                                                         *)
(* State S (a record):                                                     *)
(*   v    key -> id of the value stored, 0 if none                         *)
(*   pk   key -> name of the pending load (placeholder) in the cache, or 0 *)
(*   ph   placeholder -> [k, st, val, w]: st is "L" loading or "I" value   *)
(*        published; w is the set of calls waiting for it                  *)
(*   gd   guard -> placeholder, the guards in the hands of callers; a      *)
(*        guard is named after the call that obtained it                   *)
(*   c    call -> record, the calls in progress (and unfinished futures)   *)
(*   h, m hits and misses counted                                          *)
(* A call's st: "n" started; "w" waiting on placeholder ph; "g" obtained   *)
(* the guard of ph and must run its loader; "b" loader running; "l" loader *)
(* finished (with v: value, 0 failed, -1 panicked); "p" value published,   *)
(* not stored; "x" finished with result r.  chk: the running poll of a     *)
(* future found it waiting and is about to return Pending.                 *)
(*                                                                         *)
(* Operations: get peek has ins rep rem ret clr gin gdr fd (drop a future),*)
(* jn (get_value_or_guard, tm = 1 with timeout), goi (get_or_insert_with), *)
(* fj and ga: futures of get_value_or_guard_async, get_or_insert_async.    *)
(* Results: <<1, id>> value, <<2>> guard, <<3>> timeout, <<4>> panic,      *)
(* <<5>> loader failed; see Lin for the rest.                              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

NoFn == [a \in {} |-> 0]
Drop1(fn, a) == [b \in DOMAIN fn \ {a} |-> fn[b]]

NewS(K) == [v |-> [k \in K |-> 0], pk |-> [k \in K |-> 0], ph |-> NoFn,
            gd |-> NoFn, c |-> NoFn, h |-> 0, m |-> 0]

\* a call that has just started
NewCall(o, k, v, g, tm, ks) ==
  [o |-> o, k |-> k, v |-> v, g |-> g, tm |-> tm, st |-> "n", ph |-> 0, r |-> << >>,
   chk |-> FALSE, wk |-> 0, nw |-> 0, gr |-> {}, wok |-> {}, todo |-> ks]

IsFuture(x) == x.o \in {"fj", "ga"}
IsJoin(x) == x.o \in {"jn", "goi", "fj", "ga"}
\* finished with a guard that the caller does not have in hands yet
GotGuard(x) == x.o \in {"jn", "fj"} /\ x.st = "x" /\ x.r = << 2 >>

Fin(S, c, r) == [S EXCEPT !.c[c].st = "x", !.c[c].r = r]
Hit(S) == [S EXCEPT !.h = @ + 1]
Miss(S) == [S EXCEPT !.m = @ + 1]

\* call c now owns the guard of placeholder p
Got(S, c, p) ==
  IF S.c[c].o \in {"goi", "ga"}
    THEN [S EXCEPT !.c[c].st = "g", !.c[c].ph = p]
    ELSE [S EXCEPT !.c[c].st = "x", !.c[c].ph = p, !.c[c].r = << 2 >>]

\* call `by` owes a wake-up to the future w, through the waker it left
Owe(S, by, w) ==
  IF IsFuture(S.c[w]) THEN [S EXCEPT !.c[by].gr = @ \cup {<< w, S.c[w].wk >>}] ELSE S

\* look the key up; without a value, create a load or wait for the pending one
Acquire(S, c) ==
  LET k == S.c[c].k
      p == S.pk[k]
  IN
  IF S.v[k] # 0 THEN Hit(Fin(S, c, << 1, S.v[k] >>))
  ELSE IF p = 0 THEN
     Miss(Got([S EXCEPT !.pk[k] = c,
                        !.ph = (c :> [k |-> k, st |-> "L", val |-> 0, w |-> {}]) @@ @], c, c))
  ELSE IF S.ph[p].st = "I" THEN Hit(Fin(S, c, << 1, S.ph[p].val >>))
  ELSE Hit([S EXCEPT !.ph[p].w = @ \cup {c}, !.c[c].st = "w", !.c[c].ph = p,
                     !.c[c].wk = S.c[c].nw, !.c[c].chk = IsFuture(S.c[c])])

\* c publishes value val to everybody waiting for placeholder p
RECURSIVE Serve(_, _, _, _)
Serve(S, c, W, val) ==
  IF W = {} THEN S
  ELSE LET w == CHOOSE x \in W : TRUE
       IN Serve(Fin(Owe(S, c, w), w, << 1, val >>), c, W \ {w}, val)
Publish(S, c, p, val) ==
  Serve([S EXCEPT !.ph[p].st = "I", !.ph[p].val = val, !.ph[p].w = {}, !.c[c].st = "p", !.c[c].ph = p],
        c, S.ph[p].w, val)

\* ... and stores it, if the reservation still stands; ok and no are the results
Store(S, c, p, val, ok, no) ==
  LET k == S.ph[p].k
      S1 == [S EXCEPT !.ph = Drop1(@, p)]
  IN IF S.pk[k] = p THEN Fin([S1 EXCEPT !.v[k] = val, !.pk[k] = 0], c, ok)
     ELSE Fin(S1, c, no)

\* the guard of p is given up in call c: any one waiter takes over
GiveUp(S, c, p) ==
  LET W == S.ph[p].w
      k == S.ph[p].k
  IN IF W = {} THEN {[S EXCEPT !.ph = Drop1(@, p), !.pk[k] = IF @ = p THEN 0 ELSE @]}
     ELSE {Got(Owe([S EXCEPT !.ph[p].w = @ \ {w}], c, w), w, p) : w \in W}

\* removes the future f
Forget(S, f) == [S EXCEPT !.c = Drop1(@, f)]

\* drop of the unfinished future f by call c
DropFuture(S, c, f) ==
  LET x == S.c[f] IN
  CASE x.st = "w" -> {Fin(Forget([S EXCEPT !.ph[x.ph].w = @ \ {f}], f), c, << >>)}
    [] x.st \in {"g", "b", "l"} \/ GotGuard(x) ->
         {Fin(Forget(S2, f), c, << >>) : S2 \in GiveUp(S, c, x.ph)}
    [] OTHER -> {Fin(Forget(S, f), c, << >>)}

\* The atomic steps of call c: the set of possible next states ({}: c cannot step)
Steps(S, c) ==
  LET x == S.c[c]
      k == x.k
  IN
  \* a poll that found its future waiting does nothing more
  CASE x.chk -> {}
    [] x.st = "n" /\ x.o = "get" ->
         {IF S.v[k] # 0 THEN Hit(Fin(S, c, << S.v[k] >>)) ELSE Miss(Fin(S, c, << 0 >>))}
    [] x.st = "n" /\ x.o = "peek" -> {Fin(S, c, << S.v[k] >>)}
    [] x.st = "n" /\ x.o = "has" -> {Fin(S, c, << IF S.v[k] # 0 THEN 1 ELSE 0 >>)}
    [] x.st = "n" /\ x.o = "ins" -> {Fin([S EXCEPT !.v[k] = x.v, !.pk[k] = 0], c, << >>)}
    [] x.st = "n" /\ x.o = "rep" ->
         {IF S.v[k] # 0 THEN Fin([S EXCEPT !.v[k] = x.v], c, << 0 >>) ELSE Fin(S, c, << 1, x.v >>)}
    [] x.st = "n" /\ x.o = "rem" -> {Fin([S EXCEPT !.v[k] = 0, !.pk[k] = 0], c, << S.v[k] >>)}
    \* retain and clear treat one key after the other
    [] x.st = "n" /\ x.o \in {"ret", "clr"} ->
         IF x.todo = {} THEN {Fin(S, c, << >>)}
         ELSE {[S EXCEPT !.v[j] = 0, !.pk[j] = IF x.o = "clr" THEN 0 ELSE @,
                         !.c[c].todo = @ \ {j},
                         !.c[c].st = IF x.todo = {j} THEN "x" ELSE "n"] : j \in x.todo}
    [] x.st = "n" /\ IsJoin(x) -> {Acquire(S, c)}
    [] x.st = "w" /\ x.tm = 1 -> {Fin([S EXCEPT !.ph[x.ph].w = @ \ {c}], c, << 3 >>)}
    [] x.st = "n" /\ x.o = "gin" -> {[Publish(S, c, S.gd[x.g], x.v) EXCEPT !.gd = Drop1(@, x.g)]}
    [] x.st = "p" /\ x.o = "gin" -> {Store(S, c, x.ph, x.v, << 0 >>, << 1, x.v >>)}
    [] x.st = "n" /\ x.o = "gdr" ->
         {Fin([S2 EXCEPT !.gd = Drop1(@, x.g)], c, << >>) : S2 \in GiveUp(S, c, S.gd[x.g])}
    [] x.st = "n" /\ x.o = "fd" -> DropFuture(S, c, x.g)
    \* get_or_insert after its loader finished
    [] x.st = "l" /\ x.v > 0 -> {Publish(S, c, x.ph, x.v)}
    [] x.st = "p" /\ x.o \in {"goi", "ga"} -> {Store(S, c, x.ph, x.v, << 1, x.v >>, << 1, x.v >>)}
    [] x.st = "l" /\ x.v <= 0 ->
         {Fin(S2, c, << IF x.v = 0 THEN 5 ELSE 4 >>) : S2 \in GiveUp(S, c, x.ph)}
    [] OTHER -> {}

\* a future that is still waiting notices so, and leaves the waker of this poll
StillWaiting(S, f) == [S EXCEPT !.c[f].chk = TRUE, !.c[f].wk = S.c[f].nw]

\* evictions, where the configuration has them
Evict(S, k) == [S EXCEPT !.v[k] = 0]

\* every future that c provided for was woken through the waker it had left
WakesDone(S, c) ==
  \A o \in S.c[c].gr : o[1] \in DOMAIN S.c => o[2] \in S.c[o[1]].wok

-----------------------------------------------------------------------------
(* What must hold in every state *)

\* whoever is responsible for placeholder p
Holders(S, p) ==
  {<< "guard", g >> : g \in {a \in DOMAIN S.gd : S.gd[a] = p}} \cup
  {<< "call", c >> : c \in {a \in DOMAIN S.c :
       S.c[a].ph = p /\ (S.c[a].st \in {"g", "b", "l", "p"} \/ GotGuard(S.c[a]))}}

\* C10: at most one loader per key (and per load); C11: everybody who waits has
\* somebody to wait for
OneLoader(S) == \A p \in DOMAIN S.ph : Cardinality(Holders(S, p)) = 1
KeyLoads(S) == \A k \in DOMAIN S.pk : S.pk[k] # 0 => S.pk[k] \in DOMAIN S.ph /\ S.ph[S.pk[k]].k = k
NeverBoth(S) == \A k \in DOMAIN S.pk : S.v[k] # 0 => S.pk[k] = 0
WaitersRegistered(S) ==
  /\ \A c \in DOMAIN S.c : S.c[c].st = "w" =>
       S.c[c].ph \in DOMAIN S.ph /\ S.ph[S.c[c].ph].st = "L" /\ c \in S.ph[S.c[c].ph].w
  /\ \A p \in DOMAIN S.ph : \A c \in S.ph[p].w : c \in DOMAIN S.c /\ S.c[c].st = "w" /\ S.c[c].ph = p
=============================================================================
