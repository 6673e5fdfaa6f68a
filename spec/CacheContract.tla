--------------------------- MODULE CacheContract ---------------------------
(***************************************************************************)
(* What each property demands of one call, whatever the eviction policy    *)
(* decides.  A predicate Cxx(s, e) relates                                 *)
(*   s  the abstract state before the call: contents, pending loads,       *)
(*      guards, waiting futures, counters and the configuration;           *)
(*   e  the call with all its observations: arguments (o k f v u ks g),    *)
(*      result r, details x, lifecycle callbacks c, and the contents       *)
(*      afterwards (i, w ids and weights per key; it, ck, n, t, e, lk, lv, *)
(*      h, m).                                                             *)
(* The contract is nondeterministic where the property is: which items are *)
(* evicted is whatever the callbacks say, subject to the predicates.       *)
(* Apply(s, e) is the abstract state after the call.                       *)
(*                                                                         *)
(* Encoding of results (r) and details (x), by operation:                  *)
(*  get peek gmu pmu   <<id>> (0: none)        has  <<0 or 1>>             *)
(*  ins ret clr rsv gdr uw  << >>              drn  <<number yielded>>     *)
(*  rep   <<0>> or <<1, key, id>>  handed back                             *)
(*  rem   <<key, id>> or <<0, 0>>                                          *)
(*  goi gmi ga  <<1, id>> value, <<2>> not admitted, <<3>> loader failed,  *)
(*        <<4>> loader panicked, <<6>> pending; x = <<loader ran>>         *)
(*  gui gum     <<1, id>> value, <<5>> guard (then f: 0 drop, 1 insert,    *)
(*        2 insert_with_lifecycle)                                         *)
(*  jn wt pl    <<1, id>> value, <<2, guard>>, <<3>> timeout / pending     *)
(*  gin   <<0>> or <<1, id>> handed back                                   *)
(*  gin gdr: x = triples future, kind, what for every future that was      *)
(*        woken and polled (kind 1 value id, 2 guard, 3 still pending)     *)
(*  ret drn: x = ids visited or yielded per key (-1: twice)                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

None4 == << 0, 0, 0, -1 >>
NoFn == [a \in {} |-> 0]

NewState(nk, cap, thot, api, sh) ==
  [v |-> [k \in 1..nk |-> None4], pk |-> [k \in 1..nk |-> 0],
   gd |-> NoFn, fu |-> NoFn, h |-> 0, m |-> 0, rq |-> 0,
   cap |-> cap, thot |-> thot, api |-> api, sh |-> sh, nk |-> nk, ov |-> 0]

Keys(s) == 1..s.nk
Drop1(fn, a) == [b \in DOMAIN fn \ {a} |-> fn[b]]
Count(S) == Cardinality(S)
RECURSIVE SumSeq(_, _)
SumSeq(q, n) == IF n = 0 THEN 0 ELSE q[n] + SumSeq(q, n - 1)

-----------------------------------------------------------------------------
(* Reading a call *)

Hit(s, k) == s.v[k][1] # 0
Pend(s, k) == s.pk[k] # 0
Loads(e) == e.o \in {"goi", "gmi", "ga"}
Guarded(e) == e.o \in {"gui", "gum"}

\* the call reaches the store with a value to put there
InsertLike(s, e) ==
  \/ e.o \in {"ins", "rep", "gin"}
  \/ Loads(e) /\ ~Hit(s, e.k) /\ ~Pend(s, e.k) /\ e.f = 0
  \/ Guarded(e) /\ ~Hit(s, e.k) /\ e.f # 0

GuardValid(s, e) == s.pk[s.gd[e.g][1]] = s.gd[e.g][2]
\* the key an insert-like call is about
Key(s, e) == IF e.o = "gin" THEN s.gd[e.g][1] ELSE e.k

\* admission rule
FinalW(s, e) == IF e.v[2] > s.thot /\ e.v[3] = 0 /\ e.v[4] >= 0 THEN e.v[4] ELSE e.v[2]
Oversized(s, e) == e.v[2] > s.thot /\ e.v[3] = 0
Fits(s, e) == ~Oversized(s, e) \/ FinalW(s, e) <= s.thot

\* the call hands the offered value back instead of storing it
Fails(s, e) ==
  \/ e.o = "rep" /\ (~Hit(s, e.k) \/ ~Fits(s, e))
  \/ e.o = "gin" /\ ~GuardValid(s, e)

Evicts(e) == {j \in 1..Len(e.c) : e.c[j][1] = 3}
Befores(e) == {j \in 1..Len(e.c) : e.c[j][1] = 2}
EvictedIds(e) == {e.c[j][3] : j \in Evicts(e)}
\* weight of item id after the before_evict calls of this request
WeightNow(e, id, w) ==
  LET B == {j \in Befores(e) : e.c[j][3] = id}
  IN IF B = {} THEN w ELSE e.c[CHOOSE j \in B : \A i \in B : i <= j][5]

\* an in-place overwrite of the key's value by e.u
Mutates(s, e) ==
  /\ e.u # << >>
  /\ \/ e.o \in {"gmu", "pmu", "gmi", "gum"} /\ Hit(s, e.k)
     \/ e.o = "gmi" /\ InsertLike(s, e) /\ e.v[1] \notin EvictedIds(e)

\* contents after the call, as its callbacks explain them
Expected(s, e) ==
  CASE e.o = "rem" -> [s.v EXCEPT ![e.k] = None4]
    [] e.o = "ret" -> LET D == {e.ks[j] : j \in 1..Len(e.ks)}
                      IN [k \in Keys(s) |-> IF k \in D THEN None4 ELSE s.v[k]]
    [] e.o \in {"clr", "drn"} -> [k \in Keys(s) |-> None4]
    [] e.o = "pin" -> IF Hit(s, e.k) THEN [s.v EXCEPT ![e.k][3] = e.f] ELSE s.v
    [] InsertLike(s, e) ->
         LET X == EvictedIds(e)
             kk == Key(s, e)
             put == ~Fails(s, e)
             new == << e.v[1], WeightNow(e, e.v[1], e.v[2]), e.v[3], e.v[4] >>
             base(k) == IF k = kk /\ put THEN (IF e.v[1] \in X THEN None4 ELSE new)
                        ELSE IF s.v[k][1] \in X THEN None4
                        ELSE [s.v[k] EXCEPT ![2] = WeightNow(e, s.v[k][1], @)]
         IN IF Mutates(s, e) THEN [k \in Keys(s) |-> IF k = kk THEN e.u ELSE base(k)]
            ELSE [k \in Keys(s) |-> base(k)]
    [] OTHER -> IF Mutates(s, e) THEN [s.v EXCEPT ![e.k] = e.u] ELSE s.v

\* contents after the call, as observed (pinning and before_evict behaviour
\* belong to the value, so they follow its id)
Observed(s, e) ==
  LET known == [k \in Keys(s) |-> Expected(s, e)[k]]
  IN [k \in Keys(s) |->
        LET id == e.i[k] IN
        IF id = 0 THEN None4
        ELSE IF id = known[k][1] THEN << id, e.w[k], known[k][3], known[k][4] >>
        ELSE IF id = s.v[k][1] THEN << id, e.w[k], s.v[k][3], s.v[k][4] >>
        ELSE << id, e.w[k], 0, -1 >>]

SameContents(s, e) == \A k \in Keys(s) : e.i[k] = s.v[k][1] /\ e.w[k] = s.v[k][2]
SameBut(s, e, k) == \A j \in Keys(s) \ {k} : e.i[j] = s.v[j][1] /\ e.w[j] = s.v[j][2]
TotalPre(s) == SumSeq([k \in Keys(s) |-> s.v[k][2]], s.nk)
TotalPost(s, e) == SumSeq(e.w, s.nk)

Waiters(s, ph) == {f \in DOMAIN s.fu : s.fu[f] = ph}
\* the triples of x as a set
Triples(e) == {<< e.x[3 * j - 2], e.x[3 * j - 1], e.x[3 * j] >> : j \in 1..(Len(e.x) \div 3)}

-----------------------------------------------------------------------------
(* C01: lookups return exactly the latest live value *)

LookupResult(s, e) ==
  LET id == s.v[e.k][1] IN
  CASE e.o \in {"get", "peek", "gmu", "pmu"} -> e.r = << id >>
    [] e.o = "has" -> e.r = << IF id # 0 THEN 1 ELSE 0 >>
    [] Loads(e) -> IF Hit(s, e.k) THEN e.r = << 1, id >>
                   ELSE IF Pend(s, e.k) THEN e.r = << 6 >>
                   ELSE IF e.f = 1 THEN e.r = << 3 >>
                   ELSE IF e.f = 2 THEN e.r = << 4 >>
                   ELSE IF s.api = 1 \/ e.v[1] \notin EvictedIds(e) THEN e.r = << 1, e.v[1] >>
                   ELSE e.r = << 2 >>
    [] Guarded(e) -> e.r = IF Hit(s, e.k) THEN << 1, id >> ELSE << 5 >>
    [] e.o \in {"jn", "wt"} -> e.r = IF Hit(s, e.k) THEN << 1, id >>
                                     ELSE IF Pend(s, e.k) THEN << 3 >> ELSE << 2, e.g >>
    [] e.o = "rem" -> e.r = IF Hit(s, e.k) THEN << e.k, id >> ELSE << 0, 0 >>
    [] OTHER -> TRUE

C01(s, e) ==
  /\ LookupResult(s, e)
  /\ LET x == Expected(s, e) IN
     \A k \in Keys(s) : e.i[k] = x[k][1] /\ (x[k][1] = 0 \/ e.w[k] = x[k][2])
  /\ e.it = e.i
  /\ \A k \in Keys(s) : e.ck[k] = IF e.i[k] # 0 THEN 1 ELSE 0

-----------------------------------------------------------------------------
(* C03: capacity.  The bounds are per shard; with several shards only what  *)
(* follows for the whole cache is demanded.                                 *)

Admitted(s, e) == InsertLike(s, e) /\ ~Fails(s, e) /\ Fits(s, e)
\* items that left because of pressure: not the overwritten one, not a refused one
PressureEvicts(s, e) ==
  {j \in Evicts(e) :
     LET it == e.c[j] IN
     ~(it[2] = Key(s, e) /\ it[3] = s.v[Key(s, e)][1])
     /\ ~(it[3] = e.v[1] /\ ~Fits(s, e))}
PressureBefores(s, e) ==
  {j \in Befores(e) : ~(j = 2 /\ e.c[j][3] = e.v[1] /\ Oversized(s, e))}

\* 1 once an item was pinned or overwritten in place: a shard may be overfull
Overfills(s, e) == IF s.ov = 1 \/ e.v[3] = 1 \/ e.o = "pin" \/ e.u # << >> THEN 1 ELSE 0

C03(s, e) ==
  LET pre == TotalPre(s)
      obs == Observed(s, e)
      kk == Key(s, e)
      mut == Mutates(s, e)
      \* the total before the in-place overwrite that follows an admission
      post == IF mut /\ Admitted(s, e) THEN TotalPost(s, e) - e.w[kk] + WeightNow(e, e.v[1], e.v[2])
              ELSE TotalPost(s, e)
      others == {k \in Keys(s) : obs[k][1] # 0 /\ obs[k][2] > 0 /\ k # kk}
      cap == s.cap
  IN
  /\ e.t = TotalPost(s, e)
  /\ e.cp = s.cap
  /\ IF Admitted(s, e) /\ FinalW(s, e) > 0
       THEN s.sh > 1 \/ post <= cap \/ \A k \in others : obs[k][3] = 1
       ELSE mut \/ Admitted(s, e) \/ post <= pre
  /\ Admitted(s, e) /\ FinalW(s, e) = 0 => post <= pre
  \* nothing is evicted while everything fits
  /\ InsertLike(s, e) /\ s.sh = 1 /\ PressureEvicts(s, e) \cup PressureBefores(s, e) # {} =>
        (Admitted(s, e) /\ pre - s.v[kk][2] + FinalW(s, e) > cap)
  \* without pins and in-place growth no shard ever exceeds its capacity
  /\ (s.sh > 1 /\ Overfills(s, e) = 0) => post <= cap

-----------------------------------------------------------------------------
(* C04: reported totals *)

C04(s, e) ==
  /\ e.n = Count({k \in Keys(s) : e.i[k] # 0})
  /\ e.t = TotalPost(s, e)
  /\ e.e = IF e.n = 0 THEN 1 ELSE 0
  /\ e.it = e.i
  /\ \A k \in Keys(s) : e.ck[k] = IF e.i[k] # 0 THEN 1 ELSE 0
  /\ e.o = "ret" => \A k \in Keys(s) : e.x[k] = s.v[k][1]

-----------------------------------------------------------------------------
(* C05: on_evict exactly once for exactly what was displaced *)

C05(s, e) ==
  LET E == Evicts(e)
      B == Befores(e)
      il == InsertLike(s, e)
      kk == Key(s, e)
      c == e.c
      fails == Fails(s, e)
      overwritten(j) == c[j][2] = kk /\ c[j][3] = s.v[kk][1]
      left == {s.v[k][1] : k \in {j \in Keys(s) : s.v[j][1] # 0 /\ e.i[j] # s.v[j][1]}}
              \cup (IF ~fails /\ e.i[kk] # e.v[1] /\ ~(e.o = "gmi" /\ e.u # << >> /\ e.i[kk] = e.u[1])
                    THEN {e.v[1]} ELSE {})
  IN
  IF ~il THEN E = {} /\ B = {}
  ELSE
  /\ \A j \in E : \/ c[j][2] \in Keys(s) /\ c[j][3] = s.v[c[j][2]][1] /\ c[j][3] # 0
                  \/ c[j][2] = kk /\ c[j][3] = e.v[1] /\ ~fails
  /\ Count(E) = Count(EvictedIds(e))
  /\ EvictedIds(e) = left
  /\ \A j \in E :
       IF overwritten(j)
         THEN c[j][4] = s.v[kk][2] /\ \A i \in B : c[i][3] # c[j][3]
         ELSE LET b == IF j > 2 /\ (j - 1) \in E /\ overwritten(j - 1) /\ c[j][3] = e.v[1] /\ ~Fits(s, e)
                       THEN j - 2 ELSE j - 1
              IN /\ b \in B
                 /\ c[b][2] = c[j][2] /\ c[b][3] = c[j][3] /\ c[b][5] = c[j][4]
  /\ \A b \in B :
       \* admission of an oversized value is decided after the first callback
       \/ b = 2 /\ c[b][2] = kk /\ c[b][3] = e.v[1] /\ Oversized(s, e)
       \/ c[b][5] = 0 /\ c[b][3] \notin {c[j][3] : j \in {i \in B : i > b}}
       \/ (b + 1) \in E /\ c[b + 1][2] = c[b][2] /\ c[b + 1][3] = c[b][3]
  /\ \A b \in B : c[b][2] \in Keys(s) /\ ((c[b][3] = e.v[1] /\ c[b][2] = kk) \/ c[b][3] = s.v[c[b][2]][1])
  \* an oversized value is always shown to before_evict first
  /\ Oversized(s, e) /\ ~(e.o = "gin" /\ fails) => (2 \in B /\ c[2][3] = e.v[1])

-----------------------------------------------------------------------------
(* C06: pinned and weightless items stay *)

C06(s, e) ==
  LET named(k) == \/ e.o \in {"clr", "drn"}
                  \/ e.o = "rem" /\ k = e.k
                  \/ e.o = "ret" /\ \E j \in 1..Len(e.ks) : e.ks[j] = k
                  \/ InsertLike(s, e) /\ k = Key(s, e)
                  \/ Mutates(s, e) /\ k = e.k
  IN
  /\ \A k \in Keys(s) : (s.v[k][1] # 0 /\ (s.v[k][3] = 1 \/ s.v[k][2] = 0) /\ ~named(k))
        => e.i[k] = s.v[k][1]
  /\ \A j \in Befores(e) :
        LET it == e.c[j] IN
        /\ it[4] > 0
        /\ it[2] \in Keys(s) /\ it[3] = s.v[it[2]][1] => s.v[it[2]][3] = 0
        /\ it[3] = e.v[1] => e.v[3] = 0
        /\ it[5] = 0 => it[3] \notin EvictedIds(e) /\ (e.i[it[2]] = it[3] \/ Mutates(s, e) \/ Fails(s, e))
  /\ InsertLike(s, e) /\ ~Fails(s, e) /\ (e.v[3] = 1 \/ FinalW(s, e) = 0)
        => e.v[1] \notin EvictedIds(e) /\ e.i[Key(s, e)] \in {e.v[1], IF e.u # << >> THEN e.u[1] ELSE e.v[1]}

-----------------------------------------------------------------------------
(* C07: requests *)

KeepsState(e) == \/ e.o \in {"ins", "gin"} /\ e.f = 1
                 \/ e.o = "rep" /\ e.f \div 2 = 1
                 \/ Guarded(e) /\ e.f = 2
C07(s, e) ==
  LET n == Len(e.c) IN
  IF ~InsertLike(s, e) THEN n = 0
  ELSE /\ n >= 2
       /\ e.c[1][1] = 1 /\ e.c[1][6] > s.rq
       /\ \A j \in 1..n : e.c[j][6] = e.c[1][6]
       /\ \A j \in 2..(n - 1) : e.c[j][1] \in {2, 3}
       /\ e.c[n][1] = IF Fails(s, e) THEN 5 ELSE IF KeepsState(e) THEN 6 ELSE 4

-----------------------------------------------------------------------------
(* C08: inserts and replaces *)

C08(s, e) ==
  LET k == e.k
      held == e.i[k] = e.v[1] /\ e.w[k] = WeightNow(e, e.v[1], e.v[2])
      reported == e.v[1] \in EvictedIds(e)
  IN
  CASE e.o = "ins" ->
         IF Fits(s, e) THEN (held /\ ~reported) \/ (e.i[k] = 0 /\ reported)
         ELSE e.i[k] = 0 /\ reported
    [] e.o = "rep" ->
         IF ~Hit(s, k) THEN e.r = << 1, k, e.v[1] >> /\ e.i[k] = 0 /\ ~reported /\ SameContents(s, e)
         ELSE IF Fits(s, e) THEN e.r = << 0 >> /\ ((held /\ ~reported) \/ (e.i[k] = 0 /\ reported))
         ELSE e.r = << 1, k, e.v[1] >> /\ e.i[k] = 0 /\ ~reported
    [] Loads(e) /\ InsertLike(s, e) ->
         IF Fits(s, e) THEN (e.u = << >> => held) \/ reported ELSE e.i[k] = 0 /\ reported
    [] Guarded(e) /\ InsertLike(s, e) ->
         IF Fits(s, e) THEN held \/ reported ELSE e.i[k] = 0 /\ reported
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* C09: removals and reads touch nothing else *)

C09(s, e) ==
  CASE e.o = "rem" -> /\ e.r = IF Hit(s, e.k) THEN << e.k, s.v[e.k][1] >> ELSE << 0, 0 >>
                      /\ e.i[e.k] = 0 /\ SameBut(s, e, e.k)
    [] e.o = "ret" -> LET D == {e.ks[j] : j \in 1..Len(e.ks)} IN
                      /\ \A k \in Keys(s) : e.i[k] = IF k \in D THEN 0 ELSE s.v[k][1]
                      /\ \A k \in Keys(s) \ D : e.w[k] = s.v[k][2]
    [] e.o = "clr" -> e.n = 0 /\ \A k \in Keys(s) : e.i[k] = 0
    [] e.o = "drn" -> /\ e.n = 0 /\ \A k \in Keys(s) : e.i[k] = 0
                      /\ LET n == Count({k \in Keys(s) : Hit(s, k)})
                             y == {k \in Keys(s) : e.x[k] # 0}
                         IN /\ e.r = << IF e.f < n THEN e.f ELSE n >>
                            /\ Count(y) = e.r[1]
                            /\ \A k \in y : e.x[k] = s.v[k][1]
    [] InsertLike(s, e) -> Fails(s, e) => SameBut(s, e, Key(s, e))
    [] Mutates(s, e) -> e.i[e.k] = e.u[1] /\ e.w[e.k] = e.u[2] /\ SameBut(s, e, e.k)
    [] OTHER -> SameContents(s, e)

-----------------------------------------------------------------------------
(* C10-C12, sequential part: guards, waiters *)

\* who obtains what when a guard is used or dropped
WaitersServed(s, e) ==
  IF e.o \notin {"gin", "gdr"} THEN TRUE
  ELSE LET W == Waiters(s, s.gd[e.g][2])
           T == Triples(e)
       IN /\ Count(T) * 3 = Len(e.x)
          /\ IF e.o = "gin" THEN T = {<< f, 1, e.v[1] >> : f \in W}
             ELSE IF W = {} THEN T = {}
             ELSE \E f \in W : T = {<< f, 2, f >>}

C10(s, e) ==
  /\ WaitersServed(s, e)
  /\ e.o \in {"jn", "wt"} => LookupResult(s, e)
  /\ e.o = "pl" => e.r = << 3 >>
  /\ Guarded(e) => LookupResult(s, e)
  /\ Loads(e) => /\ LookupResult(s, e)
                 /\ e.x = << IF Hit(s, e.k) \/ Pend(s, e.k) THEN 0 ELSE 1 >>

C11(s, e) == C10(s, e)

C12(s, e) ==
  CASE e.o = "gin" ->
         LET k == s.gd[e.g][1]
             reported == e.v[1] \in EvictedIds(e)
         IN
         /\ WaitersServed(s, e)
         /\ IF GuardValid(s, e)
              THEN /\ e.r = << 0 >>
                   /\ IF Fits(s, e)
                        THEN (e.i[k] = e.v[1] /\ ~reported) \/ (e.i[k] = 0 /\ reported)
                        ELSE e.i[k] = 0 /\ reported
              ELSE e.r = << 1, e.v[1] >> /\ SameContents(s, e) /\ ~reported
    [] e.o = "gdr" -> SameContents(s, e) /\ WaitersServed(s, e)
    [] e.o \in {"jn", "wt", "pl", "uw"} -> SameContents(s, e) /\ LookupResult(s, e)
    [] Guarded(e) \/ Loads(e) -> C08(s, e) /\ LookupResult(s, e)
    [] OTHER -> TRUE

-----------------------------------------------------------------------------
(* C15: nothing is kept beyond the contents; C17: counters *)

PendAfter(s, e) ==
  LET k == Key(s, e) IN
  CASE e.o \in {"jn", "wt"} /\ e.r[1] = 2 -> [s.pk EXCEPT ![e.k] = e.g]
    [] e.o = "rem" -> [s.pk EXCEPT ![e.k] = 0]
    [] e.o = "ins" -> IF Fits(s, e) THEN [s.pk EXCEPT ![e.k] = 0] ELSE s.pk
    [] e.o \in {"clr", "drn"} -> [j \in Keys(s) |-> 0]
    [] e.o = "gin" -> IF GuardValid(s, e) THEN [s.pk EXCEPT ![k] = 0] ELSE s.pk
    [] e.o = "gdr" -> LET g == s.gd[e.g] IN
                      IF s.pk[g[1]] = g[2] /\ Waiters(s, g[2]) = {}
                        THEN [s.pk EXCEPT ![g[1]] = 0] ELSE s.pk
    [] OTHER -> s.pk

C15(s, e) ==
  LET live == Count({k \in Keys(s) : e.i[k] # 0})
      pa == PendAfter(s, e)
  IN e.lv = live /\ e.lk = live + Count({k \in Keys(s) : pa[k] # 0})

\* hits and misses that the call must record
Counted(s, e) ==
  CASE e.o \in {"get", "gmu"} -> IF Hit(s, e.k) THEN << 1, 0 >> ELSE << 0, 1 >>
    [] Loads(e) \/ Guarded(e) \/ e.o \in {"jn", "wt"} ->
         IF Hit(s, e.k) \/ Pend(s, e.k) THEN << 1, 0 >> ELSE << 0, 1 >>
    [] OTHER -> << 0, 0 >>
C17(s, e) == e.h = s.h + Counted(s, e)[1] /\ e.m = s.m + Counted(s, e)[2]

-----------------------------------------------------------------------------
(* C16: with nobody else running, a timed lookup times out exactly if the   *)
(* load is pending                                                          *)
C16(s, e) == e.o = "jn" => LookupResult(s, e) /\ SameContents(s, e)

-----------------------------------------------------------------------------
(* C19: a cache of any number of shards serves every key consistently *)
C19(s, e) == C01(s, e) /\ C03(s, e) /\ C04(s, e)

-----------------------------------------------------------------------------
(* C20: the call returned *)
Returned(e) == e.r = << >> \/ e.r[1] > -8
C20(s, e) == Returned(e)

-----------------------------------------------------------------------------
(* The abstract state after a call, and the verdict for one property *)

Apply(s, e) ==
  LET T == Triples(e)
      ph == s.gd[e.g][2]
      gd2 == CASE e.o \in {"jn", "wt", "pl"} /\ e.r[1] = 2 ->
                    (e.g :> << e.k, IF e.o = "pl" THEN s.fu[e.g] ELSE e.g >>) @@ s.gd
               [] e.o \in {"gin", "gdr"} ->
                    [g \in (DOMAIN s.gd \ {e.g}) \cup {t[1] : t \in {q \in T : q[2] = 2}} |->
                       IF g \in DOMAIN s.gd THEN s.gd[g] ELSE << s.gd[e.g][1], ph >>]
               [] OTHER -> s.gd
      fu2 == CASE e.o = "wt" /\ e.r[1] = 3 -> (e.g :> s.pk[e.k]) @@ s.fu
               [] e.o = "uw" -> Drop1(s.fu, e.g)
               [] e.o = "pl" /\ e.r[1] # 3 -> Drop1(s.fu, e.g)
               [] e.o \in {"gin", "gdr"} -> [f \in DOMAIN s.fu \ {t[1] : t \in {q \in T : q[2] # 3}} |-> s.fu[f]]
               [] OTHER -> s.fu
  IN [s EXCEPT !.v = Observed(s, e), !.pk = PendAfter(s, e), !.gd = gd2, !.fu = fu2,
               !.h = e.h, !.m = e.m, !.ov = Overfills(s, e), !.rq = IF e.c = << >> THEN @ ELSE e.c[1][6]]

Holds(p, s, e) ==
  CASE p = "C01" -> C01(s, e) [] p = "C03" -> C03(s, e) [] p = "C04" -> C04(s, e)
    [] p = "C05" -> C05(s, e) [] p = "C06" -> C06(s, e) [] p = "C07" -> C07(s, e)
    [] p = "C08" -> C08(s, e) [] p = "C09" -> C09(s, e) [] p = "C10" -> C10(s, e)
    [] p = "C11" -> C11(s, e) [] p = "C12" -> C12(s, e) [] p = "C15" -> C15(s, e)
    [] p = "C16" -> C16(s, e) [] p = "C17" -> C17(s, e) [] p = "C19" -> C19(s, e) [] p = "C20" -> C20(s, e)
SeqProps == {"C01", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11",
             "C12", "C15", "C16", "C17", "C19", "C20"}
=============================================================================
