------------------------------ MODULE ClockOps ------------------------------
(***************************************************************************)
(* The cache shard of quick_cache as a pure transition function.           *)
(*                                                                         *)
(* State of one shard (a record s):                                        *)
(*   e    : key -> entry.  entry.t is "N" (absent), "R" (resident),        *)
(*          "P" (placeholder: a load is pending) or "G" (ghost: a recently *)
(*          evicted key, no value).                                        *)
(*   hot, cold, gh : the three clock rings, as sequences of keys with the  *)
(*          clock hand at index 1.  Only residents of positive weight are  *)
(*          in hot or cold; zero weight residents are in no ring.          *)
(*   wh, wc : weight of hot and of cold residents.                         *)
(*   cap, thot, gcap : weight capacity, hot share, number of ghosts kept.  *)
(*   cb   : the lifecycle callbacks made by the current operation.         *)
(*                                                                         *)
(* A value is <<id, w, p, z>>: identity, weight, pinned (0/1) and what     *)
(* Lifecycle::before_evict does to it (z < 0: nothing, otherwise its       *)
(* weight becomes z).                                                      *)
(*                                                                         *)
(* Callbacks are tuples <<kind, key, id, w, w2>>:                          *)
(*   1 begin_request   2 before_evict (w -> w2)   3 on_evict   4 end_request*)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

MaxUses == 2

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

Absent == [t |-> "N", id |-> 0, w |-> 0, p |-> 0, z |-> -1,
           hot |-> FALSE, ref |-> 0, ph |-> 0]

NewShard(K, cap, thot, gcap) ==
  [e |-> [k \in K |-> Absent], hot |-> << >>, cold |-> << >>, gh |-> << >>,
   wh |-> 0, wc |-> 0, cap |-> cap, thot |-> thot, gcap |-> gcap, cb |-> << >>]

Resident(v, hot, ref) ==
  [t |-> "R", id |-> v[1], w |-> v[2], p |-> v[3], z |-> v[4],
   hot |-> hot, ref |-> ref, ph |-> 0]

\* what before_evict turns the weight of a value into
AfterBefore(w, z) == IF z >= 0 THEN z ELSE w

CbBefore(k, id, w, w2) == <<2, k, id, w, w2>>
CbEvict(k, id, w)      == <<3, k, id, w, 0>>

-----------------------------------------------------------------------------
(* Rings *)

Pos(q, k) == CHOOSE i \in 1..Len(q) : q[i] = k
\* remove the i-th element and move the hand to its successor
RotAfter(q, i) == SubSeq(q, i + 1, Len(q)) \o SubSeq(q, 1, i - 1)
\* remove the i-th element; the hand only moves if it pointed there
RemAt(q, i) == SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Without(q, k) == IF \E i \in 1..Len(q) : q[i] = k THEN RemAt(q, Pos(q, k)) ELSE q
\* unlink during the replacement of a value by a weightless one
Unlink(q, k) == RotAfter(q, Pos(q, k))

Total(s) == s.wh + s.wc

-----------------------------------------------------------------------------
(* The clock hands.  Each returns [ok, s]: ok says whether it made progress. *)

RECURSIVE HotHand(_, _, _)
HotHand(s, i, unpinned) ==
  LET k  == s.hot[i]
      r  == s.e[k]
      nx == IF i = Len(s.hot) THEN 1 ELSE i + 1
  IN
  IF r.p = 1 THEN
     LET s1 == [s EXCEPT !.e[k].ref = Max2(Min2(r.ref, MaxUses) - 1, 0)]
     IN IF unpinned = 0 /\ nx = 1
          THEN [ok |-> FALSE, s |-> s1]
          ELSE HotHand(s1, nx, unpinned)
  ELSE IF r.ref # 0 THEN
     HotHand([s EXCEPT !.e[k].ref = Min2(r.ref, MaxUses) - 1], nx, 1)
  ELSE
     LET w2 == AfterBefore(r.w, r.z)
         s1 == [s EXCEPT !.wh = @ - r.w, !.hot = RotAfter(@, i),
                         !.cb = Append(@, CbBefore(k, r.id, r.w, w2))]
     IN IF w2 = 0
          THEN [ok |-> TRUE, s |-> [s1 EXCEPT !.e[k].w = 0]]
          ELSE [ok |-> TRUE, s |-> [s1 EXCEPT !.e[k] = Absent,
                                   !.cb = Append(@, CbEvict(k, r.id, w2))]]

AdvHot(s) == IF s.hot = << >> THEN [ok |-> FALSE, s |-> s] ELSE HotHand(s, 1, 0)

RECURSIVE TrimHot(_)
TrimHot(s) ==
  IF s.wh > s.thot
    THEN LET a == AdvHot(s) IN IF a.ok THEN TrimHot(a.s) ELSE a.s
    ELSE s

TrimGhost(s) ==
  IF Len(s.gh) > s.gcap
    THEN [s EXCEPT !.e[Head(s.gh)] = Absent, !.gh = Tail(@)]
    ELSE s

RECURSIVE ColdHand(_, _)
ColdHand(s, i) ==
  LET k == s.cold[i]
      r == s.e[k]
  IN
  IF r.ref # 0 THEN
     LET s1 == [s EXCEPT !.e[k].ref = r.ref - 1, !.e[k].hot = TRUE,
                         !.wh = @ + r.w, !.wc = @ - r.w,
                         !.cold = RotAfter(@, i), !.hot = Append(@, k)]
     IN [ok |-> TRUE, s |-> TrimHot(s1)]
  ELSE IF r.p = 1 THEN
     IF i = Len(s.cold) THEN AdvHot(s) ELSE ColdHand(s, i + 1)
  ELSE
     LET w2 == AfterBefore(r.w, r.z)
         s1 == [s EXCEPT !.wc = @ - r.w, !.cold = RotAfter(@, i),
                         !.cb = Append(@, CbBefore(k, r.id, r.w, w2))]
     IN IF w2 = 0
          THEN [ok |-> TRUE, s |-> [s1 EXCEPT !.e[k].w = 0]]
          ELSE LET s2 == [s1 EXCEPT !.e[k] = [Absent EXCEPT !.t = "G"],
                                    !.gh = Append(@, k)]
                   s3 == TrimGhost(s2)
               IN [ok |-> TRUE,
                   s |-> [s3 EXCEPT !.cb = Append(@, CbEvict(k, r.id, w2))]]

AdvCold(s) == IF s.cold = << >> THEN AdvHot(s) ELSE ColdHand(s, 1)

\* evict until `extra` more weight fits
RECURSIVE MakeRoom(_, _)
MakeRoom(s, extra) ==
  IF Total(s) + extra > s.cap
    THEN LET a == AdvCold(s) IN IF a.ok THEN MakeRoom(a.s, extra) ELSE a.s
    ELSE s

-----------------------------------------------------------------------------
(* Removal *)

RemoveKey(s, k) ==
  LET r == s.e[k] IN
  CASE r.t = "N" -> s
    [] r.t = "G" -> [s EXCEPT !.e[k] = Absent, !.gh = Without(@, k)]
    [] r.t = "P" -> [s EXCEPT !.e[k] = Absent]
    [] r.t = "R" /\ r.hot  -> [s EXCEPT !.e[k] = Absent, !.wh = @ - r.w, !.hot = Without(@, k)]
    [] r.t = "R" /\ ~r.hot -> [s EXCEPT !.e[k] = Absent, !.wc = @ - r.w, !.cold = Without(@, k)]

RECURSIVE RemoveAll(_, _)
RemoveAll(s, D) == IF D = {} THEN s
                   ELSE LET k == CHOOSE x \in D : TRUE IN RemoveAll(RemoveKey(s, k), D \ {k})

ClearAll(s) == [s EXCEPT !.e = [k \in DOMAIN s.e |-> Absent], !.hot = << >>, !.cold = << >>,
                         !.gh = << >>, !.wh = 0, !.wc = 0]

-----------------------------------------------------------------------------
(* Admission.  how \in {"ins", "rep", "soft"}.  Results: [s, ok, v] where ok
   is FALSE when the pair is handed back to the caller, with value v. *)

\* the value as admitted, after a possible before_evict of an oversized value
Offer(s, k, v) ==
  IF v[2] > s.thot /\ v[3] = 0
    THEN LET w2 == AfterBefore(v[2], v[4]) IN
         [s |-> [s EXCEPT !.cb = Append(@, CbBefore(k, v[1], v[2], w2))],
          v |-> <<v[1], w2, v[3], v[4]>>, fits |-> w2 <= s.thot]
    ELSE [s |-> s, v |-> v, fits |-> TRUE]

PutHot(s, k, v, ref) ==
  [s EXCEPT !.e[k] = Resident(v, TRUE, ref), !.wh = @ + v[2],
            !.hot = IF v[2] # 0 THEN Append(@, k) ELSE @]
PutCold(s, k, v, ref) ==
  [s EXCEPT !.e[k] = Resident(v, FALSE, ref), !.wc = @ + v[2],
            !.cold = IF v[2] # 0 THEN Append(@, k) ELSE @]
Put(s, k, v, hot, ref) == IF hot THEN PutHot(s, k, v, ref) ELSE PutCold(s, k, v, ref)

\* new value for a resident key: same class, same place in its ring
Overwrite(s, k, v, ref) ==
  LET r  == s.e[k]
      s1 == [s EXCEPT !.e[k] = Resident(v, r.hot, ref)]
      ring(q) == IF r.w = 0 /\ v[2] # 0 THEN Append(q, k)
                 ELSE IF r.w # 0 /\ v[2] = 0 THEN Unlink(q, k) ELSE q
  IN IF r.hot THEN [s1 EXCEPT !.wh = @ - r.w + v[2], !.hot = ring(@)]
              ELSE [s1 EXCEPT !.wc = @ - r.w + v[2], !.cold = ring(@)]

Insert(s, k, v0, how) ==
  LET o == Offer(s, k, v0)
      v == o.v
      r == s.e[k]
  IN
  IF ~o.fits THEN
     LET s1 == IF r.t = "R"
                 THEN [RemoveKey(o.s, k) EXCEPT !.cb = Append(@, CbEvict(k, r.id, r.w))]
                 ELSE o.s
     IN IF how # "ins" THEN [s |-> s1, ok |-> FALSE, v |-> v]
        ELSE [s |-> [s1 EXCEPT !.cb = Append(@, CbEvict(k, v[1], v[2]))], ok |-> TRUE, v |-> v]
  ELSE IF how # "ins" /\ r.t # "R" THEN [s |-> o.s, ok |-> FALSE, v |-> v]
  ELSE IF r.t = "R" THEN
     LET ref == Min2(r.ref + (IF how = "soft" THEN 0 ELSE 1), MaxUses)
         s1  == [Overwrite(o.s, k, v, ref) EXCEPT !.cb = Append(@, CbEvict(k, r.id, r.w))]
     IN [s |-> MakeRoom(s1, 0), ok |-> TRUE, v |-> v]
  ELSE IF r.t = "G" THEN
     LET s1 == PutHot([o.s EXCEPT !.gh = Without(@, k)], k, v, 0)
     IN [s |-> MakeRoom(s1, 0), ok |-> TRUE, v |-> v]
  ELSE IF r.t = "P" THEN
     [s |-> MakeRoom(Put(o.s, k, v, r.hot, 1), 0), ok |-> TRUE, v |-> v]
  ELSE
     LET hot == o.s.wh + v[2] <= s.thot
     IN [s |-> Put(MakeRoom(o.s, v[2]), k, v, hot, 0), ok |-> TRUE, v |-> v]

\* fill the placeholder of k (the caller knows that s.e[k] is its placeholder)
Fill(s, k, v0, ref) ==
  LET o == Offer(s, k, v0)
      v == o.v
      r == s.e[k]
  IN
  IF ~o.fits
    THEN [s |-> [o.s EXCEPT !.e[k] = Absent, !.cb = Append(@, CbEvict(k, v[1], v[2]))], v |-> v]
    ELSE LET hot == r.hot \/ Total(s) + v[2] <= s.cap
             s1  == Put(o.s, k, v, hot, ref)
         IN [s |-> IF v[2] # 0 THEN MakeRoom(s1, 0) ELSE s1, v |-> v]

\* turn an absent or ghost key into a placeholder named ph
Reserve(s, k, ph) ==
  [s EXCEPT !.gh = Without(@, k),
            !.e[k] = [Absent EXCEPT !.t = "P", !.ph = ph, !.hot = (s.e[k].t = "G")]]

\* forget the placeholder ph of k, if it is still there
Abandon(s, k, ph) ==
  IF s.e[k].t = "P" /\ s.e[k].ph = ph THEN [s EXCEPT !.e[k] = Absent] ELSE s

-----------------------------------------------------------------------------
(* Lookups and in-place mutation *)

IsRes(s, k) == s.e[k].t = "R"
Use(s, k) == IF s.e[k].ref < MaxUses THEN [s EXCEPT !.e[k].ref = @ + 1] ELSE s

\* overwrite through a mutable reference: no eviction, no callback
Mutate(s, k, v) == Overwrite(s, k, v, s.e[k].ref)

-----------------------------------------------------------------------------
(* Well-formedness of a shard state *)

RingSet(q) == {q[i] : i \in 1..Len(q)}
RECURSIVE SumW(_, _)
SumW(s, D) == IF D = {} THEN 0 ELSE LET k == CHOOSE x \in D : TRUE
                                    IN s.e[k].w + SumW(s, D \ {k})
ResKeys(s) == {k \in DOMAIN s.e : s.e[k].t = "R"}

WellFormed(s) ==
  /\ RingSet(s.hot)  = {k \in ResKeys(s) : s.e[k].hot /\ s.e[k].w > 0}
  /\ RingSet(s.cold) = {k \in ResKeys(s) : ~s.e[k].hot /\ s.e[k].w > 0}
  /\ RingSet(s.gh)   = {k \in DOMAIN s.e : s.e[k].t = "G"}
  /\ Cardinality(RingSet(s.hot)) = Len(s.hot)
  /\ Cardinality(RingSet(s.cold)) = Len(s.cold)
  /\ Cardinality(RingSet(s.gh)) = Len(s.gh)
  /\ s.wh = SumW(s, {k \in ResKeys(s) : s.e[k].hot})
  /\ s.wc = SumW(s, {k \in ResKeys(s) : ~s.e[k].hot})
  /\ Len(s.gh) <= s.gcap
  /\ \A k \in ResKeys(s) : s.e[k].ref \in 0..MaxUses
=============================================================================
