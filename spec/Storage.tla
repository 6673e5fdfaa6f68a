------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* What a cache may keep allocated.  Every key it knows (an item, a load   *)
(* in progress, a remembered key) occupies one slot; slots are reused and  *)
(* never given back.  So the number of slots is the greatest number of     *)
(* keys that were known at once, whatever the length of the history - that *)
(* is what MemTrace turns into a bound on the bytes held.                  *)
(*                                                                         *)
(* Leak names a way of forgetting a key which loses its slot; with any of  *)
(* them Bounded is refuted (Storage_bad*.cfg).                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets
CONSTANTS Keys, Cap, Ghosts, Pending, MaxSlots, Leak
VARIABLES known, slots, free, peak
vars == << known, slots, free, peak >>
(* known: [k |-> kind] for the keys the cache knows *)
Kind(kd) == {k \in DOMAIN known : known[k] = kd}
Init == known = << >> /\ slots = 0 /\ free = 0 /\ peak = 0
Without(S) == [k \in DOMAIN known \ S |-> known[k]]
Max(a, b) == IF a > b THEN a ELSE b

Add(k, kd) ==                      \* a key becomes known
  /\ k \notin DOMAIN known
  /\ known' = [j \in DOMAIN known \cup {k} |-> IF j = k THEN kd ELSE known[j]]
  /\ IF free > 0 THEN free' = free - 1 /\ slots' = slots
     ELSE free' = 0 /\ slots' = slots + 1
  /\ peak' = Max(peak, Cardinality(DOMAIN known) + 1)
Turn(k, kd) ==
  /\ known' = [known EXCEPT ![k] = kd] /\ UNCHANGED << slots, free, peak >>
Forget(S, how) ==
  /\ S # {} /\ known' = Without(S)
  /\ free' = (IF Leak = how THEN free ELSE free + Cardinality(S))
  /\ UNCHANGED << slots, peak >>

Insert == \E k \in Keys : Cardinality(Kind("item")) < Cap /\ Add(k, "item")
Load == \E k \in Keys : Cardinality(Kind("load")) < Pending /\ Add(k, "load")
Loaded == \E k \in Kind("load") : Cardinality(Kind("item")) < Cap /\ Turn(k, "item")
Abandon == \E k \in Kind("load") : Forget({k}, "abandon")
Refuse == \E k \in Kind("load") : Forget({k}, "refuse")     \* too heavy to admit
Evict == \E k \in Kind("item") :
           IF Cardinality(Kind("ghost")) < Ghosts THEN Turn(k, "ghost") ELSE Forget({k}, "evict")
Trim == \E k \in Kind("ghost") : Forget({k}, "trim")
Again == \E k \in Kind("ghost") : Cardinality(Kind("item")) < Cap /\ Turn(k, "item")
Remove == \E k \in Kind("item") : Forget({k}, "remove")
Clear == Forget(DOMAIN known, "clear")
Next == Insert \/ Load \/ Loaded \/ Abandon \/ Refuse \/ Evict \/ Trim \/ Again \/ Remove \/ Clear
Spec == Init /\ [][Next]_vars

Bounded == slots <= peak /\ peak <= Cap + Ghosts + Pending
Exact == Leak = "none" => slots = free + Cardinality(DOMAIN known)
Small == slots <= MaxSlots
=============================================================================
