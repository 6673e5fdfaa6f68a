----------------------------- MODULE ConcClock -----------------------------
(***************************************************************************)
(* Validates concurrent histories of calls on a cache of one shard against *)
(* the exact model: some order of the calls, compatible with which         *)
(* returned before which started, is a behaviour of CacheModel, results,   *)
(* evictions and callbacks included.  Lookups that overlap may record more *)
(* than two uses of an item between them (the bound is checked before the  *)
(* use is recorded); the policy then treats the item as used that often.   *)
(*                                                                         *)
(* One line per history, as for ConcTrace, with gcap in addition.  All     *)
(* keys have different hashes.  A history that is explained is printed as  *)
(* ACC.                                                                    *)
(***************************************************************************)
EXTENDS CacheModel, Json, IOUtils

File == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(File)

VARIABLES tr, D, S
vars == << tr, D, S >>
H == File[tr]
N(h) == Len(h.t)

\* a call that did not return, or panicked
Whole(h) == \A j \in 1..N(h) : "o" \in DOMAIN h.t[j] /\ h.t[j].o # "panic"

Init == /\ tr \in {j \in 1..NT : Whole(File[j])}
        /\ D = {} /\ S = NewModel(1..File[tr].nk, File[tr].cap, File[tr].thot, File[tr].gcap)

Cb5(c) == [j \in 1..Len(c) |-> << c[j][1], c[j][2], c[j][3], c[j][4], IF c[j][1] = 3 THEN 0 ELSE c[j][5] >>]
Cmd(a) == [o |-> a.o, k |-> a.k, f |-> a.fl, v |-> a.v, u |-> << >>, ks |-> a.ks, g |-> a.g, x |-> << >>]
Live(s) == Cardinality(ResKeys(s))
Lookup(a) == a.o \in {"get", "jn"}
\* another lookup of the same key runs at the same time
Shares(j) == \E i \in 1..N(H) : /\ i # j /\ Lookup(H.t[i]) /\ H.t[i].k = H.t[j].k
                               /\ H.t[i].s < H.t[j].f /\ H.t[j].s < H.t[i].f

\* the states after call j (none: it cannot take effect here)
After(st, j) ==
  LET a == H.t[j] IN
  CASE a.o = "len" -> IF a.r = << Live(st.s) >> THEN {st} ELSE {}
    [] a.o = "wgt" -> IF a.r = << Total(st.s) >> THEN {st} ELSE {}
    [] a.o = "emp" -> IF a.r = << IF Live(st.s) = 0 THEN 1 ELSE 0 >> THEN {st} ELSE {}
    [] a.o = "end" -> {st}
    [] OTHER ->
         LET m == Step(st, Cmd(a), "sync") IN
         IF a.r # m.r \/ Cb5(a.c) # m.st.s.cb THEN {}
         ELSE LET st1 == ClearCb(m.st) IN
              IF Lookup(a) /\ IsRes(st.s, a.k) /\ st.s.e[a.k].ref >= MaxUses /\ Shares(j)
                THEN {st1, [st1 EXCEPT !.s.e[a.k].ref = @ + 1]}
                ELSE {st1}

\* nobody who has yet to take effect returned before j started
Next ==
  /\ UNCHANGED tr
  /\ \E j \in (1..N(H)) \ D :
       /\ \A i \in (1..N(H)) \ D : i < j => H.t[i].f > H.t[j].s
       /\ D' = D \cup {j}
       /\ S' \in After(S, j)

Spec == Init /\ [][Next]_vars
Complete == Cardinality(D) = N(H)
View == IF Complete THEN << tr, D, 0 >> ELSE << tr, D, S >>
Accept == Complete => PrintT(<< "ACC", tr >>)
=============================================================================
