----------------------------- MODULE NestTrace -----------------------------
(***************************************************************************)
(* Calls into the sync cache from inside the user code that it runs (C21). *)
(*                                                                         *)
(* State: v[k] id of the value of key k (0: none); pk[k] = <<who, val>> its *)
(* pending load: the guard or call that owns it and the value that it has  *)
(* published already; st: the calls in progress, innermost last.  A call's *)
(* ph: "n" nothing happened yet, "l" its loader ran (or runs), "d" done.   *)
(* No event lies between the step of a call that changes the cache and the *)
(* next event of the same call, so the step is taken with that event:      *)
(* on_evict, end_request, the disposal of the request state, the return.   *)
(* User code sees the cache as the completed steps left it: begin_request  *)
(* before the call's own step, end_request after it.                       *)
(* With the default lifecycle (lossy) evictions are not reported; then any *)
(* value may be found missing.                                             *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
NT == Len(Trace)
K == 1..5
VARIABLES i, v, pk, st, lossy, skip, bad
vars == << i, v, pk, st, lossy, skip, bad >>
NoPk == << 0, 0 >>
Empty == [k \in K |-> 0]

Init == i = 1 /\ v = Empty /\ pk = [k \in K |-> NoPk] /\ st = << >> /\ lossy = FALSE /\ skip = TRUE /\ bad = 0

S0 == [v |-> v, pk |-> pk, st |-> st]
Top(s) == s.st[Len(s.st)]
SetTop(s, f) == [s EXCEPT !.st[Len(s.st)] = f]
Drops(f) == {k \in K : k % 2 # f}

\* the step of the innermost call: the cache after it, and the result it will return
Loader(f) == f.op \in {"goi", "ga"}
Effect(s) ==
  LET f == Top(s)
      k == f.k
      Put(t, val) == [t EXCEPT !.v[k] = val, !.pk[k] = NoPk]
      Done(t, r) == SetTop(t, [f EXCEPT !.ph = "d", !.r = r])
  IN
  CASE f.ph = "d" -> s
    [] f.op = "ins" -> Done(Put(s, f.v), << >>)
    [] f.op = "rep" -> IF s.v[k] # 0 THEN Done([s EXCEPT !.v[k] = f.v], << 1 >>) ELSE Done(s, << 0, k, f.v >>)
    [] f.op = "rem" -> Done(Put(s, 0), << s.v[k] >>)
    [] f.op = "clr" -> Done([s EXCEPT !.v = Empty, !.pk = [a \in K |-> NoPk]], << >>)
    [] f.op = "ret" -> Done([s EXCEPT !.v = [a \in K |-> IF a \in Drops(f.f) THEN 0 ELSE @[a]]], << >>)
    [] f.op = "gdr" -> Done(IF s.pk[k][1] = f.g THEN [s EXCEPT !.pk[k] = NoPk] ELSE s, << >>)
    [] f.op = "gin" -> IF s.pk[k][1] = f.g THEN Done(Put(s, f.v), << 1 >>) ELSE Done(s, << 0, f.v >>)
    [] f.op = "get" -> Done(s, << s.v[k] >>)
    [] f.op = "has" -> Done(s, << IF s.v[k] # 0 THEN 1 ELSE 0 >>)
    [] f.op = "len" -> Done(s, << Cardinality({a \in K : s.v[a] # 0}) >>)
    [] f.op = "jn" -> IF s.v[k] # 0 THEN Done(s, << 1, s.v[k] >>)
                      ELSE IF s.pk[k] = NoPk THEN Done([s EXCEPT !.pk[k] = << f.g, 0 >>], << 2 >>)
                      ELSE IF s.pk[k][2] # 0 THEN Done(s, << 1, s.pk[k][2] >>)
                      ELSE Done(s, << 3 >>)
    [] Loader(f) /\ f.ph = "n" -> \* without running the loader there must be a value
         Done(s, IF s.v[k] # 0 THEN << 1, s.v[k] >>
                 ELSE IF s.pk[k][2] # 0 THEN << 1, s.pk[k][2] >> ELSE << -1 >>)
    [] Loader(f) /\ f.ph = "l" ->
         IF f.out > 0
           THEN Done(IF s.pk[k][1] = f.me THEN Put(s, f.out) ELSE s, << 1, f.out >>)
           ELSE Done(IF s.pk[k][1] = f.me THEN [s EXCEPT !.pk[k] = NoPk] ELSE s, << IF f.out = 0 THEN 3 ELSE 4 >>)
    [] OTHER -> s

Publish(s, k, who, val) == IF s.pk[k][1] = who THEN [s EXCEPT !.pk[k][2] = val] ELSE s
Gone(s, k, id) == IF s.v[k] = id THEN [s EXCEPT !.v[k] = 0] ELSE s
\* what user code sees; with unreported evictions a value may be missing
See(s, seen) ==
  IF seen = << >> THEN {s}
  ELSE IF \A k \in K : seen[k] = s.v[k] \/ (lossy /\ seen[k] = 0)
    THEN {[s EXCEPT !.v = [k \in K |-> seen[k]]]} ELSE {}
Missing(s, k) == IF lossy THEN {s, [s EXCEPT !.v[k] = 0]} ELSE {s}

\* the states after event e, {} if it is not allowed
After(s, e) ==
  CASE e.o = "c" ->
         LET n == [s EXCEPT !.st = Append(@, [op |-> e.p, k |-> e.k, v |-> e.v, f |-> e.f, g |-> e.g, ph |-> "n",
                                             me |-> e.v, out |-> 0, r |-> << >>])]
         IN {IF e.p = "gin" THEN Publish(n, e.k, e.g, e.v) ELSE n}
    [] e.o = "u" /\ e.p = "begin" -> See(s, e.s)
    [] e.o = "u" /\ e.p = "load" ->
         LET f == Top(s) IN
         UNION {IF t.v[f.k] = 0 /\ t.pk[f.k] = NoPk
                  THEN See(SetTop([t EXCEPT !.pk[f.k] = << f.me, 0 >>], [f EXCEPT !.ph = "l"]), e.s) ELSE {}
                : t \in Missing(s, f.k)}
    [] e.o = "u" /\ e.p = "end" -> See(Effect(s), e.s)
    [] e.o = "u" /\ e.p \in {"disp", "drop"} -> See(Effect(s), e.s)
    [] e.o = "x" -> IF e.p = "load" THEN LET f == Top(s) IN {Publish(SetTop(s, [f EXCEPT !.out = e.v]), f.k, f.me, IF e.v > 0 THEN e.v ELSE 0)}
                    ELSE {s}
    [] e.o = "e" -> {Gone(Effect(s), e.k, e.v)}
    [] e.o = "r" ->
         LET T == IF e.p = "len" /\ lossy THEN {s} ELSE UNION {{Effect(t)} : t \in Missing(s, Top(s).k)}
         IN {[t EXCEPT !.st = SubSeq(@, 1, Len(@) - 1)] : t \in {u \in T : Top(u).r = e.r \/ (e.p = "len" /\ lossy)}}
    [] e.o = "s" -> IF s.st = << >> THEN See(s, e.s) ELSE {}
    [] OTHER -> {}          \* "hang"

Next ==
  /\ i <= NT /\ i' = i + 1
  /\ LET e == Trace[i] IN
     IF e.o = "new" THEN /\ v' = Empty /\ pk' = [k \in K |-> NoPk] /\ st' = << >>
                         /\ lossy' = (e.f = 1) /\ skip' = FALSE /\ bad' = bad
     ELSE IF skip THEN UNCHANGED << v, pk, st, lossy, skip, bad >>
     ELSE LET A == After(S0, e) IN
          IF A = {} THEN /\ PrintT(<< "REJECT", i, {IOEnv.PROPS} >>)
                         /\ skip' = TRUE /\ bad' = bad + 1 /\ UNCHANGED << v, pk, st, lossy >>
          ELSE \* the value that is still there is preferred: seeing it missing later remains possible
               LET t == CHOOSE a \in A : \A b \in A : Cardinality({k \in K : a.v[k] # 0}) >= Cardinality({k \in K : b.v[k] # 0})
               IN v' = t.v /\ pk' = t.pk /\ st' = t.st /\ UNCHANGED << lossy, skip, bad >>
Spec == Init /\ [][Next]_vars
Done == i > NT => PrintT(<< "DONE", NT, bad >>)
=============================================================================
