----------------------------- MODULE ContractMC -----------------------------
(***************************************************************************)
(* Exhaustive check: every call of the exact model, in every reachable     *)
(* state of a small configuration, satisfies every property of the         *)
(* contract.  The model is explored over all keys, weights, pins,          *)
(* before_evict behaviours, closure outcomes, guards and futures of the    *)
(* configuration.  With EXPORT set, each transition is printed so that the *)
(* harness can replay the whole state graph into the real code.            *)
(***************************************************************************)
EXTENDS CacheModel, IOUtils, TLCExt

Con == INSTANCE CacheContract

CONSTANTS NK, Cap, Thot, Gcap, Shapes, Shapes2, Api, Ops, MaxG, MaxSum
VARIABLES st

K == 1..NK
Names == 1..MaxG
\* Identities are canonical: in every explored state the resident of key k is
\* called k, so new values can always be called NK + 1 and NK + 2.
UsedNames(x) == DOMAIN x.gd \cup DOMAIN x.fu \cup {x.gd[g][2] : g \in DOMAIN x.gd}
                \cup {x.s.e[k].ph : k \in K}
FreshName(x) == CHOOSE n \in 1..(MaxG + 1) : n \notin UsedNames(x) /\ \A m \in 1..(n - 1) : m \in UsedNames(x)

Shape(w, p, z) == [w |-> w, p |-> p, z |-> z]
Val(x, sh) == << NK + 1, sh.w, sh.p, sh.z >>
Val2(x, sh) == << NK + 2, sh.w, sh.p, sh.z >>
\* value shapes of the configurations: weight, pinned, effect of before_evict
Plain == {Shape(w, 0, -1) : w \in 0..3}
Unit == {Shape(1, 0, -1)}
Two == {Shape(1, 0, -1), Shape(2, 0, -1)}
Zero == {Shape(0, 0, -1), Shape(1, 0, -1)}
Pinned == {Shape(1, 0, -1), Shape(1, 1, -1), Shape(2, 0, -1)}
PinnedBig == {Shape(1, 0, -1), Shape(2, 1, -1)}
Shrink == {Shape(1, 0, 0), Shape(2, 0, 1), Shape(3, 0, 0), Shape(1, 0, -1)}
Grow == {Shape(1, 0, 2), Shape(2, 0, 1), Shape(3, 0, 3)}
AllShapes == {Shape(w, p, z) : w \in 0..2, p \in {0, 1}, z \in {-1, 0, 1}}
Mixed == {Shape(0, 0, -1), Shape(1, 0, -1), Shape(2, 0, -1), Shape(3, 0, -1), Shape(1, 1, -1), Shape(2, 0, 0)}

Cmd0(o) == [o |-> o, k |-> 0, f |-> 0, b |-> 1, v |-> << 0, 0, 0, 0 >>, u |-> << >>, ks |-> << >>, g |-> 0]
CK(o, k) == [Cmd0(o) EXCEPT !.k = k]

RECURSIVE SetToSeqN(_)
SetToSeqN(S) == IF S = {} THEN << >>
                ELSE LET m == CHOOSE a \in S : \A b \in S : a <= b IN << m >> \o SetToSeqN(S \ {m})

NotPend(x, k) == x.s.e[k].t # "P"
\* an in-place overwrite may grow the cache; keep the total finite
Small(x, sh) == Total(x.s) + sh.w <= MaxSum

Commands(x) ==
  UNION {
    {CK(o, k) : o \in Ops \cap {"get", "peek", "has", "rem"}, k \in K},
    {[CK("ins", k) EXCEPT !.v = Val(x, sh), !.f = f] :
        k \in K, sh \in Shapes, f \in IF "ins" \in Ops THEN (IF "lc" \in Ops THEN {0, 1} ELSE {0}) ELSE {}},
    {[CK("rep", k) EXCEPT !.v = Val(x, sh), !.f = f] :
        k \in K, sh \in Shapes, f \in IF "rep" \in Ops THEN (IF "lc" \in Ops THEN 0..3 ELSE {0, 1}) ELSE {}},
    {[Cmd0("ret") EXCEPT !.ks = SetToSeqN(D)] : D \in IF "ret" \in Ops THEN SUBSET K ELSE {}},
    {Cmd0(o) : o \in Ops \cap {"clr"}},
    {[Cmd0("drn") EXCEPT !.f = f] : f \in IF "drn" \in Ops THEN {0, 1, NK} ELSE {}},
    {[CK(o, k) EXCEPT !.u = u] :
        o \in Ops \cap {"gmu", "pmu"}, k \in K,
        u \in {<< >>} \cup {Val(x, sh) : sh \in {a \in Shapes2 : Small(x, a)}}},
    {[CK(o, k) EXCEPT !.f = f, !.v = Val(x, sh)] :
        o \in Ops \cap {"goi", "gmi", "ga"}, k \in {j \in K : NotPend(x, j)}, f \in {0}, sh \in Shapes},
    {[CK(o, k) EXCEPT !.f = f, !.v = Val(x, Shape(1, 0, -1))] :
        o \in Ops \cap {"goi", "gmi", "ga"}, k \in {j \in K : NotPend(x, j)}, f \in {1, 2}},
    {[CK("gmi", k) EXCEPT !.v = Val(x, sh), !.u = Val2(x, s2)] :
        k \in IF "gmi" \in Ops THEN K ELSE {}, sh \in Shapes, s2 \in {a \in Shapes2 : Small(x, a)}},
    {[CK(o, k) EXCEPT !.f = f, !.v = Val(x, sh)] :
        o \in Ops \cap {"gui", "gum"}, k \in K, f \in {0, 1, 2}, sh \in Shapes},
    {[CK("pin", k) EXCEPT !.f = f] :
        k \in IF "pin" \in Ops THEN {j \in K : IsRes(x.s, j)} ELSE {}, f \in {0, 1}},
    IF Cardinality(UsedNames(x) \ {0}) < MaxG
      THEN {[CK(o, k) EXCEPT !.g = FreshName(x)] : o \in Ops \cap {"jn", "wt"}, k \in K} ELSE {},
    {[CK("uw", 0) EXCEPT !.g = g] : g \in IF "wt" \in Ops THEN DOMAIN x.fu ELSE {}},
    {[CK("gin", x.gd[g][1]) EXCEPT !.g = g, !.v = Val(x, sh), !.f = f] :
        g \in DOMAIN x.gd, sh \in Shapes, f \in IF "lc" \in Ops THEN {0, 1} ELSE {0}},
    {[CK("gdr", x.gd[g][1]) EXCEPT !.g = g] : g \in DOMAIN x.gd}
  }

WaitSet(x, ph) == {f \in DOMAIN x.fu : x.fu[f] = ph}
RECURSIVE Flat3(_, _)
Flat3(S, id) == IF S = {} THEN << >> ELSE LET f == CHOOSE a \in S : TRUE
                                       IN << f, 1, id >> \o Flat3(S \ {f}, id)
Ids(s) == [k \in K |-> IF s.e[k].t = "R" THEN s.e[k].id ELSE 0]

\* the details that the harness would record
Details(x, c, q) ==
  CASE c.o = "ret" -> Ids(x.s)
    [] c.o = "drn" -> \* any choice of that many yields is allowed; take the first
         [k \in K |-> IF IsRes(x.s, k) /\ Cardinality({j \in ResKeys(x.s) : j <= k}) <= c.f
                      THEN x.s.e[k].id ELSE 0]
    [] c.o \in {"goi", "gmi", "ga"} -> << IF q = -1 THEN 0 ELSE 1 >>
    [] c.o = "gin" -> Flat3(WaitSet(x, x.gd[c.g][2]), c.v[1])
    [] OTHER -> << >>

\* all events for a command (a hand-over may go to any waiting future)
WithX(x, c) ==
  IF c.o = "gdr" /\ WaitSet(x, x.gd[c.g][2]) # {}
    THEN {c @@ [x |-> << f, 2, f >>] : f \in WaitSet(x, x.gd[c.g][2])}
    ELSE {c @@ [x |-> << >>]}

Cb6(c) == [j \in 1..Len(c) |-> c[j] \o << 1 >>]
Event(x, c, m) ==
  LET s == m.st.s
      ids == Ids(s)
      ws == [k \in K |-> IF s.e[k].t = "R" THEN s.e[k].w ELSE 0]
      n == Cardinality(ResKeys(s))
      hm == Con!Counted(Con!NewState(NK, 0, 0, 0, 1), [o |-> "nop"])
  IN [o |-> c.o, k |-> c.k, f |-> c.f, b |-> 1, v |-> c.v, u |-> c.u, ks |-> c.ks, g |-> c.g,
      x |-> IF c.x # << >> THEN c.x ELSE Details(x, c, m.q),
      r |-> m.r, c |-> Cb6(s.cb), i |-> ids, w |-> ws, it |-> ids,
      ck |-> [k \in K |-> IF ids[k] # 0 THEN 1 ELSE 0],
      n |-> n, t |-> Total(s), e |-> IF n = 0 THEN 1 ELSE 0,
      lk |-> n + Cardinality({k \in K : s.e[k].t = "P"}), lv |-> n, h |-> 0, m |-> 0, cp |-> Cap]

\* the abstract state of the contract
Abs(x) ==
  [v |-> [k \in K |-> LET r == x.s.e[k] IN IF r.t = "R" THEN << r.id, r.w, r.p, r.z >> ELSE Con!None4],
   pk |-> [k \in K |-> x.s.e[k].ph], gd |-> x.gd, fu |-> x.fu, h |-> 0, m |-> 0, rq |-> 0,
   cap |-> Cap, thot |-> Thot, api |-> IF Api = "sync" THEN 1 ELSE 0, sh |-> 1, nk |-> NK, ov |-> 0]

CheckedProps == LET p == IF "PROPS" \in DOMAIN IOEnv THEN IOEnv.PROPS ELSE "all"
                IN (IF p = "all" THEN Con!SeqProps ELSE {p} \cap Con!SeqProps) \ {"C17"}
Canon(x) == [x EXCEPT !.s.cb = << >>,
                     !.s.e = [k \in K |-> IF @[k].t = "R" THEN [@[k] EXCEPT !.id = k] ELSE @[k]]]

\* the abstraction commutes with the step (h, m, rq and ov are not modelled here)
Commutes(x, e, y) == [Con!Apply(Abs(x), e) EXCEPT !.rq = 0, !.ov = 0] = Abs(y)

Verdict(x, e, y) ==
  /\ \A p \in CheckedProps :
       Con!Holds(p, Abs(x), e) \/ (PrintT(<< "CONTRACT", p, Abs(x), e >>) /\ FALSE)
  /\ Commutes(x, e, y) \/ (PrintT(<< "ABSTRACTION", Abs(x), e, Abs(y) >>) /\ FALSE)

Export == "EXPORT" \in DOMAIN IOEnv /\ IOEnv.EXPORT = "1"
Enc(c) == << c.o, c.k, c.f, c.v, c.u, c.ks, c.g, c.x >>

Init == st = NewModel(K, Cap, Thot, Gcap)

Next ==
  \E c \in Commands(st) : \E cx \in WithX(st, c) :
    LET m == Step(st, cx, Api)
        y == Canon(m.st)
        e == Event(st, cx, m)
    IN /\ st' = y
       /\ IF Export THEN PrintT("T " \o ToString(<< TLCFP(st), TLCFP(<< st, 7 >>), Enc(e), TLCFP(y), TLCFP(<< y, 7 >>) >>))
          ELSE Assert(Verdict(st, e, m.st), << "contract violated by the model", e >>)

Spec == Init /\ [][Next]_st
Inv == WellFormed(st.s)
=============================================================================
