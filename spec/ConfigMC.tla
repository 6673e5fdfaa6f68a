------------------------------ MODULE ConfigMC ------------------------------
(***************************************************************************)
(* The construction as an algorithm (start from the requested number of    *)
(* shards, halve while shards are too small), explored for every           *)
(* combination of small requests: it ends with the layout of ConfigSpec.   *)
(***************************************************************************)
EXTENDS ConfigSpec
CONSTANTS MaxSh, MaxEst, MaxCap
VARIABLES sh, est, cap, n, pc
vars == << sh, est, cap, n, pc >>
CeilDiv(a, b) == (a + b - 1) \div b
Init == /\ sh \in 0..MaxSh /\ est \in {e \in 0..MaxEst : e % 31 \in {0, 1, 2, 30} \/ e < 40}
        /\ cap \in 0..MaxCap
        /\ n = RoundUp(sh) /\ pc = "reduce"
Halve == pc = "reduce" /\ n > 1 /\ CeilDiv(est, n) < 32 /\ n' = n \div 2 /\ UNCHANGED << sh, est, cap, pc >>
Finish == pc = "reduce" /\ (n = 1 \/ CeilDiv(est, n) >= 32) /\ pc' = "done" /\ UNCHANGED << sh, est, cap, n >>
Next == Halve \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Layout ==
  pc = "done" =>
    /\ PowerOfTwo(n)
    /\ n <= RoundUp(sh)
    /\ n < RoundUp(sh) => CeilDiv(est, 2 * n) < 32
    /\ n = Shards(sh, OfInt(est))
    /\ Serves(OfInt(cap), n, OfInt(CeilDiv(cap, n)))
    /\ CeilDiv(cap, n) * n >= cap /\ CeilDiv(cap, n) * n < cap + n
Ends == <>(pc = "done")
=============================================================================
