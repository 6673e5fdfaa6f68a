----------------------------- MODULE ConfigSpec -----------------------------
(***************************************************************************)
(* How a cache is laid out for a configuration (C19).                      *)
(*                                                                         *)
(* Numbers of the real configuration go up to 2^64 - 1, beyond TLC's       *)
(* integers, so they are sequences of limbs (base 10^4, least significant  *)
(* first, no leading zero limbs); shard counts are ordinary integers.      *)
(***************************************************************************)
EXTENDS Integers, Sequences

Base == 10000
RECURSIVE Norm(_)
Norm(a) == IF a = << >> THEN a ELSE IF a[Len(a)] = 0 THEN Norm(SubSeq(a, 1, Len(a) - 1)) ELSE a
RECURSIVE OfInt(_)
OfInt(n) == IF n = 0 THEN << >> ELSE << n % Base >> \o OfInt(n \div Base)
At(a, j) == IF j <= Len(a) THEN a[j] ELSE 0
Larger(m, n) == IF m > n THEN m ELSE n
RECURSIVE AddFrom(_, _, _, _)
AddFrom(a, b, j, carry) ==
  IF j > Larger(Len(a), Len(b)) THEN OfInt(carry)
  ELSE LET x == At(a, j) + At(b, j) + carry IN << x % Base >> \o AddFrom(a, b, j + 1, x \div Base)
Add(a, b) == AddFrom(a, b, 1, 0)
RECURSIVE MulFrom(_, _, _, _)
MulFrom(a, n, j, carry) ==
  IF j > Len(a) THEN OfInt(carry)
  ELSE LET x == a[j] * n + carry IN << x % Base >> \o MulFrom(a, n, j + 1, x \div Base)
\* n < 2^17, so that the products fit
Mul(a, n) == Norm(MulFrom(a, n, 1, 0))
RECURSIVE LtFrom(_, _, _)
LtFrom(a, b, j) == IF j = 0 THEN FALSE
                   ELSE IF a[j] # b[j] THEN a[j] < b[j] ELSE LtFrom(a, b, j - 1)
Lt(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE LtFrom(a, b, Len(a))
Le(a, b) == ~Lt(b, a)

RECURSIVE PowerOfTwo(_)
PowerOfTwo(n) == n = 1 \/ (n > 1 /\ n % 2 = 0 /\ PowerOfTwo(n \div 2))
RECURSIVE Up(_, _)
Up(n, p) == IF p >= n THEN p ELSE Up(n, 2 * p)
RoundUp(n) == Up(n, 1)

\* a shard of n equal ones holds at least 32 of est items (rounded up)
Roomy(est, n) == Lt(OfInt(31 * n), est)

\* the number of shards for a request of sh shards and est items
RECURSIVE Reduce(_, _)
Reduce(n, est) == IF n = 1 \/ Roomy(est, n) THEN n ELSE Reduce(n \div 2, est)
Shards(sh, est) == Reduce(RoundUp(sh), est)

\* n shards of capacity sc each serve a request of capacity cap
Serves(cap, n, sc) ==
  LET total == Mul(sc, n) IN Le(cap, total) /\ Lt(total, Add(cap, OfInt(n)))
Half == << 5808, 5477, 3685, 2337, 922 >>  \* 2^63 = 9223372036854775808
=============================================================================
