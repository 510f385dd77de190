----------------------------- MODULE Bounded -----------------------------
(* Bounded values by rejection: take the fewest whole groups of G raw bits *)
(* that hold the bits of the maximum, drop the bits above, draw again when *)
(* the value exceeds the maximum.  Every maximum of W bits is explored;    *)
(* for each, the raw values that lead to a result are counted: every value *)
(* of 0..max has equally many, no other has any.                           *)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS W, G, Variant
VARIABLES max, raw, out, left

Pow2[n \in 0..30] == IF n = 0 THEN 1 ELSE 2 * Pow2[n-1]
Bits(m) == CHOOSE b \in 0..W : (b = 0 /\ m = 0) \/ (b > 0 /\ Pow2[b-1] <= m /\ m < Pow2[b])
Mask(m) == IF Variant = "mask" /\ m > 0 THEN Pow2[Bits(m) - 1] - 1 ELSE Pow2[Bits(m)] - 1
Groups(m) == IF Variant = "short" THEN Bits(m) \div G ELSE (Bits(m) + G - 1) \div G
Raws(m) == 0..(Pow2[G * Groups(m)] - 1)
NoResult == 99999

Result(m, r) ==
  CASE Variant = "modulo" -> r % (m + 1)
    [] Variant = "scale" -> (r * (m + 1)) \div Pow2[G * Groups(m)]
    [] Variant = "clamp" -> LET v == r % (Mask(m) + 1) IN IF v > m THEN m ELSE v
    [] OTHER -> LET v == r % (Mask(m) + 1)
                IN IF (IF Variant = "strict" THEN v >= m /\ m > 0 ELSE v > m) THEN NoResult ELSE v

Count(m, v) == Cardinality({r \in Raws(m) : Result(m, r) = v})

(* the sampler as a machine: raw values arrive, some are rejected *)
Init == max \in 0..(Pow2[W] - 1) /\ raw = 0 /\ out = NoResult /\ left = 2
Draw == /\ out = NoResult /\ left > 0
        /\ \E r \in Raws(max) : raw' = r /\ out' = Result(max, r)
        /\ left' = left - 1 /\ UNCHANGED max
Next == Draw
Spec == Init /\ [][Next]_<<max, raw, out, left>>

InRange == out = NoResult \/ out <= max
Even == left = 2 => (Count(max, 0) > 0 /\ \A v \in 0..max : Count(max, v) = Count(max, 0))
(* at least every second raw value is good: the loop ends *)
Progress == left = 2 => 2 * Cardinality({r \in Raws(max) : Result(max, r) # NoResult}) >= Cardinality(Raws(max))
=============================================================================
