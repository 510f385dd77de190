--------------------------- MODULE RandTextLaws ---------------------------
(* The position classes describe exactly the encodings of all byte strings *)
(* (most significant bit first): as many texts as byte strings, all made   *)
(* of the allowed characters.  And a generator that fills the positions    *)
(* from one raw word by shifting reaches every one of them, equally often. *)
EXTENDS RandText, FiniteSets, TLC
CONSTANTS B, C, GB, GC, MaxCount, Shift, MaskHigh
VARIABLES count, raw
Pow2[n \in 0..30] == IF n = 0 THEN 1 ELSE 2 * Pow2[n-1]
(* bits of a byte string seen as a number of n*B bits *)
Encode(v, n) ==
  LET d == DataChars(n, B, C)
      z == LowZero(n, B, C)
      w == v * Pow2[z]
  IN [i \in 1..FullLen(n, GB, GC) |-> IF i > d THEN -1 ELSE (w \div Pow2[(d - i) * C]) % Pow2[C]]
Allowed(n, i) == LET k == Class(i, n, B, C) IN IF k = -1 THEN {-1} ELSE {x \in 0..(Pow2[C] - 1) : x % Pow2[k] = 0}
Encodings(n) == {Encode(v, n) : v \in 0..(Pow2[n * B] - 1)}

(* the generator for an incomplete group, from a raw word *)
Gen(v, n) ==
  LET d == DataChars(n, B, C)
      k == LowZero(n, B, C)
      at(i) == (v \div Pow2[(i - 1) * Shift]) % Pow2[C]
  IN [i \in 1..FullLen(n, GB, GC) |->
        IF i > d THEN -1
        ELSE IF i = d THEN (IF MaskHigh THEN at(i) % Pow2[C - k] ELSE (at(i) \div Pow2[k]) * Pow2[k]) ELSE at(i)]
Raws(n) == 0..(Pow2[DataChars(n, B, C) * C] - 1)

Init == count \in 0..MaxCount /\ raw = 0
Next == UNCHANGED <<count, raw>>
Spec == Init /\ [][Next]_<<count, raw>>
Classes == \A t \in Encodings(count) : \A i \in DOMAIN t : t[i] \in Allowed(count, i)
Complete == Cardinality(Encodings(count)) = Pow2[count * B]
Reached == LET g == {Gen(v, count) : v \in Raws(count)} IN g = Encodings(count)
=============================================================================
