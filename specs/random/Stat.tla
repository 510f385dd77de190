------------------------------ MODULE Stat ------------------------------
(* Bounds on counts of independent events, wide enough (7 standard         *)
(* deviations and 8) that a correct generator practically never leaves     *)
(* them, over integers TLC can hold.                                       *)
EXTENDS Integers, Sequences

Abs(x) == IF x < 0 THEN -x ELSE x
(* n * num / den, rounded down, without large intermediate values *)
MulDiv(n, num, den) == (n \div den) * num + ((n % den) * num) \div den
(* c of n draws of an event with probability num / den, den > 0 *)
Near(c, n, num, den) ==
  LET e == MulDiv(n, num, den)
      d == Abs(c - e) - 8
  IN d <= 0 \/ (d < 46000 /\ d * d <= 49 * e)
(* and it has to occur at all when it is expected often enough *)
Occurs(c, n, num, den) == MulDiv(n, num, den) >= 40 => c > 0
Fair(c, n, num, den) == Near(c, n, num, den) /\ Occurs(c, n, num, den)
AllFair(s, n, num, den) == \A i \in DOMAIN s : Fair(s[i], n, num, den)
=============================================================================
