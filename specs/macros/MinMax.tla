------------------------------- MODULE MinMax -------------------------------
(***************************************************************************)
(* What FUTILS_MIN, FUTILS_MAX and FUTILS_BOUND mean: the smaller, larger, *)
(* nearest-in-range of the values of their arguments, each argument being  *)
(* evaluated exactly once, for arguments of any (also of different)        *)
(* arithmetic types whose values C's common type can represent.            *)
(* A number is [s |-> 1 if negative, m |-> magnitude as four 16-bit limbs, *)
(* most significant first]; a type is [b |-> bits, u |-> 1 if unsigned].   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

IsZero(m) == \A i \in 1..Len(m) : m[i] = 0
MagLt(x, y) == \E i \in 1..Len(x) : x[i] < y[i] /\ \A j \in 1..(i - 1) : x[j] = y[j]
Lt(x, y) ==
  LET nx == x.s = 1 /\ ~IsZero(x.m)
      ny == y.s = 1 /\ ~IsZero(y.m) IN
  IF nx /\ ny THEN MagLt(y.m, x.m)
  ELSE IF nx THEN TRUE
  ELSE IF ny THEN FALSE
  ELSE MagLt(x.m, y.m)
Same(x, y) == ~Lt(x, y) /\ ~Lt(y, x)

\* C's common type of two integer types (int has 32 bits)
Promote(t) == IF t.b < 32 THEN [b |-> 32, u |-> 0] ELSE t
Common2(s, t) ==
  LET p == Promote(s)
      q == Promote(t) IN
  IF p.b > q.b THEN p ELSE IF q.b > p.b THEN q ELSE [b |-> p.b, u |-> IF p.u = 1 \/ q.u = 1 THEN 1 ELSE 0]

\* 2^k as limbs
P16(k) == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>[k + 1]
Pow(k) == [i \in 1..4 |-> IF (k \div 16) = 4 - i THEN P16(k % 16) ELSE 0]
Fits(x, t) ==
  IF t.u = 1 THEN (x.s = 0 \/ IsZero(x.m)) /\ (t.b = 64 \/ MagLt(x.m, Pow(t.b)))
  ELSE MagLt(x.m, Pow(t.b - 1)) \/ (x.s = 1 /\ x.m = Pow(t.b - 1))

MinOf(a, b) == IF Lt(a, b) THEN a ELSE b
MaxOf(a, b) == IF Lt(b, a) THEN a ELSE b
BoundOf(a, lo, hi) == IF Lt(a, lo) THEN lo ELSE IF Lt(hi, a) THEN hi ELSE a
=============================================================================
