--------------------------------- MODULE Big ---------------------------------
(***************************************************************************)
(* Exact integers beyond TLC's 32 bits: sign and magnitude, the magnitude  *)
(* as little-endian digits in base B without leading zeros.  Zero is never *)
(* negative.  With B = 1000 the units s/ms/us/ns are digit shifts.         *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences
CONSTANT B

RECURSIVE Strip(_)
Strip(m) == IF m = <<>> THEN m ELSE IF m[Len(m)] # 0 THEN m ELSE Strip(SubSeq(m, 1, Len(m) - 1))
Norm(x) == LET m == Strip(x.m) IN [neg |-> x.neg /\ m # <<>>, m |-> m]
WellFormed(x) == /\ \A i \in 1..Len(x.m) : x.m[i] \in 0..B - 1
                 /\ Norm(x) = x

RECURSIVE Digits(_)
Digits(n) == IF n = 0 THEN <<>> ELSE <<n % B>> \o Digits(n \div B)
Of(n) == IF n < 0 THEN [neg |-> TRUE, m |-> Digits(-n)] ELSE [neg |-> FALSE, m |-> Digits(n)]
Zero == [neg |-> FALSE, m |-> <<>>]

RECURSIVE ToNat(_)
ToNat(m) == IF m = <<>> THEN 0 ELSE m[1] + B * ToNat(Tail(m))
\* only for values known to be small
ToInt(x) == IF x.neg THEN -ToNat(x.m) ELSE ToNat(x.m)

D(m, i) == IF i > Len(m) THEN 0 ELSE m[i]
Max(a, b) == IF a > b THEN a ELSE b

RECURSIVE CmpAt(_, _, _)
CmpAt(a, b, i) == IF i = 0 THEN 0
                  ELSE IF D(a, i) # D(b, i) THEN (IF D(a, i) > D(b, i) THEN 1 ELSE -1)
                  ELSE CmpAt(a, b, i - 1)
CmpMag(a, b) == CmpAt(a, b, Max(Len(a), Len(b)))

RECURSIVE AddAt(_, _, _, _, _)
AddAt(a, b, i, c, n) == IF i > n THEN (IF c = 0 THEN <<>> ELSE <<c>>)
                        ELSE LET t == D(a, i) + D(b, i) + c IN <<t % B>> \o AddAt(a, b, i + 1, t \div B, n)
AddMag(a, b) == AddAt(a, b, 1, 0, Max(Len(a), Len(b)))
RECURSIVE SubAt(_, _, _, _, _)
SubAt(a, b, i, c, n) == IF i > n THEN <<>>
                        ELSE LET t == D(a, i) - D(b, i) - c IN
                             <<IF t < 0 THEN t + B ELSE t>> \o SubAt(a, b, i + 1, IF t < 0 THEN 1 ELSE 0, n)
SubMag(a, b) == Strip(SubAt(a, b, 1, 0, Len(a)))      \* a >= b

Neg(x) == Norm([neg |-> ~x.neg, m |-> x.m])
Abs(x) == [neg |-> FALSE, m |-> x.m]
Add(x, y) == IF x.neg = y.neg THEN Norm([neg |-> x.neg, m |-> AddMag(x.m, y.m)])
             ELSE IF CmpMag(x.m, y.m) >= 0 THEN Norm([neg |-> x.neg, m |-> SubMag(x.m, y.m)])
             ELSE Norm([neg |-> y.neg, m |-> SubMag(y.m, x.m)])
Sub(x, y) == Add(x, Neg(y))
Cmp(x, y) == IF x.neg # y.neg THEN (IF x.neg THEN -1 ELSE 1)
             ELSE IF x.neg THEN CmpMag(y.m, x.m) ELSE CmpMag(x.m, y.m)
Lt(x, y) == Cmp(x, y) < 0
Le(x, y) == Cmp(x, y) <= 0
Between(l, x, h) == Le(l, x) /\ Le(x, h)

\* multiplication by B^k, division by B^k rounding towards zero
Shl(x, k) == IF x.m = <<>> THEN x ELSE [neg |-> x.neg, m |-> [i \in 1..k |-> 0] \o x.m]
Trunc(x, k) == IF Len(x.m) <= k THEN Zero ELSE [neg |-> x.neg, m |-> SubSeq(x.m, k + 1, Len(x.m))]
=============================================================================
