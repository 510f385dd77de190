---------------------------- MODULE TimespecLaws ----------------------------
(***************************************************************************)
(* Checks exhaustively, on small numbers and a small base, that            *)
(* - Big is integer arithmetic,                                            *)
(* - the operations on timespecs satisfy the identities users rely on,     *)
(* - the carry/borrow algorithms used by C code compute them, while the    *)
(*   usual slips (Bug) do not.                                             *)
(***************************************************************************)
EXTENDS Timespec, TLC
CONSTANTS S, DMax, Bug
VARIABLES a, b, d

NS == B * B * B
TS == [s : {Of(i) : i \in -S..S}, n : {Of(i) : i \in 0..NS - 1}]
Init == a \in TS /\ b = a /\ d = -DMax
\* b is any timespec for d = 0, any delta is tried with b = a
Next == /\ a' = a
        /\ \/ d' = d + 1 /\ d < DMax /\ b = a /\ b' = a
           \/ d = 0 /\ b = a /\ d' = d /\ b' \in TS
           \/ UNCHANGED <<b, d>>
Spec == Init /\ [][Next]_<<a, b, d>>

I(t) == ToInt(t.s) * NS + ToInt(t.n)
TruncDiv(x, y) == IF x < 0 THEN -((-x) \div y) ELSE x \div y

BigOk ==
  LET x == I(a) y == I(b) IN
  /\ Ns(a) = Of(x) /\ ToInt(Of(x)) = x /\ WellFormed(Of(x))
  /\ Add(Of(x), Of(y)) = Of(x + y)
  /\ Sub(Of(x), Of(y)) = Of(x - y)
  /\ Cmp(Of(x), Of(y)) = (IF x > y THEN 1 ELSE IF x < y THEN -1 ELSE 0)
  /\ \A k \in 0..2 : Shl(Of(x), k) = Of(x * B^k) /\ Trunc(Of(x), k) = Of(TruncDiv(x, B^k))

Laws ==
  /\ Normal(a)
  /\ Split(Ns(a)) = a
  /\ LET df == Diff(a, b) IN Normal(df) /\ Add(Ns(a), Ns(df)) = Ns(b)
  /\ (Compare(a, b) = 0) <=> (a = b)
  /\ (Compare(a, b) < 0) <=> (~Diff(a, b).s.neg /\ Ns(Diff(a, b)) # Zero)
  /\ \A k \in 0..1 : LET r == AddUnits(a, Of(d), k) IN
       Normal(r) /\ AddUnits(r, Of(-d), k) = a /\ I(r) = I(a) + d * B^k
  /\ \A k \in 0..2 : d >= 0 => ToUnits(FromUnits(Of(d), k), k) = Of(d) /\ Normal(FromUnits(Of(d), k))
  /\ AddUnits(a, Of(d), 1) = AddUnits(a, Shl(Of(d), 1), 0)

\* --- the algorithms of C code, on plain integers ---
CNorm(r) == r.n >= 0 /\ r.n < NS
Val(r) == r.s * NS + r.n
CDiff(x, y) ==       \* y - x, x <= y
  LET xs == ToInt(x.s) xn == ToInt(x.n) ys == ToInt(y.s) yn == ToInt(y.n) IN
  IF (IF Bug = "borrow-equal" THEN yn > xn ELSE yn >= xn) THEN [s |-> ys - xs, n |-> yn - xn]
  ELSE [s |-> ys - xs - 1, n |-> NS + yn - xn]
Rem(x, y) == x - TruncDiv(x, y) * y
CAdd(x, dd) ==
  LET s == ToInt(x.s) + TruncDiv(dd, NS)
      n == ToInt(x.n) + Rem(dd, NS) IN
  IF (IF Bug = "carry-late" THEN n > NS ELSE n >= NS) THEN [s |-> s + 1, n |-> n - NS]
  ELSE IF (IF Bug = "borrow-missing" THEN FALSE ELSE n < 0) THEN [s |-> s - 1, n |-> n + NS]
  ELSE [s |-> s, n |-> n]
Algo ==
  /\ I(a) <= I(b) => LET r == CDiff(a, b) IN CNorm(r) /\ Val(r) = I(b) - I(a)
  /\ LET r == CAdd(a, d) IN CNorm(r) /\ Val(r) = I(a) + d
=============================================================================
