------------------------------ MODULE Timespec ------------------------------
(***************************************************************************)
(* Instants and durations as pairs (seconds, nanoseconds) and what the     *)
(* timespec functions mean, as exact integer arithmetic.  A second is B^3  *)
(* nanoseconds (B = 1000; model-checked with a smaller B).                 *)
(***************************************************************************)
EXTENDS Big

NsPerSec == Shl(Of(1), 3)
Ns(t) == Add(Shl(t.s, 3), t.n)                \* exact number of nanoseconds
Normal(t) == ~t.n.neg /\ Lt(t.n, NsPerSec)

\* the normalised pair of an exact number of nanoseconds (floor division)
Split(x) ==
  LET q == Trunc(x, 3)
      r == Sub(x, Shl(q, 3)) IN
  IF r.neg THEN [s |-> Sub(q, Of(1)), n |-> Add(r, NsPerSec)] ELSE [s |-> q, n |-> r]

Diff(a, b) == Split(Sub(Ns(b), Ns(a)))                        \* b - a
DiffUnits(a, b, k) == Trunc(Abs(Sub(Ns(a), Ns(b))), k)        \* |a - b| in units of B^k ns
Compare(a, b) == Cmp(Ns(a), Ns(b))
AddUnits(t, d, k) == Split(Add(Ns(t), Shl(d, k)))             \* t + d units of B^k ns
ToUnits(t, k) == Trunc(Ns(t), k)
FromUnits(v, k) == Split(Shl(v, k))
=============================================================================
