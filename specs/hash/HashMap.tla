------------------------------ MODULE HashMap ------------------------------
(***************************************************************************)
(* What a hash table is for its user: the sequence of live entries, in     *)
(* insertion order, each <<key, data, const>>, at most one per key.        *)
(* Every operation maps (entries, arguments) to                            *)
(*    [m |-> entries afterwards, ret |-> result, out |-> data returned,    *)
(*     rel |-> data handed to the release callback, in order]              *)
(* Keys and data are opaque tokens (data 0 is NULL).                       *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

EPERM == -1
ENOENT == -2
ENOMEM == -12
EEXIST == -17
EINVAL == -22
Untouched == -1                     \* an output that was not written

Keys(m) == {m[i][1] : i \in 1..Len(m)}
At(m, k) == CHOOSE i \in 1..Len(m) : m[i][1] = k
Drop(m, i) == [j \in 1..(Len(m) - 1) |-> IF j < i THEN m[j] ELSE m[j + 1]]
R(m, ret, out, rel) == [m |-> m, ret |-> ret, out |-> out, rel |-> rel]

Insert(m, k, d, const) ==
  IF k \in Keys(m) THEN R(m, EEXIST, Untouched, <<>>)
  ELSE R(Append(m, <<k, d, const>>), 0, Untouched, <<>>)

Remove(m, k) ==
  IF k \notin Keys(m) THEN R(m, ENOENT, Untouched, <<>>)
  ELSE LET i == At(m, k) IN R(Drop(m, i), 0, Untouched, <<m[i][2]>>)

Clear(m) == R(<<>>, 0, Untouched, [i \in 1..Len(m) |-> m[i][2]])

Lookup(m, k) ==
  IF k \notin Keys(m) THEN R(m, ENOENT, Untouched, <<>>)
  ELSE IF m[At(m, k)][3] = 1 THEN R(m, EPERM, Untouched, <<>>)
  ELSE R(m, 0, m[At(m, k)][2], <<>>)

LookupConst(m, k) ==
  IF k \notin Keys(m) THEN R(m, ENOENT, Untouched, <<>>)
  ELSE R(m, 0, m[At(m, k)][2], <<>>)

Apply(m, op, k, d) ==
  CASE op = "i" -> Insert(m, k, d, 0)
    [] op = "c" -> Insert(m, k, d, 1)
    [] op = "r" -> Remove(m, k)
    [] op = "a" -> Clear(m)
    [] op = "l" -> Lookup(m, k)
    [] op = "L" -> LookupConst(m, k)
    [] op = "D" -> Clear(m)               \* destroy, then a new table
=============================================================================
