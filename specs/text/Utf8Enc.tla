------------------------------ MODULE Utf8Enc ------------------------------
(* Every scalar value of a range encodes to bytes that decode to it.       *)
EXTENDS Utf8, TLC
CONSTANTS Step, Blocks
VARIABLES blk
Init == blk = 0
Next == blk = 0 /\ \E b \in 1..Blocks : blk' = b
Spec == Init /\ [][Next]_blk
Block(b) == LET n == 1114112 \div Blocks IN {(b - 1) * n + k * Step : k \in 0..((n - 1) \div Step)} \cup {(b - 1) * n, b * n - 1}
RoundTrip == blk > 0 => \A c \in Block(blk) : Scalar(c) => (LET d == Decode(Encode(c)) IN d.ok /\ d.cps = <<c>>)
=============================================================================
