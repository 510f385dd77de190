----------------------------- MODULE TimeCtxGen -----------------------------
(* Every sequence of N operations on one context over an alphabet of K      *)
(* operation/text pairs (numbers; the driver input gives them meaning).     *)
EXTENDS Naturals, Sequences, TLC, Json
CONSTANTS N, K
VARIABLE seq
Init == seq = <<>>
Next == \E k \in 1..K : Len(seq) < N /\ seq' = Append(seq, k)
           /\ (Len(seq') = N => PrintT("GEN" \o ToJson(seq')))
Spec == Init /\ [][Next]_seq
=============================================================================
