---------------------------- MODULE Diffusion ----------------------------
(* Why the output depends on every bit of the seed: a keystream block of a *)
(* small cipher of the same kind (additions, rotations, exclusive ors on a *)
(* square of words; columns and diagonals in turn; the input added at the  *)
(* end), for all seeds at once.  Once it is done, flipping any bit of the  *)
(* seed flips every bit of the output for between a quarter and three      *)
(* quarters of the seeds: none is dead, and none depends linearly on any.  *)
EXTENDS Naturals, FiniteSets, Sequences
CONSTANTS Rounds, Low, Variant
VARIABLES left, tab

P2 == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512>>
Bit(v, k) == (v \div P2[k + 1]) % 2
Xor3(a, b) == ((Bit(a, 0) + Bit(b, 0)) % 2) + (2 * ((Bit(a, 1) + Bit(b, 1)) % 2)) + (4 * ((Bit(a, 2) + Bit(b, 2)) % 2))
XT == [p \in (0..7) \X (0..7) |-> Xor3(p[1], p[2])]
Rotl == [v \in 0..7 |-> ((2 * v) % 8) + (v \div 4)]

Seeds == 0..511
Word(s, k) == (s \div P2[(3 * k) + 1]) % 8
Load(s) == <<5, Word(s, 0), Word(s, 1),
             CASE Variant = "dropped" -> Word(s, 1)
               [] Variant = "cut" -> Word(s, 2) % 4
               [] OTHER -> Word(s, 2)>>

Half(x, i, j) ==
  LET a == IF Variant = "linear" THEN XT[<<x[i], x[j]>>] ELSE (x[i] + x[j]) % 8
  IN [x EXCEPT ![i] = a, ![j] = Rotl[XT[<<x[j], a>>]]]
Double(x) ==
  LET c == Half(Half(x, 1, 3), 2, 4)
  IN IF Variant = "columns" THEN c ELSE Half(Half(c, 1, 4), 2, 3)

Init == left = (IF Variant = "few" THEN 1 ELSE Rounds) /\ tab = [s \in Seeds |-> Load(s)]
Step == left > 0 /\ left' = left - 1 /\ tab' = [s \in Seeds |-> Double(tab[s])]
Next == Step
Spec == Init /\ [][Next]_<<left, tab>> /\ WF_<<left, tab>>(Next)

Out == [s \in Seeds |-> LET i == Load(s) IN [k \in 1..4 |-> (tab[s][k] + i[k]) % 8]]
Flip(s, b) == IF Bit(s, b) = 1 THEN s - P2[b + 1] ELSE s + P2[b + 1]
Flips(out, b, k, j) == Cardinality({s \in Seeds : Bit(out[s][k], j) # Bit(out[Flip(s, b)][k], j)})
Diffuses == left = 0 =>
  \A out \in {Out} : \A b \in 0..8, k \in 1..4, j \in 0..2 :
     \A n \in {Flips(out, b, k, j)} : n >= Low /\ n <= 512 - Low
Ends == <>(left = 0)
=============================================================================
