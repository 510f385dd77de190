----------------------------- MODULE VarintLaws -----------------------------
(***************************************************************************)
(* The laws of the encoding, checked for every value and every string of a *)
(* scaled-down type (W bits, groups of G), and the decoder as the code     *)
(* runs it: a loop over the input with an accumulator.  The loop is a      *)
(* state machine; when it ends its answer must be Dec's.  Bug selects      *)
(* wrong loops TLC must refute:                                            *)
(*   "late"  bounds checked after the group was read                       *)
(*   "trunc" bits beyond W silently dropped                                *)
(*   "peek"  overflow decided by the group that follows the number         *)
(*   "short" one group less accepted                                       *)
(***************************************************************************)
EXTENDS Varint, TLC

CONSTANTS W, G, MaxLen, Bug

Values == [1..W -> {0, 1}]
GroupSet == [m : {0, 1}, b : [1..G -> {0, 1}]]

RoundTrip == \A v \in Values : \A tail \in {<<>>} \cup {<<g>> : g \in GroupSet} :
               LET d == Dec(Enc(v, G) \o tail, W, G) IN d.ok /\ d.v = v /\ d.n = Len(Enc(v, G))
SignedRoundTrip == \A v \in Values : UnZigZag(ZigZag(v)) = v /\ ZigZag(UnZigZag(v)) = v
\* two's complement value, and the documented mapping n -> 2n, -n -> 2n-1
RECURSIVE Nat2(_, _)
Nat2(v, i) == IF i > Len(v) THEN 0 ELSE v[i] * 2^(i - 1) + Nat2(v, i + 1)
Int2(v) == IF v[Len(v)] = 1 THEN Nat2(v, 1) - 2^Len(v) ELSE Nat2(v, 1)
ZigZagDoc == \A v \in Values : LET n == Int2(v) IN Nat2(ZigZag(v), 1) = IF n >= 0 THEN 2 * n ELSE -2 * n - 1
Minimal == \A v \in Values : LET e == Enc(v, G) IN
             /\ Len(e) <= Groups(W, G)
             /\ Len(e) > 1 => \E i \in 1..G : e[Len(e)].b[i] = 1
             /\ Len(e) = 1 <=> Nat2(v, 1) < 2^G
PrefixFree == \A v, w \in Values : v # w => ~(Len(Enc(v, G)) <= Len(Enc(w, G)) /\ SubSeq(Enc(w, G), 1, Len(Enc(v, G))) = Enc(v, G))
ASSUME RoundTrip /\ SignedRoundTrip /\ ZigZagDoc /\ Minimal /\ (W < 7 => PrefixFree)

VARIABLES src, off, acc, pc, reads
vars == <<src, off, acc, pc, reads>>

Strings == UNION {[1..n -> GroupSet] : n \in 0..MaxLen}
Init == src \in Strings /\ off = 0 /\ acc = Zero(W) /\ pc = (IF src = <<>> THEN "err" ELSE "loop") /\ reads = 0

GroupAt(i) == IF i <= Len(src) THEN src[i] ELSE [m |-> 0, b |-> Zero(G)]
Limit == IF Bug = "short" THEN Groups(W, G) - 1 ELSE Groups(W, G)

Loop ==
  /\ pc = "loop"
  /\ LET late == Bug = "late"
         g == GroupAt(off + 1)
         hit == off >= Len(src) \/ off >= Limit
         over == \E i \in 1..G : off * G + i > W /\ g.b[i] = 1
         nov == IF Bug = "trunc" THEN FALSE
                ELSE IF Bug = "peek" THEN off + 1 = Limit /\ \E i \in 1..G : GroupAt(off + 2).b[i] = 1
                ELSE over
         add == [i \in 1..W |-> IF i > off * G /\ i <= (off + 1) * G THEN g.b[i - off * G] ELSE acc[i]] IN
     IF hit /\ ~late THEN pc' = "err" /\ UNCHANGED <<off, acc, reads>>
     ELSE /\ reads' = Max(reads, off + 1)
          /\ IF nov THEN pc' = "err" /\ UNCHANGED <<off, acc>>
             ELSE /\ acc' = add /\ off' = off + 1
                  /\ pc' = IF late /\ (off + 1 > Len(src) \/ off + 1 > Limit) THEN "err"
                           ELSE IF g.m = 1 THEN "loop" ELSE "ok"
  /\ UNCHANGED src
Next == Loop \/ (pc \in {"ok", "err"} /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Agrees == LET d == Dec(src, W, G) IN
          /\ pc = "ok" => d.ok /\ d.n = off /\ d.v = acc
          /\ pc = "err" => ~d.ok
          /\ reads <= Len(src)
=============================================================================
