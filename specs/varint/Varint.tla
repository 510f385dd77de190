------------------------------- MODULE Varint -------------------------------
(***************************************************************************)
(* Variable length integers.  A value of a W-bit type is its sequence of   *)
(* W bits, least significant first; an encoding is a sequence of groups,   *)
(* each [m |-> 1 iff another group follows, b |-> G bits].                 *)
(* (Bit sequences, because TLC's integers have 32 bits.)                   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Max(a, b) == IF a > b THEN a ELSE b
Groups(W, G) == (W + G - 1) \div G             \* longest encoding of the type
Zero(n) == [i \in 1..n |-> 0]
BitAt(v, i) == IF i <= Len(v) THEN v[i] ELSE 0

\* significant bits, and groups needed for them (at least one)
RECURSIVE Top(_, _)
Top(v, i) == IF i = 0 THEN 0 ELSE IF v[i] = 1 THEN i ELSE Top(v, i - 1)
Need(v, G) == Max(1, (Top(v, Len(v)) + G - 1) \div G)

\* the encoding: as many groups as needed, little end first
Enc(v, G) == LET n == Need(v, G) IN
  [j \in 1..n |-> [m |-> IF j < n THEN 1 ELSE 0, b |-> [i \in 1..G |-> BitAt(v, (j - 1) * G + i)]]]

\* signed types: zig-zag mapping of two's complement (0,-1,1,-2,.. -> 0,1,2,3,..)
ZigZag(v) == [i \in 1..Len(v) |-> IF i = 1 THEN v[Len(v)] ELSE (v[i - 1] + v[Len(v)]) % 2]
UnZigZag(z) == [i \in 1..Len(z) |-> IF i = Len(z) THEN z[1] ELSE (z[i + 1] + z[1]) % 2]

\* groups up to and including the first one without continuation; 0: none
RECURSIVE LastGroup(_, _)
LastGroup(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i].m = 0 THEN i ELSE LastGroup(s, i + 1)

\* decoding any sequence of groups for a W-bit type:
\* [ok, n: groups consumed, v: W bits]
Bad == [ok |-> FALSE, n |-> 0, v |-> <<>>]
Dec(s, W, G) ==
  LET n == LastGroup(s, 1) IN
  IF n = 0 \/ n > Groups(W, G) THEN Bad
  ELSE LET bits == [i \in 1..(n * G) |-> s[((i - 1) \div G) + 1].b[((i - 1) % G) + 1]] IN
       IF \E i \in (W + 1)..(n * G) : bits[i] = 1 THEN Bad
       ELSE [ok |-> TRUE, n |-> n, v |-> [i \in 1..W |-> BitAt(bits, i)]]
=============================================================================
