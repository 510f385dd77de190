------------------------------ MODULE ChaCha ------------------------------
(* The ChaCha20 block function (RFC 8439, 2.1 - 2.3) on 32-bit words, each *)
(* as <<high half, low half>>; keys and blocks as sequences of bytes.      *)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise

Add32(a, b) == LET lo == a[2] + b[2]
               IN <<(a[1] + b[1] + (lo \div 65536)) % 65536, lo % 65536>>
Xor32(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
Two == <<2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768>>
Rotl32(a, k) == IF k = 16 THEN <<a[2], a[1]>>
                ELSE <<((a[1] * Two[k]) % 65536) + (a[2] \div Two[16 - k]), ((a[2] * Two[k]) % 65536) + (a[1] \div Two[16 - k])>>

Quarter(x, q) ==
  LET a1 == Add32(x[q[1]], x[q[2]])  d1 == Rotl32(Xor32(x[q[4]], a1), 16)
      c1 == Add32(x[q[3]], d1)       b1 == Rotl32(Xor32(x[q[2]], c1), 12)
      a2 == Add32(a1, b1)            d2 == Rotl32(Xor32(d1, a2), 8)
      c2 == Add32(c1, d2)            b2 == Rotl32(Xor32(b1, c2), 7)
  IN [x EXCEPT ![q[1]] = a2, ![q[2]] = b2, ![q[3]] = c2, ![q[4]] = d2]
DoubleRound == <<<<1, 5, 9, 13>>, <<2, 6, 10, 14>>, <<3, 7, 11, 15>>, <<4, 8, 12, 16>>,
                 <<1, 6, 11, 16>>, <<2, 7, 12, 13>>, <<3, 8, 9, 14>>, <<4, 5, 10, 15>>>>
Quarters == [i \in 1..80 |-> DoubleRound[((i - 1) % 8) + 1]]

Le32(s, i) == <<s[i + 2] + (256 * s[i + 3]), s[i] + (256 * s[i + 1])>>      \* bytes i..i+3
Bytes32(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
Sigma == <<<<24944, 30821>>, <<13088, 25710>>, <<31074, 11570>>, <<27424, 25972>>>>   \* "expand 32-byte k"
(* k: 32 bytes of key, 12 of nonce; c: block counter below 2^16 *)
Start(k, c) == Sigma \o [i \in 1..8 |-> Le32(k, (4 * i) - 3)] \o <<<<0, c>>>> \o [i \in 1..3 |-> Le32(k, 29 + (4 * i))]
Block(k, c) ==
  LET s == Start(k, c)
      x == FoldLeft(Quarter, s, Quarters)
      w == [i \in 1..16 |-> Bytes32(Add32(x[i], s[i]))]
  IN [j \in 1..64 |-> w[((j - 1) \div 4) + 1][((j - 1) % 4) + 1]]

(* the example of RFC 8439, 2.3.2 *)
ASSUME Block([i \in 1..32 |-> i - 1] \o <<0, 0, 0, 9, 0, 0, 0, 74, 0, 0, 0, 0>>, 1) =
  << 16, 241, 231, 228, 209, 59, 89, 21, 80, 15, 221, 31, 163, 32, 113, 196, 199, 209, 244, 199, 51, 192, 104, 3, 4, 34, 170, 154, 195, 212, 108, 78,
     210, 130, 100, 70, 7, 159, 170, 9, 20, 194, 215, 5, 217, 139, 2, 162, 181, 18, 156, 209, 222, 22, 78, 185, 203, 208, 131, 232, 162, 80, 60, 78 >>
=============================================================================
