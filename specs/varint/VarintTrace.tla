---------------------------- MODULE VarintTrace ----------------------------
(***************************************************************************)
(* Judges calls of the real functions (bytes = groups of 7 bits plus the   *)
(* continuation bit; values as little-endian bytes, two's complement).     *)
(*  write: [k |-> "w", w, sg, v, cap, nul, ret, n, by, dirty]              *)
(*    by: destination afterwards up to n; dirty: bytes changed beyond n    *)
(*    (or anything changed, when refused)                                  *)
(*  read:  [k |-> "r", w, sg, src, nul, ret, n, v]  (src = exactly the     *)
(*    bytes within the length given)                                       *)
(***************************************************************************)
EXTENDS Varint, RecKit

EINVAL == -22
G == 7
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(x, i) == (x \div P2[i]) % 2                    \* i in 1..8
Bits(by, W) == [i \in 1..W |-> Bit(by[((i - 1) \div 8) + 1], ((i - 1) % 8) + 1)]
GroupOf(x) == [m |-> x \div 128, b |-> [i \in 1..G |-> Bit(x, i)]]
RECURSIVE Sum(_, _)
Sum(b, i) == IF i = 0 THEN 0 ELSE b[i] * P2[i] + Sum(b, i - 1)
ByteOf(g) == g.m * 128 + Sum(g.b, G)

GoodWrite(r) ==
  IF r.nul = 1 \/ r.cap < Groups(r.w, G) THEN r.ret = EINVAL /\ r.dirty = 0
  ELSE LET v == Bits(r.v, r.w)
           e == Enc(IF r.sg = 1 THEN ZigZag(v) ELSE v, G) IN
       /\ r.ret = 0 /\ r.n = Len(e)
       /\ r.by = [j \in 1..Len(e) |-> ByteOf(e[j])]
       /\ r.dirty = 0

GoodRead(r) ==
  IF r.nul = 1 THEN r.ret = EINVAL
  ELSE LET d == Dec([j \in 1..Len(r.src) |-> GroupOf(r.src[j])], r.w, G) IN
       IF ~d.ok THEN r.ret < 0
       ELSE /\ r.ret = 0 /\ r.n = d.n
            /\ Bits(r.v, r.w) = (IF r.sg = 1 THEN UnZigZag(d.v) ELSE d.v)

Good(r) == IF r.k = "w" THEN GoodWrite(r) ELSE GoodRead(r)

ASSUME JudgeAll(Good)
=============================================================================
