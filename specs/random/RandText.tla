----------------------------- MODULE RandText -----------------------------
(* Texts of random bytes: a byte has B bits, a character C bits (its index *)
(* in the alphabet).  Only the last character can lack bits (zero), the    *)
(* group is completed by padding.                                          *)
EXTENDS Integers, Sequences
CeilDiv(a, b) == (a \div b) + (IF a % b = 0 THEN 0 ELSE 1)
(* groups of gb bytes make gc characters (gb * B = gc * C) *)
DataChars(count, B, C) == CeilDiv(count * B, C)
LowZero(count, B, C) == DataChars(count, B, C) * C - count * B
FullLen(count, gb, gc) == CeilDiv(count, gb) * gc
(* class of position i (from 1): -1 padding, k >= 0: k low bits are zero *)
Class(i, count, B, C) ==
  LET d == DataChars(count, B, C) IN IF i > d THEN -1 ELSE IF i = d THEN LowZero(count, B, C) ELSE 0
=============================================================================
