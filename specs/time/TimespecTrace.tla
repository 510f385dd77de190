--------------------------- MODULE TimespecTrace ----------------------------
(***************************************************************************)
(* Judges recorded calls of the timespec and conversion functions.  A      *)
(* timespec is [s, n], a wide integer a Big.  nul: bit mask of arguments   *)
(* given as NULL; w: whether the output was written.                       *)
(***************************************************************************)
EXTENDS Timespec, RecKit

EINVAL == -22
Bits63 == [neg |-> FALSE, m |-> <<808, 775, 854, 36, 372, 223, 9>>]      \* 2^63
Bits64 == [neg |-> FALSE, m |-> <<616, 551, 709, 73, 744, 446, 18>>]     \* 2^64
Bits32 == [neg |-> FALSE, m |-> <<296, 967, 294, 4>>]                    \* 2^32
FitsI64(x) == Le(Neg(Bits63), x) /\ Lt(x, Bits63)
FitsU64(x) == ~x.neg /\ Lt(x, Bits64)
FitsU32(x) == ~x.neg /\ Lt(x, Bits32)
FitsTs(t) == FitsI64(t.s)

GoodDiff(r) ==
  IF r.nul # 0 \/ Compare(r.b, r.a) < 0 THEN r.ret = EINVAL
  ELSE LET e == Diff(r.a, r.b) IN FitsTs(e) => r.ret = 0 /\ r.r = e

GoodDiffUs(r) ==        \* nul: 1 t1, 2 t2, 4 duration, 8 sign
  IF (r.nul % 8) # 0 THEN r.ret = EINVAL
  ELSE LET u == DiffUnits(r.a, r.b, 1)
           c == Compare(r.a, r.b) IN
       (FitsU64(u) /\ FitsTs(Split(Abs(Sub(Ns(r.a), Ns(r.b))))))
         => /\ r.ret = 0 /\ r.v = u
            /\ (r.nul < 8 /\ c # 0) => r.sign = c

GoodRange(r) ==         \* nul: 1 t1, 2 t2, 4 output
  IF (r.nul % 4) # 0 THEN r.ret = 0
  ELSE LET u == DiffUnits(r.a, r.b, 1) IN
       (FitsU64(u) /\ FitsTs(Split(Abs(Sub(Ns(r.a), Ns(r.b))))))
         => /\ r.ret = (IF r.a = r.b \/ Lt(u, r.range) THEN 1 ELSE 0)
            /\ r.nul = 0 => (r.w = 1 /\ r.v = u)

GoodCmp(r) == r.ret = (IF r.nul # 0 THEN 0 ELSE Compare(r.a, r.b))

GoodAdd(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL
  ELSE LET e == AddUnits(r.a, r.d, r.u) IN FitsTs(e) => r.ret = 0 /\ r.r = e

GoodTo(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL /\ r.w = 0
  ELSE LET e == ToUnits(r.a, r.u) IN FitsU64(e) => r.ret = 0 /\ r.v = e
GoodFrom(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL /\ r.w = 0
  ELSE LET e == FromUnits(r.v, r.u) IN FitsTs(e) => r.ret = 0 /\ r.r = e

\* a timeval is [s, n] with n in microseconds
GoodTv(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL /\ r.w = 0
  ELSE r.ret = 0 /\ r.r = [s |-> r.a.s, n |-> Shl(r.a.n, 1)]
GoodTvMs(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL /\ r.w = 0
  ELSE LET e == Trunc(Add(Shl(r.a.s, 2), r.a.n), 1) IN FitsU32(e) => r.ret = 0 /\ r.v = e

Good(r) ==
  CASE r.k = "diff" -> GoodDiff(r)
    [] r.k = "diffus" -> GoodDiffUs(r)
    [] r.k = "range" -> GoodRange(r)
    [] r.k = "cmp" -> GoodCmp(r)
    [] r.k = "add" -> GoodAdd(r)
    [] r.k = "to" -> GoodTo(r)
    [] r.k = "from" -> GoodFrom(r)
    [] r.k = "tv" -> GoodTv(r)
    [] r.k = "tvms" -> GoodTvMs(r)

ASSUME B = 1000
ASSUME JudgeAll(Good)
=============================================================================
