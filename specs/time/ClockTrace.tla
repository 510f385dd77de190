----------------------------- MODULE ClockTrace -----------------------------
(***************************************************************************)
(* Judges calls of the clock functions made in a virtual world: mb and me  *)
(* are the monotonic time at the beginning and the end of the call, off    *)
(* the (constant) distance realtime - monotonic, failed/err whether and    *)
(* with which errno a clock or sleep call was made to fail.                *)
(***************************************************************************)
EXTENDS Timespec, RecKit, Calendar

EINVAL == -22
EINTR == 4
Bits64 == [neg |-> FALSE, m |-> <<616, 551, 709, 73, 744, 446, 18>>]     \* 2^64
FitsU64(x) == ~x.neg /\ Lt(x, Bits64)
Us == Shl(Of(1), 1)
Ms == Shl(Of(1), 2)
Elapsed(r) == Sub(Ns(r.me), Ns(r.mb))

GoodGet(r) ==
  IF r.failed = 1 THEN r.ret = -r.err
  ELSE /\ r.ret = 0 /\ Normal(r.r)
       /\ LET o == IF r.rt = 1 THEN Ns(r.off) ELSE Zero IN
          Between(Add(Ns(r.mb), o), Ns(r.r), Add(Ns(r.me), o))

GoodDiffNow(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL
  ELSE IF r.failed = 1 THEN r.ret = -r.err
  ELSE IF Lt(Ns(r.me), Ns(r.a)) THEN r.ret = EINVAL
  ELSE IF r.ret = 0
       THEN Normal(r.r) /\ Between(Ns(r.mb), Add(Ns(r.a), Ns(r.r)), Ns(r.me))
       ELSE r.ret = EINVAL /\ Lt(Ns(r.mb), Ns(r.a))

GoodM2R(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL
  ELSE IF r.failed = 1 THEN r.ret = -r.err /\ r.w = 0
  ELSE LET u == IF r.ms = 1 THEN 2 ELSE 1
           exact == Add(Shl(r.mt, u), Ns(r.off))
           slack == Add(Elapsed(r), IF r.ms = 1 THEN Add(Ms, Shl(Of(2), 1)) ELSE Shl(Of(2), 1)) IN
       (FitsU64(Shl(r.mt, u - 1)) /\ ~Sub(exact, slack).neg /\ FitsU64(Trunc(Add(exact, slack), 1)))
         => /\ r.ret = 0
            /\ Between(Sub(exact, slack), Shl(r.r, u), Add(exact, slack))

GoodSleep(r) ==
  IF r.failed = 1 /\ r.err # EINTR THEN r.ret = -r.err
  ELSE /\ r.ret = 0
       /\ Between(Shl(r.ms, 2), Elapsed(r), Add(Shl(r.ms, 2), Shl(Of(r.nint + 1), 2)))

(* A zone: its usual offset, and with dst the other one between two days   *)
(* of the year (the POSIX form Jn: no 29 February), from 0:00 by the       *)
(* usual clock to 0:00 by the other one.                                   *)
JDay(y, n) == Before(y) - Epoch + n - 1 + (IF Leap(y) /\ n >= 60 THEN 1 ELSE 0)
OffsetAt(z, e) ==
  IF ~z.dst THEN z.std
  ELSE LET s == ToInt(e)
           y == YearOf((s + z.std) \div 86400)
           on == JDay(y, z.j1) * 86400 - z.std
           off == JDay(y, z.j2) * 86400 - z.alt
           in == IF z.j1 < z.j2 THEN on <= s /\ s < off ELSE ~(off <= s /\ s < on)
       IN IF in THEN z.alt ELSE z.std

\* nul: 1 seconds, 2 milliseconds, 4 offset
Nul(r, b) == (r.nul \div b) % 2 = 1
GoodLocal(r) ==
  IF Nul(r, 1) /\ Nul(r, 4) THEN r.ret = EINVAL
  ELSE IF r.failed = 1 THEN r.ret = -r.err
  ELSE LET lo == Split(Add(Ns(r.mb), Ns(r.off)))
           hi == Split(Add(Ns(r.me), Ns(r.off))) IN
       /\ r.ret = 0
       /\ ~Nul(r, 1) => Between(lo.s, r.e, hi.s)
       /\ (r.what = 1 /\ ~Nul(r, 2)) =>
             IF ~Nul(r, 1) THEN Between(Trunc(Add(Shl(lo.s, 3), lo.n), 2), Add(Shl(r.e, 1), Of(r.ms)),
                                        Trunc(Add(Shl(hi.s, 3), hi.n), 2))
             ELSE r.ms \in 0..999
       /\ ~Nul(r, 4) => IF ~Nul(r, 1) THEN r.o = OffsetAt(r.tz, r.e)
                         ELSE r.o \in {OffsetAt(r.tz, lo.s), OffsetAt(r.tz, hi.s)}

\* the clock is set once, to exactly the given second
GoodSet(r) == /\ r.ret = -r.err
              /\ r.calls = 1
              /\ r.tv.s = r.e /\ r.tv.n = Zero

(* With a property store (libputils): the offset is saved with the time    *)
(* and read back, 0 before; a failure of either step is reported, the      *)
(* clock's first.  A simulator may fix the distance realtime - monotonic.  *)
RECURSIVE PropsFrom(_, _, _)
PropsFrom(ev, i, cur) ==
  IF i > Len(ev) THEN TRUE
  ELSE LET e == ev[i] IN
       /\ e.ret = (IF e.err # 0 THEN -e.err ELSE -e.perr)
       /\ e.calls = 1 /\ e.ret2 = 0
       /\ e.o = cur \/ (e.o = e.off /\ e.perr = 0)
       /\ (e.err = 0 /\ e.perr = 0) => e.o = e.off
       /\ PropsFrom(ev, i + 1, e.o)
GoodProps(r) == PropsFrom(r.ev, 1, 0)

Minus == 45
Numeral(t) == LET d == IF t[1] = Minus THEN Tail(t) ELSE t IN d # <<>> /\ \A i \in 1..Len(d) : d[i] \in 48..57
RECURSIVE Groups(_)
Groups(d) == LET n == Len(d)
                 v(i) == d[i] - 48 IN
             CASE n = 0 -> <<>>
               [] n = 1 -> <<v(1)>>
               [] n = 2 -> <<v(1) * 10 + v(2)>>
               [] n >= 3 -> <<v(n - 2) * 100 + v(n - 1) * 10 + v(n)>> \o Groups(SubSeq(d, 1, n - 3))
Denoted(t) == IF t[1] = Minus THEN Norm([neg |-> TRUE, m |-> Groups(Tail(t))]) ELSE Norm([neg |-> FALSE, m |-> Groups(t)])
Bits63 == [neg |-> FALSE, m |-> <<808, 775, 854, 36, 372, 223, 9>>]       \* 2^63
FitsI64(x) == Lt(x, Bits63) /\ Le(Neg(Bits63), x)
GoodSim(r) ==
  IF r.txt = <<>> THEN GoodM2R(r)
  ELSE LET v == Denoted(r.txt)
           u == IF r.ms = 1 THEN 1 ELSE 0
           exact == Add(Shl(r.mt, u), v) IN
       /\ Assert(Numeral(r.txt), "not a number")
       /\ IF ~FitsI64(v) THEN r.ret < 0 /\ r.w = 0
          ELSE /\ r.ret = 0
               /\ (FitsU64(Shl(r.mt, u)) /\ ~exact.neg /\ FitsU64(exact)) =>
                    IF r.ms = 0 THEN r.r = exact ELSE Between(Sub(exact, Shl(Of(1), 1)), Shl(r.r, 1), Add(exact, Shl(Of(1), 1)))

Good(r) ==
  CASE r.k = "props" -> GoodProps(r)
    [] r.k = "m2rsim" -> GoodSim([nul |-> 0] @@ r)
    [] r.k = "get" -> GoodGet(r)
    [] r.k = "diffnow" -> GoodDiffNow(r)
    [] r.k = "m2r" -> GoodM2R(r)
    [] r.k = "sleep" -> GoodSleep(r)
    [] r.k = "local" -> GoodLocal(r)
    [] r.k = "setlocal" -> GoodSet(r)

ASSUME B = 1000
ASSUME JudgeAll(Good)
=============================================================================
