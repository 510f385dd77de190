----------------------------- MODULE Utf8Trace -----------------------------
(* Judges calls of the real functions.                                     *)
(*  check:    [k |-> "c", by, mb, mw, nf, xf, forb, mf, ret]                   *)
(*  sanitize: [k |-> "s", by, size, nf, forb, repl, nul, mf, ret, out,     *)
(*             border]; out: the output area as far as the given size      *)
EXTENDS Utf8, RecKit
E2BIG == -7
EINVAL == -22
EPROTO == -71
\* the forbidden characters of a call (xf: the set the library offers)
Forbidden(r) == IF r.nf = 1 THEN {} ELSE IF r.xf = 1 THEN ExFat ELSE {r.forb[j] : j \in DOMAIN r.forb}
GoodCheck(r) ==
  IF r.nul = 1 THEN r.ret = EINVAL
  ELSE
  LET d == Decode(r.by)
      tooLong == r.mb > 0 /\ Len(r.by) + 1 > r.mb
      tooMany == r.mw > 0 /\ Len(d.cps) > r.mw
      F == Forbidden(r)
      forb == \E i \in DOMAIN d.cps : d.cps[i] \in F
      good == d.ok /\ ~tooLong /\ ~tooMany /\ ~forb
  IN IF r.mf = 1 /\ r.ret < 0 THEN TRUE
     ELSE /\ (r.ret = 0) = good
          /\ r.ret <= 0
          \* the documented codes, where only one applies
          /\ (d.ok /\ (tooLong \/ tooMany) /\ ~forb) => r.ret = E2BIG
          /\ (d.ok /\ ~(tooLong \/ tooMany) /\ forb) => r.ret = EPROTO
          /\ (d.ok /\ (tooLong \/ tooMany) /\ forb) => r.ret \in {E2BIG, EPROTO}
          /\ (~d.ok /\ ~tooLong) => r.ret # EPROTO
GoodSan(r) ==
  LET d == Decode(r.by)
      F == Forbidden(r)
      used == \E i \in DOMAIN d.cps : d.cps[i] \in F
      res == Replace(d.cps, F, r.repl)
      text == EncodeAll(Fit(res, r.size - 1))
  IN /\ r.border = 1
     /\ IF r.nul = 1 THEN r.ret = EINVAL
        ELSE IF r.size = 0 \/ ~d.ok THEN r.ret < 0
        ELSE IF r.mf = 1 /\ r.ret < 0 THEN TRUE
        ELSE IF r.size = 1 /\ r.ret < 0 THEN TRUE
        ELSE IF used /\ ~Scalar(r.repl) THEN
          \* it cannot be encoded: an error, unless the output ends before
          LET first == CHOOSE i \in DOMAIN d.cps : d.cps[i] \in F /\ \A j \in 1..(i - 1) : d.cps[j] \notin F
              before == EncodeAll(SubSeq(d.cps, 1, first - 1))
          IN r.ret < 0 \/ (Len(before) + 1 >= r.size - 4 /\ r.ret <= Len(before)
                           /\ SubSeq(r.out, 1, r.ret) = SubSeq(before, 1, r.ret) /\ r.out[r.ret + 1] = 0)
        ELSE /\ r.ret = Len(text)
             /\ SubSeq(r.out, 1, Len(text)) = text
             /\ r.out[Len(text) + 1] = 0
(* texts of any length: k copies of a well-formed one, then another        *)
(*  [k |-> "C", by, copies, tail, mb, mw, nf, xf, forb, ret]               *)
(*  [k |-> "S", by, copies, tail, size, nf, xf, forb, repl, ret, border,   *)
(*   first, times, rest, nul0]: the output, split into its first bytes (as *)
(*   many as one copy has), how often they are there, and what follows     *)
GoodLongCheck(r) ==
  LET d == Decode(r.by)
      dt == Decode(r.tail)
      len == r.copies * Len(r.by) + Len(r.tail)
      chars == r.copies * Len(d.cps) + Len(dt.cps)
      F == Forbidden(r)
      tooLong == r.mb > 0 /\ len + 1 > r.mb
      tooMany == r.mw > 0 /\ chars > r.mw
      forb == \E i \in DOMAIN (d.cps \o dt.cps) : (d.cps \o dt.cps)[i] \in F
  IN /\ d.ok
     /\ (r.ret = 0) = (dt.ok /\ ~tooLong /\ ~tooMany /\ ~forb)
     /\ r.ret <= 0
     /\ (dt.ok /\ (tooLong \/ tooMany) /\ ~forb) => r.ret = E2BIG
     /\ (dt.ok /\ ~(tooLong \/ tooMany) /\ forb) => r.ret = EPROTO
GoodLongSan(r) ==
  LET d == Decode(r.by)
      dt == Decode(r.tail)
      F == Forbidden(r)
      u == Replace(d.cps, F, r.repl)
      f == FitRep(u, r.copies, Replace(dt.cps, F, r.repl), r.size - 1)
      e == EncodeAll(u)
      rest == EncodeAll(f.rest)
  IN /\ d.ok /\ r.border = 1
     /\ IF ~dt.ok THEN r.ret < 0
        ELSE /\ r.ret = f.copies * Len(e) + Len(rest)
             /\ r.nul0 = 1
             /\ r.times = f.copies /\ (f.copies > 0 => r.first = e) /\ r.rest = rest
Good(r) == CASE r.k = "c" -> GoodCheck(r) [] r.k = "s" -> GoodSan(r) [] r.k = "C" -> GoodLongCheck(r) [] r.k = "S" -> GoodLongSan(r)
ASSUME JudgeAll(Good)
=============================================================================
