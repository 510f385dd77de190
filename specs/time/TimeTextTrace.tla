--------------------------- MODULE TimeTextTrace ----------------------------
(***************************************************************************)
(* Judges recorded calls of the calendar and text functions.               *)
(***************************************************************************)
EXTENDS TimeText, RecKit

EINVAL == -22
MaxDay == DaysOf(9999, 12, 31)

GoodFmt(r) ==
  IF r.nul = 1 \/ r.n = 0 \/ r.fmt \notin 0..2 THEN r.ret = EINVAL /\ r.dirty = 0
  ELSE LET e == Render(r.t, r.off, r.fmt) IN
       /\ r.dirty = 0
       /\ IF r.n >= Len(e) + 1 THEN r.ret = 0 /\ r.s = e /\ r.term = 1
          ELSE r.ret < 0

\* before 1970 an instant has no representation of its own: it may be
\* refused, or be given modulo 2^64 (the driver shows it as negative)
Must(v) == v.core /\ v.t.day >= 0 /\ v.t.day <= MaxDay
GoodParse(r) ==
  IF r.nul # 0 THEN r.ret = EINVAL /\ r.w = 0
  ELSE LET v == DateTime(r.s) IN
       IF r.ret = 0 THEN v.ok /\ r.t = v.t /\ r.off = v.off
       ELSE r.ret < 0 /\ r.w = 0 /\ ~(v.ok /\ Must(v))

GoodTm(r) ==
  IF r.nul % 2 = 1 THEN r.ret = EINVAL
  ELSE LET l == Shift(r.t, r.off)
           c == Civil(l.day) IN
       /\ r.ret = 0
       /\ r.tm = [y |-> c.y - 1900, mo |-> c.m - 1, d |-> c.d, h |-> l.sod \div 3600, mi |-> (l.sod \div 60) % 60,
                  s |-> l.sod % 60, wd |-> c.wd, yd |-> c.yd, off |-> r.off]
       /\ r.keep = 1
       /\ IF (r.nul \div 2) % 2 = 1 \/ r.nul >= 12 THEN r.ret2 = EINVAL
          ELSE /\ r.ret2 = 0
               /\ (r.nul \div 4) % 2 = 0 => r.t2 = r.t
               /\ (r.nul \div 8) % 2 = 0 => r.off2 = r.off

Good(r) == CASE r.k = "fmt" -> GoodFmt(r)
             [] r.k = "parse" -> GoodParse(r)
             [] r.k = "totm" -> GoodTm(r)
ASSUME JudgeAll(Good)
=============================================================================
