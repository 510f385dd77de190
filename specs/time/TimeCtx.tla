------------------------------ MODULE TimeCtx -------------------------------
(***************************************************************************)
(* The two-step protocol: a date and an hour arrive as separate texts in   *)
(* any order (or both as one text); the local time is known once both are. *)
(* date and hour hold the accepted values, None before.                    *)
(* Texts of forms that need not be accepted (gray) may be refused or       *)
(* accepted with their meaning; the answer decides.                        *)
(***************************************************************************)
EXTENDS TimeText
VARIABLES date, hour

EINVAL == -22  EEXIST == -17  EINPROGRESS == -115
None == [none |-> TRUE]
IsNone(x) == "none" \in DOMAIN x
Known(d, h) == ~IsNone(d) /\ ~IsNone(h)
Answer(d, h) == IF Known(d, h) THEN 0 ELSE EINPROGRESS
Refusal(ret) == ret < 0 /\ ret # EEXIST /\ ret # EINPROGRESS

Init == date = None /\ hour = None
Reset == date' = None /\ hour' = None
Keep == UNCHANGED <<date, hour>>

SetDate(s, ret) ==
  LET v == IsoDate(s) IN
  IF ~IsNone(date) THEN ret = EEXIST /\ Keep
  ELSE \/ v.ok /\ date' = [day |-> v.day] /\ hour' = hour /\ ret = Answer(date', hour)
       \/ ~(v.ok /\ v.core) /\ Refusal(ret) /\ Keep
SetHour(s, ret) ==
  LET v == HourOf(s) IN
  IF ~IsNone(hour) THEN ret = EEXIST /\ Keep
  ELSE \/ v.ok /\ hour' = [sec |-> v.sec, off |-> v.off] /\ date' = date /\ ret = Answer(date, hour')
       \/ ~(v.ok /\ v.core) /\ Refusal(ret) /\ Keep
SetTime(s, ret) ==
  LET v == DateTime(s) IN
  IF ~(IsNone(date) /\ IsNone(hour)) THEN ret = EEXIST /\ Keep
  ELSE \/ v.ok /\ ret = 0
          /\ LET l == Shift(v.t, v.off) IN date' = [day |-> l.day] /\ hour' = [sec |-> l.sod, off |-> v.off]
       \/ ~(v.ok /\ v.core) /\ Refusal(ret) /\ Keep
Instant == Shift([day |-> date.day, sod |-> 0], hour.sec - hour.off)
\* before 1970 there is no representation: refused or modulo 2^64
GetLocal(ret, w, t, off) ==
  /\ Keep
  /\ IF ~Known(date, hour) THEN ret = EINPROGRESS /\ w = 0
     ELSE \/ ret = 0 /\ t = Instant /\ off = hour.off
          \/ ret < 0 /\ w = 0 /\ Instant.day < 0
=============================================================================
