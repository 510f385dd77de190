---------------------------- MODULE TimeCtxTrace ----------------------------
(* Histories of calls on one time context, explained by TimeCtx.            *)
EXTENDS TimeCtx, TraceKit
VARIABLES h, l
vars == <<date, hour, h, l>>

TInit == Init /\ h \in 1..NH /\ l = 1
Ev == Hists[h].ev[l]
Null == Ev.op \in {"i", "d", "h", "t", "k", "g", "j", "0", "1", "2"}
Step ==
  /\ l <= Len(Hists[h].ev)
  /\ l' = l + 1 /\ h' = h
  /\ \/ Ev.op = "I" /\ Ev.ret = 0 /\ Reset
     \/ Ev.op = "D" /\ SetDate(Ev.s, Ev.ret)
     \/ Ev.op = "H" /\ SetHour(Ev.s, Ev.ret)
     \/ Ev.op = "T" /\ SetTime(Ev.s, Ev.ret)
     \/ Ev.op = "G" /\ GetLocal(Ev.ret, Ev.w, Ev.t, Ev.off)
     \/ Null /\ Ev.ret = EINVAL /\ Ev.w = 0 /\ Keep
  /\ Reached(h, l + 1)
Spec == TInit /\ [][Step]_vars
=============================================================================
