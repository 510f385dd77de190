----------------------------- MODULE PairTrace -----------------------------
(* Judges the distinct outcomes of a program of calls on separate objects: *)
(* got is what a call yielded there, alone what it yields in a process of  *)
(* its own (ended there with status s); a0, a1: the settings of the        *)
(* process before and after.                                               *)
EXTENDS Integers, Sequences, RecKit
Quiet(o) ==
  /\ o.st = 0 /\ o.end = 1
  /\ o.a0 = o.a1
  /\ \A i \in DOMAIN o.calls : o.calls[i].s = 0 /\ o.calls[i].got = o.calls[i].alone
Good(r) == Len(r.outs) > 0 /\ \A i \in DOMAIN r.outs : Quiet(r.outs[i])
ASSUME JudgeAll(Good)
=============================================================================
