----------------------------- MODULE TimedWaitMC -----------------------------
(* TimedWait with the system clock set back and forth. *)
EXTENDS TimedWait
StepSet == {-5, -1, 1, 4}
=============================================================================
