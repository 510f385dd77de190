----------------------------- MODULE TimedWait -----------------------------
(***************************************************************************)
(* A timed wait beside a system clock that may be set at any moment.  The  *)
(* waiter computes an absolute deadline with clock Reads and waits for it  *)
(* on clock Waits ("mono" or "wall"); spurious wake-ups make it wait again *)
(* for the same deadline (Restart: for the full timeout again).            *)
(***************************************************************************)
EXTENDS Integers

CONSTANTS T, Horizon, Steps, Reads, Waits, Restart

VARIABLES mono, off, pc, dl, start, spur
vars == <<mono, off, pc, dl, start, spur>>

Clock(c) == IF c = "mono" THEN mono ELSE mono + off
Init == mono = 0 /\ off = 10 /\ pc = "out" /\ dl = 0 /\ start = 0 /\ spur = 0
Due == pc = "wait" /\ Clock(Waits) >= dl
Tick == pc # "done" /\ mono < Horizon /\ ~Due /\ mono' = mono + 1 /\ UNCHANGED <<off, pc, dl, start, spur>>
Set == \E d \in Steps : off + d >= 0 /\ off + d <= 20 /\ off' = off + d /\ UNCHANGED <<mono, pc, dl, start, spur>>
Begin == pc = "out" /\ pc' = "read" /\ start' = mono /\ UNCHANGED <<mono, off, dl, spur>>
Read == pc = "read" /\ dl' = Clock(Reads) + T /\ pc' = "wait" /\ UNCHANGED <<mono, off, start, spur>>
Spurious == /\ pc = "wait" /\ spur < 2 /\ spur' = spur + 1
            /\ dl' = IF Restart THEN Clock(Reads) + T ELSE dl
            /\ UNCHANGED <<mono, off, pc, start>>
Fire == Due /\ pc' = "done" /\ UNCHANGED <<mono, off, dl, start, spur>>
\* reading the clock takes no time: the machine only counts the wait
Next == (pc # "read" /\ (Tick \/ Set \/ Begin)) \/ Read \/ Spurious \/ Fire \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

NotEarly == pc = "done" => mono - start >= T
NotLate == pc \in {"wait", "done"} => mono - start <= T
=============================================================================
