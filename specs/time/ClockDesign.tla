---------------------------- MODULE ClockDesign -----------------------------
(***************************************************************************)
(* A process that translates monotonic timestamps to real time and sleeps  *)
(* while time passes and signals arrive.  Time is a small integer in fine  *)
(* units ("ns"), readings are truncated to coarse units ("us", U fine).    *)
(*                                                                         *)
(* Translation: read mono, read real, read mono; result =                  *)
(* real - (avg(mono) - mt), in coarse units, modulo M (unsigned).          *)
(* Variants: "clamp" treats a timestamp in  *)
(* the future as now, "abs" uses the absolute distance.                    *)
(* Sleep: sleeps for what is left until nothing is left; variants "eintr"  *)
(* returns success on a signal, "again" restarts the whole sleep without   *)
(* bound, "stale" subtracts the slept time from the request twice.         *)
(***************************************************************************)
EXTENDS Naturals, Integers
CONSTANTS U, TMax, Off0, Req, Sig, Bug
VARIABLES now, pc, mt, m1, r1, m2, t0, res, left, sig, slept

Off == Off0 - 10                          \* realtime - monotonic
vars == <<now, pc, mt, m1, r1, m2, t0, res, left, sig, slept>>
M == 4096                                 \* unsigned range in coarse units
Us(x) == x \div U
Real(t) == t + Off

Init == /\ now \in 0..U /\ mt \in 0..((2 * TMax) \div U) /\ pc = "idle"
        /\ m1 = 0 /\ r1 = 0 /\ m2 = 0 /\ t0 = 0 /\ res = 0
        /\ left = 0 /\ sig = Sig /\ slept = 0

Tick == now < TMax /\ now' = now + 1
        /\ UNCHANGED <<pc, mt, m1, r1, m2, t0, res, left, sig, slept>>
Same == UNCHANGED <<now, mt, left, sig, slept>>

Begin == pc = "idle" /\ pc' = "a" /\ t0' = now /\ Same /\ UNCHANGED <<m1, r1, m2, res>>
A == pc = "a" /\ pc' = "b" /\ m1' = now /\ Same /\ UNCHANGED <<t0, r1, m2, res>>
Bb == pc = "b" /\ pc' = "c" /\ r1' = Real(now) /\ Same /\ UNCHANGED <<t0, m1, m2, res>>
C == pc = "c" /\ pc' = "d" /\ m2' = now /\ Same /\ UNCHANGED <<t0, m1, r1, res>>
Avg == (Us(m1) + Us(m2) + 1) \div 2
Dist == IF Bug = "clamp" /\ mt > Avg THEN 0
        ELSE IF Bug = "abs" /\ mt > Avg THEN mt - Avg
        ELSE (Avg - mt + M) % M
D == pc = "d" /\ pc' = "done" /\ res' = (Us(r1) - Dist + 2 * M) % M /\ Same /\ UNCHANGED <<t0, m1, r1, m2>>

\* --- sleeping: the kernel sleeps at least what it is asked for unless a signal comes
SBegin == pc = "idle" /\ pc' = "sleep" /\ left' = Req /\ slept' = 0 /\ t0' = now
          /\ UNCHANGED <<now, mt, m1, r1, m2, res, sig>>
SSig == /\ pc = "sleep" /\ sig > 0 /\ sig' = sig - 1 /\ now < TMax
        /\ \E d \in 0..(left - 1) :
             /\ left > 0 /\ now' = now + d
             /\ slept' = slept + d
             /\ CASE Bug = "eintr" -> pc' = "slept" /\ left' = left
                  [] Bug = "again" -> pc' = pc /\ left' = Req
                  [] Bug = "stale" -> pc' = pc /\ left' = (IF left - 2 * d > 0 THEN left - 2 * d ELSE 0)
                  [] OTHER -> pc' = pc /\ left' = left - d
        /\ UNCHANGED <<mt, m1, r1, m2, t0, res>>
SEnd == pc = "sleep" /\ pc' = "slept" /\ now' = now + left /\ slept' = slept + left /\ left' = 0
        /\ UNCHANGED <<mt, m1, r1, m2, t0, res, sig>>
Next == Tick \/ Begin \/ A \/ Bb \/ C \/ D \/ SBegin \/ SSig \/ SEnd
        \/ (pc \in {"done", "slept"} /\ UNCHANGED vars)
        \/ (pc \in {"a", "b", "c", "d", "idle"} /\ now = TMax /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

\* exact answer in fine units: mt * U + Off; error at most the duration of
\* the call plus two coarse units
Within == pc = "done" /\ mt * U + Off >= 2 * U + (m2 - t0) =>
            LET err == res * U - (mt * U + Off) IN
            err <= (m2 - t0) + 2 * U /\ err >= -((m2 - t0) + 2 * U)
Slept == pc = "slept" => slept >= Req
NotLong == pc = "slept" => slept <= Req + Sig
=============================================================================
