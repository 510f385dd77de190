----------------------------- MODULE MacroDesign -----------------------------
(***************************************************************************)
(* The expansion of the min/max macros as a machine over scaled-down types *)
(* (values -R..R, a narrow type of -N..N): evaluate the argument           *)
(* expressions (in either order, each with a side effect: it moves on to   *)
(* its next value), then choose.                                           *)
(*   "ok"    every argument into a temporary of its own type               *)
(*   "twice" the winner's expression is the result, evaluated again        *)
(*   "typea" both temporaries have the type of the first argument          *)
(*   "lazy"  the lower bound is not evaluated when the value is in range   *)
(*           above (bound only)                                            *)
(*   "cross" the lower bound's answer is given for the upper one           *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

CONSTANTS R, N, Variant, Op      \* Op: "min", "max", "bound"

Args == IF Op = "bound" THEN 1..3 ELSE 1..2
VARIABLES val, narrow, cnt, tmp, pc, res
vars == <<val, narrow, cnt, tmp, pc, res>>

Wrap(x) == IF x > N THEN x - 2 * N - 1 ELSE IF x < -N THEN x + 2 * N + 1 ELSE x
Init ==
  /\ val \in [Args -> -R..R]
  /\ narrow \in [Args -> BOOLEAN]
  /\ \A i \in Args : narrow[i] => val[i] \in -N..N
  /\ Op = "bound" => val[2] <= val[3]
  /\ cnt = [i \in Args |-> 0] /\ tmp = [i \in Args |-> 0] /\ pc = "eval" /\ res = 0

Narrowed(i) == IF Variant = "typea" THEN narrow[1] ELSE narrow[i]
Eval(i) ==
  /\ pc = "eval" /\ cnt[i] = 0
  /\ ~(Variant = "lazy" /\ i = 2)
  /\ cnt' = [cnt EXCEPT ![i] = 1]
  /\ tmp' = [tmp EXCEPT ![i] = IF Narrowed(i) THEN Wrap(val[i]) ELSE val[i]]
  /\ UNCHANGED <<val, narrow, pc, res>>
Pick == IF Op = "min" THEN (IF tmp[1] < tmp[2] THEN 1 ELSE 2)
        ELSE IF Op = "max" THEN (IF tmp[1] > tmp[2] THEN 1 ELSE 2)
        ELSE IF tmp[1] < tmp[2] THEN 2 ELSE IF tmp[1] > tmp[3] THEN 3 ELSE 1
Choose ==
  /\ pc = "eval" /\ \A i \in Args : cnt[i] = 1 \/ (Variant = "lazy" /\ i = 2)
  /\ LET p == IF Variant = "cross" /\ Pick = 3 THEN 2 ELSE Pick IN
     /\ cnt' = IF Variant = "twice" THEN [cnt EXCEPT ![p] = 2] ELSE cnt
     /\ res' = IF Variant = "twice" THEN val[p] + 1 ELSE tmp[p]
  /\ pc' = "done"
  /\ UNCHANGED <<val, narrow, tmp>>
Next == (\E i \in Args : Eval(i)) \/ Choose \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Want == IF Op = "min" THEN (IF val[1] < val[2] THEN val[1] ELSE val[2])
        ELSE IF Op = "max" THEN (IF val[1] > val[2] THEN val[1] ELSE val[2])
        ELSE IF val[1] < val[2] THEN val[2] ELSE IF val[1] > val[3] THEN val[3] ELSE val[1]
Once == pc = "done" => \A i \in Args : cnt[i] = 1
Right == pc = "done" => res = Want
=============================================================================
