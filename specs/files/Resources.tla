----------------------------- MODULE Resources -----------------------------
(* An object's life: a constructor acquires descriptors and memory one by  *)
(* one, any acquisition may fail; then what it has is given back.  Kept    *)
(* descriptors are close-on-exec whenever a call has returned.             *)
(* Variants are mistakes TLC must refute.                                  *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Plan, Variant
(* Plan: the sequence of acquisitions, "m" memory or "f" descriptor *)
VARIABLES pc, i, held, marked, alive
vars == <<pc, i, held, marked, alive>>
Init == pc = "idle" /\ i = 1 /\ held = {} /\ marked = {} /\ alive = FALSE
Begin == pc = "idle" /\ ~alive /\ pc' = "build" /\ i' = 1 /\ UNCHANGED <<held, marked, alive>>
Got == pc = "build" /\ i <= Len(Plan) /\ held' = held \cup {i} /\ i' = i + 1
       /\ UNCHANGED <<pc, marked, alive>>
Mark == pc = "build" /\ \E k \in held : Plan[k] = "f" /\ k \notin marked /\ marked' = marked \cup {k} /\ UNCHANGED <<pc, i, held, alive>>
Refused == pc = "build" /\ i <= Len(Plan) /\ pc' = "undo" /\ UNCHANGED <<i, held, marked, alive>>
Kept == CASE Variant = "forget_first" -> {k \in held : k = 1} [] Variant = "forget_last" -> {k \in held : k = i - 1} [] OTHER -> {}
Undo == pc = "undo" /\ held' = Kept /\ marked' = marked \cap Kept /\ pc' = "idle" /\ UNCHANGED <<i, alive>>
Ready == pc = "build" /\ i > Len(Plan)
         /\ (Variant = "unmarked" \/ \A k \in held : Plan[k] = "f" => k \in marked)
         /\ pc' = "idle" /\ alive' = TRUE /\ UNCHANGED <<i, held, marked>>
Destroy == pc = "idle" /\ alive /\ alive' = FALSE
           /\ held' = (IF Variant = "half" THEN {k \in held : k = Len(Plan)} ELSE {}) /\ marked' = {} /\ UNCHANGED <<pc, i>>
Next == Begin \/ Got \/ Mark \/ Refused \/ Undo \/ Ready \/ Destroy
Spec == Init /\ [][Next]_vars
Balanced == pc = "idle" /\ ~alive => held = {}
Whole == pc = "idle" /\ alive => held = 1..Len(Plan)
CloseOnExec == pc = "idle" => \A k \in held : Plan[k] = "f" => k \in marked
=============================================================================
