----------------------------- MODULE WalkDesign -----------------------------
(***************************************************************************)
(* A walk as a loop over a list that its own body modifies: cursor pos and *)
(* (for the _safe walks) a saved successor tmp read BEFORE the body runs.  *)
(* Each step the body leaves the element, or takes it out (its links are   *)
(* then no longer meaningful).  Property: every element of the original    *)
(* list is visited exactly once, in order.  Variant "late" (tmp read after *)
(* the body) and "plain" (no tmp at all) must be refuted; so must "short"  *)
(* (stops when the successor is the end).                                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

CONSTANTS N, Variant

VARIABLES nxt, pos, tmp, seen, pc

End == 0
Lost == 99
vars == <<nxt, pos, tmp, seen, pc>>

\* nxt[0] is the head's link
Init == /\ nxt = [i \in 0..N |-> IF i = N THEN End ELSE i + 1]
        /\ pos = nxt[0] /\ tmp = IF pos = End THEN nxt[0] ELSE nxt[pos]
        /\ seen = <<>> /\ pc = "test"

Pred(n) == CHOOSE i \in 0..N : nxt[i] = n

Test == /\ pc = "test"
        /\ pc' = IF pos = End \/ (Variant = "short" /\ tmp = End /\ Len(seen) > 0) THEN "done"
                 ELSE IF pos = Lost THEN "crash" ELSE "body"
        /\ UNCHANGED <<nxt, pos, tmp, seen>>

Body == /\ pc = "body"
        /\ seen' = Append(seen, pos)
        /\ pc' = "step"
        /\ \/ UNCHANGED nxt
           \/ nxt' = [nxt EXCEPT ![Pred(pos)] = nxt[pos], ![pos] = Lost]
        /\ UNCHANGED <<pos, tmp>>

Step == /\ pc = "step"
        /\ LET p == IF Variant = "plain" \/ Variant = "late" THEN nxt[pos] ELSE tmp IN
           /\ pos' = p
           /\ tmp' = IF p = Lost THEN Lost ELSE nxt[p]
        /\ pc' = "test"
        /\ UNCHANGED <<nxt, seen>>

Next == Test \/ Body \/ Step \/ (pc = "done" /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars

Inv == /\ pc # "crash"
       /\ pc = "done" => seen = [i \in 1..N |-> i]
       /\ pc = "done" => \A i \in 0..N : nxt[i] # Lost => nxt[i] = End \/ nxt[nxt[i]] # Lost
=============================================================================
