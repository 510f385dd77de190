------------------------------ MODULE AbsQueue ------------------------------
(* The atomic queue the mailbox designs refine. *)
EXTENDS Naturals, Sequences
VARIABLE q
QInit == q = <<>>
QPush == \E i \in 1..9 : q' = Append(q, i)
QPop == q # <<>> /\ q' = Tail(q)
QSpec == QInit /\ [][QPush \/ QPop]_q
=============================================================================
