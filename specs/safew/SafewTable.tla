----------------------------- MODULE SafewTable -----------------------------
(***************************************************************************)
(* The documented meaning of the four files of a checksummed safe write:   *)
(* payload (P), payload.tmp (T), crc (C), crc.tmp (K).  A content is a     *)
(* token: "-" absent, "1"/"2" a complete version (or its checksum),        *)
(* anything else incomplete or foreign.                                    *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Versions == {"1", "2"}
Has4(x) == x # "-"
Valid(payload, crc) == payload \in Versions /\ crc = payload

\* the recovery table of safew.h: what the check has to answer in a state
\* st = <<P, T, C, K>>: "-" (erase all) or the version it has to keep
Designated(st) ==
  LET P == st[1] T == st[2] C == st[3] K == st[4] IN
  CASE ~Has4(K) /\ Has4(P) /\ Has4(C)              -> IF Valid(P, C) THEN P ELSE "-"
    [] ~Has4(K)                                    -> "-"
    [] Has4(P) /\ ~Has4(T) /\ ~Has4(C)             -> IF Valid(P, K) THEN P ELSE "-"
    [] Has4(T) /\ ~Has4(P) /\ ~Has4(C)             -> IF Valid(T, K) THEN T ELSE "-"
    [] Has4(P) /\ Has4(T) /\ ~Has4(C)              -> IF Valid(T, K) THEN T ELSE "-"
    [] Has4(P) /\ ~Has4(T) /\ Has4(C)              -> IF Valid(P, C) \/ Valid(P, K) THEN P ELSE "-"
    [] ~Has4(P) /\ Has4(T) /\ Has4(C)              -> IF Valid(T, K) THEN T ELSE "-"
    [] Has4(P) /\ Has4(T) /\ Has4(C)               -> IF Valid(T, K) THEN T
                                                      ELSE IF Valid(P, C) THEN P ELSE "-"
    [] OTHER                                       -> "-"

\* what the check leaves: version v, complete
Kept(v) == <<v, "-", v, "-">>
Nothing == <<"-", "-", "-", "-">>
Outcome(st) == IF Designated(st) = "-" THEN [ret |-> -1, fin |-> Nothing]
               ELSE [ret |-> 0, fin |-> Kept(Designated(st))]

\* versions that exist complete with their checksum, in any place
Surviving(st) == {v \in Versions : (st[1] = v \/ st[2] = v) /\ (st[3] = v \/ st[4] = v)}
=============================================================================
