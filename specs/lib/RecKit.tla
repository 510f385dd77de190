------------------------------- MODULE RecKit -------------------------------
(***************************************************************************)
(* Judging of independent recorded observations.  IOEnv.TRACE names an     *)
(* ndjson file with one record per line; a module that extends this one    *)
(* defines Good(r) and has ASSUME JudgeAll(Good).                          *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Recs == ndJsonDeserialize(IOEnv.TRACE)

Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

JudgeAll(Good(_)) ==
  LET R == Recs IN
  /\ \A i \in 1..Len(R) : IF Good(R[i]) THEN TRUE ELSE PrintT("BAD" \o ToJson([i |-> i]))
  /\ PrintT("DONE" \o ToJson([n |-> Len(R)]))
=============================================================================
