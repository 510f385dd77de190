------------------------------ MODULE TraceKit ------------------------------
(***************************************************************************)
(* Shared parts of the trace specifications.  IOEnv.TRACE names an ndjson  *)
(* file with one recorded history per line: [ev |-> <<event, ...>>, ...].  *)
(* A trace specification explores the behaviours of its base specification *)
(* that explain history h up to event l-1 and registers the furthest l it  *)
(* reached; a history is accepted iff all of its events were consumed.     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, TLC, Json, IOUtils

Hists == ndJsonDeserialize(IOEnv.TRACE)
NH == Len(Hists)

Has(r, f) == f \in DOMAIN r
Opt(r, f, d) == IF f \in DOMAIN r THEN r[f] ELSE d

ASSUME \A i \in 1..NH : TLCSet(i, 1)

\* to be conjoined to every step that consumes an event (needs -workers 1)
Reached(h, l) == IF TLCGet(h) < l THEN TLCSet(h, l) ELSE TRUE

\* POSTCONDITION: print the rejected histories and how far they were explained
Report ==
  /\ \A i \in 1..NH :
       IF TLCGet(i) > Len(Hists[i].ev) THEN TRUE
       ELSE PrintT("BAD" \o ToJson([h |-> i, at |-> TLCGet(i), len |-> Len(Hists[i].ev),
                                    hist |-> Hists[i]]))
  /\ PrintT("DONE" \o ToJson([n |-> NH]))
=============================================================================
