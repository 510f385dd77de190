------------------------------ MODULE Seeding ------------------------------
(* Design of the generator's seeding.  A key of K cells, each filled by a  *)
(* piece of entropy (numbered by the fetch that got it).  A caller asks    *)
(* for output and reseeds; the source answers with pieces, interruptions   *)
(* or a failure.  Output is produced with the key of the last seeding that *)
(* worked; when there is none for the present era the source is asked, and *)
(* when that fails the process is ended.                                   *)
(* Whole: output derives from K cells of one fetch.  Current: that fetch   *)
(* began after every finished reseed began.  Loud: a failed reseed is      *)
(* reported.                                                               *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS K, MaxOps, MaxIntr, Variant
VARIABLES pc,      \* "idle", "seed" (fetching), "dead"
          forwhat, \* "out" or "reseed"
          era, keyEra, key, tmp, at, fetch, intr, ops,
          since,   \* number of the first fetch allowed for output
          out      \* the key the last output was made with, and its serial number
vars == <<pc, forwhat, era, keyEra, key, tmp, at, fetch, intr, ops, since, out>>
Empty == [i \in 1..K |-> 0]
Init == /\ pc = "idle" /\ forwhat = "out" /\ era = 1 /\ keyEra = 0 /\ key = Empty /\ tmp = Empty /\ at = 0
        /\ fetch = 0 /\ intr = 0 /\ ops = 0 /\ since = 0 /\ out = [n |-> 0, k |-> Empty]
Give(k) == out' = [n |-> ops', k |-> k]
Begin(w) == /\ pc' = "seed" /\ forwhat' = w /\ fetch' = fetch + 1 /\ at' = 0
            /\ tmp' = Empty
Ask == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
       /\ IF keyEra = era THEN Give(key) /\ UNCHANGED <<pc, forwhat, fetch, at, tmp>>
          ELSE Begin("out") /\ UNCHANGED out
       /\ UNCHANGED <<era, keyEra, key, intr, since>>
Reseed == /\ pc = "idle" /\ ops < MaxOps /\ ops' = ops + 1
          /\ Begin("reseed")
          /\ era' = (IF Variant = "lateera" THEN era ELSE era + 1)
          /\ keyEra' = (IF Variant = "early" THEN era + 1 ELSE keyEra)
          /\ since' = fetch + 1
          /\ UNCHANGED <<key, intr, out>>
Piece == /\ pc = "seed" /\ at < K
         /\ \E n \in 1..(K - at) :
              /\ tmp' = [i \in 1..K |-> IF i > (IF Variant = "noadvance" THEN 0 ELSE at)
                                           /\ i <= (IF Variant = "noadvance" THEN 0 ELSE at) + n THEN fetch ELSE tmp[i]]
              /\ at' = (IF Variant = "short" THEN K ELSE at + n)
         /\ UNCHANGED <<pc, forwhat, era, keyEra, key, fetch, intr, ops, since, out>>
Intr == /\ pc = "seed" /\ at < K /\ intr < MaxIntr /\ intr' = intr + 1
        /\ UNCHANGED <<pc, forwhat, era, keyEra, key, tmp, at, fetch, ops, since, out>>
Seeded == /\ pc = "seed" /\ at >= K
          /\ key' = tmp
          /\ era' = (IF Variant = "lateera" /\ forwhat = "reseed" THEN era + 1 ELSE era)
          /\ keyEra' = era'
          /\ pc' = "idle"
          /\ out' = (IF forwhat = "out" THEN [n |-> ops, k |-> tmp] ELSE out)
          /\ UNCHANGED <<forwhat, tmp, at, fetch, intr, ops, since>>
Fail == /\ pc = "seed" /\ at < K
        /\ IF forwhat = "reseed" \/ Variant = "silent"
           THEN pc' = "idle" ELSE pc' = "dead"
        /\ IF Variant = "silent" /\ forwhat = "out" THEN out' = [n |-> ops, k |-> key] ELSE UNCHANGED out
        /\ UNCHANGED <<forwhat, era, keyEra, key, tmp, at, fetch, intr, ops, since>>
Next == Ask \/ Reseed \/ Piece \/ Intr \/ Seeded \/ Fail
Spec == Init /\ [][Next]_vars /\ WF_vars(Piece \/ Seeded \/ Fail)
Whole == out.n > 0 => \A i \in 1..K : out.k[i] # 0
(* judged where output is made *)
Current == [][out'.n # out.n => \A i \in 1..K : out'.k[i] >= since]_vars
OneFetch == \A i, j \in 1..K : out.k[i] = out.k[j]
Ends == [](pc = "seed" => <>(pc # "seed"))
=============================================================================
