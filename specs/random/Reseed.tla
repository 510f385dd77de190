---------------------------- MODULE Reseed ----------------------------
(* Design of the pseudo random generator's seeding.  Every thread owns a   *)
(* pool (seeded from an entropy fetch, tagged with the era it was seeded   *)
(* in, some output buffered); reseeding starts a new era.  Grain: one      *)
(* access to the shared era, or one fetch, per step.  A thread may fork:   *)
(* the child is a new process whose single thread inherits everything.     *)
(* Need: an output requested after a reseed call returned derives from     *)
(* entropy fetched after that call was made.                               *)
EXTENDS Naturals, FiniteSets, TLC

CONSTANTS Threads,      \* thread slots of the first process
          Kids,         \* slots for forked children
          MaxOps,       \* calls altogether
          Mod,          \* the era counter wraps at Mod
          Variant       \* "" or a wrong design

VARIABLES pc, proc, era, poolEra, src, buf, avail, loaded, start, need, done, nf, ops, ok

vars == <<pc, proc, era, poolEra, src, buf, avail, loaded, start, need, done, nf, ops, ok>>
All == Threads \cup Kids
Procs == {0} \cup Kids

Init ==
  /\ pc = [t \in All |-> IF t \in Threads THEN "idle" ELSE "none"]
  /\ proc = [t \in All |-> 0]
  /\ era = [p \in Procs |-> 1]
  /\ poolEra = [t \in All |-> 0]       \* never seeded
  /\ src = [t \in All |-> 0]           \* fetch the key derives from
  /\ buf = [t \in All |-> 0]           \* fetch the buffered output derives from
  /\ avail = [t \in All |-> 0]         \* buffered outputs
  /\ loaded = [t \in All |-> 0]
  /\ start = [t \in All |-> 0]         \* fetches made when the running reseed call was made
  /\ need = [t \in All |-> 0]          \* the output must derive from a later fetch than this one
  /\ done = [p \in Procs |-> 0]        \* the same, over the returned reseed calls of a process
  /\ nf = 0 /\ ops = 0 /\ ok = TRUE

Go(t, l) == pc' = [pc EXCEPT ![t] = l]
Next1(e) == LET n == (e + 2) % Mod IN n
MaxN(a, b) == IF a > b THEN a ELSE b

(* ------------------------------------------------------------ generating *)
GCall(t) ==
  /\ pc[t] = "idle" /\ ops < MaxOps
  /\ ops' = ops + 1
  /\ need' = [need EXCEPT ![t] = done[proc[t]]]
  /\ Go(t, "gload")
  /\ UNCHANGED <<proc, era, poolEra, src, buf, avail, loaded, start, done, nf, ok>>
GLoad(t) ==
  /\ pc[t] = "gload"
  /\ loaded' = [loaded EXCEPT ![t] = era[proc[t]]]
  /\ Go(t, IF era[proc[t]] = poolEra[t] THEN "gout" ELSE "gfetch")
  /\ UNCHANGED <<proc, era, poolEra, src, buf, avail, start, need, done, nf, ops, ok>>
Fetch(t, l) ==
  /\ nf' = nf + 1
  /\ src' = [src EXCEPT ![t] = nf + 1]
  /\ avail' = [avail EXCEPT ![t] = IF Variant = "keep" THEN @ ELSE 0]
  /\ Go(t, l)
GFetch(t) ==
  /\ pc[t] = "gfetch"
  /\ Fetch(t, "gmark")
  /\ UNCHANGED <<proc, era, poolEra, buf, loaded, start, need, done, ops, ok>>
GMark(t) ==
  /\ pc[t] = "gmark"
  /\ poolEra' = [poolEra EXCEPT ![t] = IF Variant = "late" THEN era[proc[t]] ELSE loaded[t]]
  /\ Go(t, "gout")
  /\ UNCHANGED <<proc, era, src, buf, avail, loaded, start, need, done, nf, ops, ok>>
GOut(t) ==
  /\ pc[t] = "gout"
  /\ LET b == IF avail[t] = 0 THEN src[t] ELSE buf[t] IN
     /\ buf' = [buf EXCEPT ![t] = b]
     /\ avail' = [avail EXCEPT ![t] = IF @ = 0 THEN 1 ELSE @ - 1]
     /\ ok' = (ok /\ b > need[t])
  /\ Go(t, "idle")
  /\ UNCHANGED <<proc, era, poolEra, src, loaded, start, need, done, nf, ops>>

(* -------------------------------------------------------------- reseeding *)
RCall(t) ==
  /\ pc[t] = "idle" /\ ops < MaxOps
  /\ ops' = ops + 1
  /\ start' = [start EXCEPT ![t] = nf]
  /\ Go(t, IF Variant = "swap" THEN "rfetch" ELSE "rera")
  /\ UNCHANGED <<proc, era, poolEra, src, buf, avail, loaded, need, done, nf, ok>>
REra(t) ==
  /\ pc[t] = "rera"
  /\ loaded' = [loaded EXCEPT ![t] = Next1(era[proc[t]])]
  /\ era' = IF Variant \in {"own", "split"} THEN era ELSE [era EXCEPT ![proc[t]] = Next1(@)]
  /\ Go(t, IF Variant = "split" THEN "rstore" ELSE IF Variant = "swap" THEN "rmark" ELSE "rfetch")
  /\ UNCHANGED <<proc, poolEra, src, buf, avail, start, need, done, nf, ops, ok>>
RStore(t) ==
  /\ pc[t] = "rstore"
  /\ era' = [era EXCEPT ![proc[t]] = loaded[t]]
  /\ Go(t, "rfetch")
  /\ UNCHANGED <<proc, poolEra, src, buf, avail, loaded, start, need, done, nf, ops, ok>>
RFetch(t) ==
  /\ pc[t] = "rfetch"
  /\ Fetch(t, IF Variant = "swap" THEN "rera" ELSE "rmark")
  /\ UNCHANGED <<proc, era, poolEra, buf, loaded, start, need, done, ops, ok>>
RMark(t) ==
  /\ pc[t] = "rmark"
  /\ poolEra' = [poolEra EXCEPT ![t] = IF Variant = "own" THEN @ ELSE IF Variant = "late" THEN era[proc[t]] ELSE loaded[t]]
  /\ done' = [done EXCEPT ![proc[t]] = MaxN(@, start[t])]
  /\ Go(t, "idle")
  /\ UNCHANGED <<proc, era, src, buf, avail, loaded, start, need, nf, ops, ok>>

Fork(t, k) ==
  /\ pc[t] = "idle" /\ pc[k] = "none" /\ ops < MaxOps
  /\ ops' = ops + 1
  /\ proc' = [proc EXCEPT ![k] = k]
  /\ era' = [era EXCEPT ![k] = era[proc[t]]]
  /\ done' = [done EXCEPT ![k] = done[proc[t]]]
  /\ poolEra' = [poolEra EXCEPT ![k] = poolEra[t]]
  /\ src' = [src EXCEPT ![k] = src[t]]
  /\ buf' = [buf EXCEPT ![k] = buf[t]]
  /\ avail' = [avail EXCEPT ![k] = avail[t]]
  /\ Go(k, "idle")
  /\ UNCHANGED <<loaded, start, need, nf, ok>>

Step(t) == GCall(t) \/ GLoad(t) \/ GFetch(t) \/ GMark(t) \/ GOut(t)
           \/ RCall(t) \/ REra(t) \/ RStore(t) \/ RFetch(t) \/ RMark(t)
Next == (\E t \in All : Step(t)) \/ (\E t \in All, k \in Kids : Fork(t, k))

(* `need' alone is not enough when nf is 0 before any fetch: b > need means  *)
(* the output derives from a fetch made after the reseed call.              *)
Derived == ok
(* threads of a process never use one fetch together *)
OwnSource == \A t, u \in All : (t # u /\ proc[t] = proc[u] /\ src[t] # 0) => src[t] # src[u]
Sym == Permutations(Threads) \cup Permutations(Kids)
Spec == Init /\ [][Next]_vars
=============================================================================
