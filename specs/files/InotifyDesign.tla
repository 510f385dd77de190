--------------------------- MODULE InotifyDesign ---------------------------
(* The kernel's queue of events of different sizes, arrivals at any time,  *)
(* and the processing of a descriptor: ask how much is queued, read that   *)
(* much into a buffer, walk over the events read.  An event is a number,   *)
(* its size is 1 (no name) to 3 units.  Variants are mistakes to refute.   *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS MaxEvents, Stack, Variant
VARIABLES queue, nextId, size, pc, count, batch, given, need, fault
vars == <<queue, nextId, size, pc, count, batch, given, need, fault>>
Init == queue = <<>> /\ nextId = 1 /\ size = <<>> /\ pc = "idle" /\ count = 0 /\ batch = <<>> /\ given = <<>> /\ need = 0 /\ fault = FALSE
RECURSIVE Bytes(_)
Bytes(q) == IF q = <<>> THEN 0 ELSE size[q[1]] + Bytes(Tail(q))
(* as many whole events as fit *)
RECURSIVE Whole(_, _)
Whole(q, n) == IF q = <<>> THEN <<>> ELSE IF size[q[1]] > n THEN <<>> ELSE <<q[1]>> \o Whole(Tail(q), n - size[q[1]])
Drop(q, n) == SubSeq(q, n + 1, Len(q))

Arrive == nextId <= MaxEvents
          /\ \E s \in 1..3 : size' = Append(size, s)
          /\ queue' = Append(queue, nextId) /\ nextId' = nextId + 1
          /\ UNCHANGED <<pc, count, batch, given, need, fault>>
Call == pc = "idle" /\ pc' = "ask" /\ need' = nextId - 1 /\ fault' = FALSE /\ UNCHANGED <<queue, nextId, size, count, batch, given>>
Ask == pc = "ask" /\ count' = Bytes(queue)
       /\ pc' = (IF queue = <<>> THEN "ret" ELSE "room") /\ UNCHANGED <<queue, nextId, size, batch, given, need, fault>>
Room == pc = "room" /\ UNCHANGED <<queue, nextId, size, batch, given, need>>
        /\ \/ pc' = "read" /\ UNCHANGED <<fault>>
              /\ count' = (IF Variant = "stack" /\ count > Stack THEN Stack ELSE count)
           \/ count > Stack /\ pc' = "ret" /\ fault' = TRUE /\ UNCHANGED count      \* no memory
Read == pc = "read" /\ UNCHANGED <<nextId, size, given, need, count>>
        /\ \/ LET w == Whole(queue, count)
                  \* the mistake: the answer must be what was asked now
                  dropped == Variant = "recount" /\ Bytes(queue) # count
              IN /\ queue' = Drop(queue, Len(w))
                 /\ batch' = (IF dropped THEN <<>> ELSE w)
                 /\ pc' = "walk" /\ UNCHANGED fault
           \/ pc' = "ret" /\ fault' = TRUE /\ UNCHANGED <<queue, batch>>
Walk == pc = "walk" /\ UNCHANGED <<queue, nextId, size, need, fault>>
        /\ LET last == Variant = "strict_end" /\ Len(batch) = 1 /\ size[batch[1]] = 1
           IN IF batch = <<>> \/ last THEN pc' = "ret" /\ batch' = <<>> /\ UNCHANGED <<given, count>>
              ELSE /\ given' = Append(given, batch[1]) /\ UNCHANGED <<pc, count>>
                   \* the mistake: all events are taken to be of the smallest size
                   /\ batch' = (IF Variant = "fixed_step" /\ size[batch[1]] > 1 THEN <<>> ELSE Tail(batch))
Return == pc = "ret" /\ pc' = "idle" /\ UNCHANGED <<queue, nextId, size, count, batch, given, need, fault>>
Next == Arrive \/ Call \/ Ask \/ Room \/ Read \/ Walk \/ Return
Spec == Init /\ [][Next]_vars
(* every event is in exactly one place, in order *)
NoLoss == given \o batch \o queue = [k \in 1..(nextId - 1) |-> k]
Complete == (pc = "ret" /\ ~fault) => Len(given) >= need
=============================================================================
