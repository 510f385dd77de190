------------------------------- MODULE Strong -------------------------------
(* Design of the strong generator: the system call first, the device for   *)
(* what is missing.  The system's answers are arbitrary: pieces of any     *)
(* size, interruptions (a bounded number), other errors, nothing at all.   *)
(* A piece written is marked in the buffer; success means all of it came   *)
(* from the system; the descriptor is closed on every way out.             *)
EXTENDS Integers, FiniteSets
CONSTANTS Len, MaxIntr, Variant
VARIABLES pc, at, filled, intr, fd, ret
vars == <<pc, at, filled, intr, fd, ret>>
Init == pc = "call" /\ at = 0 /\ filled = {} /\ intr = 0 /\ fd = 0 /\ ret = 1

Ptr == IF Variant = "noadvance" THEN 0 ELSE at
Piece(n) == filled' = filled \cup (Ptr + 1)..(Ptr + n)
Done(r) == ret' = r /\ pc' = "end"

SysPiece == /\ pc = "call" /\ at < Len
            /\ \E n \in 1..(Len - at) :
                 /\ Piece(n)
                 /\ at' = at + n
                 /\ IF Variant = "oneshot" THEN Done(0) /\ UNCHANGED <<intr, fd>>
                    ELSE UNCHANGED <<pc, intr, fd, ret>>
SysIntr == /\ pc = "call" /\ at < Len /\ intr < MaxIntr
           /\ intr' = intr + 1
           /\ IF Variant = "intrcount" THEN at' = at + 1 ELSE UNCHANGED at
           /\ UNCHANGED <<pc, filled, fd, ret>>
SysFail == /\ pc = "call" /\ at < Len
           /\ pc' = "open"
           /\ UNCHANGED <<at, filled, intr, fd, ret>>
SysDone == pc = "call" /\ at >= Len /\ Done(0) /\ UNCHANGED <<at, filled, intr, fd>>
Open == /\ pc = "open"
        /\ \/ fd' = 1 /\ pc' = "read" /\ UNCHANGED <<at, filled, intr, ret>>
           \/ Done(IF Variant = "openok" THEN 0 ELSE -1) /\ UNCHANGED <<at, filled, intr, fd>>
ReadPiece == /\ pc = "read" /\ at < Len
             /\ \E n \in 1..(Len - at) : Piece(n) /\ at' = at + n
             /\ UNCHANGED <<pc, intr, fd, ret>>
ReadIntr == pc = "read" /\ at < Len /\ intr < MaxIntr /\ intr' = intr + 1 /\ UNCHANGED <<pc, at, filled, fd, ret>>
ReadFail == /\ pc = "read" /\ at < Len
            /\ \E how \in {"error", "eof"} :
                 Done(IF how = "eof" /\ Variant = "eofok" THEN 0 ELSE -1)
            /\ fd' = (IF Variant = "leak" THEN fd ELSE 0)
            /\ UNCHANGED <<at, filled, intr>>
ReadDone == pc = "read" /\ at >= Len /\ Done(0) /\ fd' = 0 /\ UNCHANGED <<at, filled, intr>>
Next == SysPiece \/ SysIntr \/ SysFail \/ SysDone \/ Open \/ ReadPiece \/ ReadIntr \/ ReadFail \/ ReadDone
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Complete == ret = 0 => filled = 1..Len
NoLeak == pc = "end" => fd = 0
Within == filled \subseteq 1..Len
Ends == <>(pc = "end")
=============================================================================
