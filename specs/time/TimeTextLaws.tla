---------------------------- MODULE TimeTextLaws ----------------------------
(* Reading what was rendered gives the instant and offset back, for every   *)
(* format; a rendered text that loses a character or has one replaced       *)
(* denotes nothing, or (a colon) the same; only RFC 1123 day digits can go. *)
EXTENDS TimeText, TLC
CONSTANTS Days, Sods, OffMins
VARIABLES i, off, fmt
Init == /\ i \in [day : Days, sod : Sods] /\ off = 0 /\ fmt \in 0..2
Next == off = 0 /\ \E o \in OffMins : off' \in {o * 60, -o * 60} /\ UNCHANGED <<i, fmt>>
Spec == Init /\ [][Next]_<<i, off, fmt>>
RoundTrip == LET v == DateTime(Render(i, off, fmt)) IN v.ok /\ v.t = i /\ v.off = off /\ v.core
Lengths == Len(Render(i, off, fmt)) \in {20, 25, 28, 29, 30, 31}
Drop(s, k) == SubSeq(s, 1, k - 1) \o SubSeq(s, k + 1, Len(s))
Shape == LET s == Render(i, off, fmt) IN
         \A k \in 1..Len(s) : /\ LET v == DateTime([s EXCEPT ![k] = 63]) IN ~v.ok
                              /\ LET v == DateTime(Drop(s, k)) IN v.ok => fmt = FmtRfc \/ (v.t = i /\ v.off = off)
=============================================================================
