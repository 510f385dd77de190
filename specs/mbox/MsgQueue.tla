------------------------------ MODULE MsgQueue ------------------------------
(***************************************************************************)
(* The abstract mailbox both implementations (dynmbox, mbox) must refine:  *)
(* a FIFO queue of whole messages accessed by atomic operations.  Each     *)
(* call takes effect at one instant between its invocation and its return. *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

EAGAIN == -11
EINVAL == -22
ETIMEDOUT == -110
NEVER == -9999          \* the call had not returned when the history ended

Max(a, b) == IF a > b THEN a ELSE b

\* Room(q): may an implementation refuse a message when q is queued?  The
\* capacity is not part of the interface; what is: an empty mailbox accepts
\* (MinMsgs = 1), and a pipe mailbox with n page slots holds n messages.
MayRefuse(q, minMsgs) == Len(q) >= Max(1, minMsgs)

\* effect of one operation with a given outcome: <<enabled, next queue>>
PushOk(q, v)       == <<TRUE, Append(q, v)>>
PushFull(q, n)     == <<MayRefuse(q, n), q>>
PeekOk(q, v)       == <<q # <<>> /\ Head(q) = v, IF q = <<>> THEN q ELSE Tail(q)>>
PeekEmpty(q)       == <<q = <<>>, q>>
=============================================================================
