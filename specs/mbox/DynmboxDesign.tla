--------------------------- MODULE DynmboxDesign ---------------------------
(***************************************************************************)
(* The variable-size mailbox at the grain of its implementation: a lock, a *)
(* byte ring (here: the queued messages and the units they use), one byte  *)
(* in a pipe per queued message, a condition variable for the producer.    *)
(* Checked: it refines the atomic queue, readiness follows the queue at    *)
(* quiescence, a blocked producer that fits is woken, timers are honoured. *)
(* NotifyInside = FALSE is the order the code had before it was repaired   *)
(* (the byte written after the lock is released): TLC then refutes Ready.  *)
(* The pipe holds Pipe bytes and, once filled, takes none before it has    *)
(* been emptied (a pipe of one page does so).  Retry = FALSE is the code   *)
(* before its second repair: notifications that did not fit were dropped.  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Cap,            \* ring capacity in units (header = 1 unit)
          Sizes,          \* message sizes used
          NMsgs,          \* number of messages the producer pushes
          NotifyInside,   \* TRUE: byte written before unlocking
          SignalAlways,   \* TRUE: every read signals the condition
          Pipe,           \* bytes the pipe takes before it is full
          Retry           \* TRUE: a byte that did not fit is written later

ASSUME \A s \in Sizes : s + 1 <= Cap

VARIABLES ring,    \* sequence of [id, sz]
          bytes,   \* notification bytes in the pipe
          full,    \* the pipe takes no byte
          missed,  \* notifications that did not fit
          lock,    \* "none" | "prod" | "cons"
          pp, cp,  \* program counters
          cur,     \* the producer's current message [id, sz, blk, tmo]
          waiter,  \* producer sleeping on the condition
          timer,   \* "off" | "on" | "expired"
          sent,    \* ids pushed successfully, in order
          got,     \* ids read, in order
          last,    \* last result of the producer
          aq       \* the abstract queue, updated at the linearization points

vars == <<ring, bytes, full, missed, lock, pp, cp, cur, waiter, timer, sent, got, last, aq>>

RECURSIVE Used(_)
Used(r) == IF r = <<>> THEN 0 ELSE Head(r).sz + 1 + Used(Tail(r))
Fits(s) == Used(ring) + s + 1 <= Cap
Idle == [id |-> 0, sz |-> 0, blk |-> FALSE, tmo |-> FALSE]

Init == /\ ring = <<>> /\ bytes = 0 /\ full = FALSE /\ missed = 0 /\ lock = "none" /\ pp = "idle" /\ cp = "poll"
        /\ cur = Idle /\ waiter = FALSE /\ timer = "off" /\ sent = <<>> /\ got = <<>>
        /\ last = 0 /\ aq = <<>>

\* ------------------------------------------------------------- producer
Call(s, b, t) ==
  /\ pp = "idle" /\ cur.id < NMsgs
  /\ t => b
  /\ cur' = [id |-> cur.id + 1, sz |-> s, blk |-> b, tmo |-> t]
  /\ timer' = IF t THEN "on" ELSE "off"
  /\ pp' = "lock"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, cp, waiter, sent, got, last, aq>>
PLock ==
  /\ pp = "lock" /\ lock = "none"
  /\ lock' = "prod" /\ pp' = "test"
  /\ UNCHANGED <<ring, bytes, full, missed, cp, cur, waiter, timer, sent, got, last, aq>>
PWrite ==
  /\ pp = "test" /\ Fits(cur.sz)
  /\ ring' = Append(ring, [id |-> cur.id, sz |-> cur.sz])
  /\ aq' = Append(aq, cur.id)
  /\ pp' = IF NotifyInside THEN "notify" ELSE "unlock"
  /\ sent' = Append(sent, cur.id) /\ last' = 0
  /\ UNCHANGED <<bytes, full, missed, lock, cp, cur, waiter, timer, got>>
PFull ==
  /\ pp = "test" /\ ~Fits(cur.sz) /\ ~cur.blk
  /\ last' = 11 /\ pp' = "unlockfail"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, cp, cur, waiter, timer, sent, got, aq>>
PSleep ==      \* pthread_cond_wait releases the lock and sleeps atomically
  /\ pp = "test" /\ ~Fits(cur.sz) /\ cur.blk
  /\ lock' = "none" /\ waiter' = TRUE /\ pp' = "asleep"
  /\ UNCHANGED <<ring, bytes, full, missed, cp, cur, timer, sent, got, last, aq>>
PTimer ==      \* time passes
  /\ timer = "on" /\ pp # "idle" /\ timer' = "expired"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, pp, cp, cur, waiter, sent, got, last, aq>>
PSpurious ==
  /\ pp = "asleep" /\ waiter
  /\ waiter' = FALSE /\ pp' = "relock"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, cp, cur, timer, sent, got, last, aq>>
PWoken ==
  /\ pp = "asleep" /\ ~waiter /\ pp' = "relock"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, cp, cur, waiter, timer, sent, got, last, aq>>
PExpire ==
  /\ pp = "asleep" /\ waiter /\ timer = "expired"
  /\ waiter' = FALSE /\ pp' = "relocktmo"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, cp, cur, timer, sent, got, last, aq>>
PRelock ==
  /\ pp \in {"relock", "relocktmo"} /\ lock = "none" /\ lock' = "prod"
  /\ pp' = IF pp = "relock" THEN "test" ELSE "unlockfail"
  /\ last' = IF pp = "relock" THEN last ELSE 110
  /\ UNCHANGED <<ring, bytes, full, missed, cp, cur, waiter, timer, sent, got, aq>>
PNotify ==
  /\ pp = "notify"
  /\ IF full THEN missed' = missed + 1 /\ UNCHANGED <<bytes, full>>
     ELSE bytes' = bytes + 1 /\ full' = (bytes + 1 = Pipe) /\ UNCHANGED missed
  /\ pp' = IF NotifyInside THEN "unlock" ELSE "ret"
  /\ UNCHANGED <<ring, lock, cp, cur, waiter, timer, sent, got, last, aq>>
PUnlock ==
  /\ pp \in {"unlock", "unlockfail"} /\ lock' = "none"
  /\ pp' = IF pp = "unlock" /\ ~NotifyInside THEN "notify" ELSE "ret"
  /\ UNCHANGED <<ring, bytes, full, missed, cp, cur, waiter, timer, sent, got, last, aq>>
PRet ==
  /\ pp = "ret" /\ pp' = "idle" /\ timer' = "off"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, cp, cur, waiter, sent, got, last, aq>>

\* ------------------------------------------------------------- consumer
CPoll ==       \* woken by the descriptor
  /\ cp = "poll" /\ bytes > 0 /\ cp' = "lock"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, pp, cur, waiter, timer, sent, got, last, aq>>
CTry ==        \* or reading without being told to
  /\ cp = "poll" /\ cp' = "lock"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, pp, cur, waiter, timer, sent, got, last, aq>>
CLock ==
  /\ cp = "lock" /\ lock = "none" /\ lock' = "cons" /\ cp' = "test"
  /\ UNCHANGED <<ring, bytes, full, missed, pp, cur, waiter, timer, sent, got, last, aq>>
CEmpty ==
  /\ cp = "test" /\ ring = <<>> /\ lock' = "none" /\ cp' = "poll"
  /\ UNCHANGED <<ring, bytes, full, missed, pp, cur, waiter, timer, sent, got, last, aq>>
CPop ==        \* one byte, if there is one
  /\ cp = "test" /\ ring # <<>>
  /\ LET b == IF bytes > 0 THEN bytes - 1 ELSE 0
         f == full /\ b > 0
         again == Retry /\ missed > 0 /\ ~f
     IN /\ bytes' = IF again THEN b + 1 ELSE b
        /\ missed' = IF again THEN missed - 1 ELSE missed
        /\ full' = IF again THEN b + 1 = Pipe ELSE f
  /\ cp' = "read"
  /\ UNCHANGED <<ring, lock, pp, cur, waiter, timer, sent, got, last, aq>>
CRead ==
  /\ cp = "read"
  /\ got' = Append(got, Head(ring).id) /\ ring' = Tail(ring) /\ aq' = Tail(aq)
  /\ cp' = "signal"
  /\ UNCHANGED <<bytes, full, missed, lock, pp, cur, waiter, timer, sent, last>>
CSignal ==
  /\ cp = "signal"
  /\ waiter' = (IF SignalAlways \/ ring = <<>> THEN FALSE ELSE waiter)
  /\ cp' = "unlock"
  /\ UNCHANGED <<ring, bytes, full, missed, lock, pp, cur, timer, sent, got, last, aq>>
CUnlock ==
  /\ cp = "unlock" /\ lock' = "none" /\ cp' = "poll"
  /\ UNCHANGED <<ring, bytes, full, missed, pp, cur, waiter, timer, sent, got, last, aq>>

Calls == \E s \in Sizes, b, t \in BOOLEAN : Call(s, b, t)
Prod == PLock \/ PWrite \/ PFull \/ PSleep \/ PWoken \/ PExpire \/ PRelock
        \/ PNotify \/ PUnlock \/ PRet
Cons == CPoll \/ CLock \/ CEmpty \/ CPop \/ CRead \/ CSignal \/ CUnlock
Next == Calls \/ Prod \/ PTimer \/ PSpurious \/ Cons \/ CTry

Spec == Init /\ [][Next]_vars /\ WF_vars(PLock) /\ WF_vars(PWrite \/ PFull \/ PSleep)
        /\ WF_vars(PWoken) /\ WF_vars(PExpire) /\ SF_vars(PRelock) /\ WF_vars(PNotify)
        /\ WF_vars(PUnlock) /\ WF_vars(PRet) /\ WF_vars(PTimer)
        /\ WF_vars(CPoll) /\ SF_vars(CLock) /\ WF_vars(CEmpty \/ CPop) /\ WF_vars(CRead)
        /\ WF_vars(CSignal) /\ WF_vars(CUnlock) /\ SF_vars(PLock)

\* ------------------------------------------------------------ properties
NoneInProgress == pp = "idle" /\ cp = "poll"
Asleep == pp = "asleep" /\ waiter /\ cp = "poll"
\* D02: readable iff a message is queued, when no call is in progress (or the
\* only one in progress sleeps)
Ready == (NoneInProgress \/ Asleep) => (bytes > 0) = (ring # <<>>)
\* never more wake-ups than messages once the push has returned
NoStale == pp = "idle" /\ cp \in {"poll", "lock"} => bytes + missed = Len(ring)
\* D01: what was read is a prefix of what was sent
Fifo == /\ Len(got) <= Len(sent)
        /\ \A i \in 1..Len(got) : got[i] = sent[i]
        /\ sent = got \o [i \in 1..Len(ring) |-> ring[i].id]
Bounded == Used(ring) <= Cap
\* D03: nothing refused when empty; time-outs only after the time
Justified == pp = "relocktmo" => cur.tmo /\ timer = "expired"
NoEmptyRefusal == pp = "test" /\ ring = <<>> => Fits(cur.sz)
\* no thread sleeps although it fits, with nobody about to wake it
NoLostWakeup == Asleep => ~Fits(cur.sz)
\* refinement: the abstract queue evolves by atomic appends and removals
Abs == INSTANCE AbsQueue WITH q <- aq
Refines == Abs!QSpec
\* liveness
WokenEventually == (pp = "asleep") ~> (pp # "asleep")
PushReturns == (pp = "lock") ~> (pp = "idle")
Drained == (ring # <<>>) ~> (ring = <<>>)
=============================================================================
