----------------------------- MODULE QueueTrace -----------------------------
(***************************************************************************)
(* Decides whether recorded call/return histories of the real mailboxes    *)
(* are linearizable to MsgQueue, and (per constants) whether readiness and *)
(* flow control follow it.  Linearization points are silent steps.         *)
(*   Obs  : readable descriptor  <=>  message queued, at every quiescent   *)
(*          point and whenever all threads sleep                           *)
(*   Flow : refusals, time-outs and sleeping threads are justified         *)
(***************************************************************************)
EXTENDS TraceKit, MsgQueue, FiniteSets

CONSTANTS Obs, Flow, Kind        \* Kind: "dyn" or "fix"

VARIABLES h, l, q, pend, slots

vars == <<h, l, q, pend, slots>>

Ev == Hists[h].ev[l]
NoPend == [t \in {} |-> 0]

Init == /\ h \in 1..NH
        /\ l = 1 /\ q = <<>> /\ pend = NoPend /\ slots = 1

Consume == /\ l <= Len(Hists[h].ev)
           /\ l' = l + 1 /\ h' = h

\* <<s, us>> pairs: a >= b - slackUs
PairGeq(a, b, slack) ==
  \/ a[1] > b[1] + 1
  \/ (a[1] - b[1] >= -1 /\ a[1] - b[1] <= 1 /\ (a[1] - b[1]) * 1000000 + a[2] - b[2] >= -slack)

\* effect of pending call c on q, per its actual outcome
Effect(c) ==
  CASE c.op = "inval" -> <<TRUE, q>>
    [] c.op \in {"push", "pushb"} /\ c.res = 0 -> PushOk(q, c.v)
    [] c.op = "push" /\ c.res = EAGAIN -> IF Flow THEN PushFull(q, slots) ELSE <<TRUE, q>>
    [] c.op = "pushb" /\ c.res = ETIMEDOUT -> IF Flow THEN PushFull(q, slots) ELSE <<TRUE, q>>
    [] c.op \in {"push", "pushb"} /\ c.res # NEVER -> <<~Flow /\ c.res < 0, q>>
    [] c.op = "peek" /\ c.res >= 0 -> IF c.out = "overrun" THEN <<FALSE, q>> ELSE PeekOk(q, c.out)
    [] c.op = "peek" /\ c.res = EAGAIN -> PeekEmpty(q)
    [] OTHER -> <<FALSE, q>>

Lin == \E t \in DOMAIN pend :
         /\ ~pend[t].lin
         /\ LET e == Effect(pend[t].c) IN
              /\ e[1]
              /\ q' = e[2]
         /\ pend' = [pend EXCEPT ![t].lin = TRUE]
         /\ UNCHANGED <<h, l, slots>>

DoInit == /\ l <= Len(Hists[h].ev) /\ Ev.e = "init" /\ Consume
          /\ slots' = IF Kind = "fix" THEN Ev.slots ELSE 1
          /\ UNCHANGED <<q, pend>>

DoCall == /\ l <= Len(Hists[h].ev) /\ Ev.e = "call" /\ Consume
          /\ Ev.t \notin DOMAIN pend
          /\ pend' = [t \in DOMAIN pend \cup {Ev.t} |->
                        IF t = Ev.t THEN [lin |-> FALSE, c |-> Ev] ELSE pend[t]]
          /\ UNCHANGED <<q, slots>>

\* timing of a returning call; el = <<s, us>> of virtual time
Timing(c, r) ==
  \/ ~Flow
  \/ /\ c.op # "pushb" => (r.raced = 1 \/ r.el = <<0, 0>>)
     /\ c.op = "pushb" /\ c.res = ETIMEDOUT =>
          /\ c.tmo # <<0, 0>>
          /\ PairGeq(r.el, c.tmo, 2)
     /\ c.op = "pushb" /\ c.tmo # <<0, 0>> /\ r.raced = 0 =>
          PairGeq(c.tmo, r.el, 2000)
     /\ c.op = "inval" => c.res = EINVAL

DoRet == /\ l <= Len(Hists[h].ev) /\ Ev.e = "ret" /\ Consume
         /\ Ev.t \in DOMAIN pend /\ pend[Ev.t].lin
         /\ Timing(pend[Ev.t].c, Ev)
         /\ pend' = [t \in DOMAIN pend \ {Ev.t} |-> pend[t]]
         /\ UNCHANGED <<q, slots>>

DoObs == /\ l <= Len(Hists[h].ev) /\ Ev.e = "obs" /\ Consume
         /\ Obs => (Ev.r = 1) = (q # <<>>)
         /\ UNCHANGED <<q, pend, slots>>

\* a run of n equal messages by the only thread: the descriptor was quiet after
\* `quiet` of the calls that succeeded, which must be those that left the queue
\* empty
DoMany == /\ l <= Len(Hists[h].ev) /\ Ev.e = "many" /\ Consume
          /\ pend = NoPend /\ Ev.odd = 0
          /\ IF Ev.op = "push"
             THEN /\ q' = q \o [i \in 1..Ev.n |-> Ev.v]
                  /\ Ev.res # 0 => Ev.res = EAGAIN /\ (Flow => MayRefuse(q', slots))
                  /\ Obs => Ev.quiet = 0
             ELSE /\ Ev.n <= Len(q) /\ \A i \in 1..Ev.n : q[i] = Ev.v
                  /\ q' = SubSeq(q, Ev.n + 1, Len(q))
                  /\ Ev.res # 0 => Ev.res = EAGAIN /\ q' = <<>>
                  /\ Obs => Ev.quiet = IF q' = <<>> /\ Ev.n > 0 THEN 1 ELSE 0
          /\ Obs => (Ev.r = 1) = (q' # <<>>)
          /\ UNCHANGED <<pend, slots>>

\* every thread sleeps: only blocking pushes without time-out may, and only
\* while the mailbox may be full
DoStuck == /\ l <= Len(Hists[h].ev) /\ Ev.e = "stuck" /\ Consume
           /\ \A t \in DOMAIN pend : ~pend[t].lin
           /\ Obs => (Ev.r = 1) = (q # <<>>)
           /\ Flow => \A t \in DOMAIN pend :
                        /\ pend[t].c.op = "pushb"
                        /\ pend[t].c.tmo = <<0, 0>>
                        /\ MayRefuse(q, slots)
           /\ UNCHANGED <<q, pend, slots>>

\* a thread slept although the very same push would have fitted
DoProbe == /\ l <= Len(Hists[h].ev) /\ Ev.e = "probe" /\ Consume
           /\ Flow => Ev.res = EAGAIN
           /\ UNCHANGED <<q, pend, slots>>

DoLive == /\ l <= Len(Hists[h].ev) /\ Ev.e = "livelock" /\ Consume
          /\ ~Flow
          /\ UNCHANGED <<q, pend, slots>>

Next == /\ \/ DoInit \/ DoMany \/ DoCall \/ DoRet \/ DoObs \/ DoStuck \/ DoProbe \/ DoLive \/ Lin
        /\ Reached(h, l')

Spec == Init /\ [][Next]_vars
=============================================================================
