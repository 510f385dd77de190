----------------------------- MODULE MboxDesign -----------------------------
(***************************************************************************)
(* The fixed-size mailbox at the grain of its implementation: a pipe of    *)
(* Slots pages; a message shares the last page when it still fits there;   *)
(* producers push (one write) or push_block (poll for a free page, then    *)
(* write, and poll again when another producer took the page); signals     *)
(* interrupt poll.  RetryPush = FALSE and RestartTimer = TRUE are the two  *)
(* defects the code had before it was repaired; TLC refutes both.          *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Producers, Slots, PerPage,   \* messages of a page
          NMsgs, Timeout,              \* ticks
          Horizon,                     \* ticks explored
          MaxIntr,                     \* interruptions explored
          RetryPush, RestartTimer

VARIABLES pipe,      \* sequence of pages, each a non-empty sequence of ids
          pc, id, blk, tmo, start, left, res, now, intr, nid, sent, got
vars == <<pipe, pc, id, blk, tmo, start, left, res, now, intr, nid, sent, got>>

RECURSIVE Flat(_)
Flat(p) == IF p = <<>> THEN <<>> ELSE Head(p) \o Flat(Tail(p))
\* pages written since the first read cannot be told from the rest: a page
\* partly read still holds its place and may still be appended to
FreePage == Len(pipe) < Slots
CanWrite == FreePage \/ (pipe # <<>> /\ pipe[Len(pipe)].room > 0)

Init == /\ pipe = <<>> /\ pc = [p \in Producers |-> "idle"]
        /\ id = [p \in Producers |-> 0] /\ blk = [p \in Producers |-> FALSE]
        /\ tmo = [p \in Producers |-> FALSE] /\ start = [p \in Producers |-> 0]
        /\ left = [p \in Producers |-> 0] /\ res = [p \in Producers |-> 0]
        /\ now = 0 /\ intr = 0 /\ nid = 0 /\ sent = <<>> /\ got = <<>>

Call(p, b, t) ==
  /\ pc[p] = "idle" /\ nid < NMsgs /\ (t => b)
  /\ nid' = nid + 1 /\ id' = [id EXCEPT ![p] = nid + 1]
  /\ blk' = [blk EXCEPT ![p] = b] /\ tmo' = [tmo EXCEPT ![p] = t]
  /\ start' = [start EXCEPT ![p] = now]
  /\ left' = [left EXCEPT ![p] = Timeout]
  /\ pc' = [pc EXCEPT ![p] = IF b THEN "poll" ELSE "write"]
  /\ UNCHANGED <<pipe, res, now, intr, sent, got>>
\* poll(POLLOUT) answers when a whole page is free
PollOk(p) ==
  /\ pc[p] = "poll" /\ FreePage
  /\ pc' = [pc EXCEPT ![p] = "write"]
  /\ UNCHANGED <<pipe, id, blk, tmo, start, left, res, now, intr, nid, sent, got>>
PollTimeout(p) ==
  /\ pc[p] = "poll" /\ ~FreePage /\ tmo[p] /\ left[p] = 0
  /\ pc' = [pc EXCEPT ![p] = "ret"] /\ res' = [res EXCEPT ![p] = 110]
  /\ UNCHANGED <<pipe, id, blk, tmo, start, left, now, intr, nid, sent, got>>
PollIntr(p) ==
  /\ pc[p] = "poll" /\ intr < MaxIntr /\ intr' = intr + 1
  /\ left' = IF RestartTimer THEN [left EXCEPT ![p] = Timeout] ELSE left
  /\ UNCHANGED <<pipe, pc, id, blk, tmo, start, res, now, nid, sent, got>>
Write(p) ==
  /\ pc[p] = "write"
  /\ IF CanWrite
     THEN /\ pipe' = IF pipe # <<>> /\ pipe[Len(pipe)].room > 0
                     THEN [pipe EXCEPT ![Len(pipe)] = [ids |-> Append(@.ids, id[p]), room |-> @.room - 1]]
                     ELSE Append(pipe, [ids |-> <<id[p]>>, room |-> PerPage - 1])
          /\ sent' = Append(sent, id[p])
          /\ res' = [res EXCEPT ![p] = 0] /\ pc' = [pc EXCEPT ![p] = "ret"]
     ELSE /\ IF blk[p] /\ RetryPush
             THEN pc' = [pc EXCEPT ![p] = "poll"] /\ UNCHANGED res
             ELSE pc' = [pc EXCEPT ![p] = "ret"] /\ res' = [res EXCEPT ![p] = 11]
          /\ UNCHANGED <<pipe, sent>>
  /\ UNCHANGED <<id, blk, tmo, start, left, now, intr, nid, got>>
Ret(p) ==
  /\ pc[p] = "ret" /\ pc' = [pc EXCEPT ![p] = "idle"]
  /\ UNCHANGED <<pipe, id, blk, tmo, start, left, res, now, intr, nid, sent, got>>
\* the reader takes the oldest message; a page is freed when it is empty
Read ==
  /\ pipe # <<>>
  /\ got' = Append(got, Head(Head(pipe).ids))
  /\ pipe' = IF Len(Head(pipe).ids) = 1 THEN Tail(pipe)
             ELSE [pipe EXCEPT ![1] = [ids |-> Tail(@.ids), room |-> @.room]]
  /\ UNCHANGED <<pc, id, blk, tmo, start, left, res, now, intr, nid, sent>>
\* time passes when nobody with an expired timer is still asleep
Tick ==
  /\ now < Horizon
  /\ \A p \in Producers : ~(pc[p] = "poll" /\ tmo[p] /\ left[p] = 0)
  /\ \A p \in Producers : pc[p] \notin {"write", "ret"}
  /\ now' = now + 1
  /\ left' = [p \in Producers |-> IF pc[p] = "poll" /\ left[p] > 0 THEN left[p] - 1 ELSE left[p]]
  /\ UNCHANGED <<pipe, pc, id, blk, tmo, start, res, intr, nid, sent, got>>

ProdStep(p) == PollOk(p) \/ PollTimeout(p) \/ Write(p) \/ Ret(p)
Next == \/ \E p \in Producers : (\E b, t \in BOOLEAN : Call(p, b, t)) \/ ProdStep(p) \/ PollIntr(p)
        \/ Read \/ Tick
Spec == Init /\ [][Next]_vars /\ WF_vars(Read) /\ \A p \in Producers : SF_vars(PollOk(p)) /\ WF_vars(ProdStep(p))

\* --------------------------------------------------------------- properties
IdsOf(p) == [i \in 1..Len(p) |-> p[i].ids]
Content == Flat(IdsOf(pipe))
Once == \A i, j \in 1..Len(sent) : i # j => sent[i] # sent[j]
Fifo == sent = got \o Content
Failed == \A p \in Producers : pc[p] = "ret" /\ res[p] # 0 => \A i \in 1..Len(sent) : sent[i] # id[p]
\* a blocking push never answers "try again", nor before or after its time
Contract == \A p \in Producers :
  pc[p] = "ret" /\ blk[p] =>
    /\ res[p] \in {0, 110}
    /\ res[p] = 110 => tmo[p] /\ now = start[p] + Timeout
InTime == \A p \in Producers : pc[p] # "idle" /\ blk[p] /\ tmo[p] => now <= start[p] + Timeout
EmptyTakes == \A p \in Producers : pc[p] = "write" /\ pipe = <<>> => CanWrite
Readiness == (pipe # <<>>) = (Content # <<>>)
Returns == \A p \in Producers : (pc[p] = "write" /\ ~blk[p]) ~> (pc[p] = "idle")
=============================================================================
