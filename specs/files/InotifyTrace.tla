---------------------------- MODULE InotifyTrace ----------------------------
(* Judges recorded histories: operations on files as the kernel reports    *)
(* them, processing calls and the callbacks they made.                     *)
(*  log entries: [t |-> "q", m, w, n, c]  an operation queued an event     *)
(*               (mask, watch, name; c: number of the rename, or 0)        *)
(*               [t |-> "b"] call, [t |-> "e", hit] return                 *)
(*               [t |-> "cb", m, w, n, c, data, len]                       *)
EXTENDS RecKit, SequencesExt
Same(a, b) == a.m = b.m /\ a.w = b.w /\ a.n = b.n
State == [ok |-> TRUE, q |-> <<>>, in |-> FALSE, need |-> 0, cookies |-> <<>>]
CookieOk(s, c, seen) ==          \* the two halves of a rename share one, others have others
  IF c = 0 THEN seen = 0
  ELSE /\ seen # 0
       /\ \A i \in DOMAIN s.cookies : (s.cookies[i][1] = c) = (s.cookies[i][2] = seen)
(* the kernel's queue is full: the event is lost, one special event tells so *)
Lost == [t |-> "q", m |-> "4000", w |-> -1, n |-> "", c |-> 0]
Put(max, s, e) ==
  IF ~s.ok THEN s
  ELSE CASE e.t = "q" /\ Len(s.q) >= max ->
              IF s.q[Len(s.q)] = Lost THEN s ELSE [s EXCEPT !.q = Append(@, Lost)]
         [] e.t = "q" /\ Len(s.q) < max ->
              \* the kernel joins an event with an equal one just before it
              IF ~s.in /\ s.q # <<>> /\ Same(s.q[Len(s.q)], e) THEN s ELSE [s EXCEPT !.q = Append(@, e)]
         [] e.t = "b" -> [s EXCEPT !.in = TRUE, !.need = Len(s.q)]
         [] e.t = "cb" ->
              IF s.in /\ s.q # <<>> /\ Same(s.q[1], e) /\ e.data = 1 /\ e.pad = 1 /\ CookieOk(s, s.q[1].c, e.c)
              THEN [s EXCEPT !.q = Tail(@), !.need = @ - 1, !.cookies = IF s.q[1].c = 0 THEN @ ELSE Append(@, <<s.q[1].c, e.c>>)]
              ELSE [s EXCEPT !.ok = FALSE]
         [] e.t = "e" -> [s EXCEPT !.in = FALSE, !.ok = e.hit = 1 \/ s.need <= 0]
Good(r) == /\ r.st = 0 /\ r.live = 0
           /\ LET s == FoldLeft(LAMBDA s, e : Put(r.max, s, e), State, r.log) IN s.ok /\ s.q = <<>>
ASSUME JudgeAll(Good)
=============================================================================
