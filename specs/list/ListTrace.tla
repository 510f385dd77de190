----------------------------- MODULE ListTrace -----------------------------
(***************************************************************************)
(* Judges histories and walks recorded from the real list header.          *)
(*  history: [k |-> "h", n |-> nodes, ev |-> <<[op, a, b, r]>>]; op "o"    *)
(*    carries an observation of everything the queries report              *)
(*  walk: [k |-> "w", m |-> macro, acts |-> <<...>>, v |-> visited,        *)
(*         f, b |-> list afterwards, of, ob |-> the other list afterwards, *)
(*         st |-> status of each node]                                     *)
(*  long list: [k |-> "g", n, d, m, w |-> walks, pops, pbrk, plen]         *)
(***************************************************************************)
EXTENDS ListSeq, RecKit

NextOf(q, i) == IF i = Len(q) THEN 0 ELSE q[i + 1]
PrevOf(q, i) == IF i = 1 THEN 0 ELSE q[i - 1]

\* observation of one list: o = [hd, f, b, len, empty, first, last, nx, pv, il]
ListObs(s, o) ==
  LET q == Get(s, o.hd) IN
  /\ o.f = q /\ o.b = Rev(q) /\ o.len = Len(q)
  /\ o.empty = (IF q = <<>> THEN 1 ELSE 0)
  /\ o.first = (IF q = <<>> THEN o.hd ELSE q[1])
  /\ o.last = (IF q = <<>> THEN o.hd ELSE q[Len(q)])
  /\ o.nx = [i \in 1..Len(q) |-> NextOf(q, i)]
  /\ o.pv = [i \in 1..Len(q) |-> PrevOf(q, i)]
  /\ o.il = [i \in 1..Len(q) |-> IF i = Len(q) THEN 1 ELSE 0]

\* loose nodes: [n, u: is_unref, r: is_ref, s: self-linked]
LooseObs(s, x) ==
  CASE s.o[x.n] = "unref" -> x.u = 1 /\ x.r = 0
    [] s.o[x.n] = "self" -> x.s = 1 /\ x.u = 0 /\ x.r = 1
    [] s.o[x.n] = "in" -> x.u = 0 /\ x.r = 1
    [] OTHER -> x.u # x.r

RECURSIVE Run(_, _, _)
Run(s, ev, i) ==
  IF i > Len(ev) THEN TRUE
  ELSE LET e == ev[i] IN
    IF e.op = "o" THEN /\ \A j \in 1..2 : ListObs(s, e.l[j])
                       /\ \A j \in 1..Len(e.x) : LooseObs(s, e.x[j])
                       /\ Run(s, ev, i + 1)
    ELSE LET r == Apply(s, e.op, e.a, e.b) IN
         /\ Legal(s, e.op, e.a, e.b)
         /\ e.r = r[2]
         /\ Run(r[1], ev, i + 1)

GoodHist(r) == Run(S(<<>>, <<>>, [n \in 1..r.n |-> "raw"]), r.ev, 1)

\* macros: 0 forward 1 backward 2/3 the same with entries, 4..7 the _safe ones
GoodWalk(r) ==
  LET n == Len(r.acts)
      all == [i \in 1..n |-> i]
      back == r.m % 2 = 1
      order == IF back THEN Rev(all) ELSE all
      acts == [i \in 1..n |-> r.acts[i]]             \* by node
      stay == SelectSeq(all, LAMBDA i : acts[i] = "n")
      moved == SelectSeq(order, LAMBDA i : acts[i] = "m") IN
  /\ r.v = order
  /\ r.f = stay /\ r.b = Rev(stay)
  /\ r.of = moved /\ r.ob = Rev(moved)
  /\ \A i \in 1..n : CASE acts[i] = "d" -> r.st[i] = "unref"
                       [] acts[i] = "i" -> r.st[i] = "self"
                       [] OTHER -> TRUE

\* A long list of elements 1..n, seen by every macro, then with every dth
\* element removed during the walk m, seen again and popped until empty.
\* What a walk w saw: c elements, brk out of order, mult multiples of d, the
\* first and the last; len, em: what the queries said after it.  A strictly
\* ordered walk within 1..n of that many elements, none a multiple of d, has
\* seen exactly the right ones.
Left(n, d) == n - n \div d
Lowest(n, d) == IF Left(n, d) = 0 THEN 0 ELSE IF d = 1 THEN 0 ELSE 1
Highest(n, d) == IF Left(n, d) = 0 THEN 0 ELSE IF n % d = 0 THEN n - 1 ELSE n
Saw(w, c, mult, lo, hi, len) ==
  /\ w.c = c /\ w.brk = 0 /\ w.mult = mult
  /\ w.first = (IF w.m % 2 = 1 THEN hi ELSE lo)
  /\ w.last = (IF w.m % 2 = 1 THEN lo ELSE hi)
  /\ w.len = len /\ w.em = (IF len = 0 THEN 1 ELSE 0)
GoodLong(r) ==
  LET n == r.n d == r.d lo == IF n = 0 THEN 0 ELSE 1 IN
  /\ \A i \in 1..8 : Saw(r.w[i], n, n \div d, lo, n, n)
  /\ Saw(r.w[9], n, n \div d, lo, n, Left(n, d))
  /\ \A i \in 10..17 : Saw(r.w[i], Left(n, d), 0, Lowest(n, d), Highest(n, d), Left(n, d))
  /\ r.pops = Left(n, d) /\ r.pbrk = 0 /\ r.plen = 0

Good(r) == CASE r.k = "h" -> GoodHist(r) [] r.k = "g" -> GoodLong(r) [] OTHER -> GoodWalk(r)

ASSUME JudgeAll(Good)
=============================================================================
