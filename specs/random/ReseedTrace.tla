------------------------- MODULE ReseedTrace -------------------------
(* Judges recorded histories of the real generator.  Events, in real       *)
(* order: cg/rg call and return of a generation (o: class of the output,   *)
(* equal outputs share one; d: entropy fetches the output was observed to  *)
(* derive from), cr/rr call and return of a reseed (r: result), f: a fetch *)
(* of entropy, k: a fork (f: thread number of the child, >= 10).           *)
EXTENDS Integers, Sequences, FiniteSets, RecKit

LastBefore(h, e, t, i) == CHOOSE j \in 1..(i-1) : h[j].e = e /\ h[j].t = t
                              /\ \A m \in (j+1)..(i-1) : ~(h[m].e = e /\ h[m].t = t)
(* reseed by thread s concerns thread t (which makes a later call) *)
Concerns(s, t) == IF s < 10 THEN TRUE ELSE s = t

FetchAt(h, f) == CHOOSE j \in DOMAIN h : h[j].e = "f" /\ h[j].f = f

OutputOk(h, i) ==
  LET t == h[i].t
      c == LastBefore(h, "cg", t, i)
      D == {h[i].d[n] : n \in DOMAIN h[i].d}
      R == {j \in 1..(c-1) : h[j].e = "rr" /\ h[j].r = 0 /\ Concerns(h[j].t, t)}
  IN /\ D # {}
     /\ \A j \in R : LET s == LastBefore(h, "cr", h[j].t, j)
                     IN \E f \in D : FetchAt(h, f) > s

(* a child keeps its parent's stream until it reseeds, or its parent had *)
Own(h, i) == h[i].t < 10 \/ (\E j \in 1..(i-1) : h[j].e = "rr" /\ h[j].r = 0 /\ h[j].t = h[i].t)

RecOk(r) ==
  "h" \in DOMAIN r /\
  LET h == r.h
      O == {i \in DOMAIN h : h[i].e = "rg"}
  IN /\ \A i \in O : OutputOk(h, i)
     /\ \A i, j \in O : (i < j /\ (h[i].t = h[j].t \/ (Own(h, i) /\ Own(h, j)))) => h[i].o # h[j].o
     /\ \A i \in DOMAIN h : h[i].e = "rr" => (h[i].r = 0 \/ (h[LastBefore(h, "cr", h[i].t, i)].x = 1 /\ h[i].r < 0))

ASSUME JudgeAll(RecOk)
=============================================================================
