----------------------------- MODULE EraseTrace -----------------------------
(* Judges programs of outputs (n bytes) and reseeds by threads th.  After  *)
(* each operation: mem, the pieces of output (operation, offset) that lie  *)
(* in memory; der, the pieces that a keystream of something in memory      *)
(* yields; key, the system's keys in memory.  sb: keys handed out so far.  *)
EXTENDS Integers, Sequences, FiniteSets, RecKit
Set(s) == {s[i] : i \in DOMAIN s}
(* the operation that took key s *)
Taker(r, s) == CHOOSE i \in DOMAIN r.ops : r.ops[i].sb >= s /\ \A j \in 1..(i - 1) : r.ops[j].sb < s
Spent(r, s, i) == \E j \in Taker(r, s)..i : r.ops[j].n > 0 /\ r.ops[j].th = r.ops[Taker(r, s)].th
OpOk(r, i) ==
  LET o == r.ops[i] IN
  /\ o.mem = <<>>
  /\ o.der = <<>>
  /\ \A s \in Set(o.key) : ~Spent(r, s, i)
Good(r) == r.st = 0 /\ r.bad = 0 /\ \A i \in DOMAIN r.ops : OpOk(r, i)
ASSUME JudgeAll(Good)
=============================================================================
