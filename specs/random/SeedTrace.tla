----------------------------- MODULE SeedTrace -----------------------------
(* Judges recorded programs of outputs (g, G, w) and reseeds (r) under an  *)
(* arbitrary system.  Entropy bytes are numbered as handed out; a, b: how  *)
(* many had been before and after the operation; d: the ones its output    *)
(* was observed to depend on; sa, sb: system calls made before and after.  *)
EXTENDS Integers, Sequences, FiniteSets, RecKit
Key == 32      \* bytes: 256 bits
Set(s) == {s[i] : i \in DOMAIN s}
Min2(a, b) == IF a < b THEN a ELSE b
Transient(o) == o[3] = 0 \/ o[2] > 0 \/ o[1] = "getrandom" \/ (o[1] = "read" /\ o[2] = -4) \/ o[1] = "close"
Calm(r, i) == \A k \in (r.ops[i].sa + 1)..Min2(r.ops[i].sb, Len(r.sys)) : Transient(r.sys[k])
(* entropy handed out before the last reseed began does not count *)
Since(r, i) == LET R == {j \in 1..(i - 1) : r.ops[j].op = "r"}
               IN IF R = {} THEN 0 ELSE r.ops[CHOOSE j \in R : \A k \in R : k <= j].a
OpOk(r, i) ==
  LET o == r.ops[i] IN
  IF o.done = 0
  THEN \* the process was ended: only for want of entropy, only instead of output
       i = Len(r.ops) /\ o.op # "r" /\ ~Calm(r, i)
  ELSE IF o.op = "r"
  THEN /\ o.ret <= 0
       /\ Calm(r, i) => o.ret = 0
       /\ o.ret = 0 => o.b - o.a >= Key
  ELSE LET d == Set(o.d) IN
       /\ Cardinality(d) >= Key
       /\ \A x \in d : x >= Since(r, i) /\ x < o.b
       /\ \A j \in 1..(i - 1) : r.ops[j].op # "r" => r.ops[j].cls # o.cls
Good(r) ==
  /\ r.same = 1 /\ r.over = 0
  /\ \A i \in DOMAIN r.ops : OpOk(r, i)
  /\ IF r.st = 0 THEN r.leak = 0 /\ \A i \in DOMAIN r.ops : r.ops[i].done = 1
     ELSE Len(r.ops) > 0 /\ r.ops[Len(r.ops)].done = 0
ASSUME JudgeAll(Good)
=============================================================================
