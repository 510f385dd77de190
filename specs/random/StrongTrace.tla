---------------------------- MODULE StrongTrace ----------------------------
(* Judges recorded calls of the strong generator.  os: the bytes the       *)
(* system handed out, in order (1..250, the buffer was full of 255); ops:  *)
(* <<operation, result, injected?, open flags>>.                           *)
EXTENDS Integers, Sequences, FiniteSets, RecKit
EINVAL == -22
(* position in os after matching buf from i on; -1: no match *)
RECURSIVE Match(_, _, _, _)
Match(buf, os, i, j) ==
  IF i > Len(buf) THEN TRUE
  ELSE IF j > Len(os) THEN FALSE
  ELSE IF buf[i] = os[j] THEN Match(buf, os, i + 1, j + 1)
  ELSE Match(buf, os, i, j + 1)
FromSystem(r) == IF r.buf = r.os THEN TRUE ELSE Match(r.buf, r.os, 1, 1)
Transient(o) == o[3] = 0 \/ o[2] > 0 \/ (o[1] = "getrandom") \/ (o[1] = "read" /\ o[2] = -4) \/ o[1] = "close"
(* bytes not (yet) from the system are untouched or from it *)
Call(r) ==
  /\ r.st = 0 /\ r.over = 0 /\ r.border = 1 /\ r.leak = 0
  /\ IF r.nul = 1 \/ r.len = 0 THEN r.ret = EINVAL
     ELSE /\ r.ret <= 0
          /\ r.ret = 0 => FromSystem(r)
          \* some source answers: then it is used until everything is there
          /\ (\A i \in DOMAIN r.ops : Transient(r.ops[i])) => r.ret = 0
(* large requests: positions are <<MiB, rest>>, to: the stretches of the    *)
(* buffer that were handed to the system; a request filled by way of some   *)
(* other place takes as many bytes as it is long                            *)
Le(p, q) == p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])
RECURSIVE Reach(_, _)
Reach(to, p) == LET N == {i \in DOMAIN to : Le(to[i][1], p) /\ ~Le(to[i][2], p)}
                IN IF N = {} THEN p ELSE Reach(to, to[CHOOSE i \in N : TRUE][2])
Big(r) ==
  /\ r.st = 0 /\ r.leak = 0 /\ r.ret = 0
  /\ IF r.elsewhere = <<0, 0>> THEN r.over = 0 /\ Reach(r.to, <<0, 0>>) = r.len
     ELSE r.to # <<>> \/ Le(r.len, r.elsewhere)
Good(r) == IF r.k = "big" THEN Big(r) ELSE Call(r)
ASSUME JudgeAll(Good)
=============================================================================
