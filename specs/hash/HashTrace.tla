----------------------------- MODULE HashTrace -----------------------------
(***************************************************************************)
(* Judges recorded call histories of the real hash table against HashMap.  *)
(* Record: [ev |-> <<[op, k, d, ret, out, rel, fail, nul, obs, live]...>>] *)
(*   fail = 1: memory allocation was made to fail during the call          *)
(*   nul  = 1: called with a NULL table                                    *)
(*   op "o": observation of the public list, forwards (f) and backwards (b)*)
(*   op "D": destroy; live = allocations still owned afterwards            *)
(* Focus "map" (H01) or "list" (H02) selects what is compared.             *)
(***************************************************************************)
EXTENDS HashMap, RecKit

CONSTANTS Focus

Rev(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

CallOk(m, e) ==
  IF e.op = "I" THEN
     IF e.nul = 1 THEN e.ret = EINVAL
     ELSE IF e.fail = 1 THEN e.ret = ENOMEM /\ e.live = 0
     ELSE e.ret = 0
  ELSE IF e.nul = 1 THEN e.ret = EINVAL /\ e.rel = <<>> /\ e.out = Untouched
  ELSE IF e.fail = 1 THEN
     \* a failed allocation: refused for that reason, or for the reason that needs no memory
     e.rel = <<>> /\ e.out = Untouched /\ (e.ret = ENOMEM \/ (e.op \in {"i", "c"} /\ e.k \in Keys(m) /\ e.ret = EEXIST))
  ELSE LET r == Apply(m, e.op, e.k, e.d) IN
     /\ Focus = "map" => e.ret = r.ret /\ (IF Opt(e, "noout", 0) = 1 THEN TRUE ELSE e.out = r.out)
     /\ Focus = "list" =>
          /\ IF e.cb = 0 THEN e.rel = <<>>
             ELSE IF e.op \in {"a", "D"} THEN Bag(e.rel) = Bag(r.rel) ELSE e.rel = r.rel
          /\ e.op = "D" => e.live = 0

ObsOk(m, e) == Focus = "list" => e.f = m /\ e.b = Rev(m)

After(m, e) == IF e.op \in {"o", "I"} \/ e.nul = 1 \/ e.fail = 1 THEN m ELSE Apply(m, e.op, e.k, e.d).m

RECURSIVE Run(_, _, _)
Run(m, ev, i) ==
  IF i > Len(ev) THEN TRUE
  ELSE /\ IF ev[i].op = "o" THEN ObsOk(m, ev[i]) ELSE CallOk(m, ev[i])
       /\ Run(After(m, ev[i]), ev, i + 1)

Good(r) == Run(<<>>, r.ev, 1)

ASSUME JudgeAll(Good)
=============================================================================
