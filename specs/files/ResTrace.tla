------------------------------ MODULE ResTrace ------------------------------
(* Judges recorded uses of the flag helpers and lives of objects.          *)
EXTENDS RecKit, FiniteSets
S(q) == {q[i] : i \in DOMAIN q}
EBADF == -9
(* which flags the descriptor's kind lets one set *)
Same(a, b) == a.ok = b.ok /\ S(a.s) = S(b.s) /\ a.rest = b.rest /\ a.fdrest = b.fdrest
GoodFlag(r) ==
  LET invalid == r.before.ok = 0
      added == CASE r.fn = "set" -> {"c"} [] r.fn = "add" -> S(r.add) [] OTHER -> {}
      changed == /\ S(r.after.s) = S(r.before.s) \cup added
                 /\ r.after.ok = 1 /\ r.after.rest = r.before.rest /\ r.after.fdrest = r.before.fdrest
      \* a second descriptor of the same open file shares its status flags only
      other == IF r.obefore.ok = 0 THEN TRUE
               ELSE /\ S(r.oafter.s) \cap {"c"} = S(r.obefore.s) \cap {"c"}
                    /\ r.oafter.rest = r.obefore.rest /\ r.oafter.fdrest = r.obefore.fdrest
                    /\ S(r.oafter.s) \ {"c"} = S(r.after.s) \ {"c"}
  IN CASE r.fn = "has" -> /\ r.ret = (IF ~invalid /\ r.hit = 0 /\ "c" \in S(r.before.s) THEN 1 ELSE 0)
                          /\ Same(r.before, r.after)
       [] invalid -> r.ret = EBADF \/ (r.hit > 0 /\ r.ret = -r.err)
       [] r.hit > 0 -> r.ret = -r.err /\ Same(r.before, r.after) /\ other
       [] OTHER -> r.ret = 0 /\ changed /\ other

Fds(s) == S(s.fds)
New(r) == Fds(r.s1) \ Fds(r.s0)
GoodObj(r) ==
  /\ r.st = 0
  /\ Fds(r.s0) \subseteq Fds(r.s1)            \* others are left alone
  /\ Fds(r.s2) = Fds(r.s0) /\ r.s2.live = 0   \* given back in the end
  /\ r.ok = 0 => New(r) = {} /\ r.s1.live = 0 \* nothing left of a failed creation
  /\ r.kind \in {"mbox", "dynmbox", "inotify", "random"} => \A f \in New(r) : f[2] = 1
  /\ (r.ok = 1 /\ r.kind = "inotify") => Cardinality(New(r)) = 1
  /\ r.kind \in {"hash", "random", "utf8", "sync"} => New(r) = {}
  /\ r.kind \in {"random", "utf8", "sync"} => r.s1.live = 0
  \* descriptor 0 is a descriptor like any other: what works beside it works with it
  /\ r.ok0 # -1 => r.ok = r.ok0 /\ r.ev = r.ev0
Good(r) == IF r.k = "flag" THEN GoodFlag(r) ELSE GoodObj(r)
ASSUME JudgeAll(Good)
=============================================================================
