------------------------------ MODULE Creation ------------------------------
(* Which mailboxes can be created, what they then say about themselves, and *)
(* how they treat a message of the largest size and one beyond it.          *)
EXTENDS RecKit

PipeBuf == 4096
DynMax == 65532

Accepts(kind, sz) == IF kind = "fix" THEN sz >= 1 /\ sz < PipeBuf ELSE sz <= DynMax

Good(r) ==
  IF ~Accepts(r.kind, r.sz) THEN r.made = 0
  ELSE /\ r.made = 1
       /\ r.kind = "dyn" => r.max = r.sz
       /\ r.fd >= 0
       /\ r.emptyread = -11           \* nothing to read, without waiting
       /\ r.push = 0 /\ r.readlen = (IF r.kind = "dyn" THEN r.sz ELSE 0) /\ r.same = 1
       /\ r.kind = "dyn" => r.beyond = -22
       /\ r.nullfd = -1
       /\ r.kind = "dyn" => r.nullmax = -22

ASSUME JudgeAll(Good)
=============================================================================
