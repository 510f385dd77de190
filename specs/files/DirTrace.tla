------------------------------ MODULE DirTrace ------------------------------
(* Judges recorded calls: a tree and runs of the real function on it, each *)
(* with at most one failing operation.                                     *)
EXTENDS RecKit
Num == INSTANCE Big WITH B <- 1000
T == INSTANCE DirTree WITH ZeroSize <- Num!Zero, AddSize <- Num!Add
PathMax == 4095
RECURSIVE PathLen(_, _, _)
PathLen(plen, nodes, i) == IF i = 0 THEN plen ELSE PathLen(plen, nodes, nodes[i].p) + 1 + nodes[i].n
RunOk(r, x) ==
  LET size == T!DirSize(r.nodes, r.rec = 1)
      long == \E i \in DOMAIN r.nodes : PathLen(r.plen, r.nodes, i) > PathMax
      error == x.ret.neg
      missing == r.form \in {"none", "file"}
  IN /\ x.st = 0
     /\ x.leak = 0
     /\ CASE missing -> error
          [] x.hit > 0 /\ x.f \in {"open", "list", "stat"} -> error
          [] OTHER -> x.ret = size \/ (error /\ (long \/ (x.hit > 0 /\ x.f \in {"close", "alloc"})))
     \* the error of the step that failed
     /\ (error /\ x.hit > 0 /\ ~long /\ ~missing) => x.ret = Num!Of(-x.err)
     /\ (error /\ ~long) => Num!Lt(Num!Of(-4096), x.ret)
     /\ (r.form = "none" /\ x.hit = 0) => x.ret = Num!Of(-2)
     /\ (r.form = "file" /\ x.hit = 0) => x.ret = Num!Of(-20)
Good(r) == \A j \in DOMAIN r.runs : RunOk(r, r.runs[j])
ASSUME JudgeAll(Good)
=============================================================================
