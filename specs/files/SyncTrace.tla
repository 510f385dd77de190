----------------------------- MODULE SyncTrace -----------------------------
(* Judges recorded calls of the sync helpers.  A disk is replayed over the *)
(* operations: synced: the sequence of objects flushed, in order.          *)
EXTENDS RecKit, SyncTree
Flushed(r) == SelectSeq(r.ops, LAMBDA x : x.op = "fsync" /\ x.ret >= 0)
EINTR == -4
Failures(r) == {i \in DOMAIN r.ops : r.ops[i].op \in {"open", "fsync", "other"} /\ r.ops[i].ret < 0}
(* an interrupted operation that the same operation follows was repeated *)
Final(r) == {i \in Failures(r) : ~(/\ r.ops[i].ret = EINTR
                                   /\ \E j \in DOMAIN r.ops : j > i /\ r.ops[j].op = r.ops[i].op /\ r.ops[j].o = r.ops[i].o
                                                              /\ r.ops[j].ret >= 0)}
FlushedAt(r, o, k) == LET s == Flushed(r) IN k \in DOMAIN s /\ s[k].o = o
Good(r) ==
  LET target == Names(r.abs, r.path)
      folder == Folder(r.abs, r.path)
      s == Flushed(r)
      possible == CASE r.abs = 3 -> FALSE
                    [] r.fn = "file" -> target # 0
                    [] r.fn = "folder" -> target \in Dirs
                    [] r.fn = "both" -> target # 0 /\ HasFolder(r.abs, r.path)
      sure == possible /\ Final(r) = {} /\ r.ahit = 0
      done == CASE r.fn \in {"file", "folder"} -> \E k \in DOMAIN s : s[k].o = target
                [] r.fn = "both" -> \E k, q \in DOMAIN s : k < q /\ s[k].o = target /\ s[q].o = folder
  IN /\ r.st = 0 /\ r.leak = 0 /\ r.intact = 1
     /\ r.ret <= 0
     /\ r.ret = 0 => done /\ target # 0 /\ Final(r) = {} /\ (r.fn = "folder" => target \in Dirs)
     \* without a fault of the environment it succeeds
     /\ (possible /\ r.hit = 0 /\ r.ahit = 0 /\ ~(Len(r.path) > 0 /\ r.path[Len(r.path)] = 47 /\ target \notin Dirs)) => r.ret = 0
     /\ sure => r.ret = 0 \/ \E i \in DOMAIN r.ops : r.ops[i].op = "close" /\ r.ops[i].ret = r.ret
     \* the error is that of a step
     /\ (r.ret < 0 /\ Final(r) # {} /\ r.ahit = 0 /\ (r.fn = "both" => HasFolder(r.abs, r.path)))
          => \E i \in Failures(r) \cup {j \in DOMAIN r.ops : r.ops[j].op = "close"} : r.ops[i].ret = r.ret
     /\ r.ret < 0 => r.ret >= -4095
ASSUME JudgeAll(Good)
=============================================================================
