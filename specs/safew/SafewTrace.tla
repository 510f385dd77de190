----------------------------- MODULE SafewTrace -----------------------------
(***************************************************************************)
(* Judges recorded runs of the safe-write API.  Mode (IOEnv.MODE):         *)
(*  S01  commits: every crash state's target is the old or the new version *)
(*  S03  commits and checks: crash states are emitted for the next round;  *)
(*       a completed check leaves one version complete                     *)
(*  S02  commits with faults;  S04  checks, by the documented table        *)
(***************************************************************************)
EXTENDS RecKit, FsCrash, SafewTable

Mode == IOEnv.MODE
Toks(s) == s       \* <<P,T,C,K>>
RL(r) == [v1 |-> r.n1, v2 |-> r.n2, c1 |-> r.cn, c2 |-> r.cn]
Ok(r) == r.crash = 0 /\ r.killed = 0

\* the model of the file system has to agree with the real one ("g" and cut
\* files are all unknown content to the observer)
Seen(t, o) == \/ t = o
              \/ o = "x" /\ t \notin {"-", "1", "2", "e"}
              \/ t \in {"h1", "h2", "z1", "z2"} /\ o \in {"x", "e"}
ModelAgrees(r) ==
  LET f == Final(r.init, r.ops, RL(r)) IN
  \A i \in 1..4 : Seen(f[i], r.fin[i]) \/ f[i] = "g"

\* ---------------------------------------------------------------- S01
AtomicAt(r, st) == Base(st[1]) \in {Base(r.init[1]), "2"}
S01(r) ==
  /\ Ok(r)
  /\ \A st \in KillStates(r.init, r.ops, RL(r)) : AtomicAt(r, st)
  /\ \A st \in PowerStates(r.init, r.ops, RL(r)) : AtomicAt(r, st)
  /\ r.ret = 0 => r.fin[1] = "2"
  /\ r.fin[1] \in {Base(r.init[1]), "2"}

\* the process was really killed at one of the operations
S01K(r) == r.crash = 0 /\ r.fin[1] \in {Base(r.init[1]), "2"}

\* ---------------------------------------------------------------- S03
\* had: a valid pair existed when the interrupted commit began
May(r) == {r.mayv[i] : i \in 1..Len(r.mayv)}
S03(r) ==
  /\ Ok(r)
  /\ IF r.what = "check"
     THEN \/ r.ret = 0 /\ \E v \in May(r) : r.fin = Kept(v)
          \/ r.had = 0 /\ r.ret = -1 /\ r.fin = Nothing
     ELSE r.ret = 0 /\ r.fin = Kept("2")
Emit(r, i) ==
  PrintT("CRASH" \o ToJson([i |-> i, st |-> KillStates(r.init, r.ops, RL(r)) \cup PowerStates(r.init, r.ops, RL(r))]))

\* a session with failing operations: the same at every crash point
S01F(r) ==
  /\ Ok(r)
  /\ \A st \in KillStates(r.init, r.ops, RL(r)) : AtomicAt(r, st)
  /\ \A st \in PowerStates(r.init, r.ops, RL(r)) : AtomicAt(r, st)
  /\ r.fin[1] \in {Base(r.init[1]), "2"}

\* ---------------------------------------------------------------- S02
(* Success is not reported over a failed step: what failed was done again. *)
Ours == {"P", "T", "C", "K"}
ForWriting(ops, i) == \E j \in 1..(i - 1) : /\ ops[j].o = "open" /\ ops[j].r = ops[i].fd /\ ops[j].w = 1
                                           /\ \A k \in (j + 1)..(i - 1) : ~(ops[k].o = "open" /\ ops[k].r = ops[i].fd)
Failed(ops, i) ==
  /\ ops[i].r < 0 /\ ops[i].n \in Ours
  /\ ops[i].o \in {"write", "fsync", "rename"} \/ (ops[i].o = "close" /\ ForWriting(ops, i))
Redone(ops, i) == \E j \in (i + 1)..Len(ops) : /\ ops[j].r >= 0 /\ ops[j].o = ops[i].o /\ ops[j].n = ops[i].n /\ ops[j].m = ops[i].m
                                              /\ (ops[i].o = "write" => ops[j].off = ops[i].off)
                                              /\ (ops[i].o = "close" => ForWriting(ops, j))
Honest(r) == (r.ret = 0 /\ r.end # "rollback" /\ Has(r, "ops")) => \A i \in 1..Len(r.ops) : Failed(r.ops, i) => Redone(r.ops, i)
S02(r) ==
  /\ r.crash = 0 /\ r.leak = 0
  /\ r.extra = 0
  /\ Honest(r)
  /\ CASE r.end = "rollback" ->
            /\ r.fin[1] = r.init[1] /\ r.fin[3] = r.init[3]
            /\ r.hit = 0 => r.ret = 0 /\ r.fin[2] = "-" /\ r.fin[4] = r.init[4]
            /\ r.ret = 0 => r.fin[2] = "-"
            \* whatever else fails: the temporary file is removed
            /\ (r.opened = 1 /\ Has(r, "ops") /\ \A i \in 1..Len(r.ops) : r.ops[i].o = "unlink" => r.ops[i].r \in {0, -2})
                 => r.fin[2] = "-"
       [] r.ret = 0 ->       \* reported success
            /\ r.bad = 0 /\ r.opened = 1
            /\ r.fin[1] = "2" /\ r.fin[2] = "-"
            /\ r.end = "crc" => r.fin[3] = "2" /\ r.fin[4] = "-"
            /\ r.end = "commit" => r.fin[3] = r.init[3]
       [] OTHER ->           \* reported failure
            /\ r.hit > 0
            /\ r.fin[1] \in {r.init[1], "2"}
            /\ r.end = "crc" =>
                 LET o == Outcome(r.fin) IN
                 IF r.init[1] # "-" THEN o.ret = 0
                 ELSE r.fin[1] = "2" => o.ret = 0
            /\ r.end = "commit" => r.fin[3] = r.init[3]

\* ---------------------------------------------------------------- S04
\* clean run: the table; faulty run followed by a clean one: no loss
S04(r) ==
  /\ r.crash = 0 /\ r.leak = 0 /\ r.extra = 0
  /\ IF r.hit = 0
     THEN LET o == Outcome(r.init) IN r.ret = o.ret /\ r.fin = o.fin
     ELSE LET o == Outcome(r.init)
              n == Outcome(r.fin) IN
          \* a fault may postpone, not destroy
          /\ r.ret \in {0, -1}
          /\ r.ret = 0 => o.ret = 0 /\ \E v \in Surviving(r.init) : r.fin[1] = v /\ r.fin[3] = v
          /\ o.ret = 0 => n.ret = 0 /\ n.fin[1] \in Surviving(r.init)

\* a path that is too long: everything stays, or everything works
S04L(r) == /\ r.crash = 0
           /\ \/ r.ret = -1 /\ r.fin = r.init
              \/ r.ret = Outcome(r.init).ret /\ r.fin = Outcome(r.init).fin

\* the same for a commit
S02L(r) == /\ r.crash = 0 /\ r.leak = 0 /\ r.extra = 0
           /\ IF r.opened = 0 THEN r.fin = r.init ELSE S02(r) /\ (r.end # "rollback" => r.ret = 0 \/ r.fin = r.init)

\* formatted text of fmt bytes may be refused from 128 bytes on, as any failure
S02X(r) == S02(IF r.fmt >= 128 /\ r.end # "rollback" THEN [r EXCEPT !.hit = @ + 1] ELSE r)

Good(r) == CASE Mode = "S01" -> S01(r) [] Mode = "S02" -> S02(r)
             [] Mode = "S01K" -> S01K(r) [] Mode = "S01F" -> S01F(r) [] Mode = "S04L" -> S04L(r) [] Mode = "S02L" -> S02L(r) [] Mode = "S02X" -> S02X(r)
             [] Mode = "S03" -> S03(r) [] Mode = "S04" -> S04(r)

Agree == \A i \in 1..Len(Recs) : Has(Recs[i], "ops") =>
           IF ModelAgrees(Recs[i]) THEN TRUE
           ELSE PrintT("DISAGREE" \o ToJson([i |-> i, model |-> Final(Recs[i].init, Recs[i].ops, RL(Recs[i])), rec |-> Recs[i]]))
Emits == Mode = "S03" => \A i \in 1..Len(Recs) : Emit(Recs[i], i)

ASSUME JudgeAll(Good)
ASSUME Agree
ASSUME Emits
=============================================================================
