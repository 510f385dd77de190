----------------------------- MODULE SafewDesign -----------------------------
(***************************************************************************)
(* The checksummed safe write and its recovery check as programs over the  *)
(* crashing file system of FsCrash.  Writer sessions, failures of any      *)
(* operation, kills, power losses and nested recoveries interleave freely. *)
(* The constants switch single steps of the programs off or reverse them   *)
(* (all TRUE: the code as it stands).                                      *)
(***************************************************************************)
EXTENDS SafewTable, FsCrash

CONSTANTS SyncPayload,      \* payload.tmp synchronised before it is moved
          SyncCrc,          \* crc.tmp too
          PayloadFirst,     \* recovery moves the payload before the checksum
          SyncRecovered,    \* recovery synchronises before moving
          ToleratesShort,   \* an unreadable crc.tmp does not condemn the rest
          KeepsOldCrc,      \* a failing commit leaves the old checksum alone
          EraseOnError,     \* FALSE: an I/O error never erases
          MaxCrashes, MaxFaults

VARIABLES fs, todo, mode, decided, had, crashes, faults
vars == <<fs, todo, mode, decided, had, crashes, faults>>

RL == [v1 |-> 4, v2 |-> 4, c1 |-> 2, c2 |-> 2]
Op(o, n, m) == [o |-> o, n |-> n, m |-> m, fd |-> 3, r |-> 1, tr |-> 0, cr |-> 0, off |-> 0, len |-> 0, ma |-> 0]
Creat(n) == [Op("open", n, "") EXCEPT !.tr = 1, !.cr = 1]
Wr(off, len, ma) == [Op("write", "", "") EXCEPT !.off = off, !.len = len, !.r = len, !.ma = ma]
Sync == Op("fsync", "", "")
SyncN(n) == Op("syncname", n, "")
Mv(n, m) == Op("rename", n, m)
Rm(n) == Op("unlink", n, "")

\* fsync of a named file (recovery synchronises files it has open)
Do(s, op) == IF op.o = "syncname"
             THEN IF op.n \in DOMAIN Dir(s) THEN [s EXCEPT !.files[Dir(s)[op.n]].dirty = FALSE] ELSE s
             ELSE Apply(s, op)

Commit == <<Rm("T"), Creat("T"), Wr(0, 2, 2), Wr(2, 2, 2)>>
          \o (IF SyncPayload THEN <<Sync>> ELSE <<>>)
          \o <<Creat("K"), Wr(0, 2, 8)>>
          \o (IF SyncCrc THEN <<Sync>> ELSE <<>>)
          \o <<Mv("T", "P"), Mv("K", "C")>>

st == Now(fs, RL)
Short(t) == t \in {"e", "h1", "h2"}

\* what the check decides to do, as a list of operations
Moves(both) == (IF SyncRecovered THEN (IF both THEN <<SyncN("T"), SyncN("K")>> ELSE <<SyncN("P"), SyncN("K")>>) ELSE <<>>)
               \o (IF ~both THEN <<Mv("K", "C")>>
                   ELSE IF PayloadFirst THEN <<Mv("T", "P"), Mv("K", "C")>>
                   ELSE <<Mv("K", "C"), Mv("T", "P")>>)
EraseAll == <<Rm("T"), Rm("K"), Rm("P"), Rm("C")>>
CleanTmp == <<Rm("T"), Rm("K")>>
Plan ==
  LET s == st
      d == Designated(s)
      usesTmp == /\ Has4(s[2]) /\ Valid(s[2], s[4]) /\ (Has4(s[1]) => ~(Has4(s[3]) /\ ~Has4(s[4])))
  IN IF ~ToleratesShort /\ Has4(s[1]) /\ Has4(s[3]) /\ Short(s[4]) THEN EraseAll
     ELSE IF d = "-" THEN EraseAll
     ELSE IF usesTmp THEN Moves(TRUE) \o CleanTmp
     ELSE IF Valid(s[1], s[3]) THEN CleanTmp
     ELSE Moves(FALSE) \o CleanTmp

Init == /\ \E start \in {<<"-", "-", "-", "-">>, <<"1", "-", "1", "-">>} :
             fs = InitFs(start) /\ had = (start[1] # "-")
        /\ todo = <<>> /\ mode = "idle" /\ decided = FALSE /\ crashes = 0 /\ faults = 0

Rest(s) == InitFs(Killed(s, RL))       \* history of the directory forgotten

Start == /\ mode = "idle" /\ decided = FALSE
         /\ mode' = "commit" /\ todo' = Commit
         /\ UNCHANGED <<fs, decided, had, crashes, faults>>
Step == /\ mode \in {"commit", "fail", "check"} /\ todo # <<>>
        /\ fs' = Do(fs, Head(todo)) /\ todo' = Tail(todo)
        /\ UNCHANGED <<mode, decided, had, crashes, faults>>
EndCommit == /\ mode = "commit" /\ todo = <<>>
             /\ mode' = "committed" /\ UNCHANGED <<fs, todo, decided, had, crashes, faults>>
EndFail == /\ mode = "fail" /\ todo = <<>>
           /\ mode' = "down" /\ fs' = Rest(fs) /\ UNCHANGED <<todo, decided, had, crashes, faults>>
\* an operation of the commit fails: what the error path does
Fault == /\ mode = "commit" /\ todo # <<>> /\ faults < MaxFaults
         /\ faults' = faults + 1
         /\ LET moved == \A i \in 1..Len(todo) : todo[i] # Mv("T", "P") IN
            todo' = IF ~KeepsOldCrc THEN <<Rm("T"), Rm("C"), Rm("K")>>
                    ELSE IF moved THEN <<>> ELSE <<Rm("T"), Rm("K")>>
         /\ mode' = "fail" /\ UNCHANGED <<fs, decided, had, crashes>>
\* an operation of the check fails: it stops (or, in the variant, erases)
CheckFault == /\ mode = "check" /\ todo # <<>> /\ faults < MaxFaults
              /\ Head(todo).o \in {"rename", "syncname"}
              /\ faults' = faults + 1
              /\ IF EraseOnError THEN todo' = EraseAll /\ mode' = "check"
                 ELSE todo' = <<>> /\ mode' = "down"
              /\ fs' = Rest(fs) /\ UNCHANGED <<decided, had, crashes>>
Kill == /\ mode \in {"commit", "fail", "check", "committed", "checked"}
        /\ crashes < MaxCrashes /\ crashes' = crashes + 1
        /\ fs' = Rest(fs)
        /\ mode' = "down" /\ todo' = <<>> /\ UNCHANGED <<decided, had, faults>>
Power == /\ mode \in {"commit", "fail", "check", "committed", "checked", "down"}
         /\ crashes < MaxCrashes /\ crashes' = crashes + 1
         /\ \E s \in PowerLoss(fs, RL) : fs' = InitFs(s)
         /\ mode' = "down" /\ todo' = <<>> /\ UNCHANGED <<decided, had, faults>>
Check == /\ mode = "down"
         /\ mode' = "check" /\ todo' = Plan
         /\ UNCHANGED <<fs, decided, had, crashes, faults>>
EndCheck == /\ mode = "check" /\ todo = <<>>
            /\ mode' = "checked" /\ UNCHANGED <<fs, todo, decided, had, crashes, faults>>

Next == Start \/ Step \/ EndCommit \/ EndFail \/ Fault \/ CheckFault \/ Kill \/ Power \/ Check \/ EndCheck
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------- properties
\* S01: the target is never a mixture (a plain power loss after success may
\* only bring the previous version back)
Atomic == st[1] \in {"-", "1", "2"} /\ (had => st[1] # "-" \/ mode = "check" \/ Designated(st) # "-")
AtomicOnDisk == \A s \in PowerLoss(fs, RL) : s[1] \in {"-", "1", "2"}
\* S03: a completed check leaves a version, and always can
Recovers == mode = "checked" => IF had THEN st \in {Kept("1"), Kept("2")}
                                ELSE st \in {Nothing, Kept("2")}
NeverLost == (had /\ mode = "down") => Designated(st) # "-"
Success == mode = "committed" => st = Kept("2")
=============================================================================
