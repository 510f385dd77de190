------------------------------- MODULE FsCrash -------------------------------
(***************************************************************************)
(* A file system with crashes.  A directory maps names to files; creations,*)
(* renames and removals reach the disk in order (any prefix of them may    *)
(* have done so when the power fails); the data of a file is on disk once  *)
(* it was synchronised, otherwise it may be missing, cut or blank.  A      *)
(* killed process loses nothing that it had handed to the system.          *)
(* The operations are those recorded from the real code; Run applies them, *)
(* Crashes(ops) is the set of states a crash at any point may leave.       *)
(*                                                                         *)
(* Content tokens: "-" absent; "1","2" version (of payload or checksum)    *)
(* complete; "e" empty; "h1","h2" cut; "z1","z2" blank; "g" anything else. *)
(* A trailing "*" marks data not yet on disk.                              *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

Bit(m, b) == (m \div b) % 2 = 1
\* matched references of a write, as <<kind, version>> tokens
Refs == {"v1", "v2", "c1", "c2"}
RefBit == [v1 |-> 1, v2 |-> 2, c1 |-> 4, c2 |-> 8]
Matches(m) == {r \in Refs : Bit(m, RefBit[r])}
Ver(r) == IF r \in {"v1", "c1"} THEN "1" ELSE "2"

Base(t) == IF t \in {"1*", "2*", "e*", "h1*", "h2*", "z1*", "z2*", "g*", "s1*", "s2*", "b1*", "b2*"} THEN
             CASE t = "1*" -> "1" [] t = "2*" -> "2" [] t = "e*" -> "e" [] t = "h1*" -> "h1"
               [] t = "h2*" -> "h2" [] t = "z1*" -> "z1" [] t = "z2*" -> "z2" [] t = "s1*" -> "h1"
               [] t = "s2*" -> "h2" [] t = "b1*" -> "g" [] t = "b2*" -> "g" [] OTHER -> "g"
           ELSE t
Dirty(t) == Base(t) # t

\* a file: tok # "" if its content is known as a token (initial files), else
\* len bytes that match the references in ma
FileOf(t) == [tok |-> Base(t), len |-> 0, ma |-> {}, dirty |-> Dirty(t)]
NewFile == [tok |-> "", len |-> 0, ma |-> Refs, dirty |-> TRUE]

\* content of file f as a token, RL[r] being the length of reference r
Content(f, RL) ==
  IF f.tok # "" THEN f.tok
  ELSE IF f.len = 0 THEN "e"
  ELSE LET full == {r \in f.ma : RL[r] = f.len}
           some == f.ma IN
       IF full # {} THEN Ver(CHOOSE r \in full : TRUE)
       ELSE IF some # {} THEN (IF \E r \in some : Ver(r) = "2" THEN "h2" ELSE "h1")
       ELSE "g"

VerOf(t) == IF t \in {"1", "h1", "z1"} THEN "1" ELSE IF t \in {"2", "h2", "z2"} THEN "2" ELSE ""

\* what the disk may hold of a file after power loss
Durable(f, RL) ==
  LET c == Content(f, RL) IN
  IF ~f.dirty THEN {c}
  ELSE {c, "e"} \cup (IF VerOf(c) # "" THEN {"h" \o VerOf(c), "z" \o VerOf(c)} ELSE {"g"})

Names4 == <<"P", "T", "C", "K">>
EmptyFn == [x \in {} |-> 0]

InitFs(st) ==
  LET present == {i \in 1..4 : st[i] # "-"} IN
  [dirs  |-> <<[n \in {Names4[i] : i \in present} |-> (CHOOSE i \in 1..4 : Names4[i] = n)]>>,
   files |-> [i \in present |-> FileOf(st[i])],
   fds   |-> EmptyFn,
   next  |-> 5]

Dir(s) == s.dirs[Len(s.dirs)]
SetDir(s, d) == [s EXCEPT !.dirs = Append(@, d)]
Without(d, n) == [x \in (DOMAIN d) \ {n} |-> d[x]]
With(d, n, v) == [x \in (DOMAIN d) \cup {n} |-> IF x = n THEN v ELSE d[x]]

Apply(s, op) ==
  IF op.r < 0 THEN s
  ELSE CASE op.o = "open" ->
         IF op.n \in DOMAIN Dir(s)
         THEN LET i == Dir(s)[op.n] IN
              [s EXCEPT !.fds = With(@, op.fd, i),
                        !.files = IF op.tr = 1 THEN [@ EXCEPT ![i] = NewFile] ELSE @]
         ELSE LET i == s.next
                  s1 == SetDir(s, With(Dir(s), op.n, i)) IN
              [s1 EXCEPT !.fds = With(@, op.fd, i), !.files = With(@, i, NewFile), !.next = i + 1]
    [] op.o = "write" /\ op.fd \in DOMAIN s.fds ->
         LET i == s.fds[op.fd]
             f == s.files[i] IN
         [s EXCEPT !.files = With(@, i,
            IF f.tok = "" /\ op.off = f.len
            THEN [f EXCEPT !.len = @ + op.len, !.ma = @ \cap Matches(op.ma), !.dirty = TRUE]
            ELSE [tok |-> "g", len |-> 0, ma |-> {}, dirty |-> TRUE])]
    [] op.o = "trunc" ->
         LET i == IF op.fd \in DOMAIN s.fds THEN s.fds[op.fd]
                  ELSE IF op.n \in DOMAIN Dir(s) THEN Dir(s)[op.n] ELSE 0 IN
         IF i = 0 THEN s
         ELSE [s EXCEPT !.files = With(@, i, IF op.len = 0 THEN NewFile
                                   ELSE [tok |-> "g", len |-> 0, ma |-> {}, dirty |-> TRUE])]
    [] op.o = "fsync" /\ op.n = "*" ->
         [s EXCEPT !.files = [i \in DOMAIN @ |-> [@[i] EXCEPT !.dirty = FALSE]]]
    [] op.o = "fsync" /\ op.fd \in DOMAIN s.fds ->
         [s EXCEPT !.files = With(@, s.fds[op.fd], [@[s.fds[op.fd]] EXCEPT !.dirty = FALSE])]
    [] op.o = "close" -> [s EXCEPT !.fds = Without(@, op.fd)]
    [] op.o = "rename" /\ op.n \in DOMAIN Dir(s) ->
         SetDir(s, With(Without(Dir(s), op.n), op.m, Dir(s)[op.n]))
    [] op.o = "unlink" /\ op.n \in DOMAIN Dir(s) -> SetDir(s, Without(Dir(s), op.n))
    [] OTHER -> s

\* states before each operation and after the last: <<s_0, ..., s_n>>
RECURSIVE RunAll(_, _, _)
RunAll(s, ops, i) == IF i > Len(ops) THEN <<s>> ELSE <<s>> \o RunAll(Apply(s, ops[i]), ops, i + 1)

Tok(s, d, n, RL) == IF n \notin DOMAIN d THEN "-" ELSE Content(s.files[d[n]], RL)
Star(s, d, n, RL) == IF n \notin DOMAIN d THEN "-"
                     ELSE Content(s.files[d[n]], RL) \o (IF s.files[d[n]].dirty THEN "*" ELSE "")
Now(s, RL) == [i \in 1..4 |-> Tok(s, Dir(s), Names4[i], RL)]
Killed(s, RL) == [i \in 1..4 |-> Star(s, Dir(s), Names4[i], RL)]
PowerLoss(s, RL) ==
  UNION { LET d == s.dirs[j]
              opts(n) == IF n \notin DOMAIN d THEN {"-"} ELSE Durable(s.files[d[n]], RL)
          IN {<<p, t, c, k>> : p \in opts("P"), t \in opts("T"), c \in opts("C"), k \in opts("K")}
          : j \in 1..Len(s.dirs) }

\* half of a write may have been done when the process dies
Half(op) == IF op.o = "write" /\ op.r > 1 THEN [op EXCEPT !.len = @ \div 2] ELSE op

KillStates(init, ops, RL) ==
  LET R == RunAll(InitFs(init), ops, 1) IN
  {Killed(R[i], RL) : i \in 1..Len(R)} \cup
  {Killed(Apply(R[i], Half(ops[i])), RL) : i \in 1..Len(ops)}
PowerStates(init, ops, RL) ==
  LET R == RunAll(InitFs(init), ops, 1) IN
  UNION {PowerLoss(R[i], RL) : i \in 1..Len(R)} \cup
  UNION {PowerLoss(Apply(R[i], Half(ops[i])), RL) : i \in 1..Len(ops)}
Final(init, ops, RL) == LET R == RunAll(InitFs(init), ops, 1) IN Now(R[Len(R)], RL)
=============================================================================
