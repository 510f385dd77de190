------------------------------ MODULE SyncTree ------------------------------
(* The small tree the sync helpers are tried on, and what a path names in  *)
(* it.  Objects are numbers (those of harness/syncdrv.c), 0: nothing.      *)
EXTENDS Integers, Sequences, Paths
Cwd == 1
Root == 10
Dirs == {1, 3, 5, 9, 10, 11}
f == <<102>>   d == <<100>>   g == <<103>>   e == <<101>>   h == <<104>>   l == <<108>>   m == <<109>>   n == <<110>>
DotH == <<46, 104>>
Spaced == <<115, 112, 32, 97, 99, 101>>
Etc == <<101, 116, 99>>
Child(o, name) ==
  CASE o = 1 /\ name = f -> 2
    [] o = 1 /\ name \in {d, l} -> 3          \* l is a link to d
    [] o = 1 /\ name = Spaced -> 8
    [] o = 3 /\ name = g -> 4
    [] o = 3 /\ name = e -> 5
    [] o = 3 /\ name = m -> 2                 \* m is a link to ../f
    [] o = 3 /\ name = n -> 6                 \* n is a link to e/h
    [] o = 5 /\ name = h -> 6
    [] o = 5 /\ name = DotH -> 7
    [] o = 10 /\ name = Etc -> 11
    [] OTHER -> 0
Parent(o) == CASE o = 1 -> 9 [] o = 3 -> 1 [] o = 5 -> 3 [] o = 11 -> 10 [] o = 10 -> 10 [] OTHER -> 0
Step(o, name) == IF o \notin Dirs THEN 0 ELSE IF name \in {<<>>, <<46>>} THEN o ELSE IF name = <<46, 46>> THEN Parent(o) ELSE Child(o, name)
FirstSlash(p) == IF \E i \in DOMAIN p : p[i] = Slash
                 THEN CHOOSE i \in DOMAIN p : p[i] = Slash /\ \A j \in 1..(i - 1) : p[j] # Slash ELSE Len(p) + 1
RECURSIVE Walk(_, _)
Walk(o, p) == IF p = <<>> THEN o
              ELSE LET i == FirstSlash(p) IN Walk(Step(o, SubSeq(p, 1, i - 1)), SubSeq(p, i + 1, Len(p)))
(* abs: 0 relative, 1 behind "<the directory>/", 2 from the root *)
Names(abs, p) == IF abs = 2 THEN Walk(Root, p) ELSE IF p = <<>> /\ abs = 0 THEN 0 ELSE Walk(Cwd, p)
HasFolder(abs, p) == abs = 1 \/ \E i \in DOMAIN p : p[i] = Slash
Folder(abs, p) == IF abs = 2 THEN Walk(Root, DirName(p)) ELSE Walk(Cwd, DirName(p))
(* the last component names an entry *)
Plain(p) == p # <<>> /\ p[Len(p)] # Slash /\ BaseName(p) \notin {<<46>>, <<46, 46>>}
=============================================================================
