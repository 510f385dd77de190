----------------------------- MODULE TextTrace -----------------------------
(* Judges calls of the C++ helpers; strings are sequences of bytes.        *)
EXTENDS Paths, RecKit
Prefix(a, p) == Len(p) <= Len(a) /\ SubSeq(a, 1, Len(p)) = p
Suffix(a, s) == Len(s) <= Len(a) /\ SubSeq(a, Len(a) - Len(s) + 1, Len(a)) = s
Lower(a) == [i \in DOMAIN a |-> IF a[i] \in 65..90 THEN a[i] + 32 ELSE a[i]]
(* exactly two leading slashes, and nothing else is left: POSIX lets the   *)
(* implementation answer "//"                                              *)
TwoSlashes(p) == /\ Len(p) >= 2 /\ p[1] = Slash /\ p[2] = Slash
                 /\ Len(p) > 2 => p[3] # Slash
                 /\ DirName(p) = <<Slash>>
Good(r) ==
  /\ r.same = 1                     \* arguments as before
  /\ CASE r.k = "pre" -> r.r = (IF Prefix(r.a, r.b) THEN 1 ELSE 0)
       [] r.k = "suf" -> r.r = (IF Suffix(r.a, r.b) THEN 1 ELSE 0)
       [] r.k = "low" -> r.o = Lower(r.a)
       [] r.k = "dir" -> (r.o = DirName(r.a) \/ (TwoSlashes(r.a) /\ r.o = <<Slash, Slash>>))
       [] r.k = "base" -> (r.o = BaseName(r.a) \/ (r.a = <<Slash, Slash>> /\ r.o = r.a))
ASSUME JudgeAll(Good)
=============================================================================
