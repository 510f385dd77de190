------------------------------- MODULE Paths -------------------------------
(* dirname and basename as POSIX words them, on sequences of characters.   *)
EXTENDS Integers, Sequences
Slash == 47
Dot == 46
RECURSIVE Strip(_)          \* without trailing slashes
Strip(p) == IF p # <<>> /\ p[Len(p)] = Slash THEN Strip(SubSeq(p, 1, Len(p) - 1)) ELSE p
AllSlash(p) == \A i \in DOMAIN p : p[i] = Slash
LastSlash(p) == IF \E i \in DOMAIN p : p[i] = Slash
                THEN CHOOSE i \in DOMAIN p : p[i] = Slash /\ \A j \in (i + 1)..Len(p) : p[j] # Slash ELSE 0
(* basename: trailing slashes do not count; the last component *)
BaseName(p) ==
  IF p = <<>> THEN <<Dot>>
  ELSE IF AllSlash(p) THEN <<Slash>>
  ELSE LET s == Strip(p) IN SubSeq(s, LastSlash(s) + 1, Len(s))
(* dirname: everything before the last component and its slashes *)
DirName(p) ==
  IF p = <<>> THEN <<Dot>>
  ELSE IF AllSlash(p) THEN <<Slash>>
  ELSE LET s == Strip(p)
           d == SubSeq(s, 1, LastSlash(s))
       IN IF d = <<>> THEN <<Dot>> ELSE IF AllSlash(d) THEN <<Slash>> ELSE Strip(d)
=============================================================================
