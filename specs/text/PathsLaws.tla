----------------------------- MODULE PathsLaws -----------------------------
(* The definition against a one-pass machine over the characters, on all   *)
(* strings over the alphabet; and dirname "/" basename names the same.     *)
EXTENDS Paths, TLC
CONSTANTS Alphabet, MaxLen, Variant
VARIABLES p, base, dir, prev, abs, gap
vars == <<p, base, dir, prev, abs, gap>>
(* machine: base = current last component, dir = path before it, gap =     *)
(* inside slashes after a component                                        *)
Init == p = <<>> /\ base = <<>> /\ dir = <<>> /\ prev = <<>> /\ abs = FALSE /\ gap = FALSE
Step(c) ==
  /\ p' = Append(p, c)
  /\ IF c = Slash THEN /\ gap' = TRUE /\ abs' = (abs \/ p = <<>>) /\ UNCHANGED <<base, dir, prev>>
     ELSE IF gap \/ p = <<>> THEN
        /\ dir' = (IF base = <<>> THEN (IF abs THEN <<Slash>> ELSE <<>>) ELSE prev)
        /\ prev' = (IF Variant = "squeeze" THEN prev ELSE p) \o <<c>>
        /\ base' = <<c>> /\ gap' = FALSE /\ abs' = abs
     ELSE base' = Append(base, c) /\ prev' = Append(prev, c) /\ UNCHANGED <<dir, abs, gap>>
Next == Len(p) < MaxLen /\ \E c \in Alphabet : Step(c)
Spec == Init /\ [][Next]_vars
MBase == IF base = <<>> THEN (IF abs THEN <<Slash>> ELSE <<Dot>>) ELSE base
MDir == IF base = <<>> THEN (IF abs THEN <<Slash>> ELSE <<Dot>>) ELSE IF dir = <<>> THEN <<Dot>> ELSE dir
Agree == MBase = BaseName(p) /\ MDir = DirName(p)
NoSlash == BaseName(p) = <<Slash>> \/ \A i \in DOMAIN BaseName(p) : BaseName(p)[i] # Slash
=============================================================================
