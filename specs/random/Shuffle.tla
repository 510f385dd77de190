------------------------------ MODULE Shuffle ------------------------------
(* Exchanging each position with a later or the same one chosen evenly:    *)
(* every sequence of choices is explored, and leads to each permutation    *)
(* exactly once (evenness).                                                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, Variant
VARIABLES n, arr, u, seen
vars == <<n, arr, u, seen>>
Swap(a, i, j) == [a EXCEPT ![i] = a[j], ![j] = a[i]]
Choices(m, k) == CASE Variant = "self" -> 1..(m - k) \cup (IF m = k THEN {0} ELSE {})
                   [] Variant = "full" -> (1 - k + 100)..(m - k + 100)
                   [] Variant = "short" -> 0..(IF m - k > 1 THEN m - k - 1 ELSE m - k)
                   [] OTHER -> 0..(m - k)
(* results of all sequences of choices, with the number of ways *)
RECURSIVE Ways(_, _, _)
Ways(a, k, target) ==
  IF k >= Len(a) THEN IF a = target THEN 1 ELSE 0
  ELSE LET RECURSIVE Sum(_)
           Sum(C) == IF C = {} THEN 0 ELSE LET r == CHOOSE r \in C : TRUE
                                           IN Ways(Swap(a, k, IF Variant = "full" THEN k + r - 100 ELSE k + r), k + 1, target) + Sum(C \ {r})
       IN Sum(Choices(Len(a), k))
Id(m) == [i \in 1..m |-> i]
Perms(m) == {p \in [1..m -> 1..m] : \A i, j \in 1..m : i # j => p[i] # p[j]}

Init == n \in 0..N /\ arr = Id(n) /\ u = 1 /\ seen = {}
Next == /\ u < n /\ \E r \in Choices(n, u) : arr' = Swap(arr, u, IF Variant = "full" THEN u + r - 100 ELSE u + r)
        /\ u' = u + 1 /\ UNCHANGED <<n, seen>>
Spec == Init /\ [][Next]_vars
Permutation == arr \in Perms(n)
Even == u = 1 => \A p \in Perms(n) : Ways(Id(n), 1, p) = Ways(Id(n), 1, Id(n)) /\ Ways(Id(n), 1, p) > 0
=============================================================================
