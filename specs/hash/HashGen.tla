------------------------------ MODULE HashGen ------------------------------
(***************************************************************************)
(* The behaviours of HashMap over K keys: checks its invariants and, with  *)
(* Emit, prints one shortest history per transition, for the real code to  *)
(* replay (VIEW m: the history is not part of the state).                  *)
(***************************************************************************)
EXTENDS HashMap, TLC, Json

CONSTANTS K, Emit

VARIABLES m, hist

Op == {"i", "c", "r", "l", "L"}

Do(op, k) ==
  LET r == Apply(m, op, k, k) IN
  /\ m' = r.m
  /\ hist' = Append(hist, <<op, k>>)
  /\ IF Emit THEN PrintT("GEN" \o ToJson(hist')) ELSE TRUE

Init == m = <<>> /\ hist = <<>>
Next == (\E op \in Op, k \in 1..K : Do(op, k)) \/ Do("a", 0) \/ Do("D", 0)

Spec == Init /\ [][Next]_<<m, hist>>
View == m

Unique == \A i, j \in 1..Len(m) : m[i][1] = m[j][1] => i = j
\* the algebra users rely on
Laws ==
  /\ \A k \in 1..K : \A c \in 0..1 :
       LET r == Insert(m, k, k, c) IN
       /\ r.ret = 0 <=> k \notin Keys(m)
       /\ r.ret = 0 => LookupConst(r.m, k).out = k
       /\ r.ret # 0 => r.m = m
       /\ r.ret = 0 => Remove(r.m, k).m = m
  /\ \A k, x \in 1..K :
       LET r == Remove(m, k) IN
       /\ r.ret = 0 => Len(r.rel) = 1 /\ k \notin Keys(r.m)
       /\ x # k => LookupConst(r.m, x) = [LookupConst(m, x) EXCEPT !.m = r.m]
=============================================================================
