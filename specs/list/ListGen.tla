------------------------------ MODULE ListGen ------------------------------
(* Behaviours of ListSeq over K nodes; one shortest history per transition *)
EXTENDS ListSeq, TLC, Json

CONSTANTS K, Emit

VARIABLES s, hist

Args == Heads \cup 1..K

Init == s = S(<<>>, <<>>, [n \in 1..K |-> "raw"]) /\ hist = <<>>

Next == \E op \in Ops, a \in Args, b \in Args \cup {0} :
          /\ b \notin Heads
          /\ (op \in {"af", "ab", "ad", "pu", "rp", "ri", "ma", "mb"}) => b # 0
          /\ Legal(s, op, a, b)
          /\ s' = Apply(s, op, a, b)[1]
          /\ hist' = Append(hist, <<op, a, b>>)
          /\ IF Emit THEN PrintT("GEN" \o ToJson(hist')) ELSE TRUE

Spec == Init /\ [][Next]_<<s, hist>>
View == s

Distinct(q) == \A i, j \in 1..Len(q) : q[i] = q[j] => i = j
Inv == /\ Distinct(s.a) /\ Distinct(s.b)
       /\ Elems(s.a) \cap Elems(s.b) = {}
       /\ \A n \in 1..K : (s.o[n] = "in") <=> InList(s, n)
=============================================================================
