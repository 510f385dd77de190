----------------------------- MODULE ListDesign -----------------------------
(***************************************************************************)
(* The pointer structure behind the lists: circular doubly linked rings,   *)
(* updated by the assignments each operation performs.  Checked against    *)
(* ListSeq: following next (prev) from a head reads the (reversed)         *)
(* sequence, whatever the operations.  Bug selects wrong assignments.      *)
(***************************************************************************)
EXTENDS ListSeq, TLC

CONSTANTS K, Bug

VARIABLES nx, pv, s

Nodes == 1..K
All == Nodes \cup Heads
P1 == 991      \* poison values
P2 == 992

Init == /\ nx = [n \in All |-> IF n \in Heads THEN n ELSE 0]
        /\ pv = [n \in All |-> IF n \in Heads THEN n ELSE 0]
        /\ s = S(<<>>, <<>>, [n \in Nodes |-> "raw"])

\* each operator returns <<nx', pv'>>
Set(f, n, v) == IF n \in All THEN [f EXCEPT ![n] = v] ELSE f
Link(m, novel, prev, next) ==
  LET x1 == Set(m[1], novel, next)
      p1 == Set(m[2], novel, prev)
      p2 == IF Bug = "nolinkback" THEN p1 ELSE Set(p1, next, novel)
      x2 == Set(x1, prev, novel) IN <<x2, p2>>
Detach(m, prev, next) == <<Set(m[1], prev, next), IF Bug = "halfdetach" THEN m[2] ELSE Set(m[2], next, prev)>>
Self(m, n) == <<Set(m[1], n, n), Set(m[2], n, n)>>
Unref(m, n) == <<Set(m[1], n, P1), Set(m[2], n, P2)>>
M == <<nx, pv>>
AddAfter(m, p, n) == Link(m, n, p, m[1][p])
AddBefore(m, p, n) == Link(m, n, m[2][p], p)
Replace(o, n) ==
  LET x1 == Set(nx, n, nx[o])
      p1 == Set(pv, x1[n], n)
      p2 == Set(p1, n, IF Bug = "staleprev" THEN pv[x1[n]] ELSE p1[o])
      x2 == Set(x1, p2[n], n) IN <<x2, p2>>

Do(op, a, b) ==
  CASE op \in {"af", "ad"} -> AddAfter(M, a, b)
    [] op = "dt" -> Detach(M, pv[a], nx[a])
    [] op \in {"ab", "pu"} -> AddBefore(M, a, b)
    [] op = "de" -> Unref(Detach(M, pv[a], nx[a]), a)
    [] op = "di" -> Self(Detach(M, pv[a], nx[a]), a)
    [] op = "rp" -> Replace(a, b)
    [] op = "ri" -> IF Bug = "noinit" THEN Replace(a, b) ELSE Self(Replace(a, b), a)
    [] op = "ma" -> LET to == IF Bug = "readearly" THEN nx[a] ELSE Detach(M, pv[b], nx[b])[1][a]
                        m == Detach(M, pv[b], nx[b]) IN
                    IF Bug = "readearly" THEN Link(m, b, a, to) ELSE AddAfter(m, a, b)
    [] op = "mb" -> AddBefore(Detach(M, pv[b], nx[b]), a, b)
    [] op = "po" -> IF nx[a] = a THEN M
                    ELSE Unref(Detach(M, pv[nx[a]], nx[nx[a]]), nx[a])
    [] op = "ni" -> Self(M, a)
    [] op = "un" -> Unref(M, a)

Next == \E op \in Ops, a \in All, b \in Nodes \cup {0} :
          /\ (op \in {"af", "ab", "ad", "pu", "rp", "ri", "ma", "mb"}) => b # 0
          /\ Legal(s, op, a, b)
          /\ s' = Apply(s, op, a, b)[1]
          /\ nx' = Do(op, a, b)[1]
          /\ pv' = Do(op, a, b)[2]

Spec == Init /\ [][Next]_<<nx, pv, s>>

RECURSIVE Follow(_, _, _, _)
Follow(f, n, stop, fuel) ==
  IF n = stop THEN <<>> ELSE IF fuel = 0 \/ n \notin All THEN <<n, "lost">> ELSE <<n>> \o Follow(f, f[n], stop, fuel - 1)

Reads == \A hd \in Heads : /\ Follow(nx, nx[hd], hd, K + 1) = Get(s, hd)
                           /\ Follow(pv, pv[hd], hd, K + 1) = Rev(Get(s, hd))
Loose == \A n \in Nodes : /\ s.o[n] = "unref" => nx[n] = P1 /\ pv[n] = P2
                          /\ s.o[n] = "self" => nx[n] = n /\ pv[n] = n
=============================================================================
