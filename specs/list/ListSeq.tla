------------------------------ MODULE ListSeq ------------------------------
(***************************************************************************)
(* What the list operations denote: two lists (heads 101, 102) as          *)
(* sequences of nodes, and the state of the nodes outside them:            *)
(*   "unref" (poisoned), "self" (linked to itself), "raw" (anything).      *)
(* A state is [L |-> [101 |-> seq, 102 |-> seq], o |-> [node |-> status]]  *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets

Heads == {101, 102}
S(L1, L2, o) == [a |-> L1, b |-> L2, o |-> o]
Get(s, hd) == IF hd = 101 THEN s.a ELSE s.b
Put(s, hd, q) == IF hd = 101 THEN [s EXCEPT !.a = q] ELSE [s EXCEPT !.b = q]
Elems(q) == {q[i] : i \in 1..Len(q)}
InList(s, n) == n \in Elems(s.a) \cup Elems(s.b)
HeadOf(s, n) == IF n \in Heads THEN n ELSE IF n \in Elems(s.a) THEN 101 ELSE 102
Idx(q, n) == CHOOSE i \in 1..Len(q) : q[i] = n
Rev(q) == [i \in 1..Len(q) |-> q[Len(q) + 1 - i]]
Without(q, n) == SelectSeq(q, LAMBDA x : x # n)
InsertAt(q, i, n) == SubSeq(q, 1, i) \o <<n>> \o SubSeq(q, i + 1, Len(q))   \* i elements before n

Status(s, n, st) == [s EXCEPT !.o[n] = st]
Unlink(s, n) == [s EXCEPT !.a = Without(@, n), !.b = Without(@, n)]
After(s, p, n) ==
  LET hd == HeadOf(s, p)
      q == Get(s, hd) IN
  Status(Put(s, hd, InsertAt(q, IF p \in Heads THEN 0 ELSE Idx(q, p), n)), n, "in")
Before(s, p, n) ==
  LET hd == HeadOf(s, p)
      q == Get(s, hd) IN
  Status(Put(s, hd, InsertAt(q, IF p \in Heads THEN Len(q) ELSE Idx(q, p) - 1, n)), n, "in")
Subst(s, o, n) ==
  LET hd == HeadOf(s, o)
      q == Get(s, hd) IN
  Put(s, hd, [q EXCEPT ![Idx(q, o)] = n])

\* <<state afterwards, returned node (0: none)>>; a and b are the arguments
Apply(s, op, a, b) ==
  CASE op = "af" -> <<After(s, a, b), 0>>                               \* add b after a
    [] op = "ad" -> <<After(s, a, b), 0>>                               \* the same, both neighbours named
    [] op = "ab" -> <<Before(s, a, b), 0>>                              \* add b before a
    [] op = "pu" -> <<Before(s, a, b), 0>>                              \* push b on list a
    [] op = "de" -> <<Status(Unlink(s, a), a, "unref"), 0>>
    [] op = "dt" -> <<Status(Unlink(s, a), a, "raw"), 0>>               \* its neighbours joined
    [] op = "di" -> <<Status(Unlink(s, a), a, "self"), 0>>
    [] op = "rp" -> <<Status(Status(Subst(s, a, b), a, "raw"), b, "in"), 0>>   \* b replaces a
    [] op = "ri" -> <<Status(Status(Subst(s, a, b), a, "self"), b, "in"), 0>>
    [] op = "ma" -> <<After(Unlink(s, b), a, b), 0>>                    \* move b after a
    [] op = "mb" -> <<Before(Unlink(s, b), a, b), 0>>
    [] op = "po" -> IF Get(s, a) = <<>> THEN <<s, 0>>
                    ELSE LET n == Get(s, a)[1] IN <<Status(Unlink(s, n), n, "unref"), n>>
    [] op = "ni" -> <<Status(s, a, "self"), 0>>                         \* list_init of a loose node
    [] op = "un" -> <<Status(s, a, "unref"), 0>>                        \* list_node_unref of a loose node

\* what callers may do: the contract of each operation
Legal(s, op, a, b) ==
  CASE op \in {"af", "ab", "ad"} -> (a \in Heads \/ InList(s, a)) /\ b \notin Heads /\ ~InList(s, b)
    [] op = "pu" -> a \in Heads /\ b \notin Heads /\ ~InList(s, b)
    [] op \in {"de", "di"} -> a \notin Heads /\ (InList(s, a) \/ s.o[a] = "self") /\ b = 0
    [] op = "dt" -> a \notin Heads /\ InList(s, a) /\ b = 0
    [] op \in {"rp", "ri"} -> a \notin Heads /\ b \notin Heads /\ InList(s, a) /\ b # 0 /\ ~InList(s, b)
    [] op \in {"ma", "mb"} -> (a \in Heads \/ InList(s, a)) /\ b \notin Heads /\ b # 0
                              /\ (InList(s, b) \/ s.o[b] = "self") /\ a # b
    [] op = "po" -> a \in Heads /\ b = 0
    [] op \in {"ni", "un"} -> a \notin Heads /\ ~InList(s, a) /\ b = 0
    [] OTHER -> FALSE

Ops == {"af", "ab", "ad", "dt", "pu", "de", "di", "rp", "ri", "ma", "mb", "po", "ni", "un"}
=============================================================================
