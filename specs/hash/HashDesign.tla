----------------------------- MODULE HashDesign -----------------------------
(***************************************************************************)
(* The implementation's design: an array of chains (new entries at the     *)
(* head) plus a doubly linked list of all entries, entries being cells     *)
(* with an owner (allocated / freed).  Checked to refine HashMap: every    *)
(* call yields the results HashMap gives, for every hash function from     *)
(* keys to buckets.  Wrong designs are selected by Bug and must be refuted *)
(***************************************************************************)
EXTENDS HashMap, TLC

CONSTANTS K, B, Bug

VARIABLES hf,        \* hash function Keys -> Buckets, chosen once
          chain,     \* Buckets -> sequence of cells, head first
          list,      \* sequence of cells
          rel,       \* data released by the last call
          ret, out,  \* its results
          abs, exp   \* HashMap state, and HashMap's result for the last call

vars == <<hf, chain, list, rel, ret, out, abs, exp>>

Pos(s, k) == LET P == {i \in 1..Len(s) : s[i][1] = k} IN
             IF P = {} THEN 0 ELSE CHOOSE i \in P : \A j \in P : i <= j

DropKey(s, k) == SelectSeq(s, LAMBDA e : e[1] # k)

Init == /\ hf \in [1..K -> 1..B]
        /\ chain = [b \in 1..B |-> <<>>] /\ list = <<>>
        /\ rel = <<>> /\ ret = 0 /\ out = Untouched
        /\ abs = <<>> /\ exp = R(<<>>, 0, Untouched, <<>>)

Spec0(op, k) == LET r == Apply(abs, op, k, k) IN abs' = r.m /\ exp' = r

DoInsert(k, c) ==
  LET b == hf[k]
      p == CASE Bug = "nodup" -> 0
             [] Bug = "duphead" -> IF Len(chain[b]) > 0 /\ chain[b][1][1] = k THEN 1 ELSE 0
             [] OTHER -> Pos(chain[b], k) IN
  /\ IF p > 0 THEN /\ UNCHANGED <<chain, list>> /\ ret' = EEXIST
                   /\ rel' = IF Bug = "relfail" THEN <<k>> ELSE <<>>
     ELSE /\ chain' = [chain EXCEPT ![b] = <<<<k, k, c>>>> \o @]
          /\ list' = IF Bug = "listhead" THEN <<<<k, k, c>>>> \o list ELSE Append(list, <<k, k, c>>)
          /\ ret' = 0 /\ rel' = <<>>
  /\ out' = Untouched
  /\ Spec0(IF c = 1 THEN "c" ELSE "i", k)

DoRemove(k) ==
  LET b == hf[k]
      p == Pos(chain[b], k) IN
  /\ IF p = 0 THEN UNCHANGED <<chain, list>> /\ ret' = ENOENT /\ rel' = <<>>
     ELSE /\ chain' = [chain EXCEPT ![b] =
                 IF Bug = "chaincut" /\ p = 1 THEN <<>>                    \* loses the rest
                 ELSE IF Bug = "skipone" /\ p > 1 THEN SubSeq(@, 1, p - 2) \o SubSeq(@, p + 1, Len(@))
                 ELSE DropKey(@, k)]
          /\ list' = IF Bug = "nolist" THEN list ELSE DropKey(list, k)
          /\ ret' = 0
          /\ rel' = IF Bug = "norel" THEN <<>> ELSE <<chain[b][p][2]>>
  /\ out' = Untouched
  /\ Spec0("r", k)

RECURSIVE Cat(_, _)
Cat(f, b) == IF b = 0 THEN <<>> ELSE Cat(f, b - 1) \o f[b]

DoClear ==
  LET all == Cat(chain, B) IN
  /\ chain' = [b \in 1..B |-> IF Bug = "clearlast" /\ b = B THEN chain[b] ELSE <<>>]
  /\ list' = <<>>
  /\ rel' = [i \in 1..Len(all) |-> all[i][2]]
  /\ ret' = 0 /\ out' = Untouched
  /\ Spec0("a", 0)

DoLookup(k, op) ==
  LET b == hf[k]
      p == Pos(chain[b], k) IN
  /\ UNCHANGED <<chain, list>>
  /\ rel' = <<>>
  /\ IF p = 0 THEN ret' = ENOENT /\ out' = Untouched
     ELSE IF op = "l" /\ chain[b][p][3] = 1 /\ Bug # "noconst" THEN ret' = EPERM /\ out' = Untouched
     ELSE ret' = 0 /\ out' = chain[b][p][2]
  /\ Spec0(op, k)

Next == /\ UNCHANGED hf
        /\ \/ \E k \in 1..K, c \in 0..1 : DoInsert(k, c)
           \/ \E k \in 1..K : DoRemove(k)
           \/ \E k \in 1..K, op \in {"l", "L"} : DoLookup(k, op)
           \/ DoClear

Spec == Init /\ [][Next]_vars

Bag(s) == [x \in {s[i] : i \in 1..Len(s)} |-> Cardinality({i \in 1..Len(s) : s[i] = x})]

Refines == /\ ret = exp.ret /\ out = exp.out
           /\ Bag(rel) = Bag(exp.rel)       \* clearing releases in any order
           /\ list = abs
ChainsAgree == \A b \in 1..B : {chain[b][i] : i \in 1..Len(chain[b])} = {abs[i] : i \in {j \in 1..Len(abs) : hf[abs[j][1]] = b}}
=============================================================================
