------------------------------ MODULE DirWalk ------------------------------
(* The algorithm: list a directory, examine each entry, add the regular    *)
(* files, descend into directories; any step may fail.  Descriptors of the *)
(* directories being listed are held.  Checked for every tree of at most   *)
(* MaxNodes nodes.  Variants are the mistakes TLC must refute.             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxNodes, Sizes, Kinds, Variant, Gen
VARIABLES nodes, rec, pc, stack, held, ret, failed

AddInt(a, b) == a + b
T == INSTANCE DirTree WITH ZeroSize <- 0, AddSize <- AddInt
vars == <<nodes, rec, pc, stack, held, ret, failed>>

(* "l" links to a file outside of size 9, "m" to the directory itself *)
RealKind(k) == IF k = "m" THEN "l" ELSE k
Tree == [i \in DOMAIN nodes |-> [nodes[i] EXCEPT !.k = RealKind(@)]]
Children(p) == {i \in DOMAIN nodes : nodes[i].p = p}

\* a frame: the directory, entries not yet seen, sum so far
Frame(p) == [dir |-> p, left |-> Children(p), size |-> 0]
Top == stack[Len(stack)]
Pop == SubSeq(stack, 1, Len(stack) - 1)

Init == nodes = <<>> /\ rec \in BOOLEAN /\ pc = "build" /\ stack = <<>> /\ held = 0 /\ ret = 0 /\ failed = FALSE
Build ==
  /\ pc = "build"
  /\ \/ /\ Len(nodes) < MaxNodes
        /\ \E k \in Kinds, p \in {0} \cup {i \in DOMAIN nodes : nodes[i].k = "d"} :
             \E z \in (IF k = "f" THEN Sizes ELSE IF k = "d" THEN {4} ELSE {1}) :
               nodes' = Append(nodes, [p |-> p, k |-> k, z |-> z])
        /\ UNCHANGED <<rec, pc, stack, held, ret, failed>>
     \/ pc' = "open" /\ stack' = <<Frame(0)>> /\ UNCHANGED <<nodes, rec, held, ret, failed>>
Fail(e) == pc' = "fail" /\ ret' = e
Open ==
  /\ pc = "open"
  /\ \/ pc' = "list" /\ held' = held + 1 /\ UNCHANGED <<nodes, rec, stack, ret, failed>>
     \/ Fail(-1) /\ failed' = TRUE /\ stack' = Pop /\ UNCHANGED <<nodes, rec, held>>
(* one entry of the directory on top *)
Entry ==
  /\ pc = "list" /\ Top.left # {}
  /\ \E i \in Top.left :
       LET n == nodes[i]
           s2 == [stack EXCEPT ![Len(stack)].left = @ \ {i}]
           grow(z) == [s2 EXCEPT ![Len(stack)].size = @ + z]
       IN /\ UNCHANGED <<nodes, rec>>
          /\ \/ \* examining it fails
                /\ IF Variant = "ignore_stat" THEN stack' = s2 /\ UNCHANGED <<pc, held, ret>>
                   ELSE Fail(-2) /\ UNCHANGED <<stack, held>>
                /\ failed' = TRUE
             \/ /\ n.k = "f" /\ UNCHANGED failed
                /\ stack' = (IF Variant = "last" THEN [s2 EXCEPT ![Len(stack)].size = n.z] ELSE grow(n.z))
                /\ UNCHANGED <<pc, held, ret>>
             \/ /\ n.k = "d" /\ (rec \/ Variant = "always")
                /\ pc' = "open" /\ UNCHANGED <<held, ret, failed>>
                /\ stack' = Append(IF Variant = "count_dirs" THEN grow(n.z) ELSE s2, Frame(i))
             \/ /\ n.k = "d" /\ ~(rec \/ Variant = "always")
                /\ stack' = s2 /\ UNCHANGED <<pc, held, ret, failed>>
             \/ /\ n.k \in {"l", "m", "p"}
                /\ IF Variant = "follow" /\ n.k = "l" THEN stack' = grow(9)
                   ELSE IF Variant = "others" /\ n.k = "p" THEN stack' = grow(n.z) ELSE stack' = s2
                /\ UNCHANGED <<pc, held, ret, failed>>
ListFails ==
  /\ pc = "list"
  /\ IF Variant = "ignore_list" THEN stack' = [stack EXCEPT ![Len(stack)].left = {}] /\ UNCHANGED <<pc, ret>>
     ELSE Fail(-3) /\ UNCHANGED stack
  /\ failed' = TRUE
  /\ UNCHANGED <<nodes, rec, held>>
Leave ==
  /\ pc = "list" /\ Top.left = {}
  /\ held' = held - 1
  /\ UNCHANGED <<nodes, rec, failed>>
  /\ IF Len(stack) = 1 THEN pc' = "done" /\ ret' = Top.size /\ stack' = Pop
     ELSE pc' = "list" /\ UNCHANGED ret
          /\ stack' = (IF Variant = "shallow" THEN Pop ELSE [Pop EXCEPT ![Len(stack) - 1].size = @ + Top.size])
(* an error goes up, closing what is open *)
Unwind ==
  /\ pc = "fail"
  /\ UNCHANGED <<nodes, rec, ret, failed>>
  /\ IF stack = <<>> \/ (Variant = "leak" /\ Len(stack) = 1)
     THEN pc' = "done" /\ UNCHANGED <<stack, held>>
     ELSE stack' = Pop /\ held' = held - 1 /\ UNCHANGED pc
Next == Build \/ Open \/ Entry \/ ListFails \/ Leave \/ Unwind
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Right == pc = "done" => IF failed THEN ret < 0 ELSE ret = T!DirSize(Tree, rec)
Released == pc = "done" => held = 0
Ends == <>(pc = "done")

Emit == (Gen /\ pc = "open" /\ Len(stack) = 1 /\ rec) => PrintT("GEN" \o ToJson(nodes))
Constraint == ~Gen \/ pc \in {"build"} \/ (pc = "open" /\ Len(stack) = 1)
=============================================================================
