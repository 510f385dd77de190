------------------------------ MODULE DirTree ------------------------------
(* Directory trees: a sequence of nodes, each naming its parent (0: the    *)
(* directory asked about), its kind ("f" regular, "d" directory, "l"       *)
(* symbolic link, "p" fifo, "s" socket) and its size z.                    *)
EXTENDS Integers, Sequences
CONSTANTS ZeroSize, AddSize(_, _)

RECURSIVE Reached(_, _, _)    \* is what node p holds counted?
Reached(nodes, p, rec) == p = 0 \/ (rec /\ nodes[p].k = "d" /\ Reached(nodes, nodes[p].p, rec))

RECURSIVE SizeUpTo(_, _, _)
SizeUpTo(nodes, i, rec) ==
  IF i = 0 THEN ZeroSize
  ELSE IF nodes[i].k = "f" /\ Reached(nodes, nodes[i].p, rec)
       THEN AddSize(nodes[i].z, SizeUpTo(nodes, i - 1, rec))
       ELSE SizeUpTo(nodes, i - 1, rec)
DirSize(nodes, rec) == SizeUpTo(nodes, Len(nodes), rec)
=============================================================================
