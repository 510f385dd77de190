----------------------------- MODULE KeyTrace -----------------------------
(* Judges where pseudo-random output comes from: the driver says which     *)
(* pieces of which keystreams explain it, and these are computed here.     *)
EXTENDS ChaCha, RecKit, FiniteSets
(* the output is keystream: keys are 44 bytes of the seed, or taken from      *)
(* keystream of earlier keys; pieces of their keystreams make up the output.  *)
(* Where pieces meet, few bytes may be left of one; else they are long.       *)
Piece(ss, p) == SubSeq(ss[p[1]], p[2] + 1, p[2] + p[3])
Pieces(ss, ps) == FoldLeft(LAMBDA acc, p : acc \o Piece(ss, p), <<>>, ps)
Stream(k, n) == FoldLeft(LAMBDA acc, c : acc \o Block(k, c - 1), <<>>, [c \in 1..n |-> c])
Streams(r) ==
  FoldLeft(LAMBDA ss, k : Append(ss, Stream(IF k.p[1][1] = 0 THEN SubSeq(r.seed, k.p[1][2] + 1, k.p[1][2] + k.p[1][3])
                                            ELSE Pieces(ss, k.p), k.n)), <<>>, r.keys)
\* no stretch of keystream serves twice, be it for output or for keys
Uses(r) == SelectSeq(r.how, LAMBDA p : p[3] >= 8) \o FoldLeft(LAMBDA a, k : a \o SelectSeq(k.p, LAMBDA p : p[1] > 0), <<>>, r.keys)
Once(u) == \A i, j \in DOMAIN u : i < j /\ u[i][1] = u[j][1] => u[i][2] + u[i][3] <= u[j][2] \/ u[j][2] + u[j][3] <= u[i][2]
GoodCha(r) ==
  /\ r.ret = 0 /\ r.bad = 0 /\ r.n >= 64 /\ Len(r.out) = r.n
  /\ \A i \in DOMAIN r.keys :
       /\ FoldLeft(LAMBDA a, p : a + p[3], 0, r.keys[i].p) = 44
       /\ \A j \in DOMAIN r.keys[i].p : r.keys[i].p[j][1] < i /\ (r.keys[i].p[j][1] = 0 => i = 1 /\ Len(r.keys[i].p) = 1)
  /\ Cardinality({j \in DOMAIN r.how : r.how[j][3] < 8}) <= Len(r.keys)
  /\ \A u \in {Uses(r)} : Once(u)
  /\ \A ss \in {Streams(r)} : Pieces(ss, r.how) = r.out
ASSUME JudgeAll(GoodCha)
=============================================================================
