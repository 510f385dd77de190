----------------------------- MODULE MacroTrace -----------------------------
(***************************************************************************)
(* Judges uses of the real macros.                                         *)
(*  [k, a |-> <<[n |-> number, t |-> type, c |-> evaluations], ...>>, r]   *)
(*    k: "min", "max" (two arguments), "bound", "pbound" (value, lowest,   *)
(*    highest; the latter among operators), "maxmin", "minmax" (nested)    *)
(*    f = 1: a floating-point use (numbers scaled by 4, t without meaning) *)
(*  [k |-> "arr", want, got]: elements of an array of `want` elements      *)
(*  [k |-> "str", want, got]: text of a macro's value                      *)
(***************************************************************************)
EXTENDS MinMax, RecKit

FloatBits == {24, 53}
Types(r) == {r.a[i].t : i \in DOMAIN r.a}
Pairs(r) == {Common2(s, t) : s, t \in Types(r)}
\* the value is defined by C without a change of any argument's value
Plain(r) ==
  \/ /\ r.f = 1
     /\ \/ \A i \in DOMAIN r.a : r.a[i].n.s = 0 \/ r.a[i].t.b \in FloatBits
        \/ \A t \in Types(r) : t.u = 0 \/ t.b < 32
  \/ /\ r.f = 0
     /\ \A t \in Pairs(r) \cup {Common2(s, u) : s, u \in Pairs(r)} : \A i \in DOMAIN r.a : Fits(r.a[i].n, t)
InContract(r) == Plain(r) /\ (r.k \in {"bound", "pbound"} => ~Lt(r.a[3].n, r.a[2].n))
Want(r) == IF r.k = "min" THEN MinOf(r.a[1].n, r.a[2].n)
           ELSE IF r.k = "max" THEN MaxOf(r.a[1].n, r.a[2].n)
           ELSE IF r.k = "maxmin" THEN MaxOf(r.a[1].n, MinOf(r.a[2].n, r.a[3].n))
           ELSE IF r.k = "minmax" THEN MinOf(MaxOf(r.a[1].n, r.a[2].n), r.a[3].n)
           ELSE BoundOf(r.a[1].n, r.a[2].n, r.a[3].n)

Good(r) ==
  IF r.k \in {"arr", "str"} THEN r.got = r.want
  ELSE /\ \A i \in DOMAIN r.a : r.a[i].c = 1
       /\ InContract(r) => Same(r.r, Want(r))

ASSUME JudgeAll(Good)
=============================================================================
