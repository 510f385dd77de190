---------------------------- MODULE AssertTrace ----------------------------
(***************************************************************************)
(* Judges what compilers said of small programs using the compile-time     *)
(* helpers of futils.h and futils.hpp: ok = 1, the program was accepted.   *)
(*  [k |-> "assert", c |-> <<condition, ...>>, ok]                         *)
(*     conditions are trees: [k "lit", v], [k "not", a], [k op, a, b],     *)
(*     [k "if", a, b, c]; they are written without parentheses around them *)
(*  [k |-> "copy", use, ok]     a use of a class that disables copies      *)
(*  [k |-> "fmt", want, args, ok]  a format with these conversions and     *)
(*     arguments of these kinds, format warnings being errors              *)
(*  [k |-> "member", m, as, ok]  one object declared with the type of      *)
(*     member m of the structure S and with the type as                    *)
(***************************************************************************)
EXTENDS RecKit

B(x) == IF x THEN 1 ELSE 0
RECURSIVE Val(_)
Val(e) ==
  CASE e.k = "lit" -> e.v
    [] e.k = "not" -> B(Val(e.a) = 0)
    [] e.k = "if"  -> IF Val(e.a) # 0 THEN Val(e.b) ELSE Val(e.c)
    [] e.k = "eq"  -> B(Val(e.a) = Val(e.b))
    [] e.k = "ne"  -> B(Val(e.a) # Val(e.b))
    [] e.k = "lt"  -> B(Val(e.a) < Val(e.b))
    [] e.k = "and" -> B(Val(e.a) # 0 /\ Val(e.b) # 0)
    [] e.k = "or"  -> B(Val(e.a) # 0 \/ Val(e.b) # 0)
    [] e.k = "sub" -> Val(e.a) - Val(e.b)

Copies == {"construct", "initialise", "assign", "byvalue", "return", "capture", "vector"}

\* struct S { int i; unsigned int u; char c; double d; char *s; long long q;
\*            struct In { short x; } in; long a[3]; int (*f)(int); struct S *p; }
MemberType(m) ==
  CASE m = "i" -> "int" [] m = "u" -> "unsigned" [] m = "c" -> "char" [] m = "d" -> "double" [] m = "s" -> "string"
    [] m = "q" -> "long long" [] m = "in.x" -> "short" [] m = "in" -> "In" [] m = "a" -> "long3" [] m = "a[1]" -> "long"
    [] m = "f" -> "function" [] m = "p->i" -> "int"

Good(r) ==
  CASE r.k = "assert" -> (r.ok = 1) = (\A i \in DOMAIN r.c : Val(r.c[i]) # 0)
    [] r.k = "copy"   -> (r.ok = 1) = (r.use \notin Copies)
    [] r.k = "fmt"    -> (r.ok = 1) = (r.want = r.args)
    [] r.k = "member" -> (r.ok = 1) = (MemberType(r.m) = r.as)

ASSUME JudgeAll(Good)
=============================================================================
