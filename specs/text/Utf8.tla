------------------------------- MODULE Utf8 -------------------------------
(* Well-formed UTF-8 (Unicode table 3-7), as a machine over bytes, with    *)
(* the characters read; encoding of a character; the checks and the        *)
(* replacement of forbidden characters.                                    *)
EXTENDS Integers, Sequences, SequencesExt

(* state: how many continuation bytes are due, the range of the next one,  *)
(* the value so far; bad: not well-formed                                  *)
Start == [due |-> 0, lo |-> 128, hi |-> 191, val |-> 0, bad |-> FALSE, out |-> <<>>]
Lead(s, due, lo, hi, val) == [s EXCEPT !.due = due, !.lo = lo, !.hi = hi, !.val = val]
Feed(s, b) ==
  IF s.bad THEN s
  ELSE IF s.due = 0 THEN
    CASE b <= 127 -> [s EXCEPT !.out = Append(@, b)]
      [] b \in 194..223 -> Lead(s, 1, 128, 191, b - 192)
      [] b = 224 -> Lead(s, 2, 160, 191, 0)
      [] b \in (225..236) \cup {238, 239} -> Lead(s, 2, 128, 191, b - 224)
      [] b = 237 -> Lead(s, 2, 128, 159, 13)
      [] b = 240 -> Lead(s, 3, 144, 191, 0)
      [] b \in 241..243 -> Lead(s, 3, 128, 191, b - 240)
      [] b = 244 -> Lead(s, 3, 128, 143, 4)
      [] OTHER -> [s EXCEPT !.bad = TRUE]
  ELSE IF b < s.lo \/ b > s.hi THEN [s EXCEPT !.bad = TRUE]
  ELSE LET v == (s.val * 64) + (b - 128) IN
       IF s.due = 1 THEN [Start EXCEPT !.out = Append(s.out, v)]
       ELSE [s EXCEPT !.due = @ - 1, !.lo = 128, !.hi = 191, !.val = v]
Decode(bs) == LET s == FoldLeft(Feed, Start, bs) IN [ok |-> ~s.bad /\ s.due = 0, cps |-> s.out]

Scalar(c) == c \in 0..55295 \/ c \in 57344..1114111
Encode(c) ==
  CASE c < 128 -> <<c>>
    [] c < 2048 -> <<192 + (c \div 64), 128 + (c % 64)>>
    [] c < 65536 -> <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER -> <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
EncodeAll(cs) == FlattenSeq([i \in DOMAIN cs |-> Encode(cs[i])])

(* the longest prefix of whole characters within n bytes *)
Fit(cs, n) ==
  LET Put(s, c) == LET l == Len(Encode(c)) IN
                   IF s.full \/ l > s.left THEN [s EXCEPT !.full = TRUE]
                   ELSE [s EXCEPT !.k = @ + 1, !.left = @ - l]
      end == FoldLeft(Put, [k |-> 0, left |-> n, full |-> FALSE], cs)
  IN SubSeq(cs, 1, end.k)
(* the same for k copies of a text followed by another: how many copies    *)
(* there is room for, and what follows them                                *)
Rep(q, k) == FlattenSeq([i \in 1..k |-> q])
FitRep(cs, k, tail, n) ==
  LET l == Len(EncodeAll(cs))
      room == IF l = 0 THEN k ELSE n \div l
      c == IF room < k THEN room ELSE k IN
  [copies |-> c, rest |-> Fit(IF c < k THEN cs ELSE tail, n - c * l)]
(* what no exFAT file name may contain: control characters and " * / : < > ? \ | *)
ExFat == (1..31) \cup {34, 42, 47, 58, 60, 62, 63, 92, 124}
Replace(cs, F, r) == [i \in DOMAIN cs |-> IF cs[i] \in F THEN r ELSE cs[i]]
=============================================================================
