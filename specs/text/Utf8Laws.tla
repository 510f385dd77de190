----------------------------- MODULE Utf8Laws -----------------------------
(* The byte machine against a second, arithmetic definition (length from   *)
(* the lead byte, value, shortest form, no surrogates, at most 10FFFF) on  *)
(* all strings of boundary bytes, built up one byte a step; and encoding   *)
(* against decoding.                                                       *)
EXTENDS Utf8, FiniteSets, TLC
CONSTANTS Bytes, MaxLen, Variant
VARIABLES str

RECURSIVE Cps(_)       \* characters, or <<-1>> appended where it is ill-formed
Cps(bs) ==
  IF bs = <<>> THEN <<>>
  ELSE LET b == bs[1]
           n == CASE b < 128 -> 1 [] b \in 192..223 -> 2 [] b \in 224..239 -> 3 [] b \in 240..247 -> 4
                  [] b \in 248..251 /\ Variant = "long" -> 5 [] OTHER -> 0
       IN IF n = 0 \/ Len(bs) < n THEN <<-1>>
          ELSE IF \E i \in 2..n : bs[i] \notin 128..191 THEN <<-1>>
          ELSE LET top == CASE n = 1 -> b [] n = 2 -> b - 192 [] n = 3 -> b - 224 [] n = 4 -> b - 240 [] n = 5 -> b - 248
                   RECURSIVE Val(_, _)
                   Val(v, i) == IF i > n THEN v ELSE Val((v * 64) + bs[i] - 128, i + 1)
                   c == Val(top, 2)
                   short == CASE n = 1 -> TRUE [] n = 2 -> c >= 128 [] n = 3 -> c >= 2048 [] OTHER -> c >= 65536
                   good == (short \/ Variant = "overlong") /\ (c \notin 55296..57343 \/ Variant = "surrogate")
                           /\ (c <= 1114111 \/ Variant \in {"huge", "long"})
               IN IF good THEN <<c>> \o Cps(SubSeq(bs, n + 1, Len(bs))) ELSE <<-1>>
WellFormed(cs) == \A i \in DOMAIN cs : cs[i] # -1

Init == str = <<>>
Next == Len(str) < MaxLen /\ \E b \in Bytes : str' = Append(str, b)
Spec == Init /\ [][Next]_str
Agrees == LET d == Decode(str)
              c == Cps(str)
          IN d.ok = WellFormed(c) /\ (d.ok => d.cps = c /\ EncodeAll(c) = str)
(* cutting keeps whole characters and is maximal *)
Cuts == LET d == Decode(str) IN
        d.ok => \A n \in 0..Len(str) :
          LET f == Fit(d.cps, n) IN
          /\ Decode(EncodeAll(f)).ok /\ Len(EncodeAll(f)) <= n
          /\ SubSeq(str, 1, Len(EncodeAll(f))) = EncodeAll(f)
          /\ Len(f) < Len(d.cps) => Len(EncodeAll(SubSeq(d.cps, 1, Len(f) + 1))) > n
(* texts made of copies *)
Tails == {<<>>, <<65>>, <<195, 169, 66>>, <<195>>, <<255, 65>>, <<240, 144, 128, 128>>}
Copies == LET d == Decode(str) IN
          (d.ok /\ str # <<>>) => \A k \in 0..3 : \A t \in Tails :
            LET dt == Decode(t)
                all == Decode(Rep(str, k) \o t) IN
            /\ all.ok = dt.ok
            /\ dt.ok => /\ all.cps = Rep(d.cps, k) \o dt.cps
                       /\ \A n \in 0..(k * Len(str) + Len(t) + 1) :
                            LET f == FitRep(d.cps, k, dt.cps, n) IN
                            Fit(all.cps, n) = Rep(d.cps, f.copies) \o f.rest
=============================================================================
