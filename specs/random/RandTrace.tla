----------------------------- MODULE RandTrace -----------------------------
(* Judges what the real generator produced (see harness/rngdrv.c).         *)
EXTENDS RandText, Stat, RecKit, FiniteSets
EINVAL == -22
IntMax == 2147483647

(* unsigned numbers as sequences of digits, most significant first *)
RECURSIVE LeqFrom(_, _, _)
LeqFrom(a, b, i) == IF i > Len(a) THEN TRUE ELSE a[i] < b[i] \/ (a[i] = b[i] /\ LeqFrom(a, b, i + 1))
Leq(a, b) == LeqFrom(a, b, 1)

P2T == <<1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536>>
BitLen16(x) == CHOOSE b \in 0..16 : (IF b = 0 THEN x = 0 ELSE P2T[b] <= x /\ x < P2T[b + 1])
BitLen(m) == IF m[1] > 0 THEN 48 + BitLen16(m[1]) ELSE IF m[2] > 0 THEN 32 + BitLen16(m[2])
             ELSE IF m[3] > 0 THEN 16 + BitLen16(m[3]) ELSE BitLen16(m[4])
GoodBnd(r) ==
  /\ r.ret = 0
  /\ Leq(r.hi, r.max)
  /\ IF r.full = 1 THEN AllFair(r.hist, r.n, 1, r.max[4] + 1)
     ELSE /\ AllFair(r.hist, r.n, 1, 16) /\ AllFair(r.low, r.n, 1, 16)
          \* bits well below the highest one are practically even
          /\ \A b \in 1..64 : b + 8 < BitLen(r.max) => Fair(r.one[b], r.n, 1, 2)
\* large ranges: residues modulo 3, 5, ..., 15 are practically even as well, in
\* the whole range and in its lowest sixteenth (scaling raw bits without
\* rejection favours some)
GoodOdd(r) ==
  /\ r.ret = 0 /\ Fair(r.n[2], r.n[1], 1, 16)
  /\ \A s \in 1..2, j \in 1..7 : AllFair(r.c[s][j], r.n[s], 1, 2 * j + 1)
\* the bits of a value are independent of each other and of those of the one
\* before it: two of them are equal half of the time (all bits where the range
\* is a power of two, else those well below the highest one)
AllOnes(m) == \A i \in DOMAIN m : \A b \in {BitLen(m)} :
                LET k == b - 16 * (4 - i) IN m[i] = (IF k >= 16 THEN 65535 ELSE IF k <= 0 THEN 0 ELSE P2T[k + 1] - 1)
GoodPair(r) ==
  LET B == BitLen(r.max)
      nb == IF AllOnes(r.max) THEN B ELSE B - 8
  IN /\ r.ret = 0
     /\ \A a \in 1..nb : AllFair(r.in[a], r.n, 1, 2)
     /\ \A a, b \in 1..nb : Fair(r.nx[a][b], r.n, 1, 2)
\* flipping one bit of the seed flips half of the output (Diffusion): in all,
\* in each word of a block, at each place; from one seed to another, it flips
\* others; neither do successive blocks of one output resemble each other
GoodDif(r) ==
  LET T == r.reps * r.n * 8          \* bits compared for one bit of the seed
      F == r.reps * r.bits           \* seeds compared
  IN /\ r.bits >= 128 /\ r.reps % 2 = 0 /\ r.n % 64 = 0
     /\ AllFair(r.all, T, 1, 2)
     /\ AllFair(r.second, T \div 2, 1, 2)
     /\ \A i \in 1..r.bits : AllFair(r.part[i], T \div 16, 1, 2)
     /\ AllFair(r.place, F, 1, 2)
     /\ AllFair(r.step, F * ((r.n \div 64) - 1), 1, 2)
GoodNul(r) == \A i \in DOMAIN r.ret : r.ret[i] = EINVAL
GoodUnit(r) ==
  /\ \A i \in DOMAIN r.v : r.v[i] = <<1, 1>>
  /\ AllFair(r.one, r.n, 1, 2) /\ AllFair(r.q, r.n, 1, 16)
GoodBits(r) == AllFair(r.b8, r.n, 1, 2) /\ AllFair(r.b16, r.n, 1, 2) /\ AllFair(r.b32, r.n, 1, 2) /\ AllFair(r.b64, r.n, 1, 2)

RECURSIVE SumTo(_, _)
SumTo(s, i) == IF i = 0 THEN 0 ELSE s[i] + SumTo(s, i - 1)
Win(s, i) == SubSeq(s, 2 * i - 1, 2 * i + 14)          \* 8 bytes from byte i of a hexadecimal text
Constant(w) == \A i \in 1..7 : SubSeq(w, 2 * i + 1, 2 * i + 2) = SubSeq(w, 1, 2)
NoRepeat(s) ==
  LET n == Len(s) \div 2 IN
  n < 8 \/ (LET Ws == {Win(s, i) : i \in 1..(n - 7)}
            IN Cardinality(Ws) = n - 7 /\ \A w \in Ws : ~Constant(w))
GoodSeq(r) ==
  /\ r.ret = 0 /\ r.bad = 0 /\ r.unwritten = 0
  /\ r.n = SumTo(r.req, Len(r.req))
  /\ NoRepeat(r.out)
GoodBig(r) ==
  /\ r.bad = 0 /\ NoRepeat(r.tail)
  /\ LET P == {r.s[i] : i \in DOMAIN r.s}
     IN Cardinality({p[2] : p \in P}) = Cardinality({p[1] : p \in P})

GoodHuge(r) == r.bad = 0 /\ NoRepeat(r.head) /\ NoRepeat(r.tail) /\ r.head # r.tail
(* the last bytes of one output and the first of the next: p pairs of 8 bytes *)
(* each; what is handed out twice is equal in all of them                     *)
GoodSeam(r) ==
  \* nor is any of these bytes the same in all of them
  /\ \A s \in 1..2, j \in 1..8 : Cardinality({SubSeq(r.p[i][s], 2 * j - 1, 2 * j) : i \in DOMAIN r.p}) > 1
  /\ \A k \in 1..8 : \E i \in DOMAIN r.p : SubSeq(r.p[i][1], 17 - 2 * k, 16) # SubSeq(r.p[i][2], 1, 2 * k)

(* ------------------------------------------------------------------ texts *)
Upper == [i \in 1..26 |-> 64 + i]
Lower == [i \in 1..26 |-> 96 + i]
Digit == [i \in 1..10 |-> 47 + i]
Alpha(r) == CASE r.f = "b16" -> Digit \o SubSeq(Lower, 1, 6)
              [] r.f = "b32" -> Upper \o SubSeq(Digit, 3, 8)
              [] r.f = "b64" -> Upper \o Lower \o Digit \o <<43, 47>>
              [] OTHER -> r.alpha
CharBits(f) == CASE f = "b16" -> 4 [] f = "b32" -> 5 [] f = "b64" -> 6
GB(f) == CASE f = "b16" -> 1 [] f = "b32" -> 5 [] f = "b64" -> 3
GC(f) == CASE f = "b16" -> 2 [] f = "b32" -> 8 [] f = "b64" -> 4
(* length of the full text; -1 when an int cannot hold it *)
Full(r) ==
  IF r.count[1] > 32767 THEN -1
  ELSE LET c == r.count[1] * 65536 + r.count[2]
       IN IF r.f = "str" THEN (IF r.alpha = <<>> THEN 0 ELSE c)
          ELSE IF CeilDiv(c, GB(r.f)) > IntMax \div GC(r.f) THEN -1
          ELSE CeilDiv(c, GB(r.f)) * GC(r.f)
Min(a, b) == IF a < b THEN a ELSE b
GoodTxt(r) ==
  LET full == Full(r)
      A == Alpha(r)
  IN IF full < 0 THEN r.ret = EINVAL /\ r.bad = 0
     ELSE /\ r.ret = full /\ r.bad = 0
          /\ IF r.len = 0 THEN r.n = 0
             ELSE /\ r.n = Min(full, r.len - 1) /\ r.n2 = r.n /\ r.term = 1 /\ r.dirty = 0
                  /\ IF r.f = "str" THEN \A i \in 1..r.n : \E j \in DOMAIN A : r.t[i] = A[j]
                     ELSE LET \* only the last group matters for the classes
                              c == r.count[1] * 65536 + r.count[2]
                              skip == (IF c = 0 THEN 0 ELSE ((c - 1) \div GB(r.f)))
                              cls(i) == IF i <= skip * GC(r.f) THEN 0
                                        ELSE Class(i - skip * GC(r.f), c - skip * GB(r.f), 8, CharBits(r.f))
                          IN \A i \in 1..r.n :
                               LET k == cls(i) IN
                               IF k = -1 THEN r.t[i] = 61
                               ELSE \E j \in DOMAIN A : A[j] = r.t[i] /\ (j - 1) % (CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16) = 0

P2(k) == CASE k = 0 -> 1 [] k = 1 -> 2 [] k = 2 -> 4 [] k = 3 -> 8 [] k = 4 -> 16 [] k = 5 -> 32
GoodTst(r) ==
  LET cls(i) == IF r.f = "str" THEN 0 ELSE Class(i, r.count, 8, CharBits(r.f))
      pow == r.A = 2 ^ r.nb /\ r.listed = r.A
      (* a character listed m times in the alphabet is drawn m times out of r.listed *)
      m(j) == r.mult[j]
  IN /\ r.listed = SumTo(r.mult, Len(r.mult))
     /\ \A p \in DOMAIN r.hist :
          LET k == cls(p) IN
          \A j \in DOMAIN r.hist[p] :
             IF k = -1 \/ (j - 1) % P2(k) # 0 THEN r.hist[p][j] = 0
             ELSE Fair(r.hist[p][j], r.n, P2(k) * m(j), r.listed)
     /\ pow => \A x \in {r.x[i] : i \in DOMAIN r.x} :
          LET kp == cls(x[1] + 1)
              kq == cls(x[2] + 1)
          IN (kp # -1 /\ kq # -1) =>
             \A a \in kp..(r.nb - 1), b \in kq..(r.nb - 1) : Fair(x[3 + a * r.nb + b], r.n, 1, 2)
     /\ \A p \in DOMAIN r.joint :
          LET kp == cls(p)
              kq == cls(p + 1)
          IN (kp # -1 /\ kq # -1) =>
             \A a, b \in 0..(r.A - 1) :
                LET c == r.joint[p][a * r.A + b + 1] IN
                IF a % P2(kp) # 0 \/ b % P2(kq) # 0 THEN c = 0
                ELSE Fair(c, r.n, P2(kp) * P2(kq) * m(a + 1) * m(b + 1), r.listed * r.listed)

(* ---------------------------------------------------------------- shuffle *)
IsPerm(p, n) == Len(p) = n /\ {p[i] : i \in 1..n} = 0..(n - 1)
IsId(p) == \A i \in DOMAIN p : p[i] = i - 1
GoodShf(r) ==
  /\ r.bad = 0
  /\ IF r.nul = 1 THEN r.ret = EINVAL /\ IsId(r.p)
     ELSE IF r.mf = 1 /\ r.ret # 0 THEN r.ret < 0 /\ IsId(r.p)
     ELSE r.ret = 0 /\ (r.size > 0 => IsPerm(r.p, r.n))
Fact == <<1, 2, 6, 24, 120, 720>>
GoodShs(r) ==
  /\ r.perm # <<>> => AllFair(r.perm, r.draws, 1, Fact[r.n])
  /\ \A i \in DOMAIN r.pos : AllFair(r.pos[i], r.draws, 1, r.n)
  /\ \A i \in DOMAIN r.pair : \A j \in DOMAIN r.pair[i] : IF i = j THEN r.pair[i][j] = 0 ELSE Fair(r.pair[i][j], r.draws, 1, r.n)
  /\ r.blk # <<>> => AllFair(r.blk, r.draws * r.n, 1, 64)

Good(r) == CASE r.k = "bnd" -> GoodBnd(r)
             [] r.k = "odd" -> GoodOdd(r)
             [] r.k = "pair" -> GoodPair(r)
             [] r.k = "dif" -> GoodDif(r)
             [] r.k = "nul" -> GoodNul(r)
             [] r.k = "unit" -> GoodUnit(r)
             [] r.k = "bits" -> GoodBits(r)
             [] r.k = "seq" -> GoodSeq(r)
             [] r.k = "big" -> GoodBig(r)
             [] r.k = "huge" -> GoodHuge(r)
             [] r.k = "seam" -> GoodSeam(r)
             [] r.k = "txt" -> GoodTxt(r)
             [] r.k = "tst" -> GoodTst(r)
             [] r.k = "shf" -> GoodShf(r)
             [] r.k = "shs" -> GoodShs(r)
ASSUME JudgeAll(Good)
=============================================================================
