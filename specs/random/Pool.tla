------------------------------- MODULE Pool -------------------------------
(* Design of the generator's buffer: a keystream fills a buffer of N       *)
(* units, K units of it become the next key; requests are served from the  *)
(* buffer, large ones by a keystream of their own keyed from the buffer.   *)
(* Units of keystream are symbols <<key, position>>; equal keys give equal *)
(* keystreams.  Nothing handed out, or used as key, is ever used again.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC
CONSTANTS N, K, Blk, MaxLen, MaxReq, Variant
VARIABLES keys, cur, ctr, buf, avail, used, lens, ok

(* keys: all keys seen, as sequences of symbols; a key is its index *)
vars == <<keys, cur, ctr, buf, avail, used, lens, ok>>
Zero == <<0, 0>>                  \* wiped memory

KeyId(ks, k) == IF \E i \in DOMAIN ks : ks[i] = k THEN CHOOSE i \in DOMAIN ks : ks[i] = k ELSE Len(ks) + 1
AddKey(ks, k) == IF \E i \in DOMAIN ks : ks[i] = k THEN ks ELSE Append(ks, k)
Ceil(n) == (n + Blk - 1) \div Blk
(* units of the keystream of key k from block c on; after: next block *)
Stream(k, c, n) == [i \in 1..n |-> <<k, c * Blk + i>>]
After(c, n) == IF Variant = "partial" THEN c + n \div Blk ELSE c + Ceil(n)

Init == /\ keys = <<<<<<0, 1>>>>>> /\ cur = 1 /\ ctr = 0
        /\ buf = [i \in 1..N |-> Zero] /\ avail = 0
        /\ used = {} /\ lens = <<>> /\ ok = TRUE

S == [keys |-> keys, cur |-> cur, ctr |-> ctr, buf |-> buf, avail |-> avail]

(* take n units from the buffer *)
Take(s, n) == [i \in 1..n |-> s.buf[N - s.avail + i]]
Drop(s, n) == [s EXCEPT !.avail = @ - n,
                        !.buf = [i \in 1..N |-> IF Variant # "nowipe" /\ i > N - s.avail /\ i <= N - s.avail + n THEN Zero ELSE s.buf[i]]]

Reload(s) ==
  LET keep == Take(s, s.avail)
      new == Stream(s.cur, s.ctr, N - s.avail)
      s1 == [s EXCEPT !.buf = [i \in 1..N |-> IF i <= s.avail THEN keep[i] ELSE new[i - s.avail]],
                      !.ctr = After(s.ctr, N - s.avail), !.avail = N]
      k == Take(s1, K)
      s2 == [s1 EXCEPT !.keys = AddKey(@, k), !.cur = KeyId(s1.keys, k), !.ctr = IF Variant = "keepctr" THEN s1.ctr ELSE 0]
  IN CASE Variant \in {"nokey", "partial"} -> s1
       [] Variant = "keykept" -> s2
       [] Variant = "frontkey" -> [s2 EXCEPT !.avail = @ - K, !.buf = [i \in 1..N |-> IF i <= N - K THEN s1.buf[i] ELSE Zero]]
       [] OTHER -> Drop(s2, K)
ReloadIf(s, n) == IF s.avail >= n THEN s ELSE Reload(s)

(* <<new state, output, symbols used up>> *)
Serve(s, n) ==
  IF n >= N - K THEN
    LET s1 == ReloadIf(s, K)
        k == Take(s1, K)
        id == KeyId(s1.keys, k)
        s2 == [s1 EXCEPT !.keys = AddKey(@, k)]
        s3 == IF Variant = "stirkept" THEN s2 ELSE Drop(s2, K)
    IN <<s3, Stream(id, 0, n), IF Variant = "stirkept" THEN {} ELSE {k[i] : i \in 1..K}>>
  ELSE
    LET s1 == ReloadIf(s, IF Variant = "thresh" /\ n > 0 THEN n - 1 ELSE n)
    IN <<Drop(s1, IF s1.avail < n THEN s1.avail ELSE n),
         [i \in 1..n |-> IF N - s1.avail + i > N THEN Zero ELSE s1.buf[N - s1.avail + i]], {}>>

Request(n) ==
  LET r == Serve(S, n)
      out == {r[2][i] : i \in 1..n}
      \* the key made in a reload is used up too
      rk == {keys_s : keys_s \in UNION {{r[1].keys[j][i] : i \in DOMAIN r[1].keys[j]} : j \in (Len(keys) + 1)..Len(r[1].keys)}}
      gone == used \cup out \cup rk
  IN /\ Len(lens) < MaxReq
     /\ lens' = Append(lens, n)
     /\ keys' = r[1].keys /\ cur' = r[1].cur /\ ctr' = r[1].ctr /\ buf' = r[1].buf /\ avail' = r[1].avail
     /\ ok' = (ok /\ Cardinality(out) = n /\ Zero \notin out /\ out \cap used = {} /\ rk \cap used = {} /\ rk \cap out = {})
     /\ used' = gone
Next == \E n \in 0..MaxLen : Request(n)
Spec == Init /\ [][Next]_vars

Fresh == ok
Sane == avail <= N /\ avail >= 0 /\ Len(buf) = N
(* what was handed out is not in memory any more *)
Wiped == \A i \in 1..N : buf[i] # Zero => buf[i] \notin used
(* nor can it be computed from what is: the current key, the buffer, and   *)
(* every key all of whose units are known                                  *)
RECURSIVE Close(_)
Close(ks) ==
  LET known(s) == s[1] \in ks \/ \E i \in 1..N : buf[i] = s
      more == ks \cup {j \in DOMAIN keys : \A i \in DOMAIN keys[j] : known(keys[j][i])}
  IN IF more = ks THEN ks ELSE Close(more)
Unrec == LET ks == Close({cur}) IN \A s \in used : s[1] \notin ks
=============================================================================
