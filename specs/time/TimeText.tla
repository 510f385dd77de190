------------------------------ MODULE TimeText ------------------------------
(***************************************************************************)
(* Texts (sequences of byte values) for instants: what the formats render  *)
(* and which instant, if any, a text denotes.  An instant is a day number  *)
(* and a second of that day, UTC; offsets are in seconds.                  *)
(***************************************************************************)
EXTENDS Calendar

\* ------------------------------------------------------------- characters
Dash == 45  Plus == 43  Colon == 58  CharT == 84  Space == 32  Comma == 44
CharZ == 90
IsDigit(ch) == ch \in 48..57
WDays == <<<<83, 117, 110>>, <<77, 111, 110>>, <<84, 117, 101>>, <<87, 101, 100>>, <<84, 104, 117>>,
           <<70, 114, 105>>, <<83, 97, 116>>>>
Months == <<<<74, 97, 110>>, <<70, 101, 98>>, <<77, 97, 114>>, <<65, 112, 114>>, <<77, 97, 121>>, <<74, 117, 110>>,
            <<74, 117, 108>>, <<65, 117, 103>>, <<83, 101, 112>>, <<79, 99, 116>>, <<78, 111, 118>>, <<68, 101, 99>>>>
GMT == <<71, 77, 84>>
UT == <<85, 84>>
UTC == <<85, 84, 67>>

\* --------------------------------------------------------------- rendering
N2(v) == <<48 + ((v \div 10) % 10), 48 + (v % 10)>>
N4(v) == N2(v \div 100) \o N2(v % 100)
N12(v) == IF v >= 10 THEN N2(v) ELSE <<48 + v>>
\* (day, sod) + seconds
Shift(i, s) == LET t == i.sod + s IN [day |-> i.day + (t \div 86400), sod |-> t % 86400]
AbsV(x) == IF x < 0 THEN -x ELSE x
Zone(off, sep) == <<IF off < 0 THEN Dash ELSE Plus>> \o N2(AbsV(off) \div 3600) \o sep \o N2((AbsV(off) \div 60) % 60)
Clock(sod, sep) == N2(sod \div 3600) \o sep \o N2((sod \div 60) % 60) \o sep \o N2(sod % 60)
FmtShort == 0  FmtLong == 1  FmtRfc == 2
Render(i, off, fmt) ==
  LET l == Shift(i, off)
      c == Civil(l.day) IN
  CASE fmt = FmtShort -> N4(c.y) \o N2(c.m) \o N2(c.d) \o <<CharT>> \o Clock(l.sod, <<>>) \o Zone(off, <<>>)
    [] fmt = FmtLong -> N4(c.y) \o <<Dash>> \o N2(c.m) \o <<Dash>> \o N2(c.d) \o <<CharT>> \o Clock(l.sod, <<Colon>>)
                        \o Zone(off, <<Colon>>)
    [] fmt = FmtRfc -> WDays[c.wd + 1] \o <<Comma, Space>> \o N12(c.d) \o <<Space>> \o Months[c.m] \o <<Space>> \o N4(c.y)
                       \o <<Space>> \o Clock(l.sod, <<Colon>>) \o <<Space>>
                       \o (IF off = 0 THEN GMT ELSE Zone(off, <<>>))

\* ----------------------------------------------------------------- reading
No == [ok |-> FALSE]
At(s, i) == IF i \in 1..Len(s) THEN s[i] ELSE 0
Sub(s, i, n) == SubSeq(s, i, i + n - 1)
RECURSIVE Val(_)
Val(ds) == IF ds = <<>> THEN 0 ELSE Val(SubSeq(ds, 1, Len(ds) - 1)) * 10 + ds[Len(ds)] - 48
NumAt(s, i, n) == IF i + n - 1 <= Len(s) /\ \A k \in i..i + n - 1 : IsDigit(s[k]) THEN Val(Sub(s, i, n)) ELSE -1
From(s, i) == SubSeq(s, i, Len(s))

MkDate(y, m, d, core) == IF y >= 0 /\ ValidDate(y, m, d) THEN [ok |-> TRUE, day |-> DaysOf(y, m, d), core |-> core] ELSE No
\* YYYY-MM-DD or YYYYMMDD, the whole of s
IsoDate(s) ==
  IF Len(s) = 10 /\ s[5] = Dash /\ s[8] = Dash THEN MkDate(NumAt(s, 1, 4), NumAt(s, 6, 2), NumAt(s, 9, 2), TRUE)
  ELSE IF Len(s) = 8 THEN MkDate(NumAt(s, 1, 4), NumAt(s, 5, 2), NumAt(s, 7, 2), TRUE)
  ELSE No

MkZone(h, m, sgn) == IF h \in 0..23 /\ m \in 0..59
                     THEN [ok |-> TRUE, off |-> sgn * (h * 3600 + m * 60), num |-> TRUE,
                           core |-> h * 60 + m <= 14 * 60]
                     ELSE No
ZoneOf(s) ==
  IF Len(s) \in {5, 6} /\ s[1] \in {Plus, Dash}
  THEN LET sgn == IF s[1] = Dash THEN -1 ELSE 1 IN
       IF Len(s) = 6 THEN (IF s[4] = Colon THEN MkZone(NumAt(s, 2, 2), NumAt(s, 5, 2), sgn) ELSE No)
       ELSE MkZone(NumAt(s, 2, 2), NumAt(s, 4, 2), sgn)
  ELSE IF s \in {<<CharZ>>, GMT, UT, UTC} THEN [ok |-> TRUE, off |-> 0, num |-> s = <<CharZ>>, core |-> TRUE]
  ELSE No

\* hh:mm:ss or hhmmss, then optionally a space, then a zone.  core: a form
\* that must be accepted; other well-formed ones may be.
ClockOf(s, rfc) ==
  LET long == At(s, 3) = Colon /\ At(s, 6) = Colon
      h == NumAt(s, 1, 2)
      m == IF long THEN NumAt(s, 4, 2) ELSE NumAt(s, 3, 2)
      x == IF long THEN NumAt(s, 7, 2) ELSE NumAt(s, 5, 2)
      used == IF long THEN 8 ELSE 6
      spaced == At(s, used + 1) = Space
      z == ZoneOf(From(s, used + 1 + (IF spaced THEN 1 ELSE 0))) IN
  IF h \in 0..23 /\ m \in 0..59 /\ x \in 0..60 /\ z.ok
  THEN [ok |-> TRUE, sec |-> h * 3600 + m * 60 + x, off |-> z.off,
        core |-> x <= 59 /\ z.core /\ (IF rfc THEN long /\ spaced ELSE z.num /\ ~spaced)]
  ELSE No
\* the hour string of the two-step protocol: optional leading T
HourOf(s) == IF At(s, 1) = CharT THEN ClockOf(From(s, 2), FALSE) ELSE ClockOf(s, FALSE)

Index(names, x) == IF \E k \in 1..Len(names) : names[k] = x THEN CHOOSE k \in 1..Len(names) : names[k] = x ELSE 0
\* aaa, D[D] bbb YYYY   or   aaa, bbb D[D] YYYY; then what follows
RfcDate(s) ==
  LET wd == Index(WDays, Sub(s, 1, 3))
      inv == ~IsDigit(At(s, 6))
      di == IF inv THEN 10 ELSE 6
      dn == IF At(s, di + 1) = Space THEN 1 ELSE 2
      d == NumAt(s, di, dn)
      mi == IF inv THEN 6 ELSE di + dn + 1
      m == Index(Months, Sub(s, mi, 3))
      yi == IF inv THEN di + dn + 1 ELSE mi + 4
      seps == /\ At(s, 4) = Comma /\ At(s, 5) = Space
              /\ At(s, di + dn) = Space /\ At(s, mi + 3) = Space IN
  IF Len(s) < 14 \/ wd = 0 \/ m = 0 \/ d < 0 \/ ~seps THEN No
  ELSE LET r == MkDate(NumAt(s, yi, 4), m, d, TRUE) IN
       IF ~r.ok THEN No ELSE [ok |-> TRUE, day |-> r.day, core |-> WeekDay(r.day) = wd - 1, rest |-> From(s, yi + 4)]

Join(d, h) == IF d.ok /\ h.ok
              THEN [ok |-> TRUE, core |-> d.core /\ h.core, off |-> h.off,
                    t |-> Shift([day |-> d.day, sod |-> 0], h.sec - h.off)]
              ELSE No
DateTime(s) ==
  LET r == IF Len(s) >= 3 THEN RfcDate(s) ELSE No
      cut == IF At(s, 5) = Dash THEN 10 ELSE 8
      sep == At(s, cut + 1)
      rest == From(s, cut + 2) IN
  IF r.ok
  THEN IF At(r.rest, 1) # Space THEN No
       ELSE LET q == From(r.rest, 2)
                t == At(q, 1) = CharT
                j == Join(r, ClockOf(IF t THEN From(q, 2) ELSE q, TRUE)) IN
            IF t /\ j.ok THEN [j EXCEPT !.core = FALSE] ELSE j
  ELSE IF sep = CharT THEN Join(IsoDate(SubSeq(s, 1, cut)), ClockOf(rest, FALSE))
  ELSE IF sep = Space
       THEN LET t == At(rest, 1) = CharT
                j == Join(IsoDate(SubSeq(s, 1, cut)), ClockOf(IF t THEN From(rest, 2) ELSE rest, FALSE)) IN
            IF t /\ j.ok THEN [j EXCEPT !.core = FALSE] ELSE j
  ELSE No
=============================================================================
