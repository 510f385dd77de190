--------------------------- MODULE CalendarDesign ---------------------------
(***************************************************************************)
(* The calendar as a state machine advancing day by day, against which the *)
(* closed forms of Calendar and the formula of the C code are checked.     *)
(* One Gregorian cycle (146097 days) from any start covers every case.     *)
(* Bug: "no400", "no100" leap rules, "marchbase" wrong month table.        *)
(***************************************************************************)
EXTENDS Calendar, TLC
CONSTANTS First, Last, Chains, Bug          \* years First..Last, in Chains parallel pieces
VARIABLES n, y, m, d, wd, yd, c

\* start of piece k, with an independently counted number of days
RECURSIVE YearsLen(_, _)
YearsLen(a, b) == IF a >= b THEN 0 ELSE (IF Leap(a) THEN 366 ELSE 365) + YearsLen(a + 1, b)
Count(yy) == IF yy >= 1970 THEN YearsLen(1970, yy) ELSE -YearsLen(yy, 1970)
Start(k) == First + ((Last - First) * k) \div Chains

Init == \E k \in 0..Chains - 1 :
          /\ c = k /\ y = Start(k) /\ n = Count(Start(k)) /\ m = 1 /\ d = 1 /\ yd = 0
          /\ wd = (Count(Start(k)) + 4) % 7
Tomorrow ==
  /\ y < Start(c + 1)
  /\ n' = n + 1 /\ wd' = (wd + 1) % 7 /\ c' = c
  /\ IF d < DaysIn(y, m) THEN d' = d + 1 /\ m' = m /\ y' = y /\ yd' = yd + 1
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y /\ yd' = yd + 1
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1 /\ yd' = 0
Next == Tomorrow \/ (y = Start(c + 1) /\ UNCHANGED <<n, y, m, d, wd, yd, c>>)
Spec == Init /\ [][Next]_<<n, y, m, d, wd, yd, c>>

Closed == /\ DaysOf(y, m, d) = n
          /\ Civil(n) = [y |-> y, m |-> m, d |-> d, yd |-> yd, wd |-> wd]

\* the C code's formula: years start in March, one cycle added to stay positive
Table == IF Bug = "marchbase" THEN <<0, 30, 61, 91, 122, 152, 183, 214, 244, 275, 305, 335>>
         ELSE <<30, 61, 91, 122, 152, 183, 214, 244, 275, 305, 336, 367>>
CDays ==
  LET mm == IF m - 2 <= 0 THEN m + 10 ELSE m - 2
      yy == (IF m - 2 <= 0 THEN y - 1 ELSE y) + 400
      leaps == (yy \div 4) - (IF Bug = "no100" THEN 0 ELSE yy \div 100) + (IF Bug = "no400" THEN 0 ELSE yy \div 400) IN
  leaps + yy * 365 + Table[mm] + d - 719499 - 146097
CCode == CDays = n
=============================================================================
