------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar: closed forms between the number of    *)
(* days since 1970-01-01 and year, month (1-12), day (1-31).  Checked      *)
(* against a day-by-day calendar in CalendarDesign.                        *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences

Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28)
                ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
ValidDate(y, m, d) == m \in 1..12 /\ d \in 1..DaysIn(y, m)

Cumul == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
YearDay(y, m, d) == Cumul[m] + d - 1 + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
\* days of the years before y (floor division also for y <= 0)
Before(y) == LET p == y - 1 IN p * 365 + (p \div 4) - (p \div 100) + (p \div 400)
Epoch == Before(1970)
DaysOf(y, m, d) == Before(y) - Epoch + YearDay(y, m, d)
WeekDay(n) == (n + 4) % 7                                 \* 0 is Sunday

\* year of a day number: estimate, then correct
YearOf(n) == LET e == ((n + Epoch) * 400) \div 146097 + 1 IN
             LET lo == CHOOSE y \in (e - 2)..(e + 2) :
                         Before(y) - Epoch <= n /\ n < Before(y + 1) - Epoch IN lo
MonthOf(y, yd) == CHOOSE m \in 1..12 : YearDay(y, m, 1) <= yd /\ yd < YearDay(y, m, 1) + DaysIn(y, m)
Civil(n) == LET y == YearOf(n)
                yd == n - (Before(y) - Epoch)
                m == MonthOf(y, yd) IN
            [y |-> y, m |-> m, d |-> yd - YearDay(y, m, 1) + 1, yd |-> yd, wd |-> WeekDay(n)]
=============================================================================
