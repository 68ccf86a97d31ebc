------------------------------ MODULE Calendar ------------------------------
(* Proleptic Gregorian calendar and the 366-day calendar (C09, C10, C19).    *)
EXTENDS Integers, Sequences

IsLeap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
YearDays(y) == IF IsLeap(y) THEN 366 ELSE 365
MonthDays(y) == <<31, IF IsLeap(y) THEN 29 ELSE 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31>>

\* days from 1 January of year 1 to 1 January of year y
DaysBefore(y) == 365 * (y - 1) + ((y - 1) \div 4) - ((y - 1) \div 100) + ((y - 1) \div 400)
DaysBetween(y0, y1) == DaysBefore(y1) - DaysBefore(y0)
RECURSIVE DaysBeforeMonth(_, _)
DaysBeforeMonth(y, m) == IF m = 1 THEN 0 ELSE DaysBeforeMonth(y, m - 1) + MonthDays(y)[m - 1]

\* C10: offset of the i-th month (1..) counted from month m0 of year y0
MonthOffset(y0, m0, ref, i) ==
    LET k == m0 - 1 + i - 1
        y == y0 + k \div 12
    IN  DaysBetween(ref, y) + DaysBeforeMonth(y, (k % 12) + 1)

\* ---- 366-day years.  Day d (1..366) of year y in the 366-day calendar is
\* a real day, or the inserted 29 February (day 60) of a common year.
Inserted(y, d) == d = 60 /\ ~IsLeap(y)
RealDay(y, d) == IF IsLeap(y) \/ d < 60 THEN d ELSE d - 1
\* index in the Gregorian series starting 1 January y0
GregIndex(y0, y, d) == DaysBetween(y0, y) + RealDay(y, d)
\* year and day of the year of Gregorian index g
DateOf(y0, g) ==
    LET guess == y0 + (g - 1) \div 366
        RECURSIVE up(_)
        up(y) == IF g > DaysBetween(y0, y + 1) THEN up(y + 1) ELSE y
        y == up(guess)
    IN  [y |-> y, r |-> g - DaysBetween(y0, y)]
FaithDay(y, r) == IF IsLeap(y) \/ r < 60 THEN r ELSE r + 1    \* real day -> 366-day

Length366(len, y0) ==
    LET RECURSIVE go(_, _)
        go(n, y) == IF n <= 0 THEN 0
                    ELSE IF n >= YearDays(y) THEN 366 + go(n - YearDays(y), y + 1)
                    ELSE n
    IN  go(len, y0)
=============================================================================
