----------------------------- MODULE CalendarMC -----------------------------
(* A clock that advances day by day from 1 January of any start year, and    *)
(* beside it the positions that Calendar computes in closed form: the index  *)
(* in the Gregorian series, the place in the 366-day series, the offset of   *)
(* each month, the lengths.  Explored for every start year of the 400-year   *)
(* cycle (thorough).  With Generate it prints one record (start year, number *)
(* of days) for each class of leap pattern and last day, which the driver    *)
(* replays through the conversions (C09).                                    *)
EXTENDS Calendar, FiniteSets, TLC, Json
CONSTANTS Starts, Span, Generate
VARIABLES y0, y, m, d, r, g, p
vars == <<y0, y, m, d, r, g, p>>
\* p: place in the 366-day series, advanced by rule: 29 February is passed over
\* in common years

Init == /\ y0 \in Starts /\ y = y0 /\ m = 1 /\ d = 1 /\ r = 1 /\ g = 1 /\ p = 1
LastOfMonth == d = MonthDays(y)[m]
Tick == /\ y < y0 + Span
        /\ g' = g + 1
        /\ p' = IF m = 2 /\ d = 28 /\ LastOfMonth THEN p + 2 ELSE p + 1
        /\ IF LastOfMonth
           THEN IF m = 12 THEN y' = y + 1 /\ m' = 1 /\ d' = 1 /\ r' = 1
                ELSE y' = y /\ m' = m + 1 /\ d' = 1 /\ r' = r + 1
           ELSE y' = y /\ m' = m /\ d' = d + 1 /\ r' = r + 1
        /\ UNCHANGED y0
Spec == Init /\ [][Tick]_vars

\* the 366-day place is the year's block and the day in it, and back
Placed == /\ p = 366 * (y - y0) + FaithDay(y, r)
          /\ GregIndex(y0, y, FaithDay(y, r)) = g
          /\ RealDay(y, FaithDay(y, r)) = r
          /\ ~Inserted(y, FaithDay(y, r))
          /\ FaithDay(y, r) \in 1..366
\* the same day of the year has the same place in every year
Aligned == FaithDay(y, r) = DaysBeforeMonth(4, m) + d
Dated == DateOf(y0, g) = [y |-> y, r |-> r]
\* the inserted day lies between 28 February and 1 March
Between == m = 3 /\ d = 1 => IF IsLeap(y) THEN r = 61 ELSE r = 60 /\ Inserted(y, 60) /\ FaithDay(y, 59) = 59 /\ FaithDay(y, 60) = 61
\* the whole years so far take 366 places each, an unfinished year its days
Lengths == Length366(g - 1, y0) = 366 * (y - y0) + (r - 1)
\* month offsets from any reference year
Offsets == d = 1 => /\ MonthOffset(y0, 1, y0, 12 * (y - y0) + m) = g - 1
                    /\ MonthOffset(y, m, y0, 1) = g - 1
                    /\ \A ref \in {y0 - 399, y0 - 1, 1800, y} : MonthOffset(y, m, ref, 1) - MonthOffset(y0, 1, ref, 1) = g - 1
                    /\ MonthOffset(y, m, 1800, 2) - MonthOffset(y, m, 1800, 1) = MonthDays(y)[m]
Inv == Placed /\ Aligned /\ Dated /\ Between /\ Lengths /\ Offsets

\* 400 years: 97 leap years, 20871 weeks
ASSUME Cardinality({q \in 1600..1999 : IsLeap(q)}) = 97
ASSUME DaysBetween(1600, 2000) = 7 * 20871 /\ DaysBetween(1970, 2000) = 10957

\* ---- records for the conversions: class of the leap pattern and last day
Pattern == [i \in 1..(y - y0 + 1) |-> IF (y0 + i - 1) % 100 = 0 THEN (IF IsLeap(y0 + i - 1) THEN 4 ELSE 3) ELSE IF IsLeap(y0 + i - 1) THEN 2 ELSE 1]
Phase == IF LastOfMonth THEN <<m, 1>> ELSE IF d = 1 THEN <<m, 0>> ELSE IF m = 2 /\ d = 27 THEN <<2, 2>> ELSE <<0, 0>>
Class == <<Pattern, Phase>>
Emit == IF ~Generate \/ Phase = <<0, 0>> \/ y - y0 > 2 \/ (IsLeap(y) /\ ~(m = 12 /\ LastOfMonth)) \/ Class \in TLCGet(5) THEN TRUE
        ELSE TLCSet(5, TLCGet(5) \cup {Class}) /\ PrintT("GEN" \o ToJson([y0 |-> y0, len |-> g, ny |-> y - y0 + 1]))
ASSUME TLCSet(5, {})
SFew == (1895..1905) \cup (1996..2005) \cup (2095..2102)
SAll == 1600..1999
=============================================================================
