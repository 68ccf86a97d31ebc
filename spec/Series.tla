------------------------------- MODULE Series -------------------------------
(* Series of monthly or daily values: accumulation and year layout.          *)
EXTENDS Floats, TLC

\* C06: total of the k values ending at each step
Window(s, i, k) == FSum(SubSeq(s, i - k + 1, i))
SlidingSums(s, k) ==
    TLCEval(IF k = 1 THEN s
            ELSE [i \in 1..Len(s) |-> IF i < k THEN NaN ELSE Window(s, i, k)])

\* negative amounts count as zero, missing stays missing
ClipNegative(s) == TLCEval([i \in 1..Len(s) |-> IF FLt(s[i], FZero) THEN FZero ELSE s[i]])

Years(len, n) == (len + n - 1) \div n
\* whole years of n steps, the last one padded with missing values
Padded(s, n) == TLCEval([i \in 1..(Years(Len(s), n) * n) |-> IF i <= Len(s) THEN s[i] ELSE NaN])
\* the values of calendar step j (1..n) in all years
Column(s, j, n) == LET p == Padded(s, n) IN
                   TLCEval([y \in 1..Years(Len(s), n) |-> p[(y - 1) * n + j]])
StepOf(i, n) == ((i - 1) % n) + 1
YearOf(i, n) == ((i - 1) \div n) + 1

\* calibration years as indices of years (C03): the whole record when the
\* period is not within the data
CalRange(nyears, start, c0, c1) ==
    IF c0 < start \/ c1 > start + nyears - 1 THEN <<1, nyears>>
    ELSE <<c0 - start + 1, c1 - start + 1>>
InCal(col, r) == SubSeq(col, r[1], r[2])
=============================================================================
