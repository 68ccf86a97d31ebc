------------------------------ MODULE CalSpec -------------------------------
(* Verdicts for the calendar conversions (C09) and offsets (C10).            *)
EXTENDS Calendar, Floats, FiniteSets, TLC

\* expected 366-day series of x, which starts on 1 January y0 (ny years)
At(x, g) == IF g <= Len(x) THEN x[g] ELSE NaN      \* days after the record are missing
To366(x, y0, ny) ==
    TLCEval([i \in 1..(366 * ny) |->
        LET y == y0 + (i - 1) \div 366
            d == ((i - 1) % 366) + 1
            g == GregIndex(y0, y, d)
        IN  IF Inserted(y, d)
            THEN FDiv(FAdd(At(x, DaysBetween(y0, y) + 59), At(x, DaysBetween(y0, y) + 60)), FTwo)
            ELSE At(x, g)])
ToGreg(x, y0) ==
    LET ny == Len(x) \div 366
    IN  TLCEval([g \in 1..DaysBetween(y0, y0 + ny) |->
            LET t == DateOf(y0, g)
            IN  x[366 * (t.y - y0) + FaithDay(t.y, t.r)]])

SeqFault(name, out, want) ==
    IF Len(out) # Len(want) THEN {<<name, "length", Len(out), Len(want)>>}
    ELSE IF FCloseSeq(out, want, FDec(1, 9)) THEN {}
    ELSE LET bad == {i \in 1..Len(out) : ~FClose(out[i], want[i], FDec(1, 9))}
             i == CHOOSE i \in bad : \A j \in bad : i <= j
         IN  {<<name, Cardinality(bad), i, FStr(out[i]), FStr(want[i])>>}

NoErr(e) == IF e.err = "" THEN {} ELSE {<<"error", e.err>>}
To366Faults(e) == IF e.err # "" THEN NoErr(e) ELSE SeqFault("366-day series", e.out, To366(e.x, e.y0, e.ny))
ToGregFaults(e) ==
    IF Len(e.x) % 366 # 0 THEN (IF e.err = "" THEN {<<"partial 366-day year accepted">>} ELSE {})
    ELSE IF e.err # "" THEN NoErr(e) ELSE SeqFault("Gregorian series", e.out, ToGreg(e.x, e.y0))
RoundFaults(e) == IF e.err # "" THEN NoErr(e) ELSE SeqFault("round trip", e.out, e.x)
LengthFaults(e) == \* e.q: sequence of <<len, y0, result>>
    {<<"366-day length", e.q[i]>> : i \in {i \in 1..Len(e.q) : e.q[i][3] # Length366(e.q[i][1], e.q[i][2])}}
DaysFaults(e) ==
    IF e.err # "" THEN NoErr(e)
    ELSE IF Len(e.out) # e.months THEN {<<"number of offsets">>}
    ELSE LET bad == {i \in 1..Len(e.out) : e.out[i] # MonthOffset(e.y0, e.m0, e.ref, i)}
         IN  IF bad = {} THEN {} ELSE {<<"offset", Cardinality(bad), CHOOSE i \in bad : \A j \in bad : i <= j>>}
=============================================================================
