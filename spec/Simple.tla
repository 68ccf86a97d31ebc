------------------------------- MODULE Simple -------------------------------
(* Sliding sums (C06), percentage of normal (C07), PCI (C08), PET (C11, C12) *)
EXTENDS Series, CalSpec

T6 == FDec(1, 6)
Cmp(name, out, want) ==
    IF Len(out) # Len(want) THEN {<<name, "length", Len(out), Len(want)>>}
    ELSE IF FCloseSeq(out, want, T6) THEN {}
    ELSE LET bad == {i \in 1..Len(out) : ~FClose(out[i], want[i], T6)}
             i == CHOOSE i \in bad : \A j \in bad : i <= j
         IN  {<<name, Cardinality(bad), i, FStr(out[i]), FStr(want[i])>>}
MustFail(e, why) == IF e.err = "" THEN {<<"accepted", why>>} ELSE {}

\* ---- C06
\* a window total equal to zero must be exactly zero, otherwise 1e-9 relative to the largest term
SumFaults(e) ==
    IF e.err # "" THEN NoErr(e) ELSE
    LET want == SlidingSums(e.x, e.k)
        scaleOf(i) == FMax(FDec(1, 6), FSumAbs(IF i < e.k THEN <<>> ELSE SubSeq(e.x, i - e.k + 1, i)))
        ok(i) == IF FIsNaN(want[i]) THEN FIsNaN(e.out[i])
                 ELSE /\ ~FIsNaN(e.out[i])
                      /\ FLe(FAbs(FSub(e.out[i], want[i])), FMul(FDec(1, 9), scaleOf(i)))
                      /\ (FEq(FSumAbs(SubSeq(e.x, i - e.k + 1, i)), FZero) => FEq(e.out[i], FZero))
    IN  IF Len(e.out) # Len(e.x) THEN {<<"length of the sums">>}
        ELSE LET bad == {i \in 1..Len(e.out) : ~ok(i)}
             IN  IF bad = {} THEN {} ELSE LET i == CHOOSE i \in bad : \A j \in bad : i <= j
                 IN {<<"sum", Cardinality(bad), i, FStr(e.out[i]), FStr(want[i])>>}
ScaleFaults(e) ==
    IF e.err # "" THEN NoErr(e)
    ELSE IF AllMissing(e.x) THEN (IF AllMissing(e.out) THEN {} ELSE {<<"missing series must stay missing">>})
    ELSE Cmp("scaled values", e.out, Padded(SlidingSums(ClipNegative(e.x), e.k), e.n))
         \cup (IF e.shape = <<Years(Len(e.x), e.n), e.n>> THEN {} ELSE {<<"shape", e.shape>>})

\* ---- C07
PnpFaults(e) ==
    IF e.k < 1 THEN MustFail(e, "scale below one")
    ELSE IF AllMissing(e.x) /\ e.masked THEN (IF e.err = "" THEN {} ELSE NoErr(e))
    ELSE IF e.c0 < e.start THEN MustFail(e, "calibration before the data")
    ELSE IF (e.c1 - e.c0 + 1) * e.n > Len(e.x) THEN MustFail(e, "calibration longer than the data")
    ELSE IF e.err # "" THEN NoErr(e)
    ELSE LET tot == SlidingSums(e.x, e.k)
             a == (e.c0 - e.start) * e.n
             lastI == IF (e.c1 - e.start + 1) * e.n < Len(tot) THEN (e.c1 - e.start + 1) * e.n ELSE Len(tot)
             cal == SubSeq(tot, a + 1, lastI)
             mean == TLCEval([j \in 1..e.n |-> FMean(Present(
                        [y \in 1..((Len(cal) - j + e.n) \div e.n) |-> cal[(y - 1) * e.n + j]]))])
             want == [i \in 1..Len(tot) |->
                        LET m == mean[StepOf(i, e.n)] IN IF FGt(m, FZero) THEN FDiv(tot[i], m) ELSE NaN]
         IN  Cmp("percentage of normal", e.out, want)

\* ---- C08
RECURSIVE CumDays(_, _)
CumDays(md, m) == IF m = 0 THEN 0 ELSE CumDays(md, m - 1) + md[m]
PciFaults(e) ==
    LET n == Len(e.x)
        md == MonthDays(IF n = 366 THEN 2000 ELSE 2001)
        mt == TLCEval([m \in 1..12 |-> FSum(SubSeq(e.x, CumDays(md, m - 1) + 1, CumDays(md, m)))])
        tot == FSum(mt)
        want == FMul(FDiv(FSum([m \in 1..12 |-> FSq(mt[m])]), FSq(tot)), FOfInt(100))
    IN  IF AllMissing(e.x) THEN (IF e.err = "" /\ AllMissing(e.out) THEN {} ELSE {<<"missing year must stay missing">>})
        ELSE IF n \notin {365, 366} \/ Len(Present(e.x)) # n THEN MustFail(e, "incomplete year")
        ELSE IF e.err # "" THEN NoErr(e)
        ELSE IF FEq(tot, FZero) THEN {}
        ELSE Cmp("PCI", e.out, <<want>>)
             \cup (IF Len(e.out) = 1 /\ FLe(FDec(833333, 5), e.out[1]) /\ FLe(e.out[1], FDec(100000001, 6)) THEN {} ELSE {<<"PCI bounds">>})

\* ---- solar geometry
Rad(deg) == FDiv(FMul(deg, FPi), FOfInt(180))
DayAngle(d) == FDiv(FMul(FMul(FTwo, FPi), FOfInt(d)), FOfInt(365))
Declination(d) == FMul(FDec(409, 3), FSin(FSub(DayAngle(d), FDec(139, 2))))
SunsetAngle(lat, d) ==
    FAcos(FClip(FNeg(FMul(FTan(lat), FTan(Declination(d)))), FNeg(FOne), FOne))
DayHours(lat, d) == FMul(FDiv(FOfInt(24), FPi), SunsetAngle(lat, d))
MeanHours(lat, y) ==
    LET md == MonthDays(y)
    IN  TLCEval([m \in 1..12 |->
            FMean([k \in 1..md[m] |-> DayHours(lat, CumDays(md, m - 1) + k)])])

\* ---- C11
ThornFaults(e) ==
    IF AllMissing(e.x) THEN (IF e.err = "" /\ Len(e.out) = Len(e.x) /\ AllMissing(e.out) THEN {} ELSE {<<"missing series must stay missing">>})
    ELSE IF FIsNaN(e.lat) \/ FLt(e.lat, FOfInt(-90)) \/ FGt(e.lat, FOfInt(90)) THEN MustFail(e, "latitude")
    ELSE IF e.err # "" THEN NoErr(e) ELSE
    LET t == ClipNegative(e.x)
        lat == Rad(e.lat)
        mean == TLCEval([j \in 1..12 |-> FMean(Present(Column(t, j, 12)))])
        I == TLCEval(FSum([j \in 1..12 |-> FPow(FDiv(mean[j], FOfInt(5)), FDec(1514, 3))]))
        a == TLCEval(FAdd(FAdd(FSub(FMul(FDec(675, 9), FMul(I, FSq(I))), FMul(FDec(771, 7), FSq(I))),
                               FMul(FDec(1792, 5), I)), FDec(49239, 5)))
        hc == MeanHours(lat, 2001)
        hl == MeanHours(lat, 2000)
        pet(i) == LET y == e.start + YearOf(i, 12) - 1
                      m == StepOf(i, 12)
                      h == IF IsLeap(y) THEN hl[m] ELSE hc[m]
                      nd == FOfInt(MonthDays(y)[m])
                  IN  FMul(FMul(FMul(FOfInt(16), FDiv(h, FOfInt(12))), FDiv(nd, FOfInt(30))),
                           FPow(FDiv(FMul(FOfInt(10), t[i]), I), a))
    IN  IF FLe(I, FZero) THEN (IF Len(e.out) = Len(e.x) THEN {} ELSE {<<"length of PET">>})
        ELSE Cmp("Thornthwaite PET", e.out, [i \in 1..Len(t) |-> IF FIsNaN(t[i]) THEN NaN ELSE pet(i)])

\* ---- C12
HargFaults(e) ==
    IF Len(e.tmin) # Len(e.tmean) \/ Len(e.tmax) # Len(e.tmean) THEN MustFail(e, "sizes")
    ELSE IF e.err # "" THEN NoErr(e) ELSE
    LET lat == TLCEval(Rad(e.lat))
        Ra(d) == LET ws == TLCEval(SunsetAngle(lat, d))
                     dec == TLCEval(Declination(d))
                     dr == FAdd(FOne, FMul(FDec(33, 3), FCos(DayAngle(d))))
                 IN  FMul(FMul(FMul(FDiv(FOfInt(1440), FPi), FDec(82, 3)), dr),
                          FAdd(FMul(FMul(ws, FSin(lat)), FSin(dec)),
                               FMul(FMul(FCos(lat), FCos(dec)), FSin(ws))))
        ra == TLCEval([d \in 1..366 |-> Ra(d)])
        pet(i) == FMul(FMul(FMul(FMul(FDec(23, 4), FAdd(e.tmean[i], FDec(178, 1))),
                            FSqrt(FSub(e.tmax[i], e.tmin[i]))), FDec(408, 3)), ra[StepOf(i, 366)])
    IN  Cmp("Hargreaves PET", e.out, [i \in 1..Len(e.tmean) |-> pet(i)])
=============================================================================
