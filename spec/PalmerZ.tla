------------------------------- MODULE PalmerZ ------------------------------
(* Coefficients, climatic weights and the Z index from the balances (C14).   *)
EXTENDS Series
Z0(x) == FEq(x, FZero)
Ratio(a, b, whenZero) == IF ~Z0(b) THEN FDiv(a, b) ELSE IF Z0(a) THEN whenZero ELSE FZero
\* years (from 1) of calibration
CalYears(e) == (e.c0 - e.start + 1)..(e.c1 - e.start + 1)
CalSum(e, f(_, _), m) ==   \* sum over calibration years of f(year, month)
    LET a == e.c0 - e.start IN FSum([k \in 1..(e.c1 - e.c0 + 1) |-> f(a + k, m)])
Ix(y, m) == (y - 1) * 12 + m
Sums(e, p, W) ==
    LET S(f(_)) == TLCEval([m \in 1..12 |-> CalSum(e, LAMBDA y, k : f(Ix(y, k)), m)])
    IN  TLCEval([p |-> S(LAMBDA i : p[i]), pet |-> S(LAMBDA i : e.pet[i]),
         sp |-> S(LAMBDA i : W[i].sp), pl |-> S(LAMBDA i : W[i].pl), pr |-> S(LAMBDA i : W[i].pr),
         et |-> S(LAMBDA i : W[i].et), tl |-> S(LAMBDA i : W[i].tl),
         r |-> S(LAMBDA i : W[i].r), ro |-> S(LAMBDA i : W[i].ro)])
Coefficients(s) ==
    TLCEval([alpha |-> [m \in 1..12 |-> Ratio(s.et[m], s.pet[m], FOne)],
     beta  |-> [m \in 1..12 |-> Ratio(s.r[m], s.pr[m], FOne)],
     gamma |-> [m \in 1..12 |-> Ratio(s.ro[m], s.sp[m], FOne)],
     delta |-> [m \in 1..12 |-> Ratio(s.tl[m], s.pl[m], FZero)]])
\* sums so small that rounding decides the ratio
Fragile(s) == LET tiny(x) == ~Z0(x) /\ FLt(FAbs(x), FDec(1, 8))
              IN  \E m \in 1..12 : tiny(s.pet[m]) \/ tiny(s.pr[m]) \/ tiny(s.sp[m]) \/ tiny(s.pl[m])
Cafec(e, W, c, i) ==
    LET m == StepOf(i, 12)
    IN  FSub(FAdd(FAdd(FMul(c.alpha[m], e.pet[i]), FMul(c.beta[m], W[i].pr)), FMul(c.gamma[m], W[i].sp)),
             FMul(c.delta[m], W[i].pl))
Departures(e, p, W, c) == TLCEval([i \in 1..Len(p) |-> FSub(p[i], Cafec(e, W, c, i))])
MeanAbs(e, d) == TLCEval([m \in 1..12 |->
    FDiv(CalSum(e, LAMBDA y, k : FAbs(d[Ix(y, k)]), m), FOfInt(e.c1 - e.c0 + 1))])
Weights(s, dbar) ==
    LET T(m) == FDiv(FAdd(FAdd(s.pet[m], s.r[m]), s.ro[m]), FAdd(s.p[m], s.tl[m]))
        kh == TLCEval([m \in 1..12 |-> FAdd(FMul(FDec(15, 1), FLog10(FDiv(FAdd(T(m), FDec(28, 1)), dbar[m]))), FDec(5, 1))])
        sw == FSum([m \in 1..12 |-> FMul(dbar[m], kh[m])])
    IN  TLCEval([m \in 1..12 |-> FDiv(FMul(FDec(1767, 2), kh[m]), sw)])
=============================================================================
