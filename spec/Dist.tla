-------------------------------- MODULE Dist --------------------------------
(* Fitting (C03) and the transform to z-scores (C01, C02).  A fit is a       *)
(* record; ok = FALSE means the sample is degenerate and the value left open.*)
EXTENDS Series

D(m, e) == FDec(m, e)
ZMin == D(-309, 2)
ZMax == D(309, 2)

(* ---- gamma *)
NonZero(sample) == SelectSeq(sample, LAMBDA v : ~FIsNaN(v) /\ ~FEq(v, FZero))
GammaFit(sample) ==
    LET nz   == TLCEval(NonZero(sample))
        n    == Len(nz)
        m    == FMean(nz)
        ml   == FMean([i \in 1..n |-> FLog(nz[i])])
        a    == TLCEval(FSub(FLog(m), ml))
        al   == TLCEval(FDiv(FAdd(FOne, FSqrt(FAdd(FOne, FDiv(FMul(FOfInt(4), a), FOfInt(3))))),
                             FMul(FOfInt(4), a)))
    IN  IF n = 0 THEN [ok |-> TRUE, alpha |-> NaN, beta |-> NaN]
        ELSE [ok |-> n >= 2 /\ FGt(a, D(1, 7)), alpha |-> al, beta |-> FDiv(m, al)]

\* share of zeros among all years of the record (named deviation GammaZeroShare:
\* missing years count in the denominator)
GammaZeroShare(col) ==
    FDiv(FOfInt(Len(SelectSeq(col, LAMBDA v : FEq(v, FZero)))), FOfInt(Len(col)))

GammaZ(v, q, f) ==
    IF FIsNaN(v) \/ FEq(v, FZero) THEN NaN        \* named deviation GammaZeroMissing
    ELSE LET g == FGammaCdf(FDiv(v, f.beta), f.alpha)
             p == FAdd(q, FMul(FSub(FOne, q), g))
         IN  FClip(FNormPpf(FMin(p, FOne)), ZMin, ZMax)

(* ---- Pearson III *)
\* Hosking's unbiased L-moment estimates from the non-missing sample
LMoments(sample) ==
    LET s == TLCEval(FSort(Present(sample)))
        n == Len(s)
        N == FOfInt(n)
        b0 == FMean(s)
        b1 == FDiv(FSum([i \in 1..n |-> FMul(s[i], FOfInt(i - 1))]), FMul(N, FOfInt(n - 1)))
        b2 == FDiv(FSum([i \in 1..n |-> FMul(s[i], FOfInt((i - 1) * (i - 2)))]),
                   FMul(N, FMul(FOfInt(n - 1), FOfInt(n - 2))))
        l2 == FSub(FMul(FTwo, b1), b0)
        l3 == FAdd(FSub(FMul(FOfInt(6), b2), FMul(FOfInt(6), b1)), b0)
    IN  TLCEval([l1 |-> b0, l2 |-> l2, t3 |-> FDiv(l3, l2)])

Horner3(t, a, b, c) == FMul(t, FAdd(a, FMul(t, FAdd(b, FMul(t, c)))))
PearsonShape(t3) ==  \* alpha as a function of |t3| (Hosking's approximations)
    IF FLt(t3, FDec(333333333, 9))
    THEN LET t == TLCEval(FMul(FMul(FPi, FOfInt(3)), FSq(t3)))
         IN  FDiv(FAdd(FOne, FMul(D(2906, 4), t)),
                  FMul(t, FAdd(FOne, FMul(t, FAdd(D(1882, 4), FMul(t, D(442, 4)))))))
    ELSE LET t == TLCEval(FSub(FOne, t3))
         IN  FDiv(Horner3(t, D(36067, 5), D(-59567, 5), D(25361, 5)),
                  FAdd(FOne, Horner3(t, D(-278861, 5), D(256096, 5), D(-77045, 5))))

\* zeros and missing values of the calibration sample
Zeros(sample) == Len(SelectSeq(sample, LAMBDA v : FEq(v, FZero)))
\* the fit of a sample of at least four values
LFit(sample) ==
    LET lm == LMoments(sample)
        at3 == FAbs(lm.t3)
        al == TLCEval(PearsonShape(at3))
        rt == FSqrt(al)
        beta == FMul(FMul(FSqrt(FPi), lm.l2),
                     FExp(FSub(FLgamma(al), FLgamma(FAdd(al, D(5, 1))))))
        skew == FDiv(FTwo, rt)
    IN  IF FLe(lm.l2, D(1, 9)) \/ FGe(at3, D(999999, 6))
        THEN [ok |-> FALSE, fitted |-> FALSE, loc |-> FZero, scale |-> FZero, skew |-> FZero,
              refused |-> "invalid L-moments"]
        ELSE IF FLe(at3, D(1, 6))
        THEN [ok |-> FLt(at3, D(9, 7)), fitted |-> TRUE, loc |-> lm.l1,
              scale |-> FMul(lm.l2, FSqrt(FPi)), skew |-> FZero]
        ELSE [ok |-> FGt(at3, D(1, 3)), fitted |-> TRUE, loc |-> lm.l1,
              scale |-> FMul(beta, rt),
              skew |-> IF FLt(lm.t3, FZero) THEN FNeg(skew) ELSE skew]
PearsonFit(sample) ==
    LET n0 == Zeros(sample)
        nv == Len(Present(sample))
    IN  IF nv - n0 < 4      \* too few values: no fit
        THEN [ok |-> TRUE, fitted |-> FALSE, pz |-> FZero, loc |-> FZero, scale |-> FZero, skew |-> FZero]
        ELSE [pz |-> IF n0 > 0 THEN FDiv(FOfInt(n0), FOfInt(nv)) ELSE FZero] @@ LFit(sample)

\* no distribution has such a sample: the fit may be refused
MayRefuse(f) == "refused" \in DOMAIN f
PearsonBound(f) == FSub(f.loc, FDiv(FMul(FTwo, f.scale), f.skew))
PearsonCdf(v, f) ==
    LET y  == FDiv(FSub(v, f.loc), f.scale)
        al == FDiv(FOfInt(4), FSq(f.skew))
        t  == FAdd(FMul(FDiv(FTwo, f.skew), y), al)
    IN  IF FEq(f.skew, FZero) THEN FNormCdf(y)
        ELSE IF FGt(f.skew, FZero) THEN FGammaCdf(t, al) ELSE FGammaSf(t, al)

Trace0 == D(5, 4)       \* totals under 0.0005 count as zero
\* conditional probability by the rules in order of precedence
PearsonProb(v, f) ==
    IF ~FEq(f.skew, FZero) /\ FGt(f.skew, FZero) /\ FLe(v, PearsonBound(f)) THEN D(5, 4)
    ELSE IF ~FEq(f.skew, FZero) /\ FLt(f.skew, FZero) /\ FGe(v, PearsonBound(f)) THEN D(9995, 4)
    ELSE IF FLt(v, Trace0) THEN (IF FGt(f.pz, FZero) THEN FZero ELSE D(5, 4))
    ELSE PearsonCdf(v, f)
PearsonZ(v, f) ==
    IF FIsNaN(v) THEN NaN
    ELSE LET p == FAdd(f.pz, FMul(FSub(FOne, f.pz), PearsonProb(v, f)))
         IN  FClip(FNormPpf(FMax(FMin(p, FOne), FZero)), ZMin, ZMax)
\* v lies so close to a switching point that rounding decides
PearsonEdge(v, f) ==
    \/ FClose(v, Trace0, D(1, 12))
    \/ ~FEq(f.skew, FZero) /\ FLt(FAbs(f.skew), D(2, 5))      \* may be taken as normal
    \/ ~FEq(f.skew, FZero) /\ FClose(FDiv(FSub(v, PearsonBound(f)), f.scale), FZero, D(1, 7))
=============================================================================
