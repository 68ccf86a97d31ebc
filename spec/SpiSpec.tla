------------------------------ MODULE SpiSpec -------------------------------
(* SPI and SPEI of a series (C01, C02), fitting (C03), parameters in and     *)
(* out (C04).  A "request" r has: k scale, n steps per year, dist, start,    *)
(* c0, c1 calibration years, par (given parameters or <<>>).                 *)
EXTENDS Dist, FiniteSets, SequencesExt

Tol == D(1, 6)

FitOf(cal, dist) == IF dist = "gamma" THEN GammaFit(cal) ELSE PearsonFit(cal)

\* fit of every calendar step of the totals
Fits(tot, r) ==
    LET rng == CalRange(Years(Len(tot), r.n), r.start, r.c0, r.c1)
    IN  TLCEval([j \in 1..r.n |-> TLCEval(FitOf(InCal(Column(tot, j, r.n), rng), r.dist))])

GivenFits(r) ==
    IF r.dist = "gamma"
    THEN [j \in 1..r.n |-> [ok |-> ~FLt(FOfInt(5000000), r.par.alpha[j]), alpha |-> r.par.alpha[j], beta |-> r.par.beta[j]]]
    ELSE [j \in 1..r.n |-> [ok |-> TRUE, fitted |-> FGt(r.par.scale[j], FZero), pz |-> r.par.prob_zero[j],
                            loc |-> r.par.loc[j], scale |-> r.par.scale[j], skew |-> r.par.skew[j]]]

\* z-score of total v under fit f; q: zero share for gamma.  open: any
\* value in range, or missing, is accepted (degenerate sample or tie)
Score(v, f, q, dist) ==
    IF FIsNaN(v) THEN [z |-> NaN, open |-> FALSE]
    ELSE IF ~f.ok THEN [z |-> NaN, open |-> TRUE]
    ELSE IF dist = "gamma"
         THEN IF FIsNaN(f.alpha) THEN [z |-> NaN, open |-> FALSE]
              ELSE [z |-> GammaZ(v, q, f), open |-> FALSE]
         \* without a fit the total has no index value; totals that count as
         \* zero, and given parameters that make half a fit, are left open
         ELSE IF ~f.fitted THEN [z |-> NaN, open |-> FLt(v, D(6, 4)) \/ ~FEq(f.skew, FZero)]
              ELSE [z |-> PearsonZ(v, f), open |-> PearsonEdge(v, f)]

\* expected scores of a series of totals, with given fits
Scores(tot, fits, r) ==
    LET q == TLCEval([j \in 1..r.n |-> IF r.dist = "gamma" THEN GammaZeroShare(Column(tot, j, r.n)) ELSE FZero])
    IN  TLCEval([i \in 1..Len(tot) |->
            LET j == StepOf(i, r.n) IN TLCEval(Score(tot[i], fits[j], q[j], r.dist))])

InRange(z) == FIsNaN(z) \/ (FLe(ZMin, z) /\ FLe(z, ZMax))

\* names of the clauses the result breaks
ScoreFaults(tot, out, fits, r) ==
    IF Len(out) # Len(tot) THEN {<<"length of the result">>}
    ELSE LET s == Scores(tot, fits, r)
             badR == {i \in 1..Len(out) : ~InRange(out[i])}
             badM == {i \in 1..Len(out) : ~s[i].open /\ FIsNaN(out[i]) # FIsNaN(s[i].z)}
             badV == {i \in 1..Len(out) : ~s[i].open /\ ~FClose(out[i], s[i].z, Tol)} \ badM
             show(S) == LET i == CHOOSE i \in S : \A j \in S : i <= j
                        IN  <<Cardinality(S), i, FStr(out[i]), FStr(s[i].z), FStr(tot[i])>>
         IN  (IF badR # {} THEN {<<"range", show(badR)>>} ELSE {})
             \cup (IF badM # {} THEN {<<"missing pattern", show(badM)>>} ELSE {})
             \cup (IF badV # {} THEN {<<"value", show(badV)>>} ELSE {})

HasPar(r) == r.par # <<>>
TotalsFaults(tot, e) ==
    IF AllMissing(tot)
    THEN IF e.err # "" THEN {<<"error", e.err>>}
         ELSE IF Len(e.out) # Len(tot) THEN {<<"length of the result">>}
         ELSE IF AllMissing(e.out) THEN {} ELSE {<<"missing series must stay missing">>}
    ELSE LET fits == IF HasPar(e) THEN GivenFits(e) ELSE Fits(tot, e)
         IN  IF e.err # ""
             THEN IF \E j \in 1..e.n : MayRefuse(fits[j]) THEN {} ELSE {<<"error", e.err>>}
             ELSE ScoreFaults(tot, e.out, fits, e)

SpiTotals(e) == SlidingSums(ClipNegative(e.x), e.k)
SpiFaults(e) == TotalsFaults(SpiTotals(e), e)

Balance(p, t) == [i \in 1..Len(p) |-> FAdd(FSub(p[i], t[i]), FOfInt(1000))]
SpeiTotals(e) == SlidingSums(TLCEval(Balance(ClipNegative(e.x), e.pet)), e.k)
SpeiFaults(e) ==
    IF AllMissing(e.x)
    THEN IF e.err = "" /\ Len(e.out) = Len(e.x) /\ AllMissing(e.out) THEN {} ELSE {<<"missing series must stay missing">>}
    ELSE IF Len(e.x) # Len(e.pet)
    THEN IF e.err = "" THEN {<<"different sizes accepted">>} ELSE {}
    ELSE TotalsFaults(SpeiTotals(e), e)

\* parameters (C03): e.x holds the values to be fitted
ParTol == D(1, 7)
ParFaults(e) ==
    LET fits == Fits(e.x, e)
        far(a, b) == ~FClose(a, b, ParTol)
        farR(a, b) == ~FClose(a, b, D(1, 13)) /\ ~FClose(FDiv(a, b), FOne, D(1, 6))
        bad == {j \in 1..e.n : fits[j].ok /\
                  IF e.dist = "gamma"
                  THEN farR(e.out.alpha[j], fits[j].alpha) \/ farR(e.out.beta[j], fits[j].beta)
                  ELSE \/ far(e.out.prob_zero[j], fits[j].pz) \/ far(e.out.loc[j], fits[j].loc)
                       \/ far(e.out.scale[j], fits[j].scale) \/ far(e.out.skew[j], fits[j].skew)}
        len == IF e.dist = "gamma" THEN {Len(e.out.alpha), Len(e.out.beta)}
               ELSE {Len(e.out.prob_zero), Len(e.out.loc), Len(e.out.scale), Len(e.out.skew)}
    IN  IF e.err # "" THEN (IF \E j \in 1..e.n : MayRefuse(fits[j]) THEN {} ELSE {<<"error", e.err>>})
        ELSE IF len # {e.n} THEN {<<"number of parameters">>}
        ELSE IF bad = {} THEN {}
        ELSE LET j == CHOOSE j \in bad : \A k \in bad : j <= k
             IN  {<<"parameters", Cardinality(bad), j,
                    IF e.dist = "gamma" THEN <<FStr(e.out.alpha[j]), FStr(fits[j].alpha), FStr(e.out.beta[j]), FStr(fits[j].beta)>>
                    ELSE <<FStr(e.out.prob_zero[j]), FStr(fits[j].pz), FStr(e.out.loc[j]), FStr(fits[j].loc),
                           FStr(e.out.scale[j]), FStr(fits[j].scale), FStr(e.out.skew[j]), FStr(fits[j].skew)>> >>}
=============================================================================
