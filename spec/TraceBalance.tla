---------------------------- MODULE TraceBalance ----------------------------
(* Follows recorded Palmer runs through the water balance and compares       *)
(* coefficients and Z.  A run: id, p, pet, awc, start, c0, c1, par (given    *)
(* coefficient sets or <<>>), z, opar (returned sets), err.                  *)
EXTENDS PalmerZ, Json, IOUtils, FiniteSets
VARIABLES n, ss, su, months, run, broken
Runs == ndJsonDeserialize(IOEnv.TRACE)
BMulDiv(a, b, c) == FDiv(FMul(a, b), c)
B == INSTANCE PalmerBalance WITH Zero <- FZero, Top <- FOne, Add <- FAdd, Sub <- FSub,
                                 MulDiv <- BMulDiv, Lt <- FLt
Tol == FDec(1, 6)
Eps == FDec(1, 9)
Diff(name, out, want) ==
    IF Len(out) # Len(want) THEN {<<name, "length", Len(out), Len(want)>>}
    ELSE IF FCloseSeq(out, want, Tol) THEN {}
    ELSE LET bad == {i \in 1..Len(out) : ~FClose(out[i], want[i], Tol)}
             i == CHOOSE i \in bad : \A j \in bad : i <= j
         IN  {<<name, Cardinality(bad), i, FStr(out[i]), FStr(want[i])>>}
Precip(e, i) == IF FLt(e.p[i], FZero) THEN FZero ELSE e.p[i]
\* months up to the first missing one (missing ones in the calibration years
\* leave everything open)
Ends(e, k) == IF k = Len(e.p) THEN TRUE ELSE Missing(e.p[k + 1]) \/ Missing(e.pet[k + 1])
Plain(e) == e.err = "" /\ ~AllMissing(e.p) /\ Len(e.p) = Len(e.pet)

\* water is neither made nor lost, and stays within the layers
Conserved(e, i, b) ==
    /\ FClose(FAdd(Precip(e, i), b.tl), FAdd(FAdd(b.et, b.r), b.ro), Eps)
    /\ FLe(FNeg(Eps), b.ss) /\ FLe(b.ss, FAdd(FOne, Eps))
    /\ FLe(FNeg(Eps), b.su) /\ FLe(b.su, FAdd(B!Bottom(e.awc), Eps))

Init == n = 0 /\ ss = FZero /\ su = FZero /\ months = <<>> /\ run = 1 /\ broken = TRUE
\* broken doubles as "run not started"
Start == /\ run <= Len(Runs) /\ broken /\ n = 0
         /\ broken' = FALSE /\ ss' = FOne /\ su' = B!Bottom(Runs[run].awc)
         /\ UNCHANGED <<n, months, run>>
Step == /\ run <= Len(Runs) /\ ~broken /\ Plain(Runs[run]) /\ ~Ends(Runs[run], n)
        /\ LET e == Runs[run] IN
           /\ B!Month(Precip(e, n + 1), e.pet[n + 1], e.awc)
           /\ IF Conserved(e, n + 1, months'[n + 1]) THEN TRUE
              ELSE PrintT(<<"SPECBROKEN", e.id, n + 1>>)
        /\ UNCHANGED <<run, broken>>
Verdict(e, W) ==
    IF AllMissing(e.p) THEN (IF e.err = "" /\ Len(e.z) = Len(e.p) /\ AllMissing(e.z) THEN {} ELSE {<<"missing series must stay missing">>})
    ELSE IF Len(e.p) # Len(e.pet) THEN (IF e.err = "" THEN {<<"different sizes accepted">>} ELSE {})
    ELSE IF e.err # "" THEN {<<"error", e.err>>}
    ELSE IF Len(W) < (e.c1 - e.start + 1) * 12 THEN {}
    ELSE IF Len(e.z) # Len(e.p) THEN {<<"Z", "length", Len(e.z), Len(e.p)>>}
    ELSE LET p == TLCEval([i \in 1..Len(W) |-> Precip(e, i)])
             s == Sums(e, p, W)
             c == IF e.par = <<>> THEN Coefficients(s) ELSE e.par
             d == Departures(e, p, W, c)
             db == MeanAbs(e, d)
             k == Weights(s, db)
             zz == [i \in 1..Len(p) |-> FMul(k[StepOf(i, 12)], d[i])]
             weak == Fragile(s) \/ \E m \in 1..12 : FLt(db[m], FDec(1, 6))
         IN  IF weak THEN (IF PrintT(<<"TIE", e.id>>) THEN {} ELSE {})
             ELSE Diff("alpha", e.opar.alpha, c.alpha) \cup Diff("beta", e.opar.beta, c.beta)
                  \cup Diff("gamma", e.opar.gamma, c.gamma) \cup Diff("delta", e.opar.delta, c.delta)
                  \cup Diff("Z", SubSeq(e.z, 1, Len(p)), zz)
End == /\ run <= Len(Runs) /\ ~broken /\ (IF Plain(Runs[run]) THEN Ends(Runs[run], n) ELSE TRUE)
       /\ LET d == Verdict(Runs[run], months)
          IN  IF d = {} THEN TRUE ELSE PrintT(<<"FAULT", Runs[run].id, d>>)
       /\ run' = run + 1 /\ n' = 0 /\ months' = <<>> /\ broken' = TRUE
       /\ UNCHANGED <<ss, su>>
Next == Start \/ Step \/ End
Spec == Init /\ [][Next]_<<n, ss, su, months, run, broken>>
=============================================================================
