----------------------------- MODULE TracePalmer ----------------------------
(* Follows recorded runs month by month with Palmer!Month.  A run: id, z,    *)
(* pdsi, phdi, pmdi as returned by the implementation.                       *)
EXTENDS PalmerF, TLC, Json, IOUtils, FiniteSets
VARIABLES t, v, pro, x1, x2, x3, pend, slot, kmax, mon, pdsi, phdi, pmdi, tie,
          run, judged
Runs == ndJsonDeserialize(IOEnv.TRACE)
P == INSTANCE Palmer WITH
      Zero <- FZero, One <- FOne, MinusOne <- FNeg(FOne), Half <- FDec(5, 1), MinusHalf <- FDec(-5, 1),
      P15 <- FDec(15, 2), M15 <- FDec(-15, 2), Hundred <- FOfInt(100),
      Decay <- PDecay, Third <- PThird, Add <- FAdd, Sub <- FSub, Lt <- FLt, Eq <- FEq,
      NeedWet <- PNeedWet, NeedDry <- PNeedDry, Percent <- PPercent, Weigh <- PWeigh,
      AbsGt <- PAbsGt, Near <- PNear
tvars == <<P!pvars, run, judged>>
Tol == FDec(1, 6)
Diff(name, out, want) ==
    IF Len(out) # Len(want) THEN {<<name, "length", Len(out), Len(want)>>}
    ELSE IF FCloseSeq(out, want, Tol) THEN {}
    ELSE LET bad == {i \in 1..Len(out) : ~FClose(out[i], want[i], Tol)}
             i == CHOOSE i \in bad : \A j \in bad : i <= j
         IN  {<<name, Cardinality(bad), i, FStr(out[i]), FStr(want[i])>>}
Invariants == /\ P!Contiguous /\ P!SpellSigns /\ P!WhyUndecided /\ P!IncipientSmall
              /\ P!SlotsCover /\ P!StillUndecidedAtEnd
Init == P!PInit /\ run = 1 /\ judged = 0
Step == /\ run <= Len(Runs) /\ t < Len(Runs[run].z)
        /\ P!Month(Runs[run].z[t + 1])
        /\ UNCHANGED <<run, judged>>
End  == /\ run <= Len(Runs) /\ t = Len(Runs[run].z)
        /\ LET e == Runs[run]
               f == P!Finish(0)
               d == IF tie THEN {} ELSE Diff("PDSI", e.pdsi, f.pdsi) \cup Diff("PHDI", e.phdi, f.phdi)
                                        \cup Diff("PMDI", e.pmdi, f.pmdi)
                    \cup (IF Invariants THEN {} ELSE {<<"spell invariants">>})
           IN  /\ IF d = {} THEN TRUE ELSE PrintT(<<"FAULT", e.id, d>>)
               /\ IF tie THEN PrintT(<<"TIE", e.id>>) ELSE TRUE
        /\ run' = run + 1 /\ judged' = judged + (IF tie THEN 0 ELSE 1)
        /\ t' = 0 /\ v' = FZero /\ pro' = FZero /\ x1' = FZero /\ x2' = FZero /\ x3' = FZero
        /\ pend' = <<>> /\ slot' = <<>> /\ kmax' = 0 /\ mon' = <<>>
        /\ pdsi' = <<>> /\ phdi' = <<>> /\ pmdi' = <<>> /\ tie' = FALSE
Next == Step \/ End
Spec == Init /\ [][Next]_tvars
=============================================================================
