------------------------------ MODULE PalmerF -------------------------------
(* Arithmetic of the spell accounting in IEEE doubles.                       *)
EXTENDS Floats
PDecay(x) == FMul(FDec(897, 3), x)
PThird(z) == FDiv(z, FOfInt(3))
PNeedWet(x) == FSub(FMul(FDec(-2691, 3), x), FDec(15, 1))
PNeedDry(x) == FAdd(FMul(FDec(-2691, 3), x), FDec(15, 1))
PPercent(a, b) == FMul(FDiv(a, b), FOfInt(100))
PWeigh(pr, x3, x) == LET p == FDiv(pr, FOfInt(100)) IN FAdd(FMul(FSub(FOne, p), x3), FMul(p, x))
PAbsGt(a, b) == FLt(FAbs(b), FAbs(a))
\* equal values compare reliably against zero only
PNear(a, b) == IF FEq(a, b) THEN ~FEq(b, FZero) ELSE FLt(FAbs(FSub(a, b)), FMul(FDec(1, 9), FMax(FOne, FAbs(b))))
=============================================================================
