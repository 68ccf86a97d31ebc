------------------------------ MODULE Helpers -------------------------------
(* The small public helpers and the L-moments fit (C26).  Arrays are given   *)
(* as their values in row-major order and their shape.                       *)
EXTENDS Simple, Dist

Refuse(e, why) == IF e.err = "" THEN {<<"accepted", e.op, why>>} ELSE {}
Shape(e, want) == IF e.oshape = want THEN {} ELSE {<<e.op, "shape", e.oshape, want>>}
Exact(e, want) == IF FSameSeq(e.out, want) THEN {} ELSE Cmp(e.op, e.out, want) \cup {<<e.op, "not exactly the values">>}
Last(s) == s[Len(s)]

\* rows of n values: every value in its place, the last row completed with
\* missing values
RowsFaults(e) ==
    IF Len(e.shape) > 2 THEN Refuse(e, "more than two dimensions")
    ELSE IF Len(e.shape) = 2 /\ e.shape[2] # e.n THEN Refuse(e, "other row length")
    ELSE IF e.err # "" THEN NoErr(e)
    ELSE Exact(e, Padded(e.x, e.n)) \cup Shape(e, <<Years(Len(e.x), e.n), e.n>>)
\* divisions by months into divisions by years by months
DivsFaults(e) ==
    IF Len(e.shape) \notin {2, 3} THEN Refuse(e, "neither two nor three dimensions")
    ELSE IF Len(e.shape) = 3 /\ e.shape[3] # 12 THEN Refuse(e, "not twelve months")
    ELSE IF Len(e.shape) = 2 /\ e.shape[2] % 12 # 0 THEN Refuse(e, "part of a year")
    ELSE IF e.err # "" THEN NoErr(e)
    ELSE Exact(e, e.x) \cup Shape(e, IF Len(e.shape) = 3 THEN e.shape ELSE <<e.shape[1], e.shape[2] \div 12, 12>>)

Sign(v) == IF FGt(v, FZero) THEN 1 ELSE IF FLt(v, FZero) THEN -1 ELSE 0
Flag(b) == IF b THEN FOne ELSE FZero
SignFaults(e) ==
    IF Len(e.x) # Len(e.y) THEN Refuse(e, "different sizes")
    ELSE IF e.err # "" THEN NoErr(e)
    ELSE Exact(e, [i \in 1..Len(e.x) |-> Flag(Sign(e.x[i]) # Sign(e.y[i]))]) \cup Shape(e, e.shape)
CountFaults(e) ==
    IF e.err # "" THEN NoErr(e) ELSE Exact(e, <<FOfInt(Zeros(e.x)), FOfInt(Len(Present(e.x)))>>)
\* something to compute with: an array with at least one value
ValidFaults(e) == IF e.err # "" THEN NoErr(e) ELSE Exact(e, <<Flag(e.isarray /\ ~AllMissing(e.x))>>)
RmseFaults(e) ==
    IF e.err # "" THEN NoErr(e)
    ELSE Cmp("rmse", e.out, <<FSqrt(FMean([i \in 1..Len(e.x) |-> FSq(FSub(e.x[i], e.y[i]))]))>>)
\* coordinates may differ by a tenth of their smallest spacing
TolFaults(e) ==
    IF e.err # "" THEN NoErr(e)
    ELSE IF Len(e.out) # 1 \/ ~FGt(e.out[1], FZero) THEN {<<"tolerance not positive">>}
    ELSE IF Len(e.x) < 2 THEN (IF FLe(e.out[1], FDec(1, 6)) THEN {} ELSE {<<"tolerance of a single coordinate", FStr(e.out[1])>>})
    ELSE LET d == [i \in 1..(Len(e.x) - 1) |-> FAbs(FSub(e.x[i + 1], e.x[i]))]
             g == CHOOSE g \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : FLe(g, d[i])
             want == FDiv(g, FOfInt(10))
         IN  IF FLe(FAbs(FSub(e.out[1], want)), FMul(want, FDec(1, 6))) THEN {} ELSE {<<"tolerance", FStr(e.out[1]), FStr(want)>>}
\* location, scale and skew by L-moments, whatever the order of the values
LFitFaults(e) ==
    LET f == LFit(e.x)
        far(a, b) == ~FClose(a, b, FDec(1, 7))
        \* the spread is not lost in the rounding of the values
        sound == FGe(f.scale, FMul(FAbs(f.loc), FDec(1, 6)))
    IN  IF Len(Present(e.x)) < 4 THEN Refuse(e, "fewer than four values")
        ELSE IF "refused" \in DOMAIN f
        THEN (IF FLe(LMoments(e.x).l2, FZero) THEN Refuse(e, "no variation") ELSE {})
        ELSE IF e.err # "" THEN NoErr(e)
        ELSE IF f.ok /\ sound /\ (far(e.out[1], f.loc) \/ far(e.out[2], f.scale) \/ far(e.out[3], f.skew))
        THEN {<<"L-moments fit", <<FStr(e.out[1]), FStr(e.out[2]), FStr(e.out[3])>>, <<FStr(f.loc), FStr(f.scale), FStr(f.skew)>>>>}
        ELSE {}
HelpFaults(e) == CASE e.op = "rows" -> RowsFaults(e)
                   [] e.op = "divs" -> DivsFaults(e)
                   [] e.op = "sign" -> SignFaults(e)
                   [] e.op = "count" -> CountFaults(e)
                   [] e.op = "valid" -> ValidFaults(e)
                   [] e.op = "rmse" -> RmseFaults(e)
                   [] e.op = "tol" -> TolFaults(e)
                   [] e.op = "lfit" -> LFitFaults(e)
=============================================================================
