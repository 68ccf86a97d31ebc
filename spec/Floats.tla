------------------------------- MODULE Floats -------------------------------
(* IEEE doubles for TLC.  A double is <<hi, lo>>: the two 32-bit halves of   *)
(* its bit pattern, as signed integers.  The operators below are evaluated   *)
(* by java/Floats.java (TLC finds the class by the module's name); the       *)
(* bodies here only fix arity and meaning.                                   *)
EXTENDS Integers, Sequences

LOCAL Undef(x) == CHOOSE y \in {x} : TRUE

FAdd(a, b) == Undef(a)          \* a + b
FSub(a, b) == Undef(a)
FMul(a, b) == Undef(a)
FDiv(a, b) == Undef(a)
FNeg(a)    == Undef(a)
FAbs(a)    == Undef(a)
FLt(a, b)  == Undef(a)          \* a < b, FALSE on NaN
FLe(a, b)  == Undef(a)
FEq(a, b)  == Undef(a)
FIsNaN(a)  == Undef(a)
FIsFinite(a) == Undef(a)
FSqrt(a)   == Undef(a)
FExp(a)    == Undef(a)
FLog(a)    == Undef(a)          \* natural logarithm
FLog10(a)  == Undef(a)
FPow(a, b) == Undef(a)
FSin(a)    == Undef(a)
FCos(a)    == Undef(a)
FTan(a)    == Undef(a)
FAcos(a)   == Undef(a)
FOfInt(n)  == Undef(n)          \* integer to double
FDec(m, e) == Undef(m)          \* m / 10^e, correctly rounded
FLgamma(a) == Undef(a)
FGammaCdf(x, a) == Undef(a)     \* regularized lower incomplete gamma P(a,x)
FGammaSf(x, a)  == Undef(a)     \* 1 - P(a,x)
FNormCdf(x)     == Undef(x)
FNormPpf(p)     == Undef(p)     \* standard normal quantile
FClose(a, b, t) == Undef(a)     \* |a-b| <= t*max(1,|b|); NaN matches NaN only
FSameSeq(s, t)  == Undef(s)     \* element-wise equal, NaN = NaN
FCloseSeq(s, u, t) == Undef(s)  \* element-wise FClose, equal lengths
FSum(s)    == Undef(s)          \* sum over a sequence
FSumAbs(s) == Undef(s)
FSort(s)   == Undef(s)          \* ascending, NaN last
FMapAdd(s, t) == Undef(s)       \* element-wise sum
FStr(a)    == Undef(a)          \* decimal text, for messages

NaN   == <<2146959360, 0>>
FZero == <<0, 0>>
FOne  == FOfInt(1)
FTwo  == FOfInt(2)
FPi   == <<1074340347, 1413754136>>
FMin(a, b) == IF FLt(b, a) THEN b ELSE a
FMax(a, b) == IF FLt(a, b) THEN b ELSE a
FGt(a, b)  == FLt(b, a)
FGe(a, b)  == FLe(b, a)
FSq(a)     == FMul(a, a)
FClip(x, lo, hi) == IF FIsNaN(x) THEN x ELSE FMin(FMax(x, lo), hi)
Missing(x) == FIsNaN(x)
Present(s) == SelectSeq(s, LAMBDA v : ~FIsNaN(v))
AllMissing(s) == \A i \in 1..Len(s) : FIsNaN(s[i])
FMean(s)   == FDiv(FSum(s), FOfInt(Len(s)))       \* NaN (0/0) when empty
=============================================================================
