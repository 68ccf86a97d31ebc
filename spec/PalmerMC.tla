------------------------------ MODULE PalmerMC ------------------------------
(* The spell accounting on a fixed point lattice (unit 1/1000), explored     *)
(* exhaustively over all Z sequences of ZSet up to Depth months.  Also the   *)
(* source of behaviours replayed in the implementation: one shortest Z       *)
(* sequence for every class of two successive transitions.                   *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS ZSet, Depth, Generate
VARIABLES t, v, pro, x1, x2, x3, pend, slot, kmax, mon, pdsi, phdi, pmdi, tie, zs, cls
Scale(a, num, den) == IF a >= 0 THEN (a * num) \div den ELSE -((-a * num) \div den)
IDecay(x) == Scale(x, 897, 1000)
IThird(z) == Scale(z, 1, 3)
IAdd(a, b) == a + b
ISub(a, b) == a - b
ILt(a, b) == a < b
IEq(a, b) == a = b
INeedWet(x) == Scale(x, -2691, 1000) - 1500
INeedDry(x) == Scale(x, -2691, 1000) + 1500
\* percent in units of 1/1000; q = 0 only arises when the spell is over
IPercent(a, q) == IF q = 0 THEN 100000
                  ELSE LET n == IF q < 0 THEN -a ELSE a
                           d == IF q < 0 THEN -q ELSE q
                           w == IF n >= 2 * d THEN 200000 ELSE IF n <= -2 * d THEN -200000
                                ELSE Scale(Scale(n, 1000, d), 100, 1) IN w
IWeigh(pr, a, b) == Scale(100000 - pr, a, 100000) + Scale(pr, b, 100000)
Abs(a) == IF a < 0 THEN -a ELSE a
IAbsGt(a, b) == Abs(a) > Abs(b)
INear(a, b) == FALSE
P == INSTANCE Palmer WITH Zero <- 0, One <- 1000, MinusOne <- -1000, Half <- 500, MinusHalf <- -500,
      P15 <- 150, M15 <- -150, Hundred <- 100000,
      Decay <- IDecay, Third <- IThird, Add <- IAdd, Sub <- ISub, Lt <- ILt, Eq <- IEq,
      NeedWet <- INeedWet, NeedDry <- INeedDry, Percent <- IPercent, Weigh <- IWeigh,
      AbsGt <- IAbsGt, Near <- INear
Sign(a) == IF a > 0 THEN 1 ELSE IF a < 0 THEN -1 ELSE 0
Cap(n, k) == IF n > k THEN k ELSE n
ProClass(p) == IF p = 0 THEN "0" ELSE IF p = 100000 THEN "100" ELSE "mid"
\* the backtracking pattern: which spells the newest undecided months have
Pattern == [i \in 1..Cap(Len(pend), 3) |->
              <<Sign(pend[Len(pend) + 1 - i].p1), Sign(pend[Len(pend) + 1 - i].p2)>>]
Class(z) == <<P!Rule(z), ProClass(pro), Sign(x3), Pattern, pend' = <<>>, Sign(x3'), Sign(x1'), Sign(x2'), ProClass(pro')>>
Init == P!PInit /\ zs = <<>> /\ cls = <<>>
Next == /\ t < Depth
        /\ \E z \in ZSet :
             /\ P!Month(z)
             /\ zs' = Append(zs, z \div 100)
             /\ cls' = IF Generate THEN Class(z) ELSE <<>>
Spec == Init /\ [][Next]_<<P!pvars, zs, cls>>
\* print a behaviour when its last two transitions form a new class
Emit == IF ~Generate THEN TRUE
        ELSE LET c == <<cls, cls'>>
                 seen == TLCGet(7)
             IN  IF c \in seen THEN TRUE
                 ELSE TLCSet(7, seen \cup {c}) /\ PrintT("GEN" \o ToJson([z |-> zs']))
ASSUME TLCSet(7, {})
Inv == /\ P!Contiguous /\ P!SpellSigns /\ P!WhyUndecided /\ P!IncipientSmall
       /\ P!DecidedFromSpells /\ P!HydroRule /\ P!ProRange /\ P!SlotsCover /\ P!StillUndecidedAtEnd
Neg(s) == {-z : z \in s}
Z8 == {100, 400, 1200, 3000} \cup Neg({100, 400, 1200, 3000})
Z6 == {100, 1200, 3500} \cup Neg({100, 1200, 3500})
Z4 == {400, 3500} \cup Neg({400, 3500})
=============================================================================
