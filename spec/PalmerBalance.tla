---------------------------- MODULE PalmerBalance ---------------------------
(* Palmer's two-layer soil water balance (C14), arithmetic as a parameter.   *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Zero, Top,              \* capacity of the surface layer: one inch
          Add(_, _), Sub(_, _), MulDiv(_, _, _), Lt(_, _)   \* MulDiv: a * b / c
BMin(a, b) == IF Lt(b, a) THEN b ELSE a
BMax(a, b) == IF Lt(a, b) THEN b ELSE a
Bottom(awc) == BMax(Sub(awc, Top), Zero)

PotentialLoss(pet, ss, su, awc) ==
    IF ~Lt(ss, pet) THEN pet
    ELSE BMin(Add(ss, su), Add(ss, MulDiv(Sub(pet, ss), su, Add(Bottom(awc), Top))))

\* one month: precipitation p, demand pet, soil moisture ss (surface), su (below)
Balance(p, pet, ss, su, awc) ==
    LET bot == Bottom(awc)
        pot == [sp |-> Add(ss, su), pl |-> PotentialLoss(pet, ss, su, awc),
                pr |-> Sub(Add(bot, Top), Add(ss, su))]
        surplus == Sub(p, pet)
        deficit == Sub(pet, p)
        rs == BMin(surplus, Sub(Top, ss))                \* fills the surface first
        ru == BMin(Sub(surplus, rs), Sub(bot, su))
        sl == BMin(deficit, ss)                          \* and empties it first
        ul == BMin(su, MulDiv(Sub(deficit, sl), su, awc))
    IN  IF ~Lt(p, pet)
        THEN [sp |-> pot.sp, pl |-> pot.pl, pr |-> pot.pr, et |-> pet, tl |-> Zero,
              r |-> Add(rs, ru), ro |-> Sub(Sub(surplus, rs), ru),
              ss |-> Add(ss, rs), su |-> Add(su, ru)]
        ELSE [sp |-> pot.sp, pl |-> pot.pl, pr |-> pot.pr, et |-> Add(Add(p, sl), ul),
              tl |-> Add(sl, ul), r |-> Zero, ro |-> Zero,
              ss |-> Sub(ss, sl), su |-> Sub(su, ul)]

VARIABLES n, ss, su, months     \* months: balance record of each month
bvars == <<n, ss, su, months>>
\* the soil starts full
BInit(awc) == n = 0 /\ ss = Top /\ su = Bottom(awc) /\ months = <<>>
Month(p, pet, awc) ==
    LET b == Balance(p, pet, ss, su, awc)
    IN  /\ n' = n + 1 /\ ss' = b.ss /\ su' = b.su
        /\ months' = Append(months, b)
=============================================================================
