--------------------------- MODULE PalmerBalanceMC --------------------------
(* All reachable soil moisture states on an integer lattice (unit 1/100      *)
(* inch), every precipitation/PET pair, several capacities (C14).            *)
EXTENDS Integers, Sequences, TLC
CONSTANTS Amounts, Capacities
VARIABLES ss, su, awc, last
IAdd(a, b) == a + b
ISub(a, b) == a - b
ILt(a, b) == a < b
IMulDiv(a, b, c) == (a * b) \div c
n == 0
months == <<>>
B == INSTANCE PalmerBalance WITH Zero <- 0, Top <- 100, Add <- IAdd, Sub <- ISub, MulDiv <- IMulDiv, Lt <- ILt
Init == /\ awc \in Capacities /\ ss = 100 /\ su = B!Bottom(awc) /\ last = <<>>
Next == \E p \in Amounts, pet \in Amounts :
          LET b == B!Balance(p, pet, ss, su, awc)
          IN  /\ ss' = b.ss /\ su' = b.su /\ awc' = awc
              /\ last' = <<p, pet, b>>
Spec == Init /\ [][Next]_<<ss, su, awc, last>>
View == <<ss, su, awc>>
Layers == 0 <= ss /\ ss <= 100 /\ 0 <= su /\ su <= B!Bottom(awc)
\* checked on every step (the view hides the last month from the state)
Month == last' # <<>> =>
    LET p == last'[1] pet == last'[2] b == last'[3] IN
    /\ p + b.tl = b.et + b.r + b.ro                  \* conservation
    /\ b.ss + b.su = ss + su + b.r - b.tl
    /\ b.et <= pet /\ b.r <= b.pr /\ b.tl <= b.pl + 1 /\ b.ro >= 0 /\ b.r >= 0 /\ b.tl >= 0
    /\ (b.ro > 0 => b.ss = 100 /\ b.su = B!Bottom(awc))   \* runoff only from full soil
    /\ (b.su < su => b.ss = 0)                        \* the surface is emptied first
    /\ (b.su > su => b.ss = 100)                      \* and filled first
Steps == [][Month]_<<ss, su, awc, last>>
=============================================================================
