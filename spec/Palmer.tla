------------------------------- MODULE Palmer -------------------------------
(* Palmer's spell accounting (C13) as a state machine over months.           *)
(* The arithmetic is a parameter: Palmer_MC instantiates it with a fixed     *)
(* point lattice and explores it exhaustively, TracePalmer with IEEE doubles *)
(* to follow the moisture anomalies (Z) recorded from the implementation.    *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Zero, One, MinusOne, Half, MinusHalf, P15, M15, Hundred,
          Decay(_),          \* 0.897 * x
          Third(_),          \* z / 3
          Add(_, _), Sub(_, _), Lt(_, _), Eq(_, _),
          NeedWet(_),        \* Z needed to end an established drought: -2.691 x3 - 1.5
          NeedDry(_),        \* Z needed to end an established wet spell: -2.691 x3 + 1.5
          Percent(_, _),     \* 100 * a / b
          Weigh(_, _, _),    \* (1 - p/100) * x3 + p/100 * x
          AbsGt(_, _),       \* |a| > |b|
          Near(_, _)         \* a and b too close for the comparison to be trusted

Le(a, b) == ~Lt(b, a)
Max0(a) == IF Lt(a, Zero) THEN Zero ELSE a
Min0(a) == IF Lt(Zero, a) THEN Zero ELSE a

VARIABLES
    t,       \* months consumed
    v, pro,  \* accumulated effective wetness/dryness, ending probability
    x1, x2, x3,   \* incipient wet spell, incipient dry spell, established spell
    pend,    \* undecided months, oldest first: [m, p1, p2, p3]
    slot,    \* slot[i]: last month that began with i-1 undecided months before it
    kmax,    \* undecided months when the last undecided month was recorded
    mon,     \* per month: [p1, p2, p3, pr, x] as computed in that month
    pdsi, phdi, pmdi,
    tie      \* a decision was too close to call: later months are not judged

pvars == <<t, v, pro, x1, x2, x3, pend, slot, kmax, mon, pdsi, phdi, pmdi, tie>>

PInit == /\ t = 0 /\ v = Zero /\ pro = Zero /\ x1 = Zero /\ x2 = Zero /\ x3 = Zero
         /\ pend = <<>> /\ slot = <<>> /\ kmax = 0 /\ mon = <<>>
         /\ pdsi = <<>> /\ phdi = <<>> /\ pmdi = <<>> /\ tie = FALSE

\* PMDI of a month
Modified(m) ==
    IF Eq(m.p3, Zero) THEN (IF AbsGt(m.p1, m.p2) THEN m.p1 ELSE m.p2)
    ELSE IF Le(m.pr, Zero) \/ Le(Hundred, m.pr) THEN m.p3
    ELSE IF Le(m.p3, Zero) THEN Weigh(m.pr, m.p3, m.p1) ELSE Weigh(m.pr, m.p3, m.p2)
Hydro(m, x) == IF Eq(m.p3, Zero) THEN x ELSE m.p3

\* Spell that the undecided months are given to, walking backwards.
\* kind 1 wet, 2 dry: kept as long as that spell is there, otherwise changed
RECURSIVE Back(_, _, _)
Back(P, i, kind) ==
    IF i = 0 THEN <<>>
    ELSE LET k == IF kind = 2 THEN (IF Eq(P[i].p2, Zero) THEN 1 ELSE 2)
                              ELSE (IF Eq(P[i].p1, Zero) THEN 2 ELSE 1)
         IN  Append(Back(P, i - 1, k), IF k = 1 THEN P[i].p1 ELSE P[i].p2)
Assigned(P, kind) ==
    IF kind = 3 THEN [i \in 1..Len(P) |-> P[i].p3] ELSE Back(P, Len(P), kind)

Put(s, i, x) == IF i <= Len(s) THEN [s EXCEPT ![i] = x] ELSE Append(s, x)

\* slots as of this month
SlotNow == Put(slot, Len(pend) + 1, t + 1)

\* the month's record m is decided with value m.x and kind: resolve everything
Decide(m, kind, pv) ==
    LET xs == Assigned(pend, kind)
        n == Len(pend)
        mon2 == Append(mon, m)
        val(i) == IF i = t + 1 THEN m.x ELSE xs[i - (t - n)]
        upd(s, f(_)) == [i \in 1..(t + 1) |-> IF i > t - n THEN f(i) ELSE s[i]]
    IN  /\ pdsi' = upd(pdsi, val)
        /\ phdi' = upd(phdi, LAMBDA i : Hydro(mon2[i], val(i)))
        /\ pmdi' = upd(pmdi, LAMBDA i : Modified(mon2[i]))
        /\ mon' = mon2
        /\ pend' = <<>>
        /\ kmax' = kmax

Postpone(m, pv) ==
    /\ pend' = Append(pend, [m |-> t + 1, p1 |-> m.p1, p2 |-> m.p2, p3 |-> m.p3])
    /\ kmax' = Len(pend) + 1
    /\ mon' = Append(mon, m)
    /\ pdsi' = Append(pdsi, Zero) /\ phdi' = Append(phdi, Zero) /\ pmdi' = Append(pmdi, Zero)

Carry(m, pv) ==
    /\ t' = t + 1 /\ slot' = SlotNow
    /\ v' = pv /\ pro' = m.pr /\ x1' = m.p1 /\ x2' = m.p2 /\ x3' = m.p3

\* established spell continues undisturbed
Established(z) ==
    LET p3 == Add(Decay(x3), Third(z))
        m == [p1 |-> Zero, p2 |-> Zero, p3 |-> p3, pr |-> Zero, x |-> p3]
    IN  Decide(m, 3, Zero) /\ Carry(m, Zero)

\* incipient spells develop; p3 and pr are already known
Incipient(z, pv, pr, p3) ==
    LET y1 == Add(Decay(x1), Third(z))
        y2 == Add(Decay(x2), Third(z))
        a == Max0(y1)
        b == Min0(y2)
        none == Eq(p3, Zero)
        wet == [p1 |-> Zero, p2 |-> Zero, p3 |-> a, pr |-> pr, x |-> a]
        dry == [p1 |-> a, p2 |-> Zero, p3 |-> b, pr |-> pr, x |-> b]
        inc(x) == [p1 |-> a, p2 |-> b, p3 |-> p3, pr |-> pr, x |-> x]
    IN  IF none /\ Le(One, a) THEN Decide(wet, 1, pv) /\ Carry(wet, pv)
        ELSE IF none /\ Le(b, MinusOne) THEN Decide(dry, 2, pv) /\ Carry(dry, pv)
        ELSE IF none /\ Eq(a, Zero) THEN Decide(inc(b), 2, pv) /\ Carry(inc(b), pv)
        ELSE IF none /\ Eq(b, Zero) THEN Decide(inc(a), 1, pv) /\ Carry(inc(a), pv)
        ELSE Postpone(inc(p3), pv) /\ Carry(inc(p3), pv)

Ending(z, pv, need) ==
    LET q == IF Eq(pro, Hundred) THEN need ELSE Add(need, v)
        pr == Percent(pv, q)
        over == Le(Hundred, pr)
    IN  Incipient(z, pv, IF over THEN Hundred ELSE pr,
                  IF over THEN Zero ELSE Add(Decay(x3), Third(z)))
WetEnding(z) ==    \* dryness against an established wet spell
    LET pv == Add(Sub(z, P15), Min0(v))
    IN  IF Le(Zero, pv) THEN Established(z) ELSE Ending(z, pv, NeedDry(x3))
DryEnding(z) ==    \* wetness against an established drought
    LET pv == Add(Add(z, P15), Max0(v))
    IN  IF Le(pv, Zero) THEN Established(z) ELSE Ending(z, pv, NeedWet(x3))

Settled == Eq(pro, Hundred) \/ Eq(pro, Zero)    \* no spell is about to end
NoSpell == Le(MinusHalf, x3) /\ Le(x3, Half)

\* which rule applies this month
Rule(z) ==
    IF Settled
    THEN IF NoSpell THEN "begin"
         ELSE IF Lt(Half, x3) THEN (IF Le(P15, z) THEN "wet goes on" ELSE "wet ending")
         ELSE (IF Le(z, M15) THEN "dry goes on" ELSE "dry ending")
    ELSE IF Lt(Zero, x3) THEN "wet ending" ELSE "dry ending"

\* comparisons whose outcome rounding could change
TieNow(z) ==
    LET y1 == Add(Decay(x1), Third(z)) y2 == Add(Decay(x2), Third(z))
        pvw == Add(Sub(z, P15), Min0(v)) pvd == Add(Add(z, P15), Max0(v))
        pr(pv, need) == Percent(pv, IF Eq(pro, Hundred) THEN need ELSE Add(need, v))
    IN  \/ Near(y1, Zero) \/ Near(y2, Zero) \/ Near(y1, One) \/ Near(y2, MinusOne)
        \/ Settled /\ (Near(x3, Half) \/ Near(x3, MinusHalf) \/ Near(z, P15) \/ Near(z, M15))
        \/ Rule(z) = "wet ending" /\ (Near(pvw, Zero) \/ Near(pr(pvw, NeedDry(x3)), Hundred))
        \/ Rule(z) = "dry ending" /\ (Near(pvd, Zero) \/ Near(pr(pvd, NeedWet(x3)), Hundred))
        \/ Near(Add(Decay(x3), Third(z)), Zero)

Month(z) ==
    LET r == Rule(z) IN
    /\ CASE r = "begin" -> Incipient(z, Zero, Zero, Zero)
         [] r \in {"wet goes on", "dry goes on"} -> Established(z)
         [] r = "wet ending" -> WetEnding(z)
         [] r = "dry ending" -> DryEnding(z)
    /\ tie' = (tie \/ TieNow(z))

\* End of the record.  Named deviation StaleFinish (the reference FORTRAN does
\* the same and the stations of the test suite pin it): the last recorded number
\* of undecided months is not reset when they are decided, so the months last
\* seen in those slots get the values of their own month.
FinishMonths == {slot[i] : i \in 1..kmax}
\* (pmdi of these months is that of the last month of the record)
Finish(out) ==
    LET last == Modified(mon[t])
    IN  [pdsi |-> [i \in 1..t |-> IF i \in FinishMonths THEN mon[i].x ELSE pdsi[i]],
         phdi |-> [i \in 1..t |-> IF i \in FinishMonths THEN Hydro(mon[i], mon[i].x) ELSE phdi[i]],
         pmdi |-> [i \in 1..t |-> IF i \in FinishMonths THEN last ELSE pmdi[i]]]

\* ---- what the accounting guarantees
Contiguous == \A i \in 1..Len(pend) : pend[i].m = t - Len(pend) + i
SpellSigns == Le(Zero, x1) /\ Le(x2, Zero)
\* undecided only inside an ending spell, or with both incipient spells alive
WhyUndecided == \A i \in 1..Len(pend) :
    ~Eq(pend[i].p3, Zero) \/ (~Eq(pend[i].p1, Zero) /\ ~Eq(pend[i].p2, Zero))
\* incipient spells that reached one are established
IncipientSmall == Eq(x3, Zero) => Lt(x1, One) /\ Lt(MinusOne, x2)
\* each decided month has the value of one of the three spells of that month
DecidedFromSpells == \A i \in 1..(t - Len(pend)) :
    /\ \/ Eq(pdsi[i], mon[i].p1) \/ Eq(pdsi[i], mon[i].p2) \/ Eq(pdsi[i], mon[i].p3)
    \* without an established spell it is zero only if neither incipient spell is alive
    /\ Eq(mon[i].p3, Zero) /\ Eq(pdsi[i], Zero) => Eq(mon[i].p1, Zero) /\ Eq(mon[i].p2, Zero)
HydroRule == \A i \in 1..(t - Len(pend)) :
    Eq(phdi[i], IF Eq(mon[i].p3, Zero) THEN pdsi[i] ELSE mon[i].p3)
ProRange == Le(pro, Hundred) /\ (Eq(pro, Hundred) => Eq(x3, Zero) \/ Le(One, x3) \/ Le(x3, MinusOne))
SlotsCover == Len(slot) >= kmax /\ (pend # <<>> => kmax = Len(pend))
StillUndecidedAtEnd == \A i \in 1..Len(pend) : pend[i].m \in FinishMonths
=============================================================================
