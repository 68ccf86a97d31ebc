-------------------------------- MODULE Laws --------------------------------
(* Structural laws of the standardized indices (C21).                        *)
EXTENDS SpiSpec, Simple

Totals(e) == IF e.pet = <<>> THEN SpiTotals(e) ELSE SpeiTotals(e)
\* order within a calendar step, in terms of probability; the Pearson rules
\* assign 0.0005 at the bounds
OrderFaults(e) ==
    IF e.err # "" THEN {<<"error", e.err>>} ELSE
    LET tot == Totals(e)
        pr == TLCEval([i \in 1..Len(e.out) |-> IF FIsNaN(e.out[i]) THEN NaN ELSE FNormCdf(e.out[i])])
        slack == IF e.dist = "pearson" THEN D(50001, 8) ELSE D(1, 8)
        has(i) == ~FIsNaN(pr[i])
        step(j) == {i \in 1..Len(tot) : StepOf(i, e.n) = j /\ has(i)}
        bad == UNION {{<<i, k>> \in step(j) \X step(j) :
                  /\ FLt(FMul(tot[i], FAdd(FOne, D(1, 9))), tot[k])
                  /\ FLt(FAdd(pr[k], slack), pr[i])} : j \in 1..e.n}
    IN  (IF \E i \in 1..Len(e.out) : ~InRange(e.out[i]) THEN {<<"range">>} ELSE {})
        \cup (IF bad = {} THEN {} ELSE LET b == CHOOSE b \in bad : TRUE
                 IN {<<"order", b, FStr(tot[b[1]]), FStr(e.out[b[1]]), FStr(tot[b[2]]), FStr(e.out[b[2]])>>})
\* e.b must be e.a with positions given by e.perm; the fits of e.x say which
\* calendar steps are determined
PairFaults(e) ==
    IF e.err # "" THEN {<<"error", e.err>>} ELSE
    LET tot == Totals(e)
        fits == Fits(tot, e)
        judged(i) == fits[StepOf(i, e.n)].ok
        edge(i) == e.dist = "pearson" /\ ~FIsNaN(tot[i]) /\ PearsonEdge(tot[i], fits[StepOf(i, e.n)])
        src(i) == IF e.perm = <<>> THEN i ELSE e.perm[i]
        bad == {i \in 1..Len(e.b) : judged(src(i)) /\ ~edge(src(i)) /\ ~FClose(e.b[i], e.a[src(i)], Tol)}
    IN  IF Len(e.a) # Len(e.b) THEN {<<e.law, "length">>}
        ELSE IF bad = {} THEN {} ELSE LET i == CHOOSE i \in bad : \A k \in bad : i <= k
             IN {<<e.law, Cardinality(bad), i, FStr(e.b[i]), FStr(e.a[src(i)])>>}
\* relation between two recorded sequences: equal up to position upto
SameFaults(e) ==
    IF e.err # "" THEN {<<"error", e.err>>}
    ELSE IF Len(e.a) # Len(e.b) THEN {<<e.law, "length", Len(e.a), Len(e.b)>>}
    ELSE LET bad == {i \in 1..Len(e.a) : i <= e.upto /\ ~FClose(e.b[i], e.a[i], e.tol)}
         IN  IF bad = {} THEN {} ELSE LET i == CHOOSE i \in bad : \A k \in bad : i <= k
             IN {<<e.law, Cardinality(bad), i, FStr(e.b[i]), FStr(e.a[i])>>}
=============================================================================
