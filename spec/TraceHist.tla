------------------------------ MODULE TraceHist -----------------------------
(* Histories of calls (C05).  State: what each call (function and argument   *)
(* values, numbered by key) returned the first time.  A call leaves its      *)
(* arguments as they were, and a repeated call returns what it returned.     *)
EXTENDS Floats, TLC, Json, IOUtils, FiniteSets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, memo
Known(k) == k \in DOMAIN memo
ArgsKept(e) == /\ Len(e.before) = Len(e.after)
               /\ \A i \in 1..Len(e.before) : FSameSeq(e.before[i], e.after[i])
SameResult(e) == LET m == memo[e.key] IN
    /\ (m.err = "") = (e.err = "")
    /\ Len(m.out) = Len(e.out)
    /\ \A i \in 1..Len(e.out) : FCloseSeq(e.out[i], m.out[i], FDec(1, 9))
Faults(e) == (IF ArgsKept(e) THEN {} ELSE {<<"argument modified", e.fn, {i \in 1..Len(e.before) : ~FSameSeq(e.before[i], e.after[i])}>>})
             \cup (IF Known(e.key) /\ ~SameResult(e) THEN {<<"result differs from the first call", e.fn>>} ELSE {})
Init == l = 1 /\ memo = <<>>
Call == /\ l <= Len(Trace)
        /\ LET e == Trace[l] IN
           /\ IF Faults(e) = {} THEN TRUE ELSE PrintT(<<"FAULT", e.id, Faults(e)>>)
           /\ memo' = IF Known(e.key) THEN memo ELSE (e.key :> [out |-> e.out, err |-> e.err]) @@ memo
        /\ l' = l + 1
Spec == Init /\ [][Call]_<<l, memo>>
=============================================================================
