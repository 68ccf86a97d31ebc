------------------------------ MODULE TraceLib ------------------------------
(* Checks recorded calls of the library, one per step, against the           *)
(* specification.  Every verdict is total: the set of broken clauses.        *)
EXTENDS Laws, Helpers, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, bad
Refused(e) == IF e.err = "" THEN {<<"accepted", e.why>>} ELSE {}
Verdict(e) == CASE e.ev = "spi" -> SpiFaults(e)
                [] e.ev = "spei" -> SpeiFaults(e)
                [] e.ev = "par" -> ParFaults(e)
                [] e.ev = "sum" -> SumFaults(e)
                [] e.ev = "scale" -> ScaleFaults(e)
                [] e.ev = "pnp" -> PnpFaults(e)
                [] e.ev = "pci" -> PciFaults(e)
                [] e.ev = "to366" -> To366Faults(e)
                [] e.ev = "togreg" -> ToGregFaults(e)
                [] e.ev = "round" -> RoundFaults(e)
                [] e.ev = "len366" -> LengthFaults(e)
                [] e.ev = "days" -> DaysFaults(e)
                [] e.ev = "thorn" -> ThornFaults(e)
                [] e.ev = "harg" -> HargFaults(e)
                [] e.ev = "order" -> OrderFaults(e)
                [] e.ev = "pair" -> PairFaults(e)
                [] e.ev = "same" -> SameFaults(e)
                [] e.ev = "help" -> HelpFaults(e)
                [] e.ev = "refused" -> Refused(e)
Init == l = 1 /\ bad = 0
Next == /\ l <= Len(Trace)
        /\ LET v == Verdict(Trace[l])
           IN  /\ IF v = {} THEN TRUE ELSE PrintT(<<"FAULT", Trace[l].id, v>>)
               /\ bad' = bad + (IF v = {} THEN 0 ELSE 1)
        /\ l' = l + 1
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
