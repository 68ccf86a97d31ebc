------------------------------ MODULE Command -------------------------------
(* What a request to the processing command ("process") or the dedicated     *)
(* SPI command ("spi") means: whether it is refused, which files it writes,  *)
(* and what the values in each file stand for.  Pure operators over          *)
(*   r    the request (record)                                               *)
(*   disk what each input file holds: dims, units, coordinates, content      *)
(*   pars what each saved parameter file was fitted from                     *)
(* Used by the operational model (CommandMC) with abstract contents and by   *)
(* the conformance checker (TraceRun) with real ones.                        *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* abstract comparison of coordinate values: "same", "far" or "near" (open)
CONSTANT Match(_, _)

Has(s) == s # ""
GridDims == {<<"lat", "lon", "time">>, <<"time", "lat", "lon">>}
DivDims  == {<<"division", "time">>, <<"time", "division">>}
SerDims  == {<<"time">>}
LayoutOf(dims) == IF dims \in GridDims THEN "grid" ELSE IF dims \in DivDims THEN "divisions"
                  ELSE IF dims \in SerDims THEN "timeseries" ELSE "none"

Scaled == {"spi", "spei", "pnp", "scaled", "all"}
NeedsPrecip(r) == r.cmd = "spi" \/ r.index # "pet"
NeedsPet(r) == r.cmd = "process" /\ r.index \in {"spei", "scaled", "palmers", "all"}
ComputesPet(r) == r.cmd = "process" /\ (r.index = "pet" \/ (NeedsPet(r) /\ ~Has(r.pet.file)))

Mm     == {"mm", "millimeters", "millimeter"}
Inch   == {"inches", "inch"}
PrecipUnits == Mm \cup {"mm/dy"} \cup Inch
PetUnits    == Mm \cup Inch
Cel == {"degree_celsius", "degrees_celsius", "celsius", "c"}
Fah == {"f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit"}
Kel == {"k", "kelvin"}
TempUnits == Cel \cup Fah \cup Kel

\* is the variable of an input available?
Given(in, disk) == /\ Has(in.file) /\ in.file \in DOMAIN disk
                   /\ Has(in.var) /\ in.var \in DOMAIN disk[in.file].vars
VarOf(in, disk) == disk[in.file].vars[in.var]
Why(b, name) == IF b THEN {name} ELSE {}

MissingInput(in, disk, role) ==
    Why(~Has(in.file), role \o " file not given")
    \cup Why(Has(in.file) /\ in.file \notin DOMAIN disk, role \o " file does not exist")
    \cup Why(~Has(in.var), role \o " variable not given")
    \cup Why(Has(in.file) /\ in.file \in DOMAIN disk /\ Has(in.var) /\ in.var \notin DOMAIN disk[in.file].vars,
             role \o " variable not in the file")
BadDims(in, disk, role) ==
    Why(Given(in, disk) /\ LayoutOf(VarOf(in, disk).dims) = "none", role \o " dimensions")
BadUnits(in, disk, role, ok) ==
    Why(Given(in, disk) /\ VarOf(in, disk).units \notin ok, role \o " units")

\* do two inputs lie on the same locations and times?
Disagree(a, b, disk) ==
    IF ~Given(a, disk) \/ ~Given(b, disk) THEN {}
    ELSE LET fa == disk[a.file] fb == disk[b.file]
             la == LayoutOf(VarOf(a, disk).dims) lb == LayoutOf(VarOf(b, disk).dims)
         IN  IF la = "none" \/ lb = "none" THEN {}
             ELSE IF la # lb THEN {"layouts differ"}
             ELSE Why(fa.time # fb.time, "times differ")
                  \cup Why(la = "divisions" /\ fa.div # fb.div, "divisions differ")
                  \cup Why(la = "grid" /\ Match(fa.lat, fb.lat) = "far", "latitudes differ")
                  \cup Why(la = "grid" /\ Match(fa.lon, fb.lon) = "far", "longitudes differ")
Undecided(a, b, disk) ==
    Given(a, disk) /\ Given(b, disk) /\ LayoutOf(VarOf(a, disk).dims) = "grid"
    /\ (Match(disk[a.file].lat, disk[b.file].lat) = "near" \/ Match(disk[a.file].lon, disk[b.file].lon) = "near")

ParNames == {"alpha", "beta", "skew", "loc", "scale", "prob_zero"}
UnitOf(r) == IF r.per = "monthly" THEN "month" ELSE "day"

\* ---- C17: the reasons why a request is refused
Refusals(r, disk, pars) ==
    (IF NeedsPrecip(r) THEN MissingInput(r.precip, disk, "precipitation") \cup BadDims(r.precip, disk, "precipitation")
                            \cup BadUnits(r.precip, disk, "precipitation", PrecipUnits) ELSE {})
    \cup (IF r.cmd = "process" /\ r.index = "pet"
          THEN MissingInput(r.temp, disk, "temperature") \cup BadDims(r.temp, disk, "temperature")
               \cup BadUnits(r.temp, disk, "temperature", TempUnits)
               \cup Why(r.per # "monthly", "PET of other than monthly data") ELSE {})
    \cup (IF NeedsPet(r)
          THEN IF Has(r.temp.file) /\ Has(r.pet.file) THEN {"both temperature and PET given"}
               ELSE IF ~Has(r.temp.file) /\ ~Has(r.pet.file) THEN {"neither temperature nor PET given"}
               ELSE IF Has(r.pet.file)
               THEN MissingInput(r.pet, disk, "PET") \cup BadDims(r.pet, disk, "PET") \cup BadUnits(r.pet, disk, "PET", PetUnits)
                    \cup Disagree(r.precip, r.pet, disk)
               ELSE MissingInput(r.temp, disk, "temperature") \cup BadDims(r.temp, disk, "temperature")
                    \cup BadUnits(r.temp, disk, "temperature", TempUnits) \cup Disagree(r.precip, r.temp, disk)
                    \cup Why(r.per # "monthly", "PET of other than monthly data") ELSE {})
    \cup (IF r.cmd = "spi" \/ r.index \in Scaled
          THEN Why(r.scales = <<>>, "no scales") \cup Why(\E i \in 1..Len(r.scales) : r.scales[i] < 0, "negative scale") ELSE {})
    \cup (IF r.cmd = "spi"
          THEN Why(Has(r.load) /\ Has(r.save), "parameters both loaded and saved")
               \cup Why(Has(r.save) /\ ~Has(r.load) /\ r.save \in DOMAIN pars /\ ~r.overwrite, "parameter file exists")
               \cup Why(Has(r.load) /\ r.load \notin DOMAIN pars, "parameter file does not exist")
               \cup Why(Has(r.load) /\ r.load \in DOMAIN pars
                        /\ \E i \in 1..Len(r.scales) : <<r.scales[i], r.per>> \notin pars[r.load].scales, "parameters of a scale missing")
          ELSE {})
\* reasons that only concern one input: files that do not need it may be written
UnitReasons == {"precipitation units", "PET units", "temperature units"}
OpenRequest(r, disk) ==
    \/ NeedsPet(r) /\ (Undecided(r.precip, r.pet, disk) \/ Undecided(r.precip, r.temp, disk))
    \/ \E i \in 1..Len(r.scales) : r.scales[i] = 0

\* ---- C15: the computations of an accepted request, in order of dependency
Pad2(n) == IF n < 10 THEN "0" \o ToString(n) ELSE ToString(n)
Dists == <<"gamma", "pearson">>
Name(r, ix, dist, k) ==
    IF r.cmd = "spi" THEN "spi_" \o dist \o "_" \o ToString(k) \o "_" \o UnitOf(r)
    ELSE IF ix = "pet" THEN "pet_thornthwaite"
    ELSE IF ix = "pnp" THEN "pnp_" \o Pad2(k)
    ELSE ix \o "_" \o dist \o "_" \o Pad2(k)
Comp(r, ix, dist, k) ==
    [ix |-> ix, dist |-> dist, k |-> k, var |-> Name(r, ix, dist, k),
     file |-> r.base \o "_" \o Name(r, ix, dist, k) \o ".nc"]
IndexSet(r) == IF r.cmd = "spi" THEN {"spi"}
               ELSE CASE r.index = "scaled" -> {"spi", "spei", "pnp"}
                      [] r.index = "spei" -> {"spei"}
                      [] r.index = "spi" -> {"spi"}
                      [] r.index = "pnp" -> {"pnp"}
                      [] OTHER -> {}
\* words by which the files describe what they hold (C27)
Step(r, k) == ToString(k) \o "-" \o UnitOf(r)
DistWords == {"gamma", "pearson"}
IndexWords(ix) == CASE ix = "spi" -> {"standardized", "precipitation", "index"}
                    [] ix = "spei" -> {"standardized", "precipitation", "evapotranspiration", "index"}
                    [] ix = "pnp" -> {"percentage", "normal", "precipitation"}
                    [] ix = "pet" -> {"potential", "evapotranspiration"}
                    [] OTHER -> {}
Words(c, r) == IndexWords(c.ix) \cup (IF c.dist = "" THEN {} ELSE {c.dist}) \cup (IF c.ix = "pet" THEN {} ELSE {Step(r, c.k)})
ParWords(r, p, k) == CASE p \in {"alpha", "beta"} -> {Step(r, k)}
                       [] p = "prob_zero" -> {"probability", "zero"}
                       [] OTHER -> {p, "pearson"}
ScaleSet(r) == {r.scales[i] : i \in 1..Len(r.scales)}
Comps(r) ==
    {Comp(r, ix, d, k) : ix \in IndexSet(r) \ {"pnp"}, d \in {"gamma", "pearson"}, k \in ScaleSet(r)}
    \cup {Comp(r, "pnp", "", k) : k \in IF "pnp" \in IndexSet(r) THEN ScaleSet(r) ELSE {}}
    \cup (IF ComputesPet(r) THEN {Comp(r, "pet", "", 0)} ELSE {})
\* the inputs a computation reads
Reads(c, r) == CASE c.ix = "pet" -> {"temp"}
                 [] c.ix = "spei" -> IF ComputesPet(r) THEN {"precip", "temp"} ELSE {"precip", "pet"}
                 [] OTHER -> {"precip"}
BadInputs(reasons) == {x \in {"precip", "temp", "pet"} :
    (IF x = "precip" THEN "precipitation units" ELSE IF x = "temp" THEN "temperature units" ELSE "PET units") \in reasons}
\* files a request may write at all
Writes(r) == {c.file : c \in Comps(r)} \cup (IF r.cmd = "spi" /\ Has(r.save) THEN {r.save} ELSE {})

\* files that must not be written when the reasons hold
Forbidden(r, reasons) ==
    IF reasons \subseteq UnitReasons
    THEN {c.file : c \in {c \in Comps(r) : Reads(c, r) \cap BadInputs(reasons) # {}}}
         \cup (IF r.cmd = "spi" /\ Has(r.save) THEN {r.save} ELSE {})
    ELSE Writes(r)

\* ---- what the values of a file stand for: equal keys, equal values,
\* whatever command, layout, unit, worker count or history (C16, C20, C22, C25)
Content(in, disk) == VarOf(in, disk).content
Fit(r, disk, pars) == IF r.cmd = "spi" /\ Has(r.load) THEN pars[r.load].fit
                      ELSE <<Content(r.precip, disk), r.c0, r.c1>>
Meaning(c, r, disk, pars) ==
    CASE c.ix = "pet" -> <<"pet", Content(r.temp, disk)>>
      [] c.ix = "pnp" -> <<"pnp", c.k, r.per, Content(r.precip, disk), r.c0, r.c1>>
      [] c.ix = "spi" -> <<"spi", c.dist, c.k, r.per, Content(r.precip, disk), Fit(r, disk, pars)>>
      [] c.ix = "spei" -> <<"spei", c.dist, c.k, r.per, Content(r.precip, disk),
                            IF ComputesPet(r) THEN <<"pet", Content(r.temp, disk)>> ELSE <<"given", Content(r.pet, disk)>>,
                            r.c0, r.c1>>
\* a computation that cannot be done fails, and what needs its result with it
Fails(c, r, failing) ==
    \/ c.file \in failing
    \/ c.ix = "spei" /\ ComputesPet(r) /\ Comp(r, "pet", "", 0).file \in failing

SavedPars(r, disk) == [scales |-> {<<k, r.per>> : k \in ScaleSet(r)}, fit |-> <<Content(r.precip, disk), r.c0, r.c1>>]
=============================================================================
