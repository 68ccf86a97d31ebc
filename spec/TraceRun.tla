------------------------------ MODULE TraceRun ------------------------------
(* Checks recorded sessions of the two commands against Command.             *)
(* State: the input files (disk), what the parameter files were fitted from  *)
(* (pars), the current request (cur), and the values each meaning had the    *)
(* first time it was written (memo).                                         *)
EXTENDS CalSpec, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES l, disk, pars, cur, memo
Tol == FDec(1, 7)

\* coordinates: same within a tenth of the spacing
Gap(s) == LET d == [i \in 1..(Len(s) - 1) |-> FAbs(FSub(s[i + 1], s[i]))]
          IN  CHOOSE g \in {d[i] : i \in 1..Len(d)} : \A i \in 1..Len(d) : FLe(g, d[i])
RMatch(a, b) ==
    IF Len(a) # Len(b) THEN "far"
    ELSE IF FSameSeq(a, b) THEN "same"
    ELSE IF Len(a) < 2 THEN (IF FLt(FDec(1, 1), FAbs(FSub(a[1], b[1]))) THEN "far" ELSE "near")
    ELSE LET g == Gap(a)
             off(i) == FAbs(FSub(a[i], b[i]))
         IN  IF \A i \in 1..Len(a) : FLe(off(i), FMul(g, FDec(9, 2))) THEN "same"
             ELSE IF \E i \in 1..Len(a) : FLt(FAdd(FMul(g, FDec(13, 2)), FMul(FDec(1, 4), FAbs(b[i]))), off(i)) THEN "far"
             ELSE "near"
C == INSTANCE Command WITH Match <- RMatch

\* ---- units (C22) and calendars (C19)
K == FDec(27315, 2)
Convert(u, s) ==
    IF u \in C!Inch THEN TLCEval([i \in 1..Len(s) |-> FMul(s[i], FDec(254, 1))])
    ELSE IF u \in C!Fah THEN TLCEval([i \in 1..Len(s) |-> FDiv(FMul(FSub(s[i], FOfInt(32)), FOfInt(5)), FOfInt(9))])
    ELSE IF u \in C!Kel THEN TLCEval([i \in 1..Len(s) |-> FSub(s[i], K)])
    ELSE s
YearsOf(f) == f.years
Series(in, r, i) ==          \* what the library must be given for location i
    LET f == disk[in.file]
        s == Convert(f.vars[in.var].units, f.vars[in.var].cells[i])
    IN  IF r.per = "daily" THEN To366(s, f.start, f.years) ELSE s
Back(s, r, f) == IF r.per = "daily" THEN SubSeq(ToGreg(s, f.start), 1, Len(f.time)) ELSE s

First(bad) == CHOOSE i \in bad : \A j \in bad : i <= j
AllClose(a, b, t) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : FCloseSeq(a[i], b[i], t)
CellFault(name, a, b, t) ==
    IF Len(a) # Len(b) THEN {<<name, "number of locations", Len(a), Len(b)>>}
    ELSE LET bad == {i \in 1..Len(a) : ~FCloseSeq(a[i], b[i], t)}
         IN  IF bad = {} THEN {}
             ELSE LET i == First(bad) IN
                  IF Len(a[i]) # Len(b[i]) THEN {<<name, "length", i, Len(a[i]), Len(b[i])>>}
                  ELSE LET q == {k \in 1..Len(a[i]) : ~FClose(a[i][k], b[i][k], t)} IN
                       {<<name, "locations", bad, "values", Cardinality(q), "first", First(q),
                          FStr(a[i][First(q)]), FStr(b[i][First(q)])>>}

\* ---- a run has ended
Reasons(e) == C!Refusals(e.req, disk, pars)
Changed(e) == {f \in DOMAIN e.after : f \notin DOMAIN e.before \/ e.before[f] # e.after[f]}
FailSet(e) == {e.failing[i] : i \in 1..Len(e.failing)}
RunFaults(e) ==
    LET r == e.req
        why == Reasons(e)
        fails == {c \in C!Comps(r) : C!Fails(c, r, FailSet(e))}
        open == C!OpenRequest(r, disk)
    IN  (IF e.kept THEN {} ELSE {<<"the request was modified">>})
        \cup (IF e.err # "" \/ e.litter = <<>> THEN {} ELSE {<<"temporary files left behind", e.litter>>})
        \cup (LET x == {f \in DOMAIN e.before : f \notin DOMAIN e.after} IN IF x = {} THEN {} ELSE {<<"files removed", x>>})
        \cup (LET x == Changed(e) \ C!Writes(r) IN IF x = {} THEN {} ELSE {<<"files written or changed", x>>})
        \cup (IF open THEN {}
              ELSE IF why # {}
              THEN (IF e.err = "" THEN {<<"accepted although", why>>} ELSE {})
                   \cup (LET x == Changed(e) \cap C!Forbidden(r, why) IN IF x = {} THEN {} ELSE {<<"written although", why, x>>})
              ELSE IF fails # {} \/ e.mustfail
              THEN (IF e.err = "" THEN {<<"completed although a location failed", {c.file : c \in fails}>>} ELSE {})
                   \cup (LET x == Changed(e) \cap ({c.file : c \in fails} \cup (IF Len(r.save) > 0 THEN {r.save} ELSE {}))
                         IN  IF x = {} THEN {} ELSE {<<"written although a location failed", x>>})
              ELSE (IF e.err = "" THEN {} ELSE {<<"failed", e.err>>})
                   \cup (LET x == C!Writes(r) \ DOMAIN e.after IN IF e.err # "" \/ x = {} THEN {} ELSE {<<"not written", x>>}))

\* ---- an output file of the current run
CompOf(e) == {c \in C!Comps(cur) : c.file = e.file}
PetUsed(c, i, e) == IF C!ComputesPet(cur) THEN e.arg2[i] ELSE Series(cur.pet, cur, i)
SameDims(a, b) == Len(a) = Len(b) /\ {a[i] : i \in 1..Len(a)} = {b[i] : i \in 1..Len(b)}
\* (a file of parameters that no accepted run saved)
Baseless == Len(cur.load) > 0 /\ cur.load \notin DOMAIN pars
OutFaults(e) ==
    IF CompOf(e) = {} THEN {<<"unexpected file", e.file>>}
    ELSE IF Baseless THEN {<<"written without parameters", e.file>>}
    ELSE
    LET c == CHOOSE c \in CompOf(e) : TRUE
        r == cur
        in == IF c.ix = "pet" THEN r.temp ELSE r.precip
        f == disk[in.file]
        v == f.vars[in.var]
        n == Len(v.cells)
        m == C!Meaning(c, r, disk, pars)
    IN  IF e.err # "" THEN {<<"unreadable", e.err>>}
        ELSE IF e.vars # <<c.var>> THEN {<<"variables", e.vars>>}
        ELSE IF ~SameDims(e.dims, v.dims) THEN {<<"dimensions", e.dims>>}
        ELSE (IF e.time = f.time THEN {} ELSE {<<"times">>})
             \cup (IF C!LayoutOf(v.dims) = "grid" /\ (RMatch(f.lat, e.lat) = "far" \/ RMatch(f.lon, e.lon) = "far") THEN {<<"coordinates">>} ELSE {})
             \cup (IF C!LayoutOf(v.dims) = "divisions" /\ e.div # f.div THEN {<<"divisions">>} ELSE {})
             \cup CellFault("argument", e.arg, [i \in 1..n |-> Series(in, r, i)], FDec(1, 9))
             \cup (IF c.ix = "spei" THEN CellFault("PET argument", e.arg2, [i \in 1..n |-> PetUsed(c, i, e)], FDec(1, 9)) ELSE {})
             \cup CellFault("values", e.cells, [i \in 1..n |-> Back(e.lib[i], r, f)], Tol)
             \cup (IF m \in DOMAIN memo THEN CellFault("differs from an earlier run", e.cells, memo[m], FDec(1, 6)) ELSE {})
\* ---- what the files of the current run say about themselves (C27)
Has(s, x) == \E i \in 1..Len(s) : s[i] = x
Lacks(s, want) == {x \in want : ~Has(s, x)}
Span(s) == <<CHOOSE v \in {s[i] : i \in 1..Len(s)} : \A j \in 1..Len(s) : FLe(v, s[j]),
             CHOOSE v \in {s[i] : i \in 1..Len(s)} : \A j \in 1..Len(s) : FLe(s[j], v)>>
BoxFaults(e, f) ==
    IF e.box = <<>> /\ cur.cmd = "process" THEN {}
    ELSE IF FCloseSeq(e.box, Span(f.lat) \o Span(f.lon), FDec(1, 9)) THEN {} ELSE {<<"extent of the grid", [i \in 1..Len(e.box) |-> FStr(e.box[i])]>>}
\* other scales than the one meant
Others(k) == {C!Step(cur, q) : q \in C!ScaleSet(cur) \ {k}}
RangeFaults(e, cells) ==
    IF Len(e.low) # 1 \/ Len(e.high) # 1 THEN {<<"no valid range">>}
    ELSE LET bad == {i \in 1..Len(cells) : \E j \in 1..Len(cells[i]) : ~FIsNaN(cells[i][j]) /\ (FLt(cells[i][j], e.low[1]) \/ FLt(e.high[1], cells[i][j]))}
         IN  IF bad = {} THEN {} ELSE {<<"values beyond the valid range", bad, FStr(e.low[1]), FStr(e.high[1])>>}
Lim == FDec(309, 2)
MetaFaults(e) ==
    IF e.err # "" THEN {<<"unreadable", e.err>>}
    ELSE IF e.file = cur.save
    THEN LET f == disk[cur.precip.file]
             u == C!UnitOf(cur)
             steps == [i \in 1..(IF u = "month" THEN 12 ELSE 366) |-> i - 1]
             name(p, k) == p \o "_" \o ToString(k) \o "_" \o u
             vs == {<<p, k>> : p \in C!ParNames, k \in C!ScaleSet(cur)}
         IN  BoxFaults(e, f)
             \cup (IF e.steps[IF u = "month" THEN 1 ELSE 2] = steps THEN {} ELSE {<<"steps of the year">>})
             \cup (LET x == DOMAIN e.vars \ {name(v[1], v[2]) : v \in vs} IN IF x = {} THEN {} ELSE {<<"further variables", x>>})
             \cup UNION {LET n == name(v[1], v[2]) IN
                         IF n \notin DOMAIN e.vars THEN {<<"parameters missing", n>>}
                         ELSE (IF {e.vars[n].dims[i] : i \in 1..Len(e.vars[n].dims)} = {"lat", "lon", u} THEN {} ELSE {<<"dimensions", n, e.vars[n].dims>>})
                              \cup (LET x == Lacks(e.vars[n].says, C!ParWords(cur, v[1], v[2])) IN IF x = {} THEN {} ELSE {<<"description", n, "lacks", x>>})
                              \cup (LET x == {q \in Others(v[2]) : Has(e.vars[n].says, q)} IN IF x = {} THEN {} ELSE {<<"description", n, "says", x>>}) : v \in vs}
    ELSE IF CompOf(e) = {} THEN {<<"unexpected file", e.file>>}
    ELSE IF Baseless THEN {}
    ELSE LET c == CHOOSE c \in CompOf(e) : TRUE
             m == C!Meaning(c, cur, disk, pars)
             lacks == Lacks(e.says, C!Words(c, cur))
             wrong == {q \in (IF c.ix \in {"pet"} THEN {} ELSE Others(c.k)) \cup (C!DistWords \ {c.dist}) : Has(e.says, q)}
         IN  (IF lacks = {} THEN {} ELSE {<<"name lacks", lacks>>})
             \cup (IF wrong = {} THEN {} ELSE {<<"name says", wrong>>})
             \cup (IF c.ix \in {"spi", "spei"} /\ ~(e.low = <<FNeg(Lim)>> /\ e.high = <<Lim>>) THEN {<<"valid range of the index">>} ELSE {})
             \cup (IF c.ix = "pet" /\ e.units \notin C!Mm THEN {<<"units", e.units>>} ELSE {})
             \cup (IF c.ix = "pnp" \/ m \notin DOMAIN memo THEN {} ELSE RangeFaults(e, memo[m]))
             \cup (IF cur.cmd # "spi" THEN {}
                   ELSE BoxFaults(e, disk[cur.precip.file])
                        \cup (IF Has(e.about, C!Step(cur, c.k)) THEN {} ELSE {<<"description lacks", C!Step(cur, c.k)>>})
                        \cup (LET x == {q \in Others(c.k) : Has(e.about, q)} IN IF x = {} THEN {} ELSE {<<"description says", x>>}))
\* ---- the parameters saved by the current run
ParFaults(e) ==
    IF e.err # "" THEN {<<"unreadable", e.err>>}
    ELSE LET want == {<<p, k>> : p \in C!ParNames, k \in C!ScaleSet(cur)}
             name(p, k) == p \o "_" \o ToString(k) \o "_" \o C!UnitOf(cur)
             has(x) == name(x[1], x[2]) \in DOMAIN e.vars
         IN  (LET x == {name(q[1], q[2]) : q \in {q \in want : ~has(q)}} IN IF x = {} THEN {} ELSE {<<"parameters missing", x>>})
             \cup UNION {CellFault(name(q[1], q[2]), e.vars[name(q[1], q[2])], e.lib[name(q[1], q[2])], Tol) : q \in {q \in want : has(q)}}
             \cup (IF RMatch(disk[cur.precip.file].lat, e.lat) = "far" \/ RMatch(disk[cur.precip.file].lon, e.lon) = "far" THEN {<<"coordinates">>} ELSE {})

Init == l = 1 /\ disk = <<>> /\ pars = <<>> /\ cur = <<>> /\ memo = <<>>
Say(e, v) == IF v = {} THEN TRUE ELSE PrintT(<<"FAULT", e.id, v>>)
\* a new session: input files as described, nothing saved yet
World == /\ Trace[l].ev = "world"
         /\ disk' = Trace[l].disk /\ pars' = <<>> /\ cur' = <<>>
         /\ memo' = IF Trace[l].keep THEN memo ELSE <<>>
Run == LET e == Trace[l] IN
       /\ e.ev = "run"
       /\ Say(e, RunFaults(e))
       /\ cur' = e.req
       /\ pars' = IF e.req.save # "" /\ e.err = "" THEN (e.req.save :> C!SavedPars(e.req, disk)) @@ pars ELSE pars
       /\ UNCHANGED <<disk, memo>>
Out == LET e == Trace[l] IN
       /\ e.ev = "out"
       /\ Say(e, OutFaults(e))
       /\ memo' = IF CompOf(e) = {} \/ e.err # "" \/ Baseless THEN memo
                  ELSE LET m == C!Meaning(CHOOSE c \in CompOf(e) : TRUE, cur, disk, pars)
                       IN  IF m \in DOMAIN memo THEN memo ELSE (m :> e.cells) @@ memo
       /\ UNCHANGED <<disk, pars, cur>>
Par == /\ Trace[l].ev = "par"
       /\ Say(Trace[l], ParFaults(Trace[l]))
       /\ UNCHANGED <<disk, pars, cur, memo>>
Meta == /\ Trace[l].ev = "meta"
        /\ Say(Trace[l], MetaFaults(Trace[l]))
        /\ UNCHANGED <<disk, pars, cur, memo>>
\* the saved parameter files have been deleted
Forget == Trace[l].ev = "forget" /\ pars' = <<>> /\ UNCHANGED <<disk, cur, memo>>
\* one of the input files has been replaced by another of the same name
Replace == LET e == Trace[l] IN
           e.ev = "replace" /\ disk' = (e.file :> e.now) @@ disk /\ UNCHANGED <<pars, cur, memo>>
Next == l <= Len(Trace) /\ l' = l + 1 /\ (World \/ Run \/ Out \/ Par \/ Meta \/ Forget \/ Replace)
Spec == Init /\ [][Next]_<<l, disk, pars, cur, memo>>
=============================================================================
