------------------------------ MODULE CommandMC -----------------------------
(* Design model of the two commands: consecutive runs in one process, each   *)
(* validating its request, loading inputs into process-wide arrays, splitting*)
(* the rows over worker processes that proceed in any order and may meet     *)
(* failing locations, and writing one file per computation.  What a cell     *)
(* holds is a term naming the data it was computed from, so a stale, missing *)
(* or wrongly indexed cell is visible.  Every file must hold exactly the     *)
(* terms that Command!Meaning demands.  Also the source of the histories of  *)
(* requests that are replayed in the real commands.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Acts, Depth, Workers, Generate
VARIABLES n, rev, pc, req, wkr, todo, tasks, shared, files, parf, pars, want, before, err, hist
vars == <<n, rev, pc, req, wkr, todo, tasks, shared, files, parf, pars, want, before, err, hist>>

AMatch(a, b) == IF a = b THEN "same" ELSE "far"
C == INSTANCE Command WITH Match <- AMatch

\* ---------------------------------------------------------------- the inputs
Sets == {"A", "B", "D", "S"}
RowsOf == [A |-> 3, B |-> 2, D |-> 3, S |-> 1]
DimsOf == [A |-> <<"lat", "lon", "time">>, B |-> <<"time", "lat", "lon">>, D |-> <<"time", "division">>, S |-> <<"time">>]
Kinds == {"P", "T", "E", "X", "U"}
VarName(x) == CASE x \in {"P", "U"} -> "prcp" [] x = "E" -> "pet" [] OTHER -> "tavg"
UnitsOf(x) == CASE x \in {"P", "E"} -> "mm" [] x = "U" -> "furlong" [] OTHER -> "c"
File(s, x) == s \o x \o ".nc"
FileSet == {File(s, x) : s \in Sets, x \in Kinds}
OwnerOf(f) == CHOOSE sx \in Sets \X Kinds : File(sx[1], sx[2]) = f
\* X has a location (the last) whose computation fails
BadRow(content, i) == content[2] = "X" /\ i = RowsOf[content[1]]
DiskFile(s, x, content) ==
    [vars |-> (VarName(x) :> [dims |-> DimsOf[s], units |-> UnitsOf(x), content |-> content]),
     lat |-> s, lon |-> s, div |-> s, time |-> s]
\* the files of a set can be replaced by new ones under the same names: the
\* content carries the revision
disk == [f \in FileSet |-> LET o == OwnerOf(f) IN DiskFile(o[1], o[2], <<o[1], o[2], rev[o[1]]>>)]
\* the disk as location i sees it: contents carry the location
RowDisk(i) == [f \in FileSet |-> LET o == OwnerOf(f) IN DiskFile(o[1], o[2], <<o[1], o[2], rev[o[1]], i>>)]

In(s, x) == IF x = "" THEN [file |-> "", var |-> ""]
            ELSE IF x = "?" THEN [file |-> File(s, "P"), var |-> "nope"]
            ELSE [file |-> File(s, x), var |-> VarName(x)]
Request(a, i) ==
    [cmd |-> a.cmd, index |-> a.ix, per |-> "monthly", scales |-> a.k, c0 |-> a.c0, c1 |-> 2004,
     precip |-> In(a.s, a.p), temp |-> In(a.s, a.t), pet |-> In(a.s, a.e), load |-> a.load, save |-> a.save,
     overwrite |-> a.over, base |-> IF a.base = "" THEN "r" \o ToString(i) ELSE a.base]
Act(s, cmd, ix, k, p, t, e) == [s |-> s, cmd |-> cmd, ix |-> ix, k |-> k, p |-> p, t |-> t, e |-> e,
                              load |-> "", save |-> "", over |-> FALSE, c0 |-> 2000, base |-> "", fresh |-> FALSE]
Proc(s, ix, k, p, t, e) == Act(s, "process", ix, k, p, t, e)
Spi(s, k, load, save, over) == [Act(s, "spi", "spi", k, "P", "", "") EXCEPT !.load = load, !.save = save, !.over = over]
From(a, y) == [a EXCEPT !.c0 = y]
\* outputs over those of earlier runs; inputs replaced before the run
Same(a) == [a EXCEPT !.base = "o"]
Fresh(a) == [a EXCEPT !.fresh = TRUE]

\* runs of all kinds over inputs of several shapes (C20)
ActsAll == {
    Same(Proc("A", "spi", <<1, 3>>, "P", "", "")), Proc("A", "spi", <<3, 1>>, "P", "", ""), Proc("B", "spi", <<3>>, "P", "", ""),
    Proc("D", "spi", <<1>>, "P", "", ""), Proc("S", "spi", <<1>>, "P", "", ""), Same(From(Proc("A", "spi", <<1>>, "P", "", ""), 2001)),
    Same(Proc("A", "pnp", <<1>>, "P", "", "")), Proc("B", "pnp", <<2>>, "P", "", ""),
    Same(Proc("A", "spei", <<1>>, "P", "", "E")), Proc("D", "spei", <<1>>, "P", "", "E"), Proc("S", "spei", <<1>>, "P", "", "E"),
    Same(Proc("A", "spei", <<1>>, "P", "T", "")), Proc("B", "spei", <<2>>, "P", "T", ""),
    Same(Proc("A", "pet", <<>>, "", "T", "")), Proc("D", "pet", <<>>, "", "T", ""),
    Proc("D", "scaled", <<1>>, "P", "T", ""), Proc("B", "scaled", <<1>>, "P", "", "E"),
    Same(Spi("A", <<3, 1>>, "", "", FALSE)), Spi("B", <<1>>, "", "", FALSE),
    Same(Proc("A", "pet", <<>>, "", "X", "")),
    Same(Fresh(Proc("A", "pet", <<>>, "", "T", ""))), Same(Fresh(Proc("A", "spei", <<1>>, "P", "T", ""))), Same(Fresh(Proc("A", "spei", <<1>>, "P", "", "E"))),
    Same(Fresh(Proc("A", "spi", <<1>>, "P", "", ""))), Same(Fresh(Spi("A", <<1, 3>>, "", "", FALSE))), Fresh(Proc("D", "scaled", <<1>>, "P", "T", "")),
    Proc("B", "spei", <<1>>, "P", "X", ""),
    Proc("A", "spei", <<1>>, "P", "T", "E"), Proc("B", "spi", <<1>>, "?", "", ""), Proc("A", "scaled", <<1>>, "U", "T", "")}
\* saving, loading and overwriting parameters (C18)
ActsPar == {
    Spi("A", <<1, 3>>, "", "par.nc", FALSE), From(Spi("A", <<1, 3>>, "", "par.nc", TRUE), 2001), Spi("A", <<3>>, "", "par.nc", TRUE),
    Spi("A", <<1, 3>>, "par.nc", "", FALSE), From(Spi("A", <<3>>, "par.nc", "", FALSE), 2002), Spi("A", <<1, 6>>, "par.nc", "", FALSE),
    Spi("A", <<1>>, "par.nc", "other.nc", FALSE), From(Spi("A", <<3, 1>>, "", "", FALSE), 2001), Spi("A", <<1>>, "other.nc", "", FALSE),
    Spi("A", <<6, 1>>, "", "other.nc", FALSE),
    Same(Fresh(Spi("A", <<1, 3>>, "par.nc", "", FALSE))), Same(Fresh(Spi("A", <<1, 3>>, "", "par.nc", TRUE))),
    [Spi("A", <<1>>, "", "par.nc", TRUE) EXCEPT !.p = "U"]}
ActsFew == {Same(Proc("A", "spei", <<1>>, "P", "T", "")), Same(Fresh(Proc("A", "spei", <<1>>, "P", "T", ""))), Proc("A", "spei", <<1>>, "P", "X", ""), Proc("A", "pet", <<>>, "", "X", ""),
            Spi("B", <<1>>, "", "par.nc", TRUE), Proc("D", "pnp", <<1>>, "P", "", "")}
\* three runs in a row over the same names
ActsTri == {Same(Proc("A", "pet", <<>>, "", "T", "")), Same(Fresh(Proc("A", "spei", <<1>>, "P", "T", ""))), Same(Proc("A", "pet", <<>>, "", "X", "")),
            Same(Proc("A", "spei", <<1>>, "P", "T", "")), Same(Spi("A", <<3, 1>>, "", "", FALSE)), Same(Fresh(Proc("A", "spi", <<1, 3>>, "P", "", ""))),
            Same(Proc("B", "scaled", <<1>>, "P", "", "E")), Same(Proc("D", "spei", <<1>>, "P", "", "E"))}

\* ---------------------------------------------------------------- the split
\* the code's split indices (0-based starts)
Splits(rows, w) ==
    LET d == rows \div w
        m == rows % w
        lead == [i \in 1..(m + 1) |-> (i - 1) * (d + 1)]
        rest == IF d = 0 THEN 0 ELSE LET left == rows - m * (d + 1) - d IN IF left <= 0 THEN 0 ELSE (left + d - 1) \div d
    IN  lead \o [j \in 1..rest |-> m * (d + 1) + j * d]
\* intervals lo+1..hi of rows, one per task
ChunksProcess(rows, w) ==
    LET u == IF rows < w THEN rows ELSE w
        s == Splits(rows, u)
    IN  [i \in 1..u |-> [lo |-> s[i], hi |-> IF i < u THEN s[i + 1] ELSE rows]]
ChunksSpi(rows, w) ==
    LET s == Splits(rows, w)
        u == IF w < Len(s) THEN w ELSE Len(s)
    IN  [i \in 1..u |-> [lo |-> s[i], hi |-> IF i < w /\ i < Len(s) THEN s[i + 1] ELSE rows]]
Partition(ch, rows) == /\ ch[1].lo = 0 /\ ch[Len(ch)].hi = rows
                       /\ \A i \in 1..Len(ch) : ch[i].lo <= ch[i].hi /\ (i < Len(ch) => ch[i].hi = ch[i + 1].lo)
ASSUME \A rows \in 1..48, w \in 1..48 : Partition(ChunksProcess(rows, w), rows) /\ Partition(ChunksSpi(rows, w), rows)
Chunks(r, rows, w) == IF r.cmd = "spi" THEN ChunksSpi(rows, w)
                      ELSE ChunksProcess(rows, IF C!LayoutOf(C!VarOf(IF r.index = "pet" THEN r.temp ELSE r.precip, disk).dims) = "timeseries" THEN 1 ELSE w)

\* ---------------------------------------------------------------- the steps
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
DistComps(r, ix) == Flat([i \in 1..Len(r.scales) |-> [d \in 1..2 |-> C!Comp(r, ix, C!Dists[d], r.scales[i])]])
Step(kind, c) == [kind |-> kind, c |-> c]
Steps(r) ==
    IF r.cmd = "spi"
    THEN LET cs == DistComps(r, "spi")
         IN  Flat([i \in 1..Len(cs) |-> (IF r.load = "" THEN <<Step("fit", cs[i])>> ELSE <<>>) \o <<Step("comp", cs[i])>>])
             \o (IF r.save # "" THEN <<Step("save", [file |-> r.save, ix |-> "", dist |-> "", k |-> 0, var |-> ""])>> ELSE <<>>)
    ELSE LET comp(ix) == IF ix \in C!IndexSet(r) THEN DistComps(r, ix) ELSE <<>>
             pnp == IF "pnp" \in C!IndexSet(r) THEN [i \in 1..Len(r.scales) |-> C!Comp(r, "pnp", "", r.scales[i])] ELSE <<>>
             pet == IF C!ComputesPet(r) THEN <<C!Comp(r, "pet", "", 0)>> ELSE <<>>
             all == comp("spi") \o pet \o comp("spei") \o pnp
         IN  [i \in 1..Len(all) |-> Step("comp", all[i])]

Main(r) == IF r.precip.file = "" THEN r.temp ELSE r.precip
RowsR(r) == RowsOf[OwnerOf(Main(r).file)[1]]
Reasons == C!Refusals(req, disk, pars)
Row(in, i) == LET o == OwnerOf(in.file) IN <<o[1], o[2], rev[o[1]], i>>
\* what each file of the run must hold, from the meaning of its computation
RowPars(i) == [f \in DOMAIN pars |-> [pars[f] EXCEPT !.fit = <<Append(pars[f].fit[1], i), pars[f].fit[2], pars[f].fit[3]>>]]
Expected(c, r) == [i \in 1..RowsR(r) |-> C!Meaning(c, r, RowDisk(i), RowPars(i))]

Init == /\ n = 0 /\ rev = [s \in Sets |-> 0] /\ pc = "idle" /\ req = <<>> /\ wkr = 0 /\ todo = <<>> /\ tasks = <<>>
        /\ shared = <<>> /\ files = <<>> /\ parf = <<>> /\ pars = <<>> /\ want = <<>> /\ before = {} /\ err = "" /\ hist = <<>>

Start == /\ pc = "idle" /\ n < Depth
         /\ \E a \in Acts, w \in Workers :
              LET r == Request(a, n + 1) IN
              /\ req' = r /\ wkr' = w /\ n' = n + 1
              /\ before' = [files |-> files, pars |-> pars]
              /\ hist' = IF Generate THEN Append(hist, a) ELSE hist
              /\ rev' = IF a.fresh THEN [rev EXCEPT ![a.s] = @ + 1] ELSE rev
              /\ LET why == C!Refusals(r, disk, pars) IN
                 IF why \ C!UnitReasons # {}
                 THEN pc' = "ended" /\ err' = "refused" /\ todo' = <<>>
                 ELSE /\ pc' = "load" /\ err' = "" /\ todo' = Steps(r)
         /\ UNCHANGED <<tasks, shared, files, parf, pars, want>>

\* load the inputs of the next step into the process-wide arrays and split
InputRows(in) == [i \in 1..RowsR(req) |-> Row(in, i)]
Set(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]
FitKey(c) == "fit_" \o c.dist \o "_" \o ToString(c.k)
NewResult == [i \in 1..RowsR(req) |-> <<"zero">>]
PetIn(c) == IF req.pet.file # "" THEN [i \in 1..RowsR(req) |-> <<"given", Row(req.pet, i)>>]
            ELSE files[C!Comp(req, "pet", "", 0).file]
WithInputs(c) ==
    LET s1 == IF "precip" \in C!Reads(c, req) THEN Set(shared, "precip", InputRows(req.precip)) ELSE shared
        s2 == IF c.ix = "pet" THEN Set(s1, "temp", InputRows(req.temp)) ELSE s1
        s3 == IF c.ix = "spei" THEN Set(s2, "pet", PetIn(c)) ELSE s2
        s4 == IF req.cmd = "spi" /\ req.load # "" THEN Set(s3, FitKey(c), parf[req.load][<<c.dist, c.k>>]) ELSE s3
        \* the dedicated command keeps one result array for all its computations
        fresh == req.cmd = "process" \/ todo = Steps(req)
    IN  IF fresh THEN Set(s4, "result", NewResult) ELSE s4
FitNew(c) == Set(WithInputs(c), FitKey(c), NewResult)
UnitFailure(c) == C!BadInputs(Reasons) \cap C!Reads(c, req) # {}
Load == /\ pc = "load"
        /\ IF todo = <<>> THEN pc' = "ended" /\ UNCHANGED <<tasks, shared, err, files, parf, pars, todo>>
           ELSE LET st == Head(todo) IN
                IF st.kind = "save"
                THEN /\ parf' = Set(parf, req.save, [key \in {<<d, k>> : d \in {"gamma", "pearson"}, k \in C!ScaleSet(req)} |->
                                                     shared["fit_" \o key[1] \o "_" \o ToString(key[2])]])
                     /\ pars' = Set(pars, req.save, C!SavedPars(req, disk))
                     /\ todo' = Tail(todo) /\ UNCHANGED <<pc, tasks, shared, err, files>>
                ELSE IF UnitFailure(st.c)
                THEN pc' = "ended" /\ err' = "units" /\ UNCHANGED <<tasks, shared, files, parf, pars, todo>>
                ELSE /\ shared' = IF st.kind = "fit" THEN FitNew(st.c) ELSE WithInputs(st.c)
                     /\ tasks' = [i \in 1..Len(Chunks(req, RowsR(req), wkr)) |->
                                    LET ch == Chunks(req, RowsR(req), wkr)[i] IN [at |-> ch.lo, hi |-> ch.hi, ok |-> TRUE]]
                     /\ pc' = "work" /\ UNCHANGED <<err, files, parf, pars, todo>>
        /\ UNCHANGED <<n, rev, req, wkr, want, before, hist>>

\* one row of one worker
Value(st, i) ==
    LET c == st.c IN
    CASE st.kind = "fit" -> <<shared["precip"][i], req.c0, req.c1>>
      [] c.ix = "pet" -> <<"pet", shared["temp"][i]>>
      [] c.ix = "pnp" -> <<"pnp", c.k, req.per, shared["precip"][i], req.c0, req.c1>>
      [] c.ix = "spi" -> <<"spi", c.dist, c.k, req.per, shared["precip"][i],
                            IF req.cmd = "spi" THEN shared[FitKey(c)][i] ELSE <<shared["precip"][i], req.c0, req.c1>>>>
      [] c.ix = "spei" -> <<"spei", c.dist, c.k, req.per, shared["precip"][i], shared["pet"][i], req.c0, req.c1>>
Target(st) == IF st.kind = "fit" THEN FitKey(st.c) ELSE "result"
RowFails(st, i) == st.c.ix = "pet" /\ BadRow(shared["temp"][i], i)
Work == /\ pc = "work"
        /\ \E t \in 1..Len(tasks) :
             /\ tasks[t].ok /\ tasks[t].at < tasks[t].hi
             /\ LET i == tasks[t].at + 1 st == Head(todo) IN
                IF RowFails(st, i) THEN tasks' = [tasks EXCEPT ![t].ok = FALSE] /\ UNCHANGED shared
                ELSE /\ tasks' = [tasks EXCEPT ![t].at = i]
                     /\ shared' = [shared EXCEPT ![Target(st)] = [@ EXCEPT ![i] = Value(st, i)]]
        /\ UNCHANGED <<n, rev, pc, req, wkr, todo, files, parf, pars, want, before, err, hist>>
AllDone == \A t \in 1..Len(tasks) : tasks[t].ok /\ tasks[t].at = tasks[t].hi
Broken == \E t \in 1..Len(tasks) : ~tasks[t].ok
Write == /\ pc = "work" /\ AllDone
         /\ files' = IF Head(todo).kind = "fit" THEN files ELSE Set(files, Head(todo).c.file, shared["result"])
         /\ want' = IF Head(todo).kind = "fit" THEN want ELSE Set(want, Head(todo).c.file, Expected(Head(todo).c, req))
         /\ todo' = Tail(todo) /\ pc' = "load" /\ tasks' = <<>>
         /\ UNCHANGED <<n, rev, req, wkr, shared, parf, pars, before, err, hist>>
\* a failed task ends the run, whatever the others have reached
Abort == /\ pc = "work" /\ Broken
         /\ pc' = "ended" /\ err' = "failed" /\ tasks' = <<>>
         /\ UNCHANGED <<n, rev, req, wkr, todo, shared, files, parf, pars, want, before, hist>>
End == /\ pc = "ended" /\ pc' = "idle" /\ todo' = <<>>
       /\ UNCHANGED <<n, rev, req, wkr, tasks, shared, files, parf, pars, want, before, err, hist>>
Next == Start \/ Load \/ Work \/ Write \/ Abort \/ End
Spec == Init /\ [][Next]_vars /\ WF_vars(Load \/ Work \/ Write \/ Abort \/ End)

\* ---------------------------------------------------------------- properties
\* C15, C16, C20: every file holds the meaning of its computation everywhere
FilesRight == \A f \in DOMAIN files : f \in DOMAIN want /\ files[f] = want[f]
\* C18: saved parameters are those fitted from the data of the saving run
ParamsRight == \A f \in DOMAIN parf : f \in DOMAIN pars /\
    \A key \in DOMAIN parf[f] : \A i \in 1..Len(parf[f][key]) :
        parf[f][key][i] = <<Append(pars[f].fit[1], i), pars[f].fit[2], pars[f].fit[3]>>
\* C16: no row belongs to two workers, none to no worker
OneOwner == pc = "work" => \A i \in 1..RowsR(req) :
    Cardinality({t \in 1..Len(tasks) : LET ch == Chunks(req, RowsR(req), wkr)[t] IN ch.lo < i /\ i <= ch.hi}) = 1
NewFiles == {f \in DOMAIN files : f \notin DOMAIN before.files \/ files[f] # before.files[f]}
            \cup {f \in DOMAIN pars : f \notin DOMAIN before.pars \/ pars[f] # before.pars[f]}
Failing == {c.file : c \in {c \in C!Comps(req) : C!Fails(c, req, {C!Comp(req, "pet", "", 0).file : x \in
              {x \in {1} : C!ComputesPet(req) /\ \E i \in 1..RowsR(req) : BadRow(OwnerOf(req.temp.file), i)}})}}
EndRight == pc = "ended" =>
    /\ NewFiles \subseteq C!Writes(req)
    /\ Reasons # {} /\ before.pars = pars => err # "" /\ NewFiles \cap C!Forbidden(req, Reasons) = {}
    /\ err = "" => C!Writes(req) \subseteq DOMAIN files \cup DOMAIN pars
    /\ err \in {"refused", "units"} => C!Refusals(req, disk, before.pars) # {}
    /\ err = "failed" => Failing # {} /\ NewFiles \cap Failing = {}
    /\ err = "" => C!Refusals(req, disk, before.pars) = {} /\ Failing = {}
    \* what an earlier run left under the same name is replaced
    /\ err = "" => \A c \in C!Comps(req) : files[c.file] = Expected(c, req)
Inv == FilesRight /\ ParamsRight /\ OneOwner /\ EndRight
Terminates == \A k \in 1..Depth : (n = k /\ pc # "idle") ~> (pc = "idle")

\* ---------------------------------------------------------------- histories
\* print a history when its last two requests (and how they ended) are new
Pair == <<hist[Len(hist) - 1], hist[Len(hist)], err, pars>>
Emit == IF ~Generate \/ Len(hist) < 2 \/ pc # "ended" THEN TRUE
        ELSE IF Pair \in TLCGet(7) THEN TRUE
        ELSE TLCSet(7, TLCGet(7) \cup {Pair}) /\ PrintT("GEN" \o ToJson([h |-> hist]))
EmitLong == IF Len(hist) < Depth \/ pc # "ended" THEN TRUE
            ELSE IF hist \in TLCGet(7) THEN TRUE
            ELSE TLCSet(7, TLCGet(7) \cup {hist}) /\ PrintT("GEN" \o ToJson([h |-> hist]))
ASSUME TLCSet(7, {})
W1 == {2}
W3 == {1, 2, 4}
W5 == 1..5
=============================================================================
