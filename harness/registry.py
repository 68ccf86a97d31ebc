"""What each check runs."""
FP = "IEEE-double primitives and special functions of spec/java/Floats.java (cross-checked against scipy, harness/selftest.py)"
OBS = "the public function or command is observed; only executed scenarios are judged"
TOL = "values are compared within 1e-6; samples so degenerate that rounding decides are left open"
LIB = dict(driver="drv_lib.py", traces={"lib": "TraceLib"}, assumptions=[FP, OBS, TOL])


def lib(**kw):
    d = dict(LIB)
    d.update(kw)
    return d


CHECKS = {p: lib() for p in ("C01", "C02", "C03", "C04", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C21", "C26")}
CHECKS["C05"] = lib(traces={"hist": "TraceHist"})
CHECKS["C09"] = lib(generate=True, models=[
    dict(module="CalendarMC", quick="CalendarMC_quick.cfg", thorough="CalendarMC_thorough.cfg", workers=1, generates=True)])
CHECKS["C10"] = lib(models=[dict(module="CalendarMC", quick="CalendarMC_plain.cfg", thorough="CalendarMC_deep.cfg")])
CHECKS["C13"] = lib(traces={"lib": "TraceLib", "palmer": "TracePalmer"}, generate=True, models=[
    dict(module="PalmerMC", quick="PalmerMC_quick.cfg", thorough="PalmerMC_gen.cfg", workers=1, generates=True),
    dict(module="PalmerMC", thorough="PalmerMC_deep.cfg", heap="6g")])
CHECKS["C14"] = lib(traces={"bal": "TraceBalance"}, models=[
    dict(module="PalmerBalanceMC", quick="PalmerBalanceMC_quick.cfg", thorough="PalmerBalanceMC_thorough.cfg")])
CHECKS["C24"] = lib(traces={"lib": "TraceLib", "bal": "TraceBalance"})
CMD = dict(driver="drv_cmd.py", traces={"run": "TraceRun"}, assumptions=[
    "commands run through their entry points in this process with worker processes forked as usual; os.cpu_count is set to stand for other machines",
    "values are compared within 1e-7 with the library's own result for the same location, which C01-C14 judge",
    OBS])
for p in ("C15", "C16", "C17", "C18", "C19", "C20", "C22", "C23", "C25", "C27"):
    CHECKS[p] = dict(CMD)
MC_FEW = dict(module="CommandMC", quick="CommandMC_few.cfg", thorough="CommandMC_deep.cfg", workers=2)
CHECKS["C15"]["models"] = CHECKS["C16"]["models"] = CHECKS["C23"]["models"] = [MC_FEW]
CHECKS["C20"].update(generate=True, models=[dict(module="CommandMC", quick="CommandMC_gen.cfg", workers=1, generates=True),
    dict(module="CommandMC", thorough="CommandMC_tri.cfg", workers=1, generates=True)])
CHECKS["C18"].update(generate=True, models=[dict(module="CommandMC", quick="CommandMC_par.cfg", workers=1, generates=True)])
NOTES = {}
