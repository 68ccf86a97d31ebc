#!/usr/bin/env python3
"""Tests of the machinery itself (not a registered check):
  selftest.py floats    Floats.java against scipy (run by the implementation's Python)
  selftest.py traces    recorded events, each corrupted in one place, must be rejected
  selftest.py models    design models with one planted error each, must be rejected by TLC
  selftest.py           all of it"""
import collections, concurrent.futures as cf, copy, json, os, random, shutil, struct, subprocess, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import run
from registry import CHECKS

SCIPY = r'''
import sys, numpy as np
from scipy import stats, special
rng = np.random.default_rng(5)
req = []
for _ in range(4000):
    a = 10 ** rng.uniform(-2, 6); x = a * (1 + rng.normal() * 3 / np.sqrt(a)) if a > 20 else a * rng.gamma(1) * 2
    if x <= 0: continue
    req.append(("gcdf", x, a, stats.gamma.cdf(x, a)))
    req.append(("gsf", x, a, stats.gamma.sf(x, a)))
for _ in range(4000):
    p = rng.choice([rng.uniform(0, 1), 10 ** rng.uniform(-12, -1), 1 - 10 ** rng.uniform(-12, -1)])
    req.append(("ppf", p, 0, stats.norm.ppf(p)))
    z = rng.normal() * 3
    req.append(("ncdf", z, 0, stats.norm.cdf(z)))
    s = 10 ** rng.uniform(-3, 5)
    req.append(("lgamma", s, 0, special.gammaln(s)))
for f, a, b, w in req:
    print(f, repr(float(a)), repr(float(b)), repr(float(w)))
'''


def floats():
    run.build()
    want = [l.split() for l in subprocess.run([run.PY, "-c", SCIPY], env=run.env(), capture_output=True, text=True, check=True).stdout.strip().split("\n")]
    got = subprocess.run(["java", "-cp", f"{run.BUILD}:{run.JARS}", "FloatsTest"], input="\n".join(" ".join(w[:3]) for w in want) + "\n",
                         capture_output=True, text=True, check=True).stdout.split()
    assert len(got) == len(want), (len(got), len(want))
    worst = {}
    for w, g in zip(want, got):
        a, b = float(w[3]), float(g)
        d = abs(a - b) / max(1.0, abs(a)) if a == a else 0
        worst[w[0]] = max(worst.get(w[0], (0,)), (d, w, g))
    ok = True
    for k, (d, w, g) in sorted(worst.items()):
        print(f"floats {k}: largest difference {d:.2g}", w if d > 1e-9 else "")
        ok = ok and d < 1e-8
    return ok


# ------------------------------------------------------------ corrupted traces
def val(v):
    return struct.unpack(">d", struct.pack(">ii", *v))[0]


def bits(x):
    return list(struct.unpack(">ii", struct.pack(">d", x)))


def plain(s, far=3.0):
    """positions that hold a number not at a bound"""
    return [i for i, v in enumerate(s) if val(v) == val(v) and abs(val(v)) not in (3.09,) and abs(val(v)) < 1e9]


def shift(s, rng, by=None):
    p = plain(s)
    if not p:
        return False
    i = rng.choice(p)
    x = val(s[i])
    s[i] = bits(x + (by if by else 0.01 + 0.001 * abs(x)))
    return True


def hide(s, rng):
    p = plain(s)
    if not p:
        return False
    s[rng.choice(p)] = [2146959360, 0]
    return True


def corrupt(e, rng):
    """one corrupted copy of the event for every way that applies: [(name, event, minimal share of rejections)]"""
    res = []

    def add(name, f, share=0.9):
        c = copy.deepcopy(e)
        if f(c):
            c["id"] = e["id"] + "!" + name
            res.append((name, c, share))
    ev = e.get("ev")
    if "z" in e and "phdi" in e:                                             # palmer
        for k in ("pdsi", "phdi", "pmdi"):
            add(f"palmer {k} moved", lambda c: shift(c[k], rng))
            add(f"palmer {k} dropped", lambda c: c[k].pop() is not None)
        return res
    if "awc" in e:                                                           # balance
        if e["err"] == "":
            add("bal z moved", lambda c: shift(c["z"], rng))
            for g in ("alpha", "beta", "gamma", "delta"):
                if e["opar"].get(g):
                    add(f"bal {g} moved", lambda c: shift(c["opar"][g], rng), 0.6)   # undefined months are left open
        return res
    if ev == "call":                                                         # histories
        def hist(c):
            if not c["out"]:
                return False
            return any(shift(o, rng) for o in c["out"][:1])
        add("hist result moved", hist, 0.5)                                  # the first call of a key defines it
        if e["before"]:
            add("hist argument", lambda c: shift(c["after"][0], rng) if c["after"] and c["after"][0] else False)
        return res
    if ev in ("spi", "spei", "sum", "scale", "pnp", "pci", "to366", "togreg", "thorn", "harg"):
        if e["err"] == "" and e["out"]:
            open_ = 0.75 if ev in ("spi", "spei") else 0.85                     # degenerate samples are left open
            add(f"{ev} value moved", lambda c: shift(c["out"], rng), open_)
            add(f"{ev} value missing", lambda c: hide(c["out"], rng), open_)
            add(f"{ev} value dropped", lambda c: c["out"].pop() is not None)
            add(f"{ev} failed", lambda c: c.update(out=[], err="ValueError: x") is None, 0.5)
        else:
            add(f"{ev} refusal accepted", lambda c: c.update(err="", out=[[0, 0]]) is None, 0.5)
    elif ev == "par" and "out" in e:
        def par(c):
            k = rng.choice(sorted(c["out"])) if isinstance(c["out"], dict) else None
            return bool(k) and bool(c["out"][k]) and shift(c["out"][k], rng)
        if e["err"] == "":
            add("par value moved", par, 0.6)
    elif ev == "days":
        add("days moved", lambda c: bool(c["out"]) and c["out"].__setitem__(rng.randrange(len(c["out"])), c["out"][0] - 7) is None if not isinstance(e["out"][0], list) else shift(c["out"], rng, 1.0))
    elif ev == "len366":
        add("length moved", lambda c: c["q"][rng.randrange(len(c["q"]))].__setitem__(2, -1) is None)
    elif ev == "refused":
        add("refusal dropped", lambda c: c.update(err="") is None)
    elif ev == "help":
        if e["err"]:
            add(f"{e['op']} refusal accepted", lambda c: c.update(err="", out=[[0, 0]] * 3, oshape=[3]) is None, 0.8)
        elif e["op"] == "lfit":
            add("lfit value moved", lambda c: shift(c["out"], rng), 0.75)
        elif e["out"]:
            add(f"{e['op']} value moved", lambda c: shift(c["out"], rng))
            add(f"{e['op']} value missing", lambda c: hide(c["out"], rng))
            if e["op"] in ("rows", "divs", "sign"):
                add(f"{e['op']} shape", lambda c: c["oshape"].append(1) is None)
        if e["err"] == "":
            add(f"{e['op']} failed", lambda c: c.update(out=[], err="ValueError: x") is None)
    elif ev == "same":
        n = min(e["upto"], len(e["a"]), len(e["b"]))
        if n:
            def mv(c):
                p = [i for i in plain(c["b"]) if i < n]
                if not p:
                    return False
                i = rng.choice(p)
                c["b"][i] = bits(val(c["b"][i]) * 1.5 + 1)
                return True
            add("law broken", mv)
    return res


def corrupt_session(events, rng):
    """corrupted copies of a whole recorded session of commands"""
    res = []

    def add(name, i, f, share=0.9):
        c = copy.deepcopy(events)
        if f(c[i]):
            c[i]["id"] += "!" + name
            res.append((name, c, c[i]["id"], share))
    outs = [i for i, e in enumerate(events) if e["ev"] == "out" and e["err"] == "" and e["cells"]]
    runs = [i for i, e in enumerate(events) if e["ev"] == "run"]
    pars = [i for i, e in enumerate(events) if e["ev"] == "par" and e["vars"] and "none" not in e["vars"]]
    if outs:
        i = rng.choice(outs)
        add("cell moved", i, lambda e: shift(rng.choice(e["cells"]), rng))
        add("cell missing", i, lambda e: hide(rng.choice(e["cells"]), rng))
        add("time dropped", i, lambda e: e["time"].pop() is not None)
        add("dimension dropped", i, lambda e: e["dims"].pop() is not None)
        add("variable renamed", i, lambda e: e.update(vars=["other"]) is None)
        many = [j for j in outs if len(events[j]["cells"]) > 1]

        def swap(e):
            a, b = e["cells"][0], e["cells"][-1]
            if a == b:
                return False
            e["cells"][0], e["cells"][-1] = b, a
            return True
        if many:
            add("locations exchanged", rng.choice(many), swap)
            add("argument exchanged", rng.choice(many), lambda e: e["arg"].__setitem__(0, e["arg"][-1]) is None if e["arg"][0] != e["arg"][-1] else False)
        lats = [j for j in outs if len(events[j]["lat"]) > 1]
        if lats:
            add("latitudes reversed", rng.choice(lats), lambda e: e["lat"].reverse() is None)
        divs = [j for j in outs if len(events[j]["div"]) > 1]
        if divs:
            add("divisions reversed", rng.choice(divs), lambda e: e["div"].reverse() is None)
    good = [i for i in runs if events[i]["err"] == ""]
    if good:
        add("litter", rng.choice(good), lambda e: e["litter"].append("left.nc") is None)
    refused = [i for i in runs if events[i]["err"] != "" and not events[i]["failing"] and not events[i]["mustfail"]]
    failed = [i for i in runs if events[i]["err"] != "" and (events[i]["failing"] or events[i]["mustfail"])]
    if good:
        i = rng.choice(good)
        add("run reported failed", i, lambda e: e.update(err="ValueError: x") is None)
        new = [f for f in events[i]["after"] if f not in events[i]["before"]]
        if new:
            add("output file missing", i, lambda e: e["after"].pop(new[0]) is not None)
        add("extra file", i, lambda e: e["after"].update({"extra.nc": "d"}) is None)
        add("input file changed", i, lambda e: bool(e["before"]) and e["after"].update({sorted(e["before"])[0]: "other"}) is None, 0.6)
        add("input file removed", i, lambda e: bool(e["before"]) and e["after"].pop(sorted(e["before"])[0], None) is not None)
        add("request changed", i, lambda e: e.update(kept=False) is None)
    if refused:
        add("refusal dropped", rng.choice(refused), lambda e: e.update(err="") is None, 0.8)   # requests left open
    if failed:
        add("failure swallowed", rng.choice(failed), lambda e: e.update(err="") is None)
    if pars:
        def pmove(e):
            k = rng.choice(sorted(e["vars"]))
            return shift(rng.choice(e["vars"][k]), rng)
        add("saved parameter moved", rng.choice(pars), pmove)
        add("saved parameter missing", rng.choice(pars), lambda e: e["vars"].pop(sorted(e["vars"])[0]) is not None)
    meta = [i for i, e in enumerate(events) if e["ev"] == "meta" and e["err"] == ""]
    says = [i for i in meta if events[i]["says"]]
    kept = [i for i in meta if events[i]["steps"]]
    if says:
        i = rng.choice(says)
        add("description empty", i, lambda e: e.update(says=[]) is None)
        add("no valid range", i, lambda e: e.update(low=[], high=[]) is None if "pnp" not in e["file"] else False)
        tok = [x for x in events[i]["says"] if x.endswith(("-month", "-day"))]
        if tok:
            add("another accumulation", i, lambda e: e["says"].__setitem__(e["says"].index(tok[0]), "1" + tok[0]) is None)
        ds = [x for x in events[i]["says"] if x in ("gamma", "pearson")]
        if ds:
            add("another distribution", i, lambda e: e["says"].__setitem__(e["says"].index(ds[0]), "pearson" if ds[0] == "gamma" else "gamma") is None)
    boxes = [i for i in meta if events[i]["box"]]
    if boxes:
        add("extent moved", rng.choice(boxes), lambda e: shift(e["box"], rng))
    if kept:
        i = rng.choice(kept)
        add("step of the year missing", i, lambda e: max(e["steps"], key=len).pop() is not None)
        add("parameter not described", i, lambda e: e["vars"][sorted(e["vars"])[0]].update(says=[]) is None)
        add("further parameter", i, lambda e: e["vars"].update(extra=e["vars"][sorted(e["vars"])[0]]) is None)
    return res


def sessions(path):
    cur = []
    for line in open(path):
        e = json.loads(line)
        if e["ev"] == "world" and cur:
            yield cur
            cur = []
        cur.append(e)
    if cur:
        yield cur


def traces(props=None, per=12, seed=3):
    run.build()
    rng = random.Random(seed)
    bad = False
    for prop in props or sorted(CHECKS):
        spec = CHECKS[prop]
        work = tempfile.mkdtemp(prefix=f"self_{prop}_")
        score = collections.defaultdict(lambda: [0, 0, 1.0, ""])
        try:
            if spec.get("generate"):
                mc = next(m for m in spec["models"] if m.get("generates"))
                import re
                r = run.tlc(mc["module"], mc["quick"], work, "gen", workers=1, heap="4g")
                with open(os.path.join(work, "gen.ndjson"), "w") as g:
                    g.write("\n".join(re.findall(r'"GEN(\{.*?\})"', r["out"].replace('\\"', '"'))) + "\n")
                os.environ["GEN"] = os.path.join(work, "gen.ndjson")
            dirs = run.drive(prop, spec, "quick", seed, work, 8)
            jobs = []
            for kind, module in spec["traces"].items():
                for d in dirs:
                    path = os.path.join(d, kind + ".ndjson")
                    if not os.path.exists(path):
                        continue
                    want, lines = {}, []
                    if kind == "run":
                        ss = list(sessions(path))
                        for s in rng.sample(ss, min(len(ss), max(1, per // 6))):
                            for name, c, eid, share in corrupt_session(s, rng):
                                for x in c:       # every copy is its own session; ids of other copies must not clash
                                    if x["id"] != eid:
                                        x["id"] += f"~{len(want)}"
                                c[0]["keep"] = False
                                want[eid + f"~{len(want)}"] = (name, share)
                                for x in c:
                                    if x["id"] == eid:
                                        x["id"] = list(want)[-1]
                                lines += c
                    elif kind == "hist":
                        ev = [json.loads(x) for x in open(path)][:250]
                        for e in ev:
                            lines.append(e)
                            if rng.random() < 0.2:
                                for name, c, share in corrupt(e, rng):
                                    want[c["id"]] = (name, share)
                                    lines.append(c)
                    else:
                        ev = [json.loads(x) for x in open(path)]
                        for e in rng.sample(ev, min(per, len(ev))):
                            for name, c, share in corrupt(e, rng):
                                want[c["id"]] = (name, share)
                                lines.append(c)
                    if not want:
                        continue
                    out = os.path.join(d, kind + "_bad.ndjson")
                    with open(out, "w") as f:
                        f.write("\n".join(json.dumps(x, separators=(", ", ": ")) for x in lines) + "\n")
                    jobs.append((want, module, out))
            with cf.ThreadPoolExecutor(8) as pool:
                rs = list(pool.map(lambda j: run.tlc(j[1], j[1] + ".cfg", work, os.path.basename(os.path.dirname(j[2])) + j[1], j[2]), jobs))
            for (want, module, out), r in zip(jobs, rs):
                assert "Model checking completed" in r["out"], r["out"][-2000:]
                fl = {x for x, _ in run.faults_of(r["out"])[0]}
                for eid, (name, share) in want.items():
                    s = score[name]
                    s[0] += 1
                    s[1] += eid in fl
                    s[2] = share
                    if eid not in fl:
                        s[3] = eid
        finally:
            shutil.rmtree(work, ignore_errors=True)
        for name, (n, k, share, ex) in sorted(score.items()):
            ok = k >= share * n or n - k <= 1 and n > 1
            bad = bad or not ok
            print(f"{prop} {name}: {k}/{n} rejected" + ("" if ok else f"   TOO FEW, e.g. {ex}"), flush=True)
    return not bad


# ------------------------------------------------------------ models with errors
# (module file, text, replacement, model, configuration)
MUTANTS = [
    ("result array of the first computation kept", "CommandMC.tla", 'fresh == req.cmd = "process" \\/ todo = Steps(req)',
     'fresh == "result" \\notin DOMAIN shared', "CommandMC", "CommandMC_gen.cfg"),
    ("splits overlap by a row", "CommandMC.tla", "lo |-> s[i], hi |-> IF i < u THEN s[i + 1] ELSE rows]",
     "lo |-> s[i], hi |-> IF i < u THEN s[i + 1] + 1 ELSE rows]", "CommandMC", "CommandMC_few.cfg"),
    ("last row left out", "CommandMC.tla", "lo |-> s[i], hi |-> IF i < u THEN s[i + 1] ELSE rows]",
     "lo |-> s[i], hi |-> IF i < u THEN s[i + 1] ELSE rows - 1]", "CommandMC", "CommandMC_few.cfg"),
    ("a worker's failure swallowed", "CommandMC.tla", "AllDone == \\A t \\in 1..Len(tasks) : tasks[t].ok /\\ tasks[t].at = tasks[t].hi",
     "AllDone == \\A t \\in 1..Len(tasks) : ~tasks[t].ok \\/ tasks[t].at = tasks[t].hi", "CommandMC", "CommandMC_few.cfg"),
    ("written before every worker is done", "CommandMC.tla", "Write == /\\ pc = \"work\" /\\ AllDone",
     "Write == /\\ pc = \"work\" /\\ \\E t \\in 1..Len(tasks) : tasks[t].at = tasks[t].hi", "CommandMC", "CommandMC_few.cfg"),
    ("loaded parameters not refreshed", "CommandMC.tla", 'IF req.cmd = "spi" /\\ req.load # "" THEN Set(s3, FitKey(c), parf[req.load][<<c.dist, c.k>>]) ELSE s3',
     'IF req.cmd = "spi" /\\ req.load # "" /\\ FitKey(c) \\notin DOMAIN shared THEN Set(s3, FitKey(c), parf[req.load][<<c.dist, c.k>>]) ELSE s3', "CommandMC", "CommandMC_par.cfg"),
    ("precipitation array kept from the run before", "CommandMC.tla", 'IF "precip" \\in C!Reads(c, req) THEN Set(shared, "precip", InputRows(req.precip)) ELSE shared',
     'IF "precip" \\in C!Reads(c, req) /\\ "precip" \\notin DOMAIN shared THEN Set(shared, "precip", InputRows(req.precip)) ELSE shared', "CommandMC", "CommandMC_gen.cfg"),
    ("PET file of an earlier run kept", "CommandMC.tla", 'ELSE Set(files, Head(todo).c.file, shared["result"])',
     'ELSE IF Head(todo).c.ix = "pet" /\\ Head(todo).c.file \\in DOMAIN files THEN files ELSE Set(files, Head(todo).c.file, shared["result"])', "CommandMC", "CommandMC_few.cfg"),
    ("parameters of one scale only", "CommandMC.tla", 'FitKey(c) == "fit_" \\o c.dist \\o "_" \\o ToString(c.k)', 'FitKey(c) == "fit_" \\o c.dist', "CommandMC", "CommandMC_par.cfg"),
    ("unknown units not noticed", "CommandMC.tla", "UnitFailure(c) == C!BadInputs(Reasons) \\cap C!Reads(c, req) # {}", "UnitFailure(c) == FALSE", "CommandMC", "CommandMC_gen.cfg"),
    ("century years all leap", "Calendar.tla", "IsLeap(y) == (y % 4 = 0 /\\ y % 100 # 0) \\/ y % 400 = 0", "IsLeap(y) == y % 4 = 0", "CalendarMC", "CalendarMC_plain.cfg"),
    ("day after the inserted one", "Calendar.tla", "FaithDay(y, r) == IF IsLeap(y) \\/ r < 60 THEN r", "FaithDay(y, r) == IF IsLeap(y) \\/ r <= 60 THEN r", "CalendarMC", "CalendarMC_plain.cfg"),
    ("months counted past December", "Calendar.tla", "y == y0 + k \\div 12", "y == y0 + (k + 1) \\div 12", "CalendarMC", "CalendarMC_plain.cfg"),
    ("lower layer emptied without the surface", "PalmerBalance.tla", "sl == BMin(deficit, ss)", "sl == BMin(deficit, MulDiv(ss, Top, Add(Top, su)))", "PalmerBalanceMC", "PalmerBalanceMC_quick.cfg"),
    ("runoff before the soil is full", "PalmerBalance.tla", "ru == BMin(Sub(surplus, rs), Sub(bot, su))", "ru == BMin(Sub(surplus, rs), MulDiv(Sub(bot, su), Top, Add(Top, Top)))", "PalmerBalanceMC", "PalmerBalanceMC_quick.cfg"),
    ("water made in the lower layer", "PalmerBalance.tla", "su |-> Add(su, ru)]", "su |-> Add(su, Sub(surplus, rs))]", "PalmerBalanceMC", "PalmerBalanceMC_quick.cfg"),
    ("undecided months forgotten", "Palmer.tla", "    /\\ pend' = Append(pend, [m |-> t + 1,", "    /\\ pend' = Append(IF Len(pend) > 1 THEN Tail(pend) ELSE pend, [m |-> t + 1,", "PalmerMC", "PalmerMC_quick.cfg"),
    ("spell over at half", "Palmer.tla", "over == Le(Hundred, pr)", "over == Lt(Hundred, pr)", "PalmerMC", "PalmerMC_quick.cfg"),
    ("incipient dry spell turns wet", "Palmer.tla", "b == Min0(y2)", "b == y2", "PalmerMC", "PalmerMC_quick.cfg"),
    ("hydrological index ignores the established spell", "Palmer.tla", "phdi' = upd(phdi, LAMBDA i : Hydro(mon2[i], val(i)))", "phdi' = upd(phdi, val)", "PalmerMC", "PalmerMC_quick.cfg"),
]


def models():
    run.build()
    ok = True
    home = run.SPEC

    def one(m):
        name, f, old, new, module, cfg = m
        d = tempfile.mkdtemp(prefix="self_mc_")
        for x in os.listdir(home):
            if os.path.isfile(os.path.join(home, x)):
                shutil.copy(os.path.join(home, x), d)
        p = os.path.join(d, f)
        text = open(p).read()
        assert text.count(old) >= 1, (name, "text not found")
        open(p, "w").write(text.replace(old, new))
        cmd = ["java", "-Xmx3g", "-Xss64m", "-cp", f"{run.BUILD}:{run.JARS}", "tlc2.TLC", "-workers", "1", "-noGenerateSpecTE",
               "-metadir", os.path.join(d, "md"), "-config", cfg, module + ".tla"]
        p = subprocess.run(cmd, cwd=d, env=run.env(), capture_output=True, text=True, timeout=3600)
        shutil.rmtree(d)
        import re
        why = re.findall(r"Error: (.*)", p.stdout)
        semantic = bool(re.search(r"is violated|Assumption|were violated|was violated|is false|threw an unexpected exception", p.stdout))
        return name, semantic, why[:1]
    with cf.ThreadPoolExecutor(4) as pool:
        for name, semantic, why in pool.map(one, MUTANTS):
            print(f"model with '{name}': {'rejected' if semantic else 'NOT REJECTED'} {why}", flush=True)
            ok = ok and semantic
    return ok


if __name__ == "__main__":
    what = sys.argv[1:] or ["floats", "models", "traces"]
    good = True
    for w in what:
        if w in ("floats", "models", "traces"):
            good = {"floats": floats, "models": models, "traces": traces}[w]() and good
        else:
            good = traces([w]) and good
    print("SELFTEST", "ok" if good else "FAILED")
    sys.exit(0 if good else 1)
