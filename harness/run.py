#!/usr/bin/env python3
"""Runs the check of one property:  run.py C01 [quick|thorough]

1. driver processes (the implementation's Python) execute generated scenarios
   against /repo and record what they observe as ndjson traces,
2. TLC checks every trace against the TLA+ specification (spec/),
3. design models of the same specification are explored exhaustively.
A trace the specification does not allow is a violation.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
BUILD = os.path.join(VERIF, "build")
TLA = "/opt/veriftools/tla"
JARS = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
PY = "/opt/venv/bin/python"
REPO = os.environ.get("CI_REPO", "/repo")
sys.path.insert(0, os.path.join(VERIF, "harness"))
from registry import CHECKS  # noqa: E402


class Machinery(Exception):
    pass


def build():
    os.makedirs(BUILD, exist_ok=True)
    src = [os.path.join(SPEC, "java", f) for f in sorted(os.listdir(os.path.join(SPEC, "java")))]
    out = os.path.join(BUILD, "Floats.class")
    if os.path.exists(out) and all(os.path.getmtime(out) >= os.path.getmtime(s) for s in src):
        return
    tmp = tempfile.mkdtemp(prefix="vbuild")
    subprocess.run(["javac", "-nowarn", "-cp", JARS, "-d", tmp, *src], check=True, capture_output=True)
    for f in os.listdir(tmp):
        shutil.copy(os.path.join(tmp, f), os.path.join(BUILD, f))
    shutil.rmtree(tmp)


def env(extra=None):
    e = dict(os.environ)
    e.update(HOME="/root", LC_ALL="C.UTF-8", PYTHONDONTWRITEBYTECODE="1", OPENBLAS_NUM_THREADS="1",
             OMP_NUM_THREADS="1", PYTHONHASHSEED="0",
             PYTHONPATH=f"{REPO}/src:{VERIF}/harness")
    e.update(extra or {})
    return e


def tlc(module, cfg, work, name, trace=None, args=(), timeout=600, workers=1, heap="2g"):
    meta = os.path.join(work, "md_" + name)
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-XX:TieredStopAtLevel=4",
           f"-Xmx{heap}", "-Xss256m", "-cp", f"{BUILD}:{JARS}", "tlc2.TLC", "-workers", str(workers),
           "-noGenerateSpecTE", "-metadir", meta, *args, "-config", cfg, module + ".tla"]
    t0 = time.time()
    p = subprocess.run(cmd, cwd=SPEC, env=env({"TRACE": trace or ""}), capture_output=True, text=True, timeout=timeout)
    out = "\n".join(x for x in p.stdout.split("\n") if not x.startswith("Loading "))
    shutil.rmtree(meta, ignore_errors=True)
    m = re.findall(r"(\d[\d,]*) states generated[^,]*, (\d[\d,]*) distinct states found", out)
    gen, dist = (int(x.replace(",", "")) for x in m[-1]) if m else (0, 0)
    return dict(rc=p.returncode, out=out, generated=gen, distinct=dist, wall=time.time() - t0, err=p.stderr[-2000:])


def faults_of(out):
    """[(id, text)] of the FAULT tuples TLC printed, ids of ties, other marks"""
    res = []
    for m in re.finditer(r'<<\s*"FAULT",\s*"([^"]*)",(.*?)(?=<<\s*"(?:FAULT|TIE|SPECBROKEN|COVER|NOTE)"|\nModel checking completed|\nFinished|\nProgress|\Z)', out, re.S):
        res.append((m.group(1), re.sub(r"\s+", " ", m.group(2)).strip().rstrip(">").strip()))
    ties = re.findall(r'<<\s*"TIE",\s*"([^"]*)"\s*>>', out)
    broken = re.findall(r'<<\s*"SPECBROKEN".*', out)
    return res, ties, broken


def load_known():
    p = os.path.join(VERIF, "known_findings.json")
    return json.load(open(p))["findings"] if os.path.exists(p) else []


def drive(prop, spec, tier, seed, work, shards):
    """run the driver shards; returns list of (shard, {trace kind: path})"""
    drv = os.path.join(VERIF, "harness", spec["driver"])
    procs = []
    for i in range(shards):
        d = os.path.join(work, f"s{i}")
        os.makedirs(d)
        log = open(os.path.join(d, "log"), "w")
        procs.append((i, d, subprocess.Popen(
            [PY, drv, prop, tier, str(seed), str(i), str(shards), d], env=env({"TMPDIR": d}), cwd=d,
            stdout=log, stderr=subprocess.STDOUT, start_new_session=True)))
    limit = time.time() + (700 if tier == "quick" else 6 * 3600)
    for i, d, p in procs:
        try:
            rc = p.wait(max(1, limit - time.time()))
        except subprocess.TimeoutExpired:
            for _, _, q in procs:
                try:
                    os.killpg(q.pid, 9)
                except OSError:
                    pass
            raise Machinery(f"driver {i} timed out\n" + open(os.path.join(d, "log")).read()[-1500:])
        try:
            os.killpg(p.pid, 9)   # workers left behind
        except OSError:
            pass
        if rc != 0:
            raise Machinery(f"driver {i} failed rc={rc}\n" + open(os.path.join(d, "log")).read()[-3000:])
    return [d for _, d, _ in procs]


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    spec = CHECKS[prop]
    t0 = time.time()
    build()
    work = tempfile.mkdtemp(prefix=f"v_{prop}_")
    cov = dict(states=0, transitions=0, traces_validated_against_impl=0, samples=[], events_validated=0,
               inconclusive_ties=0, design_models=[])
    violations = []
    try:
        # design models
        pool = cf.ThreadPoolExecutor(8)
        mcs = []
        for mc in spec.get("models", []):
            cfg = mc.get(tier, mc.get("quick"))
            if not cfg:
                continue
            mcs.append((mc, cfg, pool.submit(tlc, mc["module"], cfg, work, mc["module"] + cfg, None,
                                             tuple(mc.get("args", ())), 3600, mc.get("workers", 4), mc.get("heap", "4g"))))
        # spec -> code: behaviours generated by TLC that the driver replays
        if spec.get("generate"):
            for mc, cfg, f in mcs:
                r = f.result()
                lines = re.findall(r'"GEN(\{.*?\})"', r["out"].replace('\\"', '"'))
                if mc.get("generates"):
                    with open(os.path.join(work, "gen.ndjson"), "a") as g:
                        g.write("\n".join(lines) + "\n")
                    if not lines:
                        raise Machinery("no behaviours generated\n" + r["out"][-2000:])
                    cov["behaviours_generated_from_spec"] = cov.get("behaviours_generated_from_spec", 0) + len(lines)
            os.environ["GEN"] = os.path.join(work, "gen.ndjson")
        shards = spec.get("shards", 8)
        dirs = drive(prop, spec, tier, seed, work, shards)
        jobs = []
        events = {}
        for i, d in enumerate(dirs):
            for kind in spec["traces"]:
                path = os.path.join(d, kind + ".ndjson")
                if not os.path.exists(path) or os.path.getsize(path) == 0:
                    continue
                n = 0
                for line in open(path):
                    n += 1
                    e_id = re.search(r'"id": "([^"]*)"', line).group(1)
                    events[(kind, e_id)] = (path, n)
                module = spec["traces"][kind]
                jobs.append((kind, path, n, pool.submit(tlc, module, module + ".cfg", work, f"{kind}{i}", path, (),
                                                        800 if tier == "quick" else 4 * 3600)))
            for s in ("stats.json",):
                p = os.path.join(d, s)
                if os.path.exists(p):
                    for k, v in json.load(open(p)).items():
                        cov[k] = cov.get(k, 0) + v if not isinstance(v, (list, dict)) else cov.get(k, []) + v
        if not jobs:
            raise Machinery("no trace recorded")
        known = [k for k in load_known() if k["property"] == prop and k.get("status") == "open"]
        seen_known = set()
        trouble = []          # no answer for a trace; the others may still show a violation
        for kind, path, n, f in jobs:
            r = f.result()
            fl, ties, broken = faults_of(r["out"])
            if "Model checking completed" not in r["out"] or r["rc"] != 0:
                trouble.append(f"TLC failed on {path}\n" + r["out"][-3000:] + r["err"])
            elif broken:
                trouble.append("the specification broke its own invariant: " + broken[0])
            elif r["distinct"] < n + 1:
                trouble.append(f"trace not consumed: {r['distinct']} states for {n} events")
            cov["states"] += r["distinct"]
            cov["transitions"] += max(r["generated"] - 1, 0)
            cov["events_validated"] += n
            cov["traces_validated_against_impl"] += n - len(ties)
            cov["inconclusive_ties"] += len(ties)
            for eid, text in fl:
                k = next((k for k in known if re.search(k["match"], eid) and re.search(k["fault"], text)), None)
                if k:
                    seen_known.add(k["what"])
                else:
                    violations.append((kind, eid, text))
        if trouble and not violations:
            raise Machinery(trouble[0])
        for w in sorted(seen_known):
            print(f"KNOWN-FINDING: property={prop} {w}")
        for mc, cfg, f in mcs:
            r = f.result()
            ok = "Model checking completed. No error has been found" in r["out"] or \
                 ("simulate" in " ".join(mc.get("args", ())) and "Error:" not in r["out"])
            if not ok and not violations:
                raise Machinery(f"design model {mc['module']} {cfg}\n" + r["out"][-3000:])
            cov["states"] += r["distinct"]
            cov["transitions"] += r["generated"]
            cov["design_models"].append(dict(module=mc["module"], config=cfg, distinct=r["distinct"], generated=r["generated"], wall_s=round(r["wall"], 1)))
        # samples
        for (kind, eid), (path, ln) in list(events.items())[:: max(1, len(events) // 3)][:3]:
            cov["samples"].append(f"{kind} {eid}")
        replay = None
        if violations:
            rd = os.path.join(VERIF, "evidence", "replay")
            os.makedirs(rd, exist_ok=True)
            replay = os.path.join(rd, f"{prop}.json")
            items = []
            for kind, eid, text in violations[:10]:
                path, ln = events.get((kind, eid), (None, None))
                rec = None
                if path:
                    for j, line in enumerate(open(path), 1):
                        if j == ln:
                            rec = json.loads(line)
                items.append(dict(trace=kind, id=eid, faults=text, event=rec))
            json.dump(dict(property=prop, tier=tier, seed=seed, total=len(violations), violations=items,
                           rerun=f"VERIF_SEED={seed} python3 harness/run.py {prop} {tier}"), open(replay, "w"))
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        cov["samples"] = cov["samples"] or ["none"]
        json.dump(dict(property=prop, tier=tier, seed=seed, level="model_checking", coverage=cov,
                       assumptions=spec["assumptions"], wall_s=round(time.time() - t0, 1), violations=len(violations)),
                  open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
        if violations:
            for kind, eid, text in violations[:5]:
                print(f"  {kind} {eid}: {text[:400]}")
            print(f"VIOLATION property={prop} replay={replay}")
            return 1
        print(f"OK property={prop} tier={tier} events={cov['events_validated']} states={cov['states']} wall={time.time()-t0:.1f}s")
        return 0
    except Machinery as e:
        print("MACHINERY", e, file=sys.stderr)
        return 2
    finally:
        if not os.environ.get("KEEP"):
            shutil.rmtree(work, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
