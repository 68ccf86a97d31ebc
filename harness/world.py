"""Sessions of the two commands: writes input files, runs the commands in this
process through their entry points, records what is on disk before and after.
Only public entry points and written files are used."""
import argparse
import contextlib
import gc
import hashlib
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile

import numpy as np
import pandas as pd
import xarray as xr

from common import NAN, call, enc, f64
from climate_indices import compute, indices, utils
import climate_indices.__main__ as MAIN
import climate_indices.__spi__ as SPI

PER = {"monthly": compute.Periodicity.monthly, "daily": compute.Periodicity.daily}
STEPS = {"monthly": 12, "daily": 366}
DISTS = {"gamma": indices.Distribution.gamma, "pearson": indices.Distribution.pearson}
INCH = ("inches", "inch")
FAH = ("f", "fahrenheit", "degree_fahrenheit", "degrees_fahrenheit")
KEL = ("k", "kelvin")
PARS = ("alpha", "beta", "skew", "loc", "scale", "prob_zero")
POISON = 777.125
LIMIT = 150


def digest(path):
    return hashlib.sha1(open(path, "rb").read()).hexdigest()[:16]


def stamps(times):
    """minutes since 1970"""
    return [int(t) for t in np.asarray(times).astype("datetime64[m]").astype(int)]


def to_mm(u, x):
    u = u.lower()
    if u in INCH:
        return x * 25.4
    if u in FAH:
        return (x - 32) * 5 / 9
    if u in KEL:
        return x - 273.15
    return x


def is_leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def n_days(start, years):
    return sum(366 if is_leap(y) else 365 for y in range(start, start + years))


@contextlib.contextmanager
def cpus(n):
    old = os.cpu_count
    os.cpu_count = lambda: n
    try:
        yield
    finally:
        os.cpu_count = old


@contextlib.contextmanager
def writer(chunked):
    """chunked files need another library than the default one here"""
    import xarray.backends.api as api
    old = getattr(api, "_get_default_engine_netcdf", None)
    if not chunked or old is None:
        yield
        return
    api._get_default_engine_netcdf = lambda: "h5netcdf"
    try:
        yield
    finally:
        api._get_default_engine_netcdf = old


def aside():
    """the command of another process; its request is read from the standard input"""
    q = json.loads(sys.stdin.readline())
    w = World.__new__(World)
    w.dir, w.chunked = q.pop("dir"), q.pop("chunked")
    print("ready", flush=True)
    sys.stdin.readline()
    err, _ = w.execute(argparse.Namespace(**q))
    print("\nanswer " + json.dumps(err[:2000]), flush=True)


class World:
    """one session; locations are numbered lat-major, then lon"""

    count = 0
    stuck = False

    def __init__(self, rec, rid, keep=False):
        World.count += 1
        self.rec, self.rid, self.keep = rec, rid, keep
        self.dir = os.path.join(rec.d, f"w{World.count}")
        os.makedirs(self.dir)
        self.disk, self.raw, self.base, self.nrun, self.cache = {}, {}, 0, 0, {}
        self.started = False
        self.chunked = False
        self.describe = False              # also record what the files say about themselves

    def path(self, f):
        return os.path.join(self.dir, f)

    # ------------------------------------------------------------ inputs
    def add(self, file, var, values, content, dims, units, start=2000, per="monthly", lat=None, lon=None, div=None,
            divlat=None, dtype="f8", extra=None, time0=None, chunks=None, latunits=True, oneday=None, also=(), late=0, store="", clock="", again=False):
        """values: locations x time, in the stated units.  dims: order in the file"""
        values = np.asarray(values, dtype="f8").astype(dtype)
        nt = values.shape[1]
        time = pd.date_range(time0 or f"{start}-01-01", periods=nt, freq="MS" if per == "monthly" else "D")
        if late:                           # stamps at another day or hour of each period
            time = time + np.timedelta64(int(late), "h")
        if oneday is not None:             # one step on another day
            time = time.where(np.arange(nt) != oneday, time + np.timedelta64(1 if per == "monthly" else 40000, "D"))
        coords = {"time": time}
        if "lat" in dims or "x" in dims:
            a, b = [d for d in ("lat", "lon", "x", "y") if d in dims][:2]
            at = ({"units": "degrees_north"}, {"units": "degrees_east"}) if latunits else ({}, {})
            coords[a] = (a, np.asarray(lat, "f8"), at[0])
            coords[b] = (b, np.asarray(lon, "f8"), at[1])
            canon = (a, b, "time")
            arr = values.reshape(len(lat), len(lon), nt)
        elif "division" in dims:
            coords["division"] = np.asarray(div)
            canon = ("division", "time")
            arr = values
        else:
            canon = ("time",)
            arr = values[0]
        da = xr.DataArray(arr, dims=canon, coords=coords).transpose(*dims)
        ds = xr.Dataset({var: (dims, da.values.copy(), {"units": units} if units is not None else {})}, coords=coords)
        shape = arr.shape
        for o in also:                     # further variables in the same file
            od = xr.DataArray(np.asarray(o["values"], "f8").reshape(shape), dims=canon, coords=coords).transpose(*o["dims"])
            ds[o["var"]] = (tuple(o["dims"]), od.values.copy(), {"units": o["units"]})
        if divlat is not None:
            ds["lat"] = ("division", np.asarray(divlat, "f8"))
        if extra:
            for k, v in extra.items():
                ds[k] = v
        kw = {}
        if chunks:
            kw = dict(engine="h5netcdf", encoding={var: {"chunksizes": tuple(min(chunks, q) for q in da.shape)}})
            self.chunked = True
        if store:                          # (transposing those needs another library than the default one here)
            kw["engine"] = "h5netcdf"
        if store == "fill":                # missing values by a number
            kw.setdefault("encoding", {}).setdefault(var, {})["_FillValue"] = -9999.0
        elif store == "packed":            # whole numbers with a factor and an offset
            kw.setdefault("encoding", {}).setdefault(var, {}).update(dtype="int32", scale_factor=0.001, add_offset=12.5, _FillValue=-99999999)
        if clock:                          # times counted from elsewhere
            kw.setdefault("encoding", {})["time"] = dict(units=clock, calendar="proleptic_gregorian")
        with contextlib.suppress(OSError):
            os.remove(self.path(file))
        ds.to_netcdf(self.path(file), **kw)
        if store == "packed":
            with xr.open_dataset(self.path(file)) as ds:
                values = ds[var].load().transpose(*canon).values.reshape(values.shape)
        prev = self.disk.get(file)
        self.raw[(file, var)] = values
        for o in also:
            self.raw[(file, o["var"])] = np.asarray(o["values"], "f8")
        self.disk[file] = dict(
            vars={var: dict(dims=list(dims), units=(units or "none").lower(), content=content, cells=[enc(c) for c in values]),
                  **{o["var"]: dict(dims=list(o["dims"]), units=o["units"].lower(), content=o["content"], cells=[enc(c) for c in np.asarray(o["values"], "f8")]) for o in also}},
            lat=enc(lat) if lat is not None else [], lon=enc(lon) if lon is not None else [],
            div=[str(x) for x in div] if div is not None else [], time=stamps(time), start=int(str(time[0])[:4]),
            years=int(str(time[-1])[:4]) - int(str(time[0])[:4]) + 1)
        self.lats = getattr(self, "lats", {})
        if divlat is not None:
            self.lats[file] = np.asarray(divlat, "f8")
        elif lat is not None and "lat" in dims:
            self.lats[file] = np.repeat(np.asarray(lat, "f8"), len(lon))
        assert prev is None or again
        if again:                          # another file under the same name
            self.cache.clear()
            self.rec.emit("run", ev="replace", id=f"{self.rid}-{self.nrun}-{file}", file=file, now=self.disk[file])
        return dict(file=file, var=var)

    def begin(self):
        self.rec.emit("run", ev="world", id=f"{self.rid}-world", keep=self.keep, disk=self.disk)
        self.started = True

    # ------------------------------------------------------------ library
    def argument(self, inp, per):
        """the series of every location as the library takes them"""
        key = ("arg", inp["file"], inp["var"], per)
        if key not in self.cache:
            meta = self.disk[inp["file"]]
            u = meta["vars"][inp["var"]]["units"]
            x = to_mm(u, self.raw[(inp["file"], inp["var"])].astype("f8") if u not in INCH else self.raw[(inp["file"], inp["var"])])
            x = [np.asarray(c, dtype="f8") for c in x]
            if per == "daily":
                x = [utils.transform_to_366day(c, meta["start"], meta["years"]) for c in x]
            self.cache[key] = x
        return self.cache[key]

    def pet_of(self, inp):
        key = ("pet", inp["file"], inp["var"])
        if key not in self.cache:
            x = self.argument(inp, "monthly")
            lats = self.lats.get(inp["file"])
            if lats is None:
                lats = [np.nan] * len(x)
            self.cache[key] = [call(indices.pet, c.copy(), float(a), self.disk[inp["file"]]["start"]) for c, a in zip(x, lats)]
        return self.cache[key]

    def lib(self, c, req):
        """[(result, error)] per location, (args, args2) for computation c"""
        per = req["per"]
        if c["ix"] == "pet":
            return self.pet_of(req["temp"]), self.argument(req["temp"], per), []
        p = req["precip"]
        x = self.argument(p, per)
        start = self.disk[p["file"]]["start"]
        if c["ix"] == "pnp":
            key = ("pnp", p["file"], c["k"], per, req["c0"], req["c1"])
            if key not in self.cache:
                self.cache[key] = [call(indices.percentage_of_normal, v.copy(), c["k"], start, req["c0"], req["c1"], PER[per]) for v in x]
            return self.cache[key], x, []
        if c["ix"] == "spi":
            load = req["load"]
            key = ("spi", p["file"], c["dist"], c["k"], per, req["c0"], req["c1"], load)
            if load:
                pr = self.params(load, c["k"], per)
            if key not in self.cache or load:
                self.cache[key] = [
                    call(indices.spi, v.copy(), c["k"], DISTS[c["dist"]], start, req["c0"], req["c1"], PER[per],
                         **(dict(fitting_params={n: pr[n][i].copy() for n in (("alpha", "beta") if c["dist"] == "gamma" else ("prob_zero", "loc", "scale", "skew"))}) if load else {}))
                    for i, v in enumerate(x)]
            return self.cache[key], x, []
        if req["pet"]["file"]:
            y = [(v, "") for v in self.argument(req["pet"], per)]
            src = req["pet"]["file"]
        else:
            y = self.pet_of(req["temp"])
            src = req["temp"]["file"]
        key = ("spei", p["file"], src, c["dist"], c["k"], per, req["c0"], req["c1"])
        if key not in self.cache:
            self.cache[key] = [
                (None, e) if e else call(indices.spei, v.copy(), np.array(t, dtype="f8"), c["k"], DISTS[c["dist"]], PER[per], start, req["c0"], req["c1"])
                for v, (t, e) in zip(x, y)]
        return self.cache[key], x, [t if t is not None else [] for t, _ in y]

    def fit(self, req, k):
        """library parameters per location for scale k: {name: [arrays]}"""
        per = req["per"]
        p = req["precip"]
        start = self.disk[p["file"]]["start"]
        res = {n: [] for n in PARS}
        for v in self.argument(p, per):
            s = compute.scale_values(v.copy(), k, PER[per])
            a, b = compute.gamma_parameters(s.copy(), start, req["c0"], req["c1"], PER[per])
            pz, loc, sc, sk = compute.pearson_parameters(s.copy(), start, req["c0"], req["c1"], PER[per])
            for n, q in zip(("alpha", "beta", "prob_zero", "loc", "scale", "skew"), (a, b, pz, loc, sc, sk)):
                res[n].append(np.asarray(q, "f8"))
        return res

    def params(self, file, k, per):
        ds = xr.open_dataset(self.path(file)).load()
        ds.close()
        u = "month" if per == "monthly" else "day"
        r = {}
        for n in PARS:
            a = ds[f"{n}_{k}_{u}"].transpose("lat", "lon", u).values
            r[n] = list(a.reshape(-1, a.shape[2]))
        return r

    # ------------------------------------------------------------ requests
    NONE = dict(file="", var="")

    def comps(self, req):
        r = []
        u = "month" if req["per"] == "monthly" else "day"
        sc = sorted(set(req["scales"]))
        if req["cmd"] == "spi":
            for k in sc:
                for d in DISTS:
                    r.append(dict(ix="spi", dist=d, k=k, name=f"spi_{d}_{k}_{u}"))
        else:
            ix = req["index"]
            if ix == "pet" or (ix in ("spei", "scaled") and not req["pet"]["file"]):
                r.append(dict(ix="pet", dist="", k=0, name="pet_thornthwaite"))
            for w in ("spi", "spei"):
                if ix in (w, "scaled"):
                    r += [dict(ix=w, dist=d, k=k, name=f"{w}_{d}_{k:02d}") for k in sc for d in DISTS]
            if ix in ("pnp", "scaled"):
                r += [dict(ix="pnp", dist="", k=k, name=f"pnp_{k:02d}") for k in sc]
        for c in r:
            c["file"] = f"{req['base']}_{c['name']}.nc"
        return r

    def argv(self, q, mp, chunksizes):
        a = ["prog"]
        if q["cmd"] == "process":
            a += ["--index", q["index"], "--chunksizes", chunksizes]
        a += ["--periodicity", q["per"], "--output_file_base", self.path(q["base"])]
        if mp:
            a += ["--multiprocessing", mp]
        if q["scales"] or q.get("scales_empty"):
            a += ["--scales"] + [str(s) for s in q["scales"]]
        a += ["--calibration_start_year", str(q["c0"]), "--calibration_end_year", str(q["c1"])]
        for role in ("precip", "temp", "pet"):
            i = q[role]
            if q["cmd"] == "spi" and role != "precip":
                continue
            if i["file"]:
                a += [f"--netcdf_{role}", self.path(i["file"])]
            if i["var"]:
                a += [f"--var_name_{role}", i["var"]]
        if q["load"]:
            a += ["--load_params", self.path(q["load"])]
        if q["save"]:
            a += ["--save_params", self.path(q["save"])]
        if q["overwrite"]:
            a += ["--overwrite"]
        return a

    def state(self):
        return {f: digest(self.path(f)) for f in sorted(os.listdir(self.dir))}

    def request(self, cmd="process", index="spi", per="monthly", scales=(1,), c0=2000, c1=2005, precip=None, temp=None, pet=None,
                load="", save="", overwrite=False, base=None, mp="all_but_one", ncpu=4, via="main", tag="", chunksizes="none",
                failing=None, mustfail=False, scales_empty=False, awc=None, outs=True):
        self.nrun += 1
        if base is None:
            base = f"r{self.nrun}"
        req = dict(cmd=cmd, index=index if cmd == "process" else "spi", per=per, scales=[int(s) for s in scales], c0=int(c0), c1=int(c1),
                   precip=precip or self.NONE, temp=temp or self.NONE, pet=pet or self.NONE, load=load, save=save, overwrite=overwrite, base=base)
        q = argparse.Namespace(req=req, ncpu=ncpu, via=via, failing=failing, mustfail=mustfail, outs=outs, chunksizes=chunksizes, awc=awc,
                               argv=self.argv(dict(req, scales_empty=scales_empty), mp, chunksizes), mp=mp or "all_but_one", rid=f"{self.rid}-{self.nrun}{tag}")
        return q

    def execute(self, q):
        """(error, whether the request object was left alone)"""
        req, kept, old = q.req, True, sys.argv
        with cpus(q.ncpu), writer(self.chunked), contextlib.redirect_stderr(io.StringIO()):
            if q.via == "namespace" and req["cmd"] == "process":
                n = argparse.Namespace(index=req["index"], periodicity=PER[req["per"]], scales=list(req["scales"]) or None,
                                       calibration_start_year=req["c0"], calibration_end_year=req["c1"],
                                       netcdf_awc=None, var_name_awc=None, output_file_base=self.path(req["base"]), multiprocessing=q.mp, chunksizes=q.chunksizes,
                                       **{f"{a}_{b}": (self.path(req[b]["file"]) if a == "netcdf" else req[b]["var"]) if req[b]["file" if a == "netcdf" else "var"] else None
                                          for a in ("netcdf", "var_name") for b in ("precip", "temp", "pet")})
                vars_before = repr(sorted(vars(n).items()))
                _, err = call(MAIN.process_climate_indices, n, limit=LIMIT)
                kept = repr(sorted(vars(n).items())) == vars_before
            else:
                argv = list(q.argv)
                if q.awc:
                    argv += ["--netcdf_awc", self.path(q.awc["file"]), "--var_name_awc", q.awc["var"]]
                sys.argv = argv
                _, err = call(MAIN.main if req["cmd"] == "process" else SPI.main, limit=LIMIT)
                sys.argv = old
        return err, kept

    def record(self, q, err, kept, before, after, litter):
        req, rid, failing = q.req, q.rid, q.failing
        libs = {}
        ok_inputs = all(not i["file"] or (i["file"], i["var"]) in self.raw for i in (req["precip"], req["temp"], req["pet"]))
        if failing is None:
            failing = []
            if ok_inputs and not q.mustfail:
                with contextlib.suppress(Exception):
                    for c in self.comps(req):
                        libs[c["file"]] = self.lib(c, req)
                        if any(e for _, e in libs[c["file"]][0]):
                            failing.append(c["file"])
        self.rec.emit("run", ev="run", id=rid, req=req, err=err, before=before, after=after, kept=kept, failing=failing, mustfail=q.mustfail,
                      cpus=q.ncpu, mp=q.mp, litter=litter if err == "" else [])
        self.rec.count("command_runs")
        # the files of this run
        if q.outs:
            for c in self.comps(req):
                f = c["file"]
                if f in after and (err == "" or after[f] != before.get(f)) and f in libs:
                    self.out(rid, c, req, libs[f])
            for f in after:
                if f.startswith(req["base"] + "_") and f not in {c["file"] for c in self.comps(req)} and f not in before and f != req["save"]:
                    self.rec.emit("run", ev="out", id=f"{rid}-{f}", file=f, err="unexpected", vars=[], dims=[], time=[], lat=[], lon=[], div=[], arg=[], arg2=[], lib=[], cells=[])
            if req["save"] and err == "" and req["save"] in after:
                self.par(rid, req)
                if self.describe:
                    self.meta(rid, req["save"])

    @contextlib.contextmanager
    def scratch(self):
        """a directory for temporary files of the commands; yields the names left in it"""
        left = []
        d = self.dir + "-tmp"
        os.makedirs(d, exist_ok=True)
        old, env = tempfile.tempdir, os.environ.get("TMPDIR")
        tempfile.tempdir = os.environ["TMPDIR"] = d
        try:
            yield left
        finally:
            tempfile.tempdir = old
            if env is None:
                del os.environ["TMPDIR"]
            else:
                os.environ["TMPDIR"] = env
            gone = []
            for f in sorted(os.listdir(d)):
                if os.path.isfile(os.path.join(d, f)):
                    gone.append(f)
                    with contextlib.suppress(OSError):
                        os.remove(os.path.join(d, f))
            left += gone

    def run(self, beside=None, **kw):
        """run a command; beside: the request of another one, run at the same time in another process"""
        if not self.started:
            self.begin()
        if (self.nrun + 1) % 12 == 0:      # refused runs leave files open until they are collected
            gc.collect()
        if World.stuck:                    # a command that does not end has been reported
            return "not run"
        q = self.request(**kw)
        before = self.state()
        other, ans = None, ""
        with self.scratch() as left:
            if beside:
                other = self.request(**beside)
                p = subprocess.Popen([sys.executable, "-c", "import world; world.aside()"], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                     cwd=os.path.dirname(os.path.abspath(__file__)))
                p.stdin.write(json.dumps(dict(vars(other), dir=self.dir, chunked=self.chunked)).encode() + b"\n")
                p.stdin.flush()
                p.stdout.readline()        # it is ready
                p.stdin.write(b"go\n")
                p.stdin.flush()
            err, kept = self.execute(q)
            if beside:
                try:
                    ans = p.communicate(timeout=LIMIT + 30)[0].decode()
                except subprocess.TimeoutExpired:
                    p.kill()
                    ans = ""
                ans = [x for x in ans.splitlines() if x.startswith("answer ")]
                ans = json.loads(ans[-1][7:]) if ans else "no answer"
        World.stuck = "no answer" in err
        after = self.state()
        if other:
            # the files of the two runs differ in name: as if one had followed the other
            mine = {f: d for f, d in after.items() if f in before or not (f.startswith(other.req["base"] + "_") or f == other.req["save"])}
            self.record(q, err, kept, before, mine, left if ans == "" else [])
            self.record(other, ans, True, mine, after, left if err == "" else [])
        else:
            self.record(q, err, kept, before, after, left)
        return err

    def read(self, f, name=None):
        ds = xr.open_dataset(self.path(f)).load()
        ds.close()
        return ds

    def out(self, rid, c, req, lib):
        res, arg, arg2 = lib
        f = c["file"]
        e = dict(ev="out", id=f"{rid}-{c['name']}", file=f, err="", vars=[], dims=[], time=[], lat=[], lon=[], div=[],
                 arg=[enc(a) for a in arg], arg2=[enc(a) for a in arg2], lib=[enc(v) if not er else [] for v, er in res], cells=[])
        try:
            ds = self.read(f)
            e["vars"] = sorted(str(v) for v in ds.data_vars if v != "lat")
            da = ds[c["name"]] if c["name"] in ds else ds[e["vars"][0]]
            e["dims"] = [str(x) for x in da.dims]
            e["time"] = stamps(ds["time"].values)
            if "lat" in da.dims:
                e["lat"], e["lon"] = enc(ds["lat"].values), enc(ds["lon"].values)
                v = da.transpose("lat", "lon", "time").values
                v = v.reshape(-1, v.shape[-1])
            elif "division" in da.dims:
                e["div"] = [str(x) for x in ds["division"].values]
                v = da.transpose("division", "time").values
            else:
                v = da.values.reshape(1, -1)
            e["cells"] = [enc(x) for x in v]
        except Exception as ex:  # noqa: BLE001
            e["err"] = type(ex).__name__ + ": " + str(ex)[:100].replace('"', "'").replace("\n", " ")
        self.rec.emit("run", **e)
        self.rec.count("output_files_checked")
        if self.describe:
            self.meta(rid, f, c["name"])

    def meta(self, rid, f, name=None):
        """what a file says about itself, as lower-case words and numbers"""
        def words(x):
            return sorted(set(re.findall(r"[a-z0-9_-]+", str(x).lower().replace("pearson type iii", "pearson"))))

        def number(x):
            try:
                return [f64(float(x))]
            except Exception:  # noqa: BLE001
                return []
        e = dict(ev="meta", id=f"{rid}-{f}-says", file=f, err="", name="", units="", low=[], high=[], box=[], about=[], says=[], vars={}, steps=[])
        try:
            ds = self.read(f)
            at = ds.attrs
            e["about"] = words(at.get("description", ""))
            e["box"] = [n for q in ("lat_min", "lat_max", "lon_min", "lon_max") for n in number(at.get(f"geospatial_{q}"))]
            if name and name in ds:
                a = ds[name].attrs
                e.update(says=words(a.get("long_name", "")), units=str(a.get("units", "")).lower(), low=number(a.get("valid_min")), high=number(a.get("valid_max")))
            elif not name:
                e["vars"] = {str(v): dict(says=words(ds[v].attrs.get("description", "")), dims=[str(q) for q in ds[v].dims]) for v in ds.data_vars} or {"none": dict(says=[], dims=[])}
                e["steps"] = [[int(q) for q in ds[u].values] if u in ds else [] for u in ("month", "day")]
        except Exception as ex:  # noqa: BLE001
            e["err"] = type(ex).__name__ + ": " + str(ex)[:100].replace('"', "'").replace("\n", " ")
        e["vars"] = e["vars"] or {"none": dict(says=[], dims=[])}
        self.rec.emit("run", **e)

    def par(self, rid, req):
        e = dict(ev="par", id=f"{rid}-params", file=req["save"], err="", vars={}, lib={}, lat=[], lon=[])
        u = "month" if req["per"] == "monthly" else "day"
        try:
            ds = self.read(req["save"])
            e["lat"], e["lon"] = enc(ds["lat"].values), enc(ds["lon"].values)
            for k in sorted(set(req["scales"])):
                want = self.fit(req, k)
                for n in PARS:
                    v = f"{n}_{k}_{u}"
                    e["lib"][v] = [enc(a) for a in want[n]]
                    if v in ds:
                        a = ds[v].transpose("lat", "lon", u).values
                        e["vars"][v] = [enc(x) for x in a.reshape(-1, a.shape[2])]
        except Exception as ex:  # noqa: BLE001
            e["err"] = type(ex).__name__ + ": " + str(ex)[:100].replace('"', "'").replace("\n", " ")
        if not e["vars"]:
            e["vars"] = {"none": []}
        self.rec.emit("run", **e)

    def close(self):
        for d in (self.dir, self.dir + "-tmp"):
            for f in os.listdir(d) if os.path.isdir(d) else ():
                p = os.path.join(d, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.remove(p)
            if os.path.isdir(d):
                os.rmdir(d)
