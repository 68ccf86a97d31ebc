"""Scenarios for the two commands (C15-C20, C22, C23, C25)."""
import contextlib
import json
import numbers
import os
import time

import numpy as np

import world as W
from world import World, INCH, FAH, KEL, POISON
from common import main
from climate_indices import compute, indices

PU = ["mm", "millimeters", "millimeter", "MM", "mm/dy", "Millimeters"]
PUI = ["inches", "inch", "Inches", "INCH"]
TU = ["degree_celsius", "degrees_celsius", "celsius", "C", "Celsius"]
TUF = ["F", "fahrenheit", "degree_Fahrenheit", "degrees_fahrenheit"]
TUK = ["K", "kelvin", "Kelvin"]
GRID = [("lat", "lon", "time"), ("time", "lat", "lon")]
DIV = [("division", "time"), ("time", "division")]
LAYOUTS = GRID + DIV + [("time",)]


class Data:
    """amounts of some locations, in mm and degrees Celsius"""

    def __init__(self, rng, nloc, start, years, per, tag, holes=True, cut=0):
        self.start, self.years, self.per, self.tag = start, years, per, tag
        self.late = 0
        n = years * 12 if per == "monthly" else W.n_days(start, years)
        n -= cut
        t = np.arange(n)
        season = 1 + 0.7 * np.sin(2 * np.pi * t / (12 if per == "monthly" else 365.25) + rng.uniform(0, 6))
        self.p = np.array([rng.gamma(rng.choice([0.8, 2.0, 4.0]), rng.uniform(5, 40), n) * season + 0.01 for _ in range(nloc)])
        self.pet = np.array([(20 + 60 * season) * rng.uniform(0.6, 1.3, n) for _ in range(nloc)])
        self.t = np.array([rng.uniform(2, 18) + 14 * (season - 1) + rng.normal(0, 2, n) for _ in range(nloc)])
        for i in range(nloc):
            k = rng.integers(0, 5)
            if k == 0:
                self.p[i][rng.random(n) < 0.15] = 0.0
            elif k == 1 and holes:
                self.p[i][rng.random(n) < 0.03] = np.nan
            elif k == 2 and holes:
                self.t[i][rng.random(n) < 0.02] = np.nan
                self.pet[i][rng.random(n) < 0.02] = np.nan
        if holes == "cell" and nloc > 1:
            for x in (self.p, self.t, self.pet):
                x[rng.integers(0, nloc)] = np.nan


def coords(rng, nlat, nlon):
    step, wide = rng.choice([0.25, 0.5, 1.0, 2.5, 10.0], 2)
    if rng.random() < .4:
        wide = step
    step = min(step, 60 / nlat)
    lat = rng.uniform(-75, 75 - step * (nlat - 1)) + step * np.arange(nlat)
    lon = rng.uniform(-150, 60) + wide * np.arange(nlon)
    if rng.random() < 0.5:
        lat = lat[::-1].copy()
    if rng.random() < 0.15:
        lon = lon[::-1].copy()
    return lat, lon


STORES = ["", "", "", "fill", "packed"]
CLOCKS = ["", "", "hours since 1900-01-01", "minutes since 1970-01-01", "days since 2020-06-15"]


def put(w, file, var, vals, content, dims, units, d, lat, lon, div, **kw):
    g = dict(start=d.start, per=d.per, late=d.late)
    g.update(kw)
    if "lat" in dims:
        g.update(lat=lat, lon=lon)
    elif "division" in dims:
        g.update(div=div)
        # (two files with a latitude variable cannot be combined under the
        # PyPy and dask versions installed here)
        if "divlat" not in g and not (content[0] in "EH" or content[-1] == "E"):
            g.update(divlat=lat)
    return w.add(file, var, vals, content, list(dims), units, **g)


def geo(rng, dims, nlat=None, nlon=None):
    """locations, lat, lon, div"""
    if "lat" in dims:
        nlat = nlat or int(rng.choice([1, 2, 2, 3, 4]))
        nlon = nlon or int(rng.choice([1, 2, 3]))
        lat, lon = coords(rng, nlat, nlon)
        return nlat * nlon, lat, lon, None
    if "division" in dims:
        n = nlat or int(rng.choice([1, 2, 3, 5]))
        base = int(rng.integers(100, 4000))
        return n, rng.uniform(-60, 60, n), None, [base + 7 * i for i in range(n)] if rng.random() < .6 else [f"d{i:03d}" for i in range(n)]
    return 1, None, None, None


def calib(rng, start, years):
    k = rng.integers(0, 5)
    if k == 0:
        return start, start + years - 1
    if k == 1:
        return start - 1, start + years
    if k == 2:
        return start + 1, start + years - 1
    if k == 3:
        return start, start + years - 2
    return start + 1, start + years - 2


def scales(rng, years, n=2):
    return [int(s) for s in rng.choice([1, 2, 3, 4, 6, 9, 12, 24], n, replace=False)]


# ---------------------------------------------------------------- C15
INDEXES = ["spi", "pnp", "speip", "speit", "pet", "scaled"]


def c15(rec, rng, i, tier):
    ix = INDEXES[i % 6]
    dims = LAYOUTS[(i // 6) % 5]
    w = World(rec, f"C15-{i}")
    years, start = int(rng.integers(6, 9)), int(rng.choice([1895, 1981, 2000]))
    if i % 7 == 3:
        years = int(rng.integers(9, 25))
    n, lat, lon, div = geo(rng, dims) if i % 9 != 8 else geo(rng, dims, int(rng.integers(6, 14)), int(rng.integers(3, 8)))
    d = Data(rng, n, start, years, "monthly", f"d{i}", holes="cell" if i // 6 % 2 == 0 else True,
             cut=int(rng.choice([0, 0, 0, 1, 7])))
    d.late = int(rng.choice([0, 0, 0, 24 * 14, 24 * 27, 12]))
    if ix in ("pnp", "scaled"):
        for k in range(n):
            d.p[k] = np.where(np.isnan(d.p[k]), 3.0, d.p[k])
    dt = "f4" if rng.random() < .15 else "f8"
    v = dict(p=rng.choice(["prcp", "precip", "a_var"]), t=rng.choice(["tavg", "b_temp", "zz"]), e=rng.choice(["pet", "c_pet"]))
    f = [f"{c}_{x}.nc" for c, x in zip(rng.permutation(list("abcdz"))[:3], ("p", "t", "e"))]
    other = dims
    if len(dims) > 1 and rng.random() < .4:         # the inputs need not have the same order
        other = GRID[int(rng.integers(0, 2))] if "lat" in dims else DIV[int(rng.integers(0, 2))]
    kw = dict(chunks=int(rng.integers(1, 5))) if i % 8 == 5 and dims != ("time",) else {}
    if not kw and i % 2:
        kw = dict(store=str(rng.choice(STORES)), clock=str(rng.choice(CLOCKS)))
    P = put(w, f[0], v["p"], d.p, "P", dims, str(rng.choice(PU)), d, lat, lon, div, dtype=dt, **kw) if ix != "pet" else None
    T = put(w, f[1], v["t"], d.t, "T", other if ix != "pet" else dims, str(rng.choice(TU)), d, lat, lon, div, dtype=dt, **kw) if ix in ("speit", "pet", "scaled") else None
    E = put(w, f[2], v["e"], d.pet, "E", other, "mm", d, lat, lon, div, dtype=dt, **kw) if ix in ("speip",) else None
    # everything in one file, next to what is not asked for
    if i % 4 == 2 and not ("division" in dims and E and dims != DIV[0]):
        names = list(rng.permutation(["prcp", "tavg", "pet", "zz_swe"]))
        many = dict(p=(d.p, "P1", str(rng.choice(PU))), t=(d.t, "T1", str(rng.choice(TU))), e=(d.pet, "E1", "mm"), s=(d.p * 3 + 1, "S1", "mm"))
        order = list(rng.permutation(list("ptes")))
        var = dict(zip("ptes", names))
        rest = [dict(var=var[q], values=many[q][0], content=many[q][1], units=many[q][2], dims=dims) for q in order[1:]]
        extra = {}
        if "lat" in dims and rng.random() < .5:
            extra["elevation"] = (("lat", "lon"), np.arange(float(n)).reshape(len(lat), len(lon)))
        put(w, "all.nc", var[order[0]], many[order[0]][0], many[order[0]][1], dims, many[order[0]][2], d, lat, lon, div, also=rest, extra=extra,
            **(dict(divlat=lat) if "division" in dims else {}))
        one = {q: dict(file="all.nc", var=var[q]) for q in "pte"}
        P, T, E = one["p"] if P else None, one["t"] if T else None, one["e"] if E else None
    k = scales(rng, years, 1 if ix == "scaled" else 2)
    if years > 10 and ix != "scaled":
        k = [int(rng.choice([36, 48, 60, 72, 100, 120])), k[0]]
    c0, c1 = (start, start + years - 2) if ix in ("pnp", "scaled") else calib(rng, start, years)
    index = {"speip": "spei", "speit": "spei"}.get(ix, ix)
    if i % 5 == 1 and ix in ("spi", "pnp", "pet"):     # given, but not asked for
        nm = dict(P=("n_p.nc", d.p, "prcp", "mm"), T=("n_t.nc", d.t, "tavg", "furlongs"), E=("n_e.nc", d.pet, "pet", "mm"))
        got = {r: put(w, a, v_, x, "N" + r, GRID[0], u, d, *g2[1:]) for g2 in [geo(rng, GRID[0], 1, n)] for r, (a, x, v_, u) in nm.items()}
        P, T, E = P or got["P"], T or (got["T"] if rng.random() < .5 else None), E or got["E"]
    w.run(index=index, scales=k, c0=c0, c1=c1, precip=P, temp=T, pet=E, ncpu=int(rng.integers(1, 7)),
          mp=rng.choice(["single", "all", "all_but_one", "" if i % 3 else "all"]), base=str(rng.choice(["out", "o_1", "x.y"])),
          via="namespace" if i % 3 == 0 else "main", chunksizes=str(rng.choice(["none", "input"])))
    if ix == "speit" and "lat" in dims or ix == "scaled" and "division" in dims:      # the same PET by itself
        w.run(index="pet", temp=T, ncpu=3)
    w.close()
    if i in (4, 17, 23):                               # documented choices of --index
        w = World(rec, f"C15-palmers-{i}")
        d = Data(rng, 2, 2000, 6, "monthly", "x", holes=False)
        P = put(w, "p.nc", "prcp", d.p, "P", GRID[0], "mm", d, np.array([10., 20.]), np.array([5.]), None)
        E = put(w, "e.nc", "pet", d.pet, "E", GRID[0], "mm", d, np.array([10., 20.]), np.array([5.]), None)
        A = dict(file="awc.nc", var="awc")
        import xarray as xr
        xr.Dataset({"awc": (("lat", "lon"), np.array([[3.], [5.]]), {"units": "inches"})}, coords={"lat": [10., 20.], "lon": [5.]}).to_netcdf(w.path("awc.nc"))
        w.run(index="palmers" if i != 17 else "all", scales=[1], precip=P, pet=E, awc=A, outs=False)
        w.close()


# ---------------------------------------------------------------- C16
@contextlib.contextmanager
def slow(rng, series):
    """library calls for some of the series take longer than for others"""
    late = {round(float(np.nansum(x)), 6) for x in series if rng.random() < .4}
    saved = []

    def wrap(name):
        fn = getattr(indices, name)
        saved.append((name, fn))

        def f(*a, **k):
            v = np.asarray(a[0] if a else next(iter(k.values())), dtype=float)
            if round(float(np.nansum(v)), 6) in late:
                time.sleep(.03)
            return fn(*a, **k)
        f.__name__ = name
        setattr(indices, name, f)
    for n in ("spi", "spei", "percentage_of_normal", "pet"):
        wrap(n)
    try:
        yield
    finally:
        for n, f in saved:
            setattr(indices, n, f)


def c16(rec, rng, i, tier):
    """one input, many ways of splitting it"""
    kind = ["grid", "spi", "div", "grid", "spi", "ts", "pet", "spei"][i % 8]
    rows = [1, 2, 3, 4, 5, 7, 8, 9][(i // 8) % 8] if i < 64 else int(rng.integers(1, 12))
    if i % 8 in (3, 4) and i // 8 % 2:
        rows = int(rng.integers(10, 40))
    dims = ("time",) if kind == "ts" else DIV[0] if kind == "div" else GRID[0]
    w = World(rec, f"C16-{i}")
    n, lat, lon, div = geo(rng, dims, rows, 1 + int(rng.random() < .3))
    if i % 16 == 8 and kind == "grid":
        rows = int(rng.integers(2, 6))
        n, lat, lon, div = geo(rng, dims, rows, 12)
    d = Data(rng, n, 2000, 6, "monthly", "d")
    if i // 2 % 2 and n > 1:               # a stretch of locations without any data
        at = int(rng.integers(0, n))
        for x in (d.p, d.t, d.pet):
            x[at: at + max(1, n // int(rng.integers(2, 4)))] = np.nan
    P = put(w, "p.nc", "prcp", d.p, "P", dims, "mm", d, lat, lon, div) if kind != "pet" else None
    T = put(w, "t.nc", "tavg", d.t, "T", dims, "C", d, lat, lon, div) if kind == "pet" else None
    E = put(w, "e.nc", "pet", d.pet, "E", dims, "mm", d, lat, lon, div) if kind == "spei" else None
    cmd = "spi" if kind == "spi" else "process"
    index = {"pet": "pet", "spei": "spei"}.get(kind, "spi")
    k = [int(rng.choice([1, 3, 6]))]
    ways = [("single", 8), ("all", 1), ("all_but_one", 1), ("all_but_one", rows), ("all_but_one", rows + 1), ("all", rows + 1), ("all", 2 * rows + 1),
            ("all", max(1, rows - 1)), ("all_but_one", 3), ("all", 5), ("all_but_one", 8), ("all", 16),
            ("", 4), ("", 1)]
    pick = [ways[0]] + [ways[1 + int(j)] for j in rng.permutation(len(ways) - 1)[: 4 if tier == "quick" else 13]]
    with slow(rng, d.t if kind == "pet" else d.p) if i % 2 else contextlib.nullcontext():
        for mp, nc in pick:
            w.run(cmd=cmd, index=index, scales=k, precip=P, temp=T, pet=E, mp=mp, ncpu=nc, c0=2000, c1=2005)
    w.close()


# ---------------------------------------------------------------- C17
def c17(rec, rng, i, tier):
    w = World(rec, f"C17-{i}")
    dims = LAYOUTS[int(rng.choice([0, 0, 1, 2, 3, 4]))] if i % 3 else GRID[0]
    per = "daily" if rng.random() < .12 and "lat" in dims else "monthly"
    focus = ["", "coords", "times", "request"][i % 4]
    if focus == "coords":
        dims, per = (GRID + DIV)[i // 4 % 4], "monthly"
    n, lat, lon, div = geo(rng, dims, *((2, 1) if per == "daily" else (int(rng.integers(3, 6)),) if focus == "coords" else ()))
    if focus == "coords" and "lat" in dims:                               # spacings that differ, some irregular
        big, small = (float(x) for x in (rng.choice([5.0, 10.0]), rng.choice([0.25, 0.5, 1.0])))
        if i // 8 % 2:
            big, small = small, big
        lat = -40 + big * np.arange(int(rng.integers(2, 5)))
        lon = 20 + small * np.arange(int(rng.integers(2, 4)))
        if len(lat) > 2 and rng.random() < .5:
            lat[int(rng.integers(1, len(lat) - 1))] += .8 * big
        n = len(lat) * len(lon)
    start, years = 2000, 6
    d = Data(rng, n, start, years if per == "monthly" else 5, per, "d", holes=False)
    grid = "lat" in dims
    P = put(w, "p.nc", "prcp", d.p, "P", dims, "mm", d, lat, lon, div)
    T = put(w, "t.nc", "tavg", d.t, "T", dims, "C", d, lat, lon, div)
    E = put(w, "e.nc", "pet", d.pet, "E", dims, "mm", d, lat, lon, div)
    # variants that do not fit
    V = {"P": {}, "T": {}, "E": {}}
    for r, (var, vals, u) in dict(P=("prcp", d.p, "mm"), T=("tavg", d.t, "C"), E=("pet", d.pet, "mm")).items():
        def mk(name, vv=vals, uu=u, dd=dims, la=lat, lo=lon, dv=div, **kw):
            x = put(w, f"{r}_{name}.nc", var, vv, f"{r}{name}", dd, uu, d, la, lo, dv, **kw)
            V[r][name] = x
        mk("units", uu=str(rng.choice(["furlongs", "meters", "mm d-1", "kg m-2", "degF", "cm"])))
        if r != "P":
            mk("time", time0="2001-01-01")
            mk("short", vv=vals[:, :-1])
            mk("month", time0="2000-02-01" if per == "monthly" else "2000-01-02")
            mk("oneday", oneday=int(rng.integers(0, vals.shape[1])))
            mk("mid", late=24 * 14)
            mk("hours", late=6)
            if grid:
                g = abs(lat[1] - lat[0]) if len(lat) > 1 else 1.0
                h = abs(lon[1] - lon[0]) if len(lon) > 1 else 1.0
                mk("lat", la=lat + g * rng.choice([.4, .5, -.6, 1, 40]))
                mk("lon", lo=lon + h * rng.choice([.4, .5, -.6, 1, 40]))
                one = lat.copy()
                one[-1] += .5 * g
                mk("onelat", la=one)
                if focus == "coords":
                    a, b = np.abs(np.diff(lat)).min(), np.abs(np.diff(lon)).min()
                    mk("slightlat", la=lat + a * rng.choice([.2, -.25]))
                    mk("slightlon", lo=lon + b * rng.choice([.2, -.25]))
                    one = lon.copy()
                    one[int(rng.integers(0, len(lon)))] += .3 * b
                    mk("onelon", lo=one)
                    one = lat.copy()
                    one[int(rng.integers(0, len(lat)))] += .3 * a
                    mk("onelat2", la=one)
                mk("close", la=lat + (.05 * g if len(lat) > 1 else 0), lo=lon - (.05 * h if len(lon) > 1 else 0))
                if len(lat) > 1:
                    mk("flip", la=lat[::-1].copy())
                mk("size", vv=np.concatenate([vals, vals[: len(lon)]]), la=np.append(lat, lat[-1] + g * np.sign(lat[-1] - lat[0] or 1)))
            elif "division" in dims:
                dv2 = list(div)
                dv2[-1] = dv2[-1] + 1 if not isinstance(dv2[-1], str) else "zzz"
                mk("div", dv=dv2)
                if len(div) > 1:
                    mk("divorder", dv=list(div)[::-1])
                    mk("divswap", dv=[div[1], div[0]] + list(div)[2:])
                    mk("divroll", dv=list(div)[1:] + [div[0]])
                    mk("divfewer", vv=vals[:-1], dv=list(div)[:-1], divlat=lat[:-1])
    if grid and per == "monthly":
        for r, (var, vals, u) in dict(P=("prcp", d.p, "mm"), T=("tavg", d.t, "C"), E=("pet", d.pet, "mm")).items():
            V[r]["dims"] = put(w, f"{r}_dims.nc", var, vals, r + "dims", [("lat", "time", "lon"), ("lon", "lat", "time"), ("time", "lon", "lat")][int(rng.integers(0, 3))], u, d, lat, lon, div)
            V[r]["xy"] = w.add(f"{r}_xy.nc", var, vals, r + "xy", [("y", "x", "time")][0], u, start=d.start, lat=lat, lon=lon)
        V["T"]["layout"] = put(w, "t_ser.nc", "tavg", d.t[:1], "Tser", ("time",), "C", d, None, None, None)
        V["E"]["layout"] = put(w, "e_ser.nc", "pet", d.pet[:1], "Eser", ("time",), "mm", d, None, None, None)
    elif per == "monthly" and "division" in dims:
        V["E"]["layout"] = put(w, "e_ser.nc", "pet", d.pet[:1], "Eser", ("time",), "mm", d, None, None, None)
    none = World.NONE
    base = [dict(index="spi", precip=P), dict(index="pnp", precip=P), dict(index="spei", precip=P, pet=E), dict(index="spei", precip=P, temp=T),
            dict(index="pet", temp=T), dict(index="scaled", precip=P, pet=E), dict(index="scaled", precip=P, temp=T), dict(cmd="spi", precip=P)]
    cases = []

    def case(b, tag, **m):
        q = dict(base[b])
        q.update(m)
        cases.append((tag, q))

    which = [j for j in range(8) if not (j == 7 and not grid)]
    for b in which:
        q = base[b]
        roles = [r for r in ("precip", "temp", "pet") if r in q]
        for r in roles:
            L = dict(precip="P", temp="T", pet="E")[r]
            case(b, "nofile", **{r: dict(file="", var=q[r]["var"])})
            case(b, "novar", **{r: dict(file=q[r]["file"], var="")})
            case(b, "badvar", **{r: dict(file=q[r]["file"], var="nothere")})
            case(b, "absent", **{r: dict(file="absent.nc", var=q[r]["var"])})
            for name in V[L]:
                if q.get("cmd") == "spi" and name in ("xy",):
                    pass
                case(b, name, **{r: V[L][name]})
        if q["index" if "index" in q else "cmd"] != "pet":
            case(b, "noscales", scales=[])
            case(b, "emptyscales", scales=[], scales_empty=True)
            case(b, "negative", scales=[3, -1])
        case(b, "fine")
        if q.get("index") in ("spei", "scaled"):
            case(b, "both", temp=T, pet=E)
        if b == 4:
            case(b, "daily", per="daily")
        if b in (3, 6) and per == "daily":
            case(b, "dailytemp")
        if b == 7:
            case(b, "load-absent", load="absent_params.nc")
            case(b, "both-params", load="sv.nc", save="sv.nc")
    rng.shuffle(cases)
    T_ = ("time", "short", "month", "oneday", "mid", "hours")
    C_ = ("lat", "lon", "onelat", "close", "flip", "size", "slightlat", "slightlon", "onelon", "onelat2", "div", "divorder", "divswap", "divroll", "divfewer")
    if focus:
        cases = [c for c in cases if (c[0] in C_ if focus == "coords" else c[0] in T_ if focus == "times" else c[0] not in C_ + T_)]
    for tag, q in cases[: dict(coords=60, times=24, request=36).get(focus, 12) if tier == "quick" else len(cases)]:
        q.setdefault("scales", [2])
        q.setdefault("per", per)
        w.run(c0=2000, c1=2004, ncpu=2, tag="-" + tag, via="namespace" if rng.random() < .3 and not q.get("scales_empty") else "main", **q)
    w.close()


# ---------------------------------------------------------------- C18
def c18(rec, rng, i, tier):
    if i % 3 == 2:
        replay(rec, rng, i // 3, f"C18-{i}", *((8, .25) if tier == "quick" else (40, 1)), forget=True, names="A")
        return
    w = World(rec, f"C18-{i}")
    per = "daily" if i % 6 == 5 else "monthly"
    dims = GRID[int(rng.integers(0, 2))] if per == "monthly" else GRID[0]
    n, lat, lon, div = geo(rng, dims, None if per == "monthly" else 2, None if per == "monthly" else 1)
    years = int(rng.integers(7, 10)) if per == "monthly" else 5
    d = Data(rng, n, 2000, years, per, "d", holes="cell" if i % 5 == 3 else True)
    e = Data(rng, n, 1990, years if per == "monthly" else 4, per, "e", holes=False)
    P = put(w, "p.nc", "prcp", d.p, "P", dims, "mm", d, lat, lon, div)
    Q = put(w, "q.nc", "prcp", e.p, "Q", GRID[0], "inches" if i % 2 else "mm", e, lat, lon, div)
    k = [int(s) for s in rng.choice([1, 2, 3, 6, 12], 2, replace=False)] if per == "monthly" else [int(rng.choice([1, 7, 30]))]
    c0, c1 = calib(rng, 2000, years)
    nc = int(rng.integers(1, 6))
    g = dict(cmd="spi", per=per, ncpu=nc)
    R = put(w, "r.nc", "prcp", np.roll(d.p, 1, axis=1)[::-1] * 3 + 1, "R", dims, "mm", d, lat, lon, div)
    w.run(precip=P, scales=k, c0=c0, c1=c1, save="par.nc", **g)
    steps = ["load", "between", "loadother", "again", "overwrite", "subset", "missing", "plain"]
    rng.shuffle(steps)
    for s in steps[: 4 if per == "monthly" else 2]:
        if s == "load":
            w.run(precip=P, scales=k, c0=c0 + int(rng.integers(0, 3)), c1=c1 - 1, load="par.nc", tag="-load", **g)
        elif s == "between":
            w.run(precip=R, scales=k, c0=c0, c1=c1, tag="-else", **g)
            w.run(precip=P, scales=k, c0=c0, c1=c1, load="par.nc", tag="-after", **g)
        elif s == "loadother":
            w.run(precip=Q, scales=k[:1], c0=1991, c1=1993, load="par.nc", tag="-other", **g)
        elif s == "again":
            w.run(precip=P, scales=k, c0=c0, c1=c1, save="par.nc", tag="-again", **g)
        elif s == "overwrite":
            w.run(precip=P, scales=k, c0=2001, c1=2003 + years - 5, save="par.nc", overwrite=True, tag="-over", **g)
        elif s == "subset":
            w.run(precip=P, scales=k[-1:], c0=c0, c1=c1, load="par.nc", tag="-subset", **g)
        elif s == "missing":
            w.run(precip=P, scales=k + [4], c0=c0, c1=c1, load="par.nc" if rng.random() < .5 else "nowhere.nc", tag="-miss", **g)
        else:
            w.run(precip=P, scales=k[:1], c0=c0, c1=c1, tag="-plain", **g)
    w.close()


# ---------------------------------------------------------------- C19
Y0 = [(2000, 4), (1999, 5), (2001, 4), (1898, 5), (2003, 4), (1900, 4), (2098, 4), (1996, 4), (2002, 4), (2097, 5)]


def c19(rec, rng, i, tier):
    w = World(rec, f"C19-{i}")
    start, years = Y0[i % len(Y0)]
    dims = ("time",) if i % 5 == 0 else DIV[i // 5 % 2] if i % 5 == 3 else GRID[i % 2]
    cmd = "spi" if i % 3 == 2 and "lat" in dims else "process"
    last = W.is_leap(start + years - 1)
    cut = 0 if last or i % 2 else int(rng.choice([1, 30, 200, 305, 306, 307, 340, 364]))
    refused = last and i % 7 == 6       # not supported: must be refused, not garbled
    if refused:
        cut = int(rng.choice([20, 340]))
    n, lat, lon, div = geo(rng, dims, int(rng.integers(1, 3)), 1 + int(i % 4 == 1))
    d = Data(rng, n, start, years, "daily", "d", holes=i % 3 == 0, cut=cut)
    d.p = np.round(d.p, 3)
    P = put(w, "p.nc", "prcp", d.p, "P", dims, "mm" if i % 4 else "inches", d, lat, lon, div,
            store=str(rng.choice(STORES)) if cmd == "spi" or i // 2 % 3 != 1 else "", clock=str(rng.choice(CLOCKS)))
    ix = ["spi", "pnp", "spei"][(i // 2) % 3] if cmd == "process" else "spi"
    if ix == "pnp":
        d.p = np.nan_to_num(d.p, nan=1.0)
    E = put(w, "e.nc", "pet", d.pet, "E", dims, "mm", d, lat, lon, div) if ix == "spei" else None
    c0, c1 = (start, start + years - 2) if ix == "pnp" else (start + 1, start + years - 1)
    w.run(cmd=cmd, index=ix, per="daily", scales=[int(rng.choice([1, 3, 30, 90]))], c0=c0, c1=c1, precip=P, pet=E, ncpu=int(rng.integers(1, 4)),
          mustfail=refused)
    w.close()


# ---------------------------------------------------------------- C20
class Pool:
    """a session with several inputs of different shapes"""

    def __init__(self, rec, rng, rid, names):
        self.w = World(rec, rid)
        self.req, self.set = {}, {}
        for name, dims, rows in (("A", GRID[0], 3), ("B", GRID[1], 2), ("D", DIV[1], 3), ("S", ("time",), 1)):
            if name in names:
                self.set[name] = [dims, rows, geo(rng, dims, rows, 2 if name == "A" else 1), 0]
                self.fill(rng, name)
        self.w.begin()

    def fill(self, rng, name, again=False):
        """writes the files of one set (again: others of the same names)"""
        dims, rows, (n, lat, lon, div), rev = self.set[name]
        w = self.w
        c = name + str(rev)                # what the files of this revision hold
        self.set[name][3] += 1
        d = Data(rng, n, 2000, 6 if name != "B" else 7, "monthly", name, holes=False)
        g = dict(again=again)
        P = put(w, f"{name}p.nc", "prcp", d.p, c + "P", dims, "inches" if name == "B" else "mm", d, lat, lon, div, **g)
        T = put(w, f"{name}t.nc", "tavg", d.t, c + "T", dims, "F" if name == "A" else "C", d, lat, lon, div, **g)
        E = put(w, f"{name}e.nc", "pet", d.pet, c + "E", dims, "mm", d, lat, lon, div, **g)
        U = put(w, f"{name}u.nc", "prcp", d.p, c + "P", dims, "furlong", d, lat, lon, div, **g)
        self.req[name] = dict(P=P, T=T, E=E, U=U)
        if name in "AB":
            lat2 = lat.copy()
            lat2[-1] = 95.0 if lat2[-1] >= (lat2[0] if len(lat2) > 1 else 0) else -95.0
            if len(lat) > 2:
                lat2 = np.sort(lat2) if lat2[-1] > 0 else -np.sort(-lat2)
            self.req[name]["X"] = put(w, f"{name}x.nc", "tavg", d.t.copy(), c + "X", dims, "C", d, lat2, lon, div, **g)

    def act(self, a, rng):
        """one run as the specification describes it (CommandMC)"""
        s = a["s"]
        if a["fresh"]:
            self.fill(rng, s, again=True)
        x = {"": World.NONE, "?": dict(file=self.req[s]["P"]["file"], var="nope"), **self.req[s]}
        # what the specification does not say is chosen freely
        via = "namespace" if rng.random() < .5 else "main"
        mp = str(rng.choice(["single", "all", "all_but_one"]))
        self.w.run(cmd=a["cmd"], index=a["ix"], scales=a["k"], c0=a["c0"], c1=2004, precip=x[a["p"]], temp=x[a["t"]], pet=x[a["e"]],
                   load=a["load"], save=a["save"], overwrite=a["over"], ncpu=int(rng.integers(1, 6)), mp=mp, via=via, base=a["base"] or None,
                   tag=f"-{s}.{a['cmd']}.{a['ix']}")

    def forget(self):
        self.w.rec.emit("run", ev="forget", id=f"{self.w.rid}-{self.w.nrun}-forget")
        for f in ("par.nc", "other.nc"):
            if os.path.exists(self.w.path(f)):
                os.remove(self.w.path(f))
        for f in os.listdir(self.w.dir):   # the outputs too
            if f.startswith("o_"):
                os.remove(self.w.path(f))


def replay(rec, rng, i, rid, share, part, forget=False, names="ABDS"):
    """behaviours of CommandMC, replayed: this scenario takes its share"""
    p = Pool(rec, rng, rid, names)
    for j, h in enumerate(_gen()[i::share]):
        if rng.random() >= part and not (len(h) > 2 and h[-1]["load"] and not h[-2]["load"] and not h[-2]["save"]):
            continue
        if forget:
            p.forget()
        for a in h:
            p.act(a, rng)
        rec.count("spec_behaviours_replayed")
    p.w.close()


def c20(rec, rng, i, tier):
    replay(rec, rng, i, f"C20-{i}", *((16, .4) if tier == "quick" else (48, 1)))
    if i % 4 == 1:
        at_once(rec, rng, i, tier)
    elif i % 4 == 2:
        in_own_order(rec, rng, i)


def in_own_order(rec, rng, i):
    """every input has its own order of dimensions and of coordinates: the copies
    that the command makes of some of them are nobody else's business"""
    w = World(rec, f"C20-{i}o")
    own = DIV if i % 12 == 6 else GRID
    n, lat, lon, div = geo(rng, own[0], int(rng.integers(2, 4)))
    d = Data(rng, n, 2000, 6, "monthly", "d", holes=False)
    for v in (d.p, d.pet):
        np.nan_to_num(v, copy=False, nan=2.0)
    a, b = (0, 1) if i % 8 == 2 else (1, 0)
    which = [(a, b, b), (a, a, b), (a, b, a)][i // 4 % 3]
    P, T, E = (put(w, f"{v}.nc", v, x, c, own[q], u, d, lat, lon, div)
               for q, (v, x, c, u) in zip(which, (("prcp", d.p, "P", "mm"), ("tavg", d.t, "T", "C"), ("pet", d.pet, "E", "mm"))))
    asks = [dict(index="spi", precip=P), dict(index="spei", precip=P, pet=E), dict(index="spei", precip=P, temp=T), dict(index="pet", temp=T),
            dict(index="scaled", precip=P, temp=T), dict(index="scaled", precip=P, pet=E), dict(index="pnp", precip=P)]
    if own is GRID:
        asks.append(dict(cmd="spi", precip=P))
    for j in rng.permutation(len(asks)):
        q = asks[j]
        w.run(**q, scales=[int(rng.choice([1, 3]))], c0=2000, c1=2004, ncpu=int(rng.integers(1, 4)), base="o" if j % 2 else None)
    w.close()


def at_once(rec, rng, i, tier):
    """two commands at the same time in two processes, sharing inputs or not"""
    w = World(rec, f"C20-{i}p")
    dims = [GRID[1], GRID[0], DIV[1], GRID[1]][i // 4 % 4]
    n, lat, lon, div = geo(rng, dims, int(rng.integers(1, 4)), 1)
    d, e = (Data(rng, n, y, 5, "monthly", t, holes=False) for y, t in ((2000, "d"), (1990, "e")))
    ins = []
    for x, t in ((d, ""), (e, "2")):
        ins.append([put(w, f"{v}{t}.nc", v, a, c + t, dims, u, x, lat, lon, div) for v, a, c, u in (("prcp", x.p, "P", "mm"), ("tavg", x.t, "T", "C"), ("pet", x.pet, "E", "mm"))])
    for j in range(2 if tier == "quick" else 4):
        def ask(s):
            P, T, E = ins[s]
            c = [dict(index="spi", precip=P), dict(index="spei", precip=P, pet=E), dict(index="spei", precip=P, temp=T), dict(index="pet", temp=T),
                 dict(index="scaled", precip=P, temp=T), dict(index="pnp", precip=P)] + ([dict(cmd="spi", precip=P), dict(cmd="spi", precip=P, save=f"par{w.nrun}{s}.nc")] if "lat" in dims else [])
            q = dict(c[int(rng.integers(0, len(c)))])
            return dict(q, scales=[int(rng.choice([1, 2, 3]))], c0=1990 if s else 2000, c1=1994 if s else 2004, ncpu=int(rng.integers(1, 4)))
        s = int(rng.integers(0, 2))
        w.run(**ask(s), beside=ask(s if j % 2 else 1 - s), tag="-both")
    w.close()


def _gen():
    return [json.loads(x)["h"] for x in open(os.environ["GEN"]) if '"h"' in x]


# ---------------------------------------------------------------- C22
def c22(rec, rng, i, tier):
    if i % 15 == 7:
        return c22_daily(rec, rng, i)
    w = World(rec, f"C22-{i}")
    dims = LAYOUTS[i % 5]
    n, lat, lon, div = geo(rng, dims, int(rng.integers(1, 4)), 1)
    d = Data(rng, n, 2000, 6, "monthly", "d", holes=True)
    whole = i % 4 == 1
    inch = np.round(d.p / 25.4 * 8) / 8 + 0.125 if not whole else np.nan_to_num(np.round(d.p / 4)) + rng.integers(1, 4, d.p.shape)
    P1 = put(w, "p1.nc", "prcp", inch * 25.4, "P", dims, str(rng.choice(PU)), d, lat, lon, div)
    P2 = put(w, "p2.nc", "prcp", inch, "P", dims, str(rng.choice(PUI)), d, lat, lon, div, **(dict(dtype="i4") if whole else {}))
    pin = np.round(d.pet / 25.4 * 16) / 16
    E1 = put(w, "e1.nc", "pet", pin * 25.4, "E", dims, str(rng.choice(PU[:4])), d, lat, lon, div)
    E2 = put(w, "e2.nc", "pet", pin, "E", dims, str(rng.choice(PUI)), d, lat, lon, div)
    t = np.round(d.t * 8) / 8
    hot = t * 9 / 5 + 32
    u = [str(rng.choice(TU)), str(rng.choice(TUF)), str(rng.choice(TUK))]
    k = scales(rng, 6, 2)
    ps = [P1, P2]
    which = i % 3 if tier == "quick" else None
    gen = dict(c0=2000, c1=2004)
    if which in (0, None):
        for p in ps:
            w_run(w, rng, index="spi", precip=p, scales=k, **gen)
        if "lat" in dims:
            w_run(w, rng, cmd="spi", precip=P2, scales=k, **gen)
        w_run(w, rng, index="pnp", precip=P2 if i % 2 else P1, scales=k, c0=2000, c1=2003)
        w_run(w, rng, index="pnp", precip=P1 if i % 2 else P2, scales=k[:1], c0=2000, c1=2003)
    if which in (1, None):
        for p, e in ((P1, E1), (P1, E2), (P2, E1), (P2, E2))[: 3 if tier == "quick" else 4]:
            w_run(w, rng, index="spei" if rng.random() < .7 else "scaled", precip=p, pet=e, scales=k[:1], **gen)
    w.close()
    if which in (2, None) and dims != ("time",):
        w = World(rec, f"C22-{i}t")
        T = [put(w, f"t{j}.nc", "tavg", x, "T", dims, uu, d, lat, lon, div) for j, (x, uu) in enumerate(zip((t, hot, t + 273.15), u))]
        P2 = put(w, "p2.nc", "prcp", inch, "P", dims, str(rng.choice(PUI)), d, lat, lon, div)
        for j in rng.permutation(3):
            w_run(w, rng, index="pet", temp=T[j], **gen)
        for j in rng.permutation(3)[:2]:
            w_run(w, rng, index="spei", temp=T[j], precip=P2, scales=k, **gen)
        w.close()


def c22_daily(rec, rng, i):
    w = World(rec, f"C22-{i}d")
    dims = LAYOUTS[int(rng.integers(0, 5))]
    n, lat, lon, div = geo(rng, dims, 2, 1)
    d = Data(rng, n, 1999, 5, "daily", "d", cut=int(rng.choice([0, 60])))
    inch, pin = np.round(d.p / 25.4 * 64) / 64, np.round(d.pet / 25.4 * 16) / 16
    P = [put(w, f"p{j}.nc", "prcp", x, "P", dims, str(rng.choice(u)), d, lat, lon, div) for j, (x, u) in enumerate(((inch * 25.4, PU), (inch, PUI)))]
    E = [put(w, f"e{j}.nc", "pet", x, "E", dims, str(rng.choice(u)), d, lat, lon, div) for j, (x, u) in enumerate(((pin * 25.4, PU[:4]), (pin, PUI)))]
    for j in rng.permutation(2):
        if "lat" in dims:
            w_run(w, rng, cmd="spi", precip=P[j], scales=[30], c0=1999, c1=2002, per="daily")
        w_run(w, rng, index="spi", precip=P[j], scales=[30], c0=1999, c1=2002, per="daily")
        w_run(w, rng, index="spei", precip=P[j], pet=E[int(rng.integers(0, 2))], scales=[7], c0=1999, c1=2002, per="daily")
    w.close()


def w_run(w, rng, **k):
    w.run(ncpu=int(rng.integers(1, 5)), **k)


# ---------------------------------------------------------------- C23
@contextlib.contextmanager
def poisoned(marker, scale=None):
    """library calls given a series that holds the poison raise (for one
    scale only, if it is given)"""
    saved = []

    def wrap(mod, name):
        fn = getattr(mod, name, None)
        if fn is None:
            return
        saved.append((mod, name, fn))

        def f(*a, **k):
            v = np.asarray(a[0] if a else next(iter(k.values())), dtype=float)
            if (v == POISON).any() and (scale is None or any(isinstance(q, numbers.Integral) and q == scale for q in [*a[1:], *k.values()])):
                open(marker, "a").close()
                raise EXC[0]("a location that fails")
            return fn(*a, **k)
        f.__name__ = name
        setattr(mod, name, f)
    for n in ("spi", "spei", "percentage_of_normal", "pet"):
        wrap(indices, n)
    try:
        yield
    finally:
        for m, n, f in saved:
            setattr(m, n, f)


EXC = [ValueError]


def c23(rec, rng, i, tier):
    kind = ["spi", "pnp", "spei", "pet", "cmd", "petlat", "scaled", "petdiv", "equalcmd", "equal"][i % 10]
    dims = DIV[int(rng.integers(0, 2))] if kind == "petdiv" or (kind in ("spi", "spei", "equal") and i % 20 > 9) else GRID[0]
    rows = int(rng.integers(1, 7))
    w = World(rec, f"C23-{i}")
    n, lat, lon, div = geo(rng, dims, rows, 1 + int(rng.random() < .5))
    d = Data(rng, n, 2000, 6, "monthly", "d", holes=False)
    good = Data(rng, n, 2000, 6, "monthly", "g", holes=False)
    where = int(rng.choice([0, n - 1, rng.integers(0, n)]))
    la = None if lat is None else lat.copy()
    if kind in ("petlat", "petdiv"):
        if "lat" in dims:                      # one end of the grid is beyond the pole
            la = 89.0 - np.arange(len(lat))[::-1] * 1.0
            la[-1] = 91.0
            if rng.random() < .5:
                la = -la[::-1]
        else:
            la[where] = [91.0, -120.0, np.nan][int(rng.integers(0, 3))]
    elif kind.startswith("equal"):             # no Pearson distribution fits a constant
        d.p[where] = float(rng.choice([5.0, 0.25, 100.0]))
    else:
        d.p[where, 5] = POISON
        d.t[where, 5] = POISON
    P = put(w, "p.nc", "prcp", d.p, "P", dims, "mm", d, la, lon, div)
    T = put(w, "t.nc", "tavg", d.t, "T", dims, "C", d, la, lon, div)
    E = put(w, "e.nc", "pet", d.pet, "E", dims, "mm", d, la, lon, div)
    G = put(w, "g.nc", "prcp", good.p, "G", dims, "mm", d, la, lon, div)
    H = put(w, "h.nc", "pet", good.pet, "H", dims, "mm", d, la, lon, div)
    marker = os.path.join(rec.d, f"marker{i}")
    g = dict(c0=2000, c1=2004)
    EXC[0] = [ValueError, RuntimeError, ArithmeticError, KeyError, IndexError, TypeError, FloatingPointError][i % 7]
    ways = [("all", 1), ("all", rows), ("all", rows + 3), ("all_but_one", 3), ("single", 4), ("all", 2)]
    ways = [ways[int(j)] for j in rng.permutation(len(ways))[: 2 if tier == "quick" else 6]]
    for mp, nc in ways:
        gg = dict(g, mp=mp, ncpu=nc)
        natural = kind in ("petlat", "petdiv", "equal", "equalcmd")
        scope = poisoned(marker, 3 if kind in ("spi", "cmd") and i % 20 < 10 else None) if not natural else contextlib.nullcontext()
        with scope:
            # the library fails at this location in this process too, so the
            # specification knows which files cannot be written
            if kind in ("spi",):
                run_if(w, marker, rec, index="spi", precip=P, scales=[1, 3], **gg)
            elif kind == "pnp":
                run_if(w, marker, rec, index="pnp", precip=P, scales=[2], **gg)
            elif kind == "spei":
                run_if(w, marker, rec, index="spei", precip=P, pet=E, scales=[1], **gg)
            elif kind == "pet":
                run_if(w, marker, rec, index="pet", temp=T, **gg)
            elif kind == "cmd":
                run_if(w, marker, rec, cmd="spi", precip=P, scales=[1, 3][: 1 + (i % 20 < 10)], save="s.nc" if i % 2 else "", **gg)
            elif kind == "scaled":
                run_if(w, marker, rec, index="scaled", precip=G, temp=T, scales=[1], **gg)
            elif kind == "equal":
                w.run(index="spi", precip=P, scales=[1, 2][: 1 + i // 10 % 2], **gg)
            elif kind == "equalcmd":
                w.run(cmd="spi", precip=P, scales=[1, 2][: 1 + i // 10 % 2], save="s.nc" if i % 4 == 0 else "", **gg)
            else:
                w.run(index="pet" if i % 3 else "spei", precip=None if i % 3 else G, temp=T, scales=[1], **gg)
    # and the process is still usable
    w.run(index="spi", precip=G, scales=[2], ncpu=3, **g)
    if "lat" in dims:
        w.run(cmd="spi", precip=G, scales=[2], ncpu=3, **g)
    w.run(index="spei", precip=G, pet=H, scales=[2], ncpu=2, **g)
    w.close()


def run_if(w, marker, rec, **k):
    """records the run only if the command did meet the failing location"""
    if os.path.exists(marker):
        os.remove(marker)
    hold = []
    emit = rec.emit
    if not w.started:
        w.begin()
    rec.emit = lambda kind, **e: hold.append((kind, e))
    state = {}

    def snoop(cmd_run):
        return cmd_run
    real = W.MAIN.process_climate_indices, W.SPI.main
    met = [False]

    def spy(fn):
        def f(*a, **kk):
            try:
                return fn(*a, **kk)
            finally:
                met[0] = met[0] or os.path.exists(marker)
        return f
    W.MAIN.process_climate_indices, W.SPI.main = spy(real[0]), spy(real[1])
    try:
        w.run(**k)
    finally:
        W.MAIN.process_climate_indices, W.SPI.main = real
        rec.emit = emit
    if met[0]:
        for kind, e in hold:
            rec.emit(kind, **e)
        rec.count("failing_locations_met")
    else:
        rec.count("injections_not_met")


# ---------------------------------------------------------------- C25
def c25(rec, rng, i, tier):
    per = "daily" if i % 5 == 4 else "monthly"
    dims = GRID[i % 2]
    w = World(rec, f"C25-{i}")
    start = int(rng.choice([1899, 1981, 2000]))
    years = int(rng.integers(6, 12)) if per == "monthly" else 4
    if i % 6 == 1 and per == "monthly":
        years = int(rng.integers(12, 28))
    n, lat, lon, div = geo(rng, dims, int(rng.integers(5, 12)) if i % 8 == 2 else None if per == "monthly" else 2, None if per == "monthly" else 1)
    cut = int(rng.choice([0, 0, 3])) if per == "monthly" else (0 if W.is_leap(start + 3) or i % 2 else int(rng.choice([40, 310])))
    d = Data(rng, n, start, years, per, "d", holes="cell" if i % 3 == 1 else True, cut=cut)
    if i % 4 == 3:
        d.p[rng.random(d.p.shape) < .1] *= -1
    unit = str(rng.choice(PU + PUI))
    d.late = int(rng.choice([0, 0, 0, 12])) if per == "daily" else int(rng.choice([0, 0, 24 * 14, 18]))
    P = put(w, "p.nc", str(rng.choice(["prcp", "pr"])), d.p, "P", dims, unit, d, lat, lon, div, latunits=i % 3 > 0,
            dtype="f4" if i % 7 == 6 and unit.lower() not in INCH else "f8",
            **(dict(store=str(rng.choice(STORES)), clock=str(rng.choice(CLOCKS))) if i % 3 != 2 else {}))
    k = scales(rng, years, 2) if per == "monthly" else [int(rng.choice([1, 5, 30, 180]))]
    if years > 11:
        k = [int(rng.choice([36, 60, 100, 120])), k[0]]
    c0, c1 = calib(rng, start, years)
    g = dict(per=per, scales=k, c0=c0, c1=c1, precip=P)
    a = dict(cmd="process", index="spi")
    b = dict(cmd="spi")
    for q in (a, b) if i % 2 else (b, a):
        w.run(ncpu=int(rng.integers(1, 7)), **q, **g)
    w.close()


# ---------------------------------------------------------------- C27
def c27(rec, rng, i, tier):
    """what the output files say about themselves"""
    kind = ["spi", "cmd", "speip", "cmd", "scaled", "pnp", "pet", "cmd"][i % 8]
    daily = i % 16 in (3, 5, 8, 10) and kind in ("spi", "cmd", "pnp", "speip")
    per = "daily" if daily else "monthly"
    dims = GRID[i // 2 % 2] if kind == "cmd" or daily else LAYOUTS[i // 3 % 5]
    if kind in ("pet", "scaled") and dims == ("time",):
        dims = GRID[0]
    w = World(rec, f"C27-{i}")
    w.describe = True
    start, years = int(rng.choice([1981, 1999, 2000])), 4 if daily else 6
    n, lat, lon, div = geo(rng, dims, *((2, 1) if daily else ()))
    if "lat" in dims and kind == "cmd":
        lat = np.sort(rng.uniform(-89, 89, len(lat)))[:: 1 - 2 * (i % 2)].copy()
        lon = rng.uniform(-179, 179, len(lon)) if i % 4 == 1 else np.sort(rng.uniform(-179, 359, len(lon)))
    d = Data(rng, n, start, years, per, "d", holes=kind not in ("pnp", "scaled"))
    if kind in ("pnp", "scaled"):
        d.p = np.where(np.isnan(d.p), 3.0, d.p)
    P = put(w, "p.nc", "prcp", d.p, "P", dims, str(rng.choice(PU + PUI)), d, lat, lon, div) if kind != "pet" else None
    T = put(w, "t.nc", "tavg", d.t, "T", dims, str(rng.choice(TU)), d, lat, lon, div) if kind in ("pet", "scaled") else None
    E = put(w, "e.nc", "pet", d.pet, "E", dims, "mm", d, lat, lon, div) if kind == "speip" else None
    k = [int(rng.choice([1, 6, 30, 90])), 7] if daily else [int(q) for q in rng.choice([1, 2, 3, 6, 9, 11, 12, 24], 2, replace=False)]
    g = dict(per=per, precip=P, temp=T, pet=E, c0=start, c1=start + years - 1)
    if kind == "cmd":
        w.run(cmd="spi", scales=k, save="par.nc", **g)
        if i % 3 == 0:
            w.run(cmd="spi", scales=k[:1], load="par.nc", tag="-load", **g)
        elif i % 3 == 1:                   # in place of those of other scales
            w.run(cmd="spi", scales=[k[1], k[0] + 1], save="par.nc", overwrite=True, tag="-over", **g)
    else:
        w.run(index={"speip": "spei"}.get(kind, kind), scales=k, **g)
    w.close()


TABLE = {"C27": (c27, 32, 240), "C15": (c15, 60, 900), "C16": (c16, 32, 256), "C17": (c17, 40, 200), "C18": (c18, 24, 240), "C19": (c19, 24, 200),
         "C20": (c20, 16, 48), "C22": (c22, 45, 300), "C23": (c23, 50, 480), "C25": (c25, 40, 500)}
if __name__ == "__main__":
    main(TABLE)
