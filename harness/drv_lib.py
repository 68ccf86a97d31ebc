"""Scenarios for the library properties (C01-C14, C21, C24)."""
import os

import numpy as np

from common import NAN, call, enc, f64, main, out_of
import series as S
from climate_indices import compute, eto, indices, lmoments, palmer, utils

P = {12: compute.Periodicity.monthly, 366: compute.Periodicity.daily}
D = {"gamma": indices.Distribution.gamma, "pearson": indices.Distribution.pearson}
SCALES = [1, 1, 2, 3, 5, 6, 9, 12, 24, 36, 60]


def dims(rng, daily):
    if daily:
        return 366, int(rng.integers(5, 9))
    return 12, int(rng.choice([5, 6, 8, 11, 20, 33, 47, 47, 66, 128]))


def scale_for(rng, n, ny):
    k = int(rng.choice(SCALES if n == 12 else [1, 1, 3, 7, 30, 90, 180, 365]))
    if rng.random() < 0.04:
        k = n * ny + int(rng.integers(0, 3)) - 1       # around the length of the series
    return k


def shape_it(rng, x, n):
    """1-D, 2-D, strided, read-only, of another type: same values"""
    k = rng.integers(0, 9)
    if k == 6:
        return x.astype(">f8")
    if k == 8:
        return narrow(x, [t for t in rng.permutation(["u1", "i1", "u2", "i2", "i4", "i8"])] + ["f4"])
    if k >= 7:
        for t in rng.permutation(["i8", "i4", "i2", "u2", "f4"]):
            if t == "f4" or not np.isnan(x).any():
                with np.errstate(all="ignore"):
                    y = x.astype(t)
                if y.size and np.array_equal(y.astype("f8"), x, equal_nan=True):
                    return y
    if k == 0 and x.size % n == 0:
        return x.reshape(-1, n).copy()
    if k == 1:
        return np.repeat(x, 2)[::2]
    if k == 2:
        y = x.copy()
        y.setflags(write=False)
        return y
    if k == 3 and x.size % n == 0:
        return np.asfortranarray(x.reshape(-1, n))
    return x.copy()


def narrow(x, kinds=("u1", "i1", "u2", "i2", "i4", "f4")):
    """the same values in the narrowest type that holds them"""
    for t in kinds:
        if t[0] == "f" or (np.isfinite(x).all() and np.abs(x).max(initial=0) < 2.0 ** 31):
            with np.errstate(all="ignore"):
                y = x.astype(t)
            if np.array_equal(y.astype("f8"), x, equal_nan=True):
                return y
    return x.copy()


def base_event(rng, daily):
    n, ny = dims(rng, daily)
    x = S.precip(rng, ny, n)
    x = S.cut(rng, x, n)
    x = S.negatives(rng, S.holes(rng, x, n))
    if rng.random() < 0.03:
        x[:] = np.nan
    if rng.random() < .12:
        x = np.round(x)
    start = int(rng.choice([1895, 1900, 1950, 1981, 2000]))
    c0, c1 = S.calibration(rng, start, ny)
    return x, n, ny, start, int(c0), int(c1)


# ---------------------------------------------------------------- C01
def c01(rec, rng, i, tier):
    daily = i % 9 == 4
    x, n, ny, start, c0, c1 = base_event(rng, daily)
    if i % 13 == 5:                       # outliers beyond the calibrated bounds
        x = np.clip(rng.normal(100, 10, ny * n), 60, 140) if i % 2 else np.clip(150 - rng.gamma(1, 20, ny * n), 0, None)
        x.reshape(ny, n)[-1] *= rng.choice([0.0, 0.2, 3.0, 6.0])
        c0, c1 = start, start + ny - 2
    k = scale_for(rng, n, ny)
    for dist in ("gamma", "pearson"):
        arr = shape_it(rng, x, n)
        if i % 17 == 7:
            arr = np.ma.masked_invalid(arr.ravel()) if np.isnan(x).all() else arr
        res, err = call(indices.spi, arr, k, D[dist], start, c0, c1, P[n])
        out, err = out_of(res, err)
        rec.emit("lib", ev="spi", id=f"C01-{i}-{dist}-k{k}-n{n}", x=enc(x), k=k, n=n, dist=dist, start=start, c0=c0, c1=c1, par=[], out=out, err=err)


# ---------------------------------------------------------------- C02
def pet_like(rng, m, n):
    return np.clip(60 + 50 * np.sin(2 * np.pi * np.arange(m) / n + 1) + rng.normal(0, 8, m), 0, None)


def c02(rec, rng, i, tier):
    daily = i % 9 == 4
    x, n, ny, start, c0, c1 = base_event(rng, daily)
    pet = pet_like(rng, x.size, n)
    h = rng.integers(0, 5)
    if h == 0:
        pet[rng.integers(0, pet.size, 4)] = np.nan
    elif h == 1:
        pet[: rng.integers(1, n)] = np.nan
    elif h == 2 and i % 3 == 0:
        pet[:] = np.nan
    if i % 13 == 5:
        x = rng.normal(100, 10, ny * n)
        x.reshape(ny, n)[-1] *= rng.choice([0.2, 6.0, 40.0])
        pet = pet_like(rng, x.size, n)
        c0, c1 = start, start + ny - 2
    if i % 6 == 3:                                       # whole amounts in narrow types of any kind
        x = np.round(np.where(np.isnan(x), 7.0, x))
        pet = np.round(np.where(np.isnan(pet), 7.0, pet))
    if i % 5 == 2:                                       # demand far beyond any supply, single steps and stretches
        m = int(rng.integers(1, 4))
        for q in rng.integers(0, pet.size, 3):
            pet[q: q + m] = rng.uniform(900, 3500)
    k = scale_for(rng, n, ny)
    if i % 20 == 11:
        pet = pet[: -int(rng.integers(1, n))]
    for dist in ("gamma", "pearson"):
        a = shape_it(rng, x, n)
        b = shape_it(rng, pet, n)
        if i % 6 == 3:
            a, b = narrow(x if i % 12 == 3 else np.maximum(x, 0)), narrow(np.maximum(pet, 0) if i % 12 == 3 else pet)
        res, err = call(indices.spei, a, b, k, D[dist], P[n], start, c0, c1)
        out, err = out_of(res, err)
        rec.emit("lib", ev="spei", id=f"C02-{i}-{dist}-k{k}-n{n}", x=enc(x), pet=enc(pet), k=k, n=n, dist=dist, start=start, c0=c0, c1=c1, par=[], out=out, err=err)


# ---------------------------------------------------------------- C03
def pars(dist, res, err):
    names = ("alpha", "beta") if dist == "gamma" else ("prob_zero", "loc", "scale", "skew")
    if err or not isinstance(res, tuple) or len(res) != len(names):
        return [], err or "no parameters"
    return {k: enc(v) for k, v in zip(names, res)}, ""


def fit(dist, x, start, c0, c1, n):
    f = compute.gamma_parameters if dist == "gamma" else compute.pearson_parameters
    return call(f, x, start, c0, c1, P[n])


def c03(rec, rng, i, tier):
    daily = i % 11 == 6
    x, n, ny, start, c0, c1 = base_event(rng, daily)
    x = np.where(x < 0, 0, x)
    if i % 2 == 0:
        x = np.round(x, 1)
    for dist in ("gamma", "pearson"):
        arr = shape_it(rng, x, n)
        res, err = fit(dist, arr, start, c0, c1, n)
        out, err = pars(dist, res, err)
        rec.emit("lib", ev="par", id=f"C03-{i}-{dist}", x=enc(x), n=n, dist=dist, start=start, c0=c0, c1=c1, out=out, err=err)
        # spoil everything outside the calibration years, or another month: same parameters
        inside = start <= c0 and c1 <= start + ny - 1
        y = np.pad(x, (0, ny * n - x.size), constant_values=np.nan).reshape(ny, n).copy()
        j = int(rng.integers(0, n))
        how = i % 3
        if how == 0 and inside:
            keep = slice(c0 - start, c1 - start + 1)
            z = rng.gamma(1, 500, y.shape)
            z[rng.random(z.shape) < 0.3] = 0 if rng.random() < .5 else np.nan
            z[keep] = y[keep]
            cols = list(range(n))
        elif how == 1:
            z = rng.gamma(1, 500, y.shape)
            z[:, j] = y[:, j]
            cols = [j]
        else:
            z = y[:, np.roll(np.arange(n), 1)]     # months rotated: parameters rotate
            cols = None
        if np.isnan(z).all() or np.isnan(x).all():
            continue
        res2, err2 = fit(dist, z, start, c0, c1, n)
        if err or err2:
            continue
        rec.emit("lib", ev="par", id=f"C03-{i}-{dist}-spoiled{how}", x=enc(z), n=n, dist=dist, start=start, c0=c0, c1=c1, out=pars(dist, res2, err2)[0], err="")
        a = np.array([np.asarray(v, float) for v in res])
        b = np.array([np.asarray(v, float) for v in res2])
        if cols is None:
            b = np.roll(b, -1, axis=1)
            cols = list(range(n))
        rec.emit("lib", ev="same", id=f"C03-{i}-{dist}-law{how}", law="calibration confinement", a=enc(a[:, cols]), b=enc(b[:, cols]),
                 upto=10 ** 6, tol=f64(1e-9), err="")


# ---------------------------------------------------------------- C04
def plural(d):
    m = {"alpha": "alphas", "beta": "betas", "skew": "skews", "scale": "scales", "loc": "locs", "prob_zero": "probabilities_of_zero"}
    return {m[k]: v for k, v in d.items()}


def index_call(kind, dist, x, pet, k, n, start, c0, c1, par, rng):
    a = shape_it(rng, x, n)
    if kind == "spi":
        return call(indices.spi, a, k, D[dist], start, c0, c1, P[n], par)
    return call(indices.spei, a, shape_it(rng, pet, n), k, D[dist], P[n], start, c0, c1, par)


def c04(rec, rng, i, tier):
    daily = i % 12 == 6
    x, n, ny, start, c0, c1 = base_event(rng, daily)
    pet = pet_like(rng, x.size, n)
    k = scale_for(rng, n, ny)
    dist = ("gamma", "pearson")[i % 2]
    names = ("alpha", "beta") if dist == "gamma" else ("prob_zero", "loc", "scale", "skew")
    kind = ("spi", "spei")[(i // 2) % 2]
    if np.isnan(x).all():
        return
    if kind == "spi":
        tot, err = call(compute.scale_values, shape_it(rng, x, n), k, P[n])
    else:
        tot, err = call(compute.sum_to_scale, np.clip(x, 0, None) - pet + 1000.0, k)
    if err or np.isnan(tot).all():
        return
    res, err = fit(dist, tot, start, c0, c1, n)
    if err:
        return
    par = dict(zip(names, [np.array(v, float) for v in res]))
    # another series, of the same calendar, under the same parameters
    x2 = S.holes(rng, S.precip(rng, ny, n), n)[: x.size]
    pet2 = pet_like(rng, x2.size, n)
    runs = [("inside", x, pet, None, c0, c1), ("given", x, pet, par, c0, c1),
            ("given, other calibration", x, pet, par, start + 1, start + ny - 2), ("other data", x2, pet2, par, c0, c1)]
    if kind == "spei":
        runs.append(("plural names", x, pet, plural(par), c0, c1))
        runs.append(("plural names, other data", x2, pet2, plural(par), c0, c1))
    first = None
    for label, xx, pp, q, a, b in runs:
        r, err = index_call(kind, dist, xx, pp, k, n, start, a, b, q, rng)
        out, err = out_of(r, err)
        rec.emit("lib", ev=kind, id=f"C04-{i}-{kind}-{dist}-{label}", x=enc(xx), pet=enc(pp), k=k, n=n, dist=dist, start=start, c0=a, c1=b,
                 par={m: enc(v) for m, v in par.items()} if q is not None else [], out=out, err=err)
        if first is None:
            first = out
        elif xx is x and not err and out and first:
            rec.emit("lib", ev="same", id=f"C04-{i}-{kind}-{dist}-{label}-same", law="given parameters equal fitting inside", a=first, b=out, upto=10 ** 6, tol=f64(1e-9), err="")
    if dist == "pearson":
        drop = [m for m in names if rng.random() < 0.5] or ["skew"]
        if len(drop) == 4:
            drop = drop[:3]
        partial = dict(par)
        for m in drop:
            partial[m] = None
        r, err = index_call(kind, dist, x, pet, k, n, start, c0, c1, partial, rng)
        rec.emit("lib", ev="refused", id=f"C04-{i}-{kind}-partial", why="partial Pearson parameters: without " + ",".join(drop), err=err)
        r, err = call(compute.transform_fitted_pearson, np.asarray(tot, float), start, c0, c1, P[n],
                      **{m2: (par[m] if m not in drop else None) for m, m2 in
                         dict(prob_zero="probabilities_of_zero", loc="locs", scale="scales", skew="skews").items()})
        rec.emit("lib", ev="refused", id=f"C04-{i}-transform-partial", why="partial Pearson parameters", err=err)


# ---------------------------------------------------------------- C05
class Fresh:
    """answers calls from processes in which nothing was called before: a
    server forked before any call forks one child for each"""

    def __init__(self):
        import pickle
        import socket
        import struct
        self.pk, self.st = pickle, struct
        self.sock, far = socket.socketpair()
        if os.fork() == 0:
            self.sock.close()
            self.serve(far)
        far.close()

    def send(self, s, obj):
        b = self.pk.dumps(obj, 4)
        s.sendall(self.st.pack(">q", len(b)) + b)

    def recv(self, s):
        def get(n):
            b = b""
            while len(b) < n:
                q = s.recv(min(1 << 20, n - len(b)))
                if not q:
                    raise EOFError
                b += q
            return b
        return self.pk.loads(get(self.st.unpack(">q", get(8))[0]))

    def serve(self, s):
        while True:
            try:
                req = self.recv(s)
            except EOFError:
                os._exit(0)
            pid = os.fork()
            if pid == 0:
                try:
                    mod, name, args = req
                    r, err = call(getattr(MODS[mod], name), *args)
                    self.send(s, ([] if err else flat(r), err))
                finally:
                    os._exit(0)
            os.waitpid(pid, 0)

    def ask(self, fn, args):
        mod = next(m for m, v in MODS.items() if getattr(v, fn.__name__, None) is fn)
        self.send(self.sock, (mod, fn.__name__, args))
        return self.recv(self.sock)


MODS = dict(compute=compute, eto=eto, indices=indices, lmoments=lmoments, palmer=palmer, utils=utils)
FRESH = None


def flat(r):
    if isinstance(r, tuple):
        return [q for v in r for q in flat(v)]
    if isinstance(r, dict):
        return [q for m in sorted(r) for q in flat(r[m])]
    if r is None:
        return [[NAN]]
    return [enc(r)]


def c05(rec, rng, i, tier):
    """histories of calls sharing arrays.  What each call returns is first
    asked of a process of its own; between the calls the arrays keep their
    values, except where the caller changes them"""
    global FRESH
    if FRESH is None:
        FRESH = Fresh()
    n = 366 if i % 5 == 3 else 12
    ny = int(rng.integers(5, 8)) if n == 366 else int(rng.integers(6, 16))
    start, c0, c1 = 1990, 1990 + int(rng.integers(-1, 2)), 1990 + ny - 1 - int(rng.integers(-1, 2))
    x = S.negatives(rng, S.holes(rng, S.precip(rng, ny, n), n))
    if not (x == 0).any():
        x[rng.integers(0, x.size, 4)] = 0.0
    if i % 2:
        x[rng.integers(0, x.size, 2)] = -2.0
    if np.isnan(x).all():
        x[0] = 1.0
    A = dict(x=x, pet=pet_like(rng, x.size, n), x2=np.clip(x, 0, None).reshape(ny, n),
             pet2=pet_like(rng, x.size, n).reshape(ny, n))
    A["t"] = 12 + 15 * np.sin(np.arange(ny * 12) * np.pi / 6) + rng.normal(0, 3, ny * 12)
    A["t"][rng.integers(0, A["t"].size, 3)] = np.nan
    A["t2"] = A["t"].reshape(ny, 12)
    A["tmin"], A["tmax"], A["tmean"] = (rng.normal(10, 3, 366 * 2) + d for d in (-5, 5, 0))
    A["tmin2"], A["tmax2"], A["tmean2"] = (A[k].reshape(2, 366) for k in ("tmin", "tmax", "tmean"))
    A["mp"], A["mt"] = rng.gamma(1, 3, 240) - .2, np.clip(3 + 2 * np.sin(np.arange(240) * np.pi / 6), 0, None)
    A["mp2"], A["mt2"] = A["mp"].reshape(20, 12), A["mt"].reshape(20, 12)
    A["rain"] = rng.gamma(.3, 10, 365 + i % 2)
    A["greg"] = rng.normal(0, 1, 365 * 4 + 1)
    A["leap"] = rng.normal(0, 1, 366 * 4)
    A["col"] = np.abs(rng.gamma(1, 30, 25))
    A["div"] = rng.normal(0, 1, (3, 12))
    ks = [1, 1, int(rng.integers(2, 7))]
    k = ks[i % 3]
    pg = dict(alpha=rng.uniform(1, 3, n), beta=rng.uniform(10, 50, n))
    pp = dict(prob_zero=rng.choice([0.0, .1], n), loc=np.full(n, 60.0), scale=np.full(n, 40.0), skew=rng.uniform(-1, 1.5, n))
    fp = dict(alpha=list(rng.uniform(.5, 1, 12)), beta=np.full(12, .3), gamma=np.full(12, .1), delta=np.full(12, .2))
    g, p = D["gamma"], D["pearson"]
    T = P[n]
    la = float(rng.uniform(-60, 60))
    calls = [
        ("spi gamma", indices.spi, ["x"], (k, g, start, c0, c1, T)), ("spi pearson", indices.spi, ["x"], (k, p, start, c0, c1, T)),
        ("spi gamma 2d", indices.spi, ["x2"], (k, g, start, c0, c1, T)), ("spi pearson 2d", indices.spi, ["x2"], (k, p, start, c0, c1, T)),
        ("spi given", indices.spi, ["x"], (k, g, start, c0, c1, T, pg)), ("spi given p", indices.spi, ["x"], (k, p, start, c0, c1, T, pp)),
        ("spei gamma", indices.spei, ["x", "pet"], (k, g, T, start, c0, c1)), ("spei pearson", indices.spei, ["x", "pet"], (k, p, T, start, c0, c1)),
        ("spei 2d", indices.spei, ["x2", "pet2"], (1, g, T, start, c0, c1)),
        ("spei plural", indices.spei, ["x", "pet"], (k, p, T, start, c0, c1, plural(pp))),
        ("spei plural gamma", indices.spei, ["x", "pet"], (k, g, T, start, c0, c1, plural(pg))),
        ("spi plural", indices.spi, ["x"], (k, g, start, c0, c1, T, plural(pg))),
        ("pnp", indices.percentage_of_normal, ["x"], (k, start, max(start, c0), min(c1, start + ny - 1), T)),
        ("scale", compute.scale_values, ["x"], (k, T)), ("scale 2d", compute.scale_values, ["x2"], (k, T)),
        ("sum", compute.sum_to_scale, ["x"], (k,)),
        ("gamma parameters", compute.gamma_parameters, ["x2"], (start, c0, c1, T)),
        ("gamma parameters 1d", compute.gamma_parameters, ["pet"], (start, c0, c1, T)),
        ("pearson parameters", compute.pearson_parameters, ["x2"], (start, c0, c1, T)),
        ("transform gamma", compute.transform_fitted_gamma, ["x2"], (start, c0, c1, T)),
        ("transform gamma given", compute.transform_fitted_gamma, ["x2"], (start, c0, c1, T, pg["alpha"], pg["beta"])),
        ("transform pearson", compute.transform_fitted_pearson, ["x2"], (start, c0, c1, T)),
        ("transform pearson given", compute.transform_fitted_pearson, ["x2"], (start, c0, c1, T, pp["prob_zero"], pp["loc"], pp["scale"], pp["skew"])),
        ("pet", indices.pet, ["t"], (la, 1999)), ("pet 2d", indices.pet, ["t2"], (33.0, 1999)),
        ("thornthwaite", eto.eto_thornthwaite, ["t2"], (-12.0, 1996)),
        ("hargreaves", eto.eto_hargreaves, ["tmin", "tmax", "tmean"], (45.0,)),
        ("hargreaves 2d", eto.eto_hargreaves, ["tmin2", "tmax2", "tmean2"], (45.0,)),
        ("pdsi", palmer.pdsi, ["mp", "mt"], (5.0, 1990, 1990, 2005)), ("pdsi 2d", palmer.pdsi, ["mp2", "mt2"], (3.0, 1990, 1992, 2009)),
        ("pdsi given", palmer.pdsi, ["mp", "mt"], (5.0, 1990, 1990, 2005, fp)),
        ("pci", indices.pci, ["rain"], ()),
        ("to366", utils.transform_to_366day, ["greg"], (1997 + i % 4, 4)), ("togreg", utils.transform_to_gregorian, ["leap"], (1999,)),
        ("lmoments", lmoments.fit, ["col"], ()), ("reshape", utils.reshape_to_2d, ["col"], (12,)),
        ("reshape divisions", utils.reshape_to_divs_years_months, ["div"], ()),
        ("zeros", utils.count_zeros_and_non_missings, ["x"], ()),
        ("tolerance", utils.get_tolerance, ["col"], ()), ("sign", utils.sign_change, ["x", "pet"], ()), ("rmse", utils.rmse, ["tmin", "tmax"], ()),
        ("fails: sizes", indices.spei, ["x", "col"], (k, g, T, start, c0, c1)), ("fails: scale", indices.percentage_of_normal, ["x"], (0, start, c0, c1, T)),
        ("fails: latitude", indices.pet, ["t"], (200.0, 1999)), ("fails: pci", indices.pci, ["t"], ()),
    ]
    # the same again with arguments that differ a little, one at a time
    near = [
        ("spi gamma", (k + 1, g, start, c0, c1, T)), ("spi gamma", (k, g, start, c0 + 1, c1, T)), ("spi pearson", (k, p, start, c0, c1 - 1, T)),
        ("spi gamma", (k, g, start + 1, c0, c1, T)), ("spi given", (k, g, start, c0, c1, T, dict(pg, beta=pg["beta"] * 1.01))),
        ("spi given p", (k, p, start, c0, c1, T, dict(pp, skew=pp["skew"] + .01))),
        ("spei gamma", (k + 1, g, T, start, c0, c1)), ("spei pearson", (k, p, T, start, c0, c1 - 1)),
        ("pnp", (k + 1, start, start, start + ny - 1, T)), ("pnp", (k, start, start + 1, start + ny - 2, T)),
        ("gamma parameters", (start, c0 + 1, c1, T)), ("pearson parameters", (start, c0, c1 - 1, T)),
        ("transform gamma given", (start, c0, c1, T, pg["alpha"] * 1.01, pg["beta"])),
        ("pet", (la + float(rng.uniform(.01, .4)), 1999)), ("pet", (-la, 1999)), ("pet", (la, 2000)), ("pet 2d", (33.0 + 10 ** -float(rng.integers(1, 4)), 1999)),
        ("thornthwaite", (-12.0, 1997)), ("thornthwaite", (-12.2, 1996)), ("hargreaves", (45.3,)), ("hargreaves 2d", (-45.0,)),
        ("pdsi", (5.01, 1990, 1990, 2005)), ("pdsi", (5.0, 1990, 1991, 2005)), ("pdsi", (5.0, 1990, 1990, 2006)),
        ("pdsi given", (5.0, 1990, 1990, 2005, dict(fp, beta=np.full(12, .31)))),
        ("to366", (1997 + (i + 1) % 4, 4)), ("togreg", (2000,)), ("reshape", (5,)),
    ]
    by = {c[0]: c for c in calls}
    near = [(f"{m} near{q}", by[m][1], by[m][2], extra) for q, (m, extra) in enumerate(near)]
    near = [near[j] for j in rng.permutation(len(near))[: 14 if tier == "quick" else 28]]
    calls += near

    def watched(extra):
        w = []
        for v in extra:
            if isinstance(v, dict):
                w += [np.asarray(v[m], float) for m in sorted(v)]
                w.append(np.array([float(ord(q)) for q in ",".join(f"{m}:{type(v[m]).__name__}" for m in sorted(v))]))
            elif isinstance(v, np.ndarray):
                w.append(v)
        return w

    def step(tag, c, gen, alone=False, ro=False):
        name, fn, args, extra = calls[c]
        arrs = [A[a] for a in args]
        key = int(i * 1000 + gen * 200 + c)
        if alone:
            out, err = FRESH.ask(fn, (*arrs, *extra))
            rec.emit("hist", ev="call", id=f"C05-{i}-alone{gen}-{name}", key=key, fn=name, before=[], after=[], out=out, err=err)
            return
        before = [enc(v) for v in arrs + watched(extra)]
        if ro:                      # a read-only array must do as well
            for v in arrs:
                v.setflags(write=False)
        r, err = call(fn, *arrs, *extra)
        out = [] if err else flat(r)
        if not err and tag % 3 == 1:     # what the caller does with a result is his own affair
            for v in (r if isinstance(r, tuple) else [r]):
                if isinstance(v, np.ndarray) and v.flags.writeable and v.dtype.kind == "f" and not any(np.shares_memory(v, a) for a in A.values()):
                    v[...] = -55.5
        del r
        if ro:
            for v in arrs:
                v.setflags(write=True)
        after = [enc(v) for v in arrs + watched(extra)]
        changed = before != after
        rec.emit("hist", ev="call", id=f"C05-{i}-{gen}.{tag}-{name}", key=key, fn=name, before=before if changed else [], after=after if changed else [],
                 out=out, err=err)
    for gen in (0, 1):
        if gen:      # the caller changes the arrays in place, leaving their ends, sizes and sums as they are
            for v in ("x", "x2", "pet", "pet2", "t", "tmin", "tmax", "tmean", "mp", "mt", "rain", "greg", "leap", "col", "div"):
                q = A[v].reshape(-1)
                m = q.size // 2
                q[m - 2: m + 3] = np.roll(q[m - 2: m + 3], 1)
        order = [int(c) for c in rng.permutation(len(calls))]
        order = (order if not gen else order[: len(calls) // 2])
        for c in order:
            step(0, c, gen, alone=True)
        order = [order[j] for j in rng.permutation(len(order))] + [order[j] for j in rng.permutation(len(order))]
        for s, c in enumerate(order[: int(len(calls) * (1.6 if not gen else .8))]):
            step(s, c, gen, ro=s % 7 == 6 and not calls[c][0].startswith("fails"))


# ---------------------------------------------------------------- C06
def c06(rec, rng, i, tier):
    n = 366 if i % 7 == 3 else 12
    m = int(rng.integers(1, 3 * n)) if i % 3 else int(rng.integers(1, 30))
    ny = m // n + 1
    x = S.holes(rng, S.precip(rng, max(ny, 2), n), n)[:m]
    if i % 4 == 0:
        x = np.round(x)
        if i % 8 == 4:                                   # sums beyond the range of small integers
            x = np.round(x * 20000 / max(1.0, np.nanmax(np.append(x, 1.0))))
            x = np.where(np.isnan(x), 9.0, x)
    if i % 4 == 1:
        x = x - 40
    long = []
    if i % 6 == 5:                                       # long windows with dry spells as long, nothing missing
        m = int(rng.integers(150, 700))
        x = np.abs(S.precip(rng, m // 12 + 1, 12)[:m])
        x = np.where(np.isnan(x), 3.0, x) * float(rng.choice([1, 1, 1000]))
        k = int(rng.integers(10, m // 2))
        q = int(rng.integers(0, m - k - 2))
        x[q: q + int(rng.integers(k, 2 * k))] = 0.0
        long = [k, k // 2 + 1]
    for k in {*long, 1, 2, int(rng.integers(1, m + 1)), m, m + 1, m + int(rng.integers(1, 20)), int(rng.choice([3, 6, 12, 24]))}:
        res, err = call(compute.sum_to_scale, shape_it(rng, x, 10 ** 9), k)
        out, err = out_of(res, err)
        rec.emit("lib", ev="sum", id=f"C06-{i}-sum-k{k}-m{m}", x=enc(x), k=k, out=out, err=err)
        y = S.negatives(rng, x.copy()) if i % 4 != 1 else x
        arr = shape_it(rng, y, n)
        res, err = call(compute.scale_values, arr, k, P[n])
        out, err = out_of(res, err)
        rec.emit("lib", ev="scale", id=f"C06-{i}-scale-k{k}-m{m}", x=enc(y), k=k, n=n, out=out, shape=list(res.shape) if not err else [], err=err)


# ---------------------------------------------------------------- C07
def c07(rec, rng, i, tier):
    n = 366 if i % 6 == 2 else 12
    ny = int(rng.integers(2, 7)) if n == 366 else int(rng.integers(2, 30)) if i % 3 else int(rng.integers(25, 90))
    x = S.holes(rng, S.cut(rng, S.precip(rng, ny, n), n), n)
    start = int(rng.choice([1895, 1950, 2000]))
    mode = i % 8
    k = int(rng.choice([1, 2, 3, 6, 12]))
    a = int(rng.integers(0, ny))
    b = int(rng.integers(a, ny))
    if mode == 5:
        a, b = 0, ny - 1
    c0, c1 = start + a, start + b
    if i % 5 == 3:
        x = np.round(x)
    if mode == 6:
        c0 = start - int(rng.integers(1, 3))
    if mode == 7:
        c0, c1 = start + int(rng.integers(0, 2)), start + ny + int(rng.integers(0, 4))
    if i % 19 == 0:
        k = int(rng.integers(-1, 1))
    if i % 23 == 5:
        k = x.size + 1
    whole = np.isfinite(x).all() and np.array_equal(x, np.round(x))
    res, err = call(indices.percentage_of_normal, narrow(x) if whole and i % 2 else shape_it(rng, x, 10 ** 9), k, start, c0, c1, P[n])
    out, err = out_of(res, err)
    rec.emit("lib", ev="pnp", id=f"C07-{i}-k{k}-n{n}", x=enc(x), k=k, n=n, start=start, c0=c0, c1=c1, masked=False, out=out, err=err)


# ---------------------------------------------------------------- C08
def c08(rec, rng, i, tier):
    n = 365 + i % 2
    k = (i // 2) % 6
    x = rng.gamma(.3, 12, n)
    x[rng.random(n) < .6] = 0
    if k == 1:       # rain on single days: month boundaries
        x = np.zeros(n)
        d = rng.integers(0, n, 3)
        x[d] = [10, 20, 50]
    elif k == 2:     # rain on first and last days of months
        md = np.cumsum([31, 29 if n == 366 else 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31])
        m = int(rng.integers(0, 12))
        x = np.zeros(n)
        x[md[m] - 1] = 5
        x[md[m] % n] = 7
        x[int(rng.integers(0, n))] += 3
    elif k == 3:
        x[int(rng.integers(0, n))] = np.nan
    elif k == 4:
        x = np.append(x, rng.gamma(.3, 12, 400))[: int(rng.choice([0, 12, 360, 364, 367, 731]))] if i % 4 else x * 1e-3
    elif k == 5 and i % 4 == 0:
        x[:] = np.nan
    if x.size == 0:
        x = np.array([1.0])
    if i % 3 == 1:
        x = np.round(x)
    whole = np.isfinite(x).all() and np.array_equal(x, np.round(x))
    res, err = call(indices.pci, narrow(x) if whole and (i // 12) % 2 else shape_it(rng, x, 10 ** 9))
    out, err = out_of(res, err)
    rec.emit("lib", ev="pci", id=f"C08-{i}-{k}-{n}", x=enc(x), out=out, err=err)


def c08_days(rec, rng, i, tier):
    """every day of both kinds of years"""
    if i >= 200:
        return c08(rec, rng, i - 200, tier)
    for n in (365, 366):
        for d in range(i, n, 200):
            x = np.zeros(n)
            x[d] = 10
            x[::40] += np.arange(1, x[::40].size + 1)
            for lab in ("", "-missing"):
                if lab:
                    x[d] = np.nan
                res, err = call(indices.pci, x.copy())
                out, err = out_of(res, err)
                rec.emit("lib", ev="pci", id=f"C08-day{d}-{n}{lab}", x=enc(x), out=out, err=err)


# ---------------------------------------------------------------- C09
def c09(rec, rng, i, tier):
    for g in _gen("")[i::96 if tier == "quick" else 700]:   # records of the design model
        x = rng.normal(0, 10, g["len"])
        res, err = call(utils.transform_to_366day, x.copy(), g["y0"], g["ny"])
        out, err = out_of(res, err)
        rec.emit("lib", ev="to366", id=f"C09-gen-{g['y0']}-{g['len']}", x=enc(x), y0=g["y0"], ny=g["ny"], out=out, err=err)
        q = [[g["len"] + e, g["y0"]] for e in (-1, 0, 1)]
        q = [[a, b, r if not er else -1] for a, b in q for r, er in [call(utils.gregorian_length_as_366day, a, b)]]
        rec.emit("lib", ev="len366", id=f"C09-gen-{g['y0']}-{g['len']}-len", q=[[a, b, int(r)] for a, b, r in q], err="")
        rec.count("spec_behaviours_replayed")
    y0 = [1895, 1896, 1899, 1900, 1901, 1996, 1999, 2000, 2001, 2003, 2004, 2096, 2099, 2100, 1600, 1700][i % 16]
    y0 += int(rng.integers(0, 4)) if i >= 32 else 0
    ny = int(rng.integers(1, 6)) if i % 3 else int(rng.integers(1, 3)) if i % 2 else int(rng.choice([12, 25]))
    leap = [y % 4 == 0 and (y % 100 != 0 or y % 400 == 0) for y in range(y0, y0 + ny)]
    full = sum(366 if q else 365 for q in leap)
    x = rng.normal(0, 10, full) if i % 2 else np.arange(1.0, full + 1)
    if i % 10 == 4:                                      # sums of neighbours beyond the range of small integers
        x = (30000.0 if i % 20 == 4 else 40000.0) + np.arange(full) % 1000
    if i % 5 == 0:
        x[rng.random(full) < .02] = np.nan
    if i % 7 == 3:   # 28 February or 1 March missing
        x[58] = np.nan
    part = x[: full - int(rng.choice([1, 2, 30, 100, 200, 304, 305, 306, 307, 330, 363, 364]))] if i % 2 and not leap[-1] else x
    for a, lab in ((x, "full"), (part, "part")):
        res, err = call(utils.transform_to_366day, narrow(a, ("i2", "u2", "f4")) if i % 10 == 4 else shape_it(rng, a, 10 ** 9), y0, ny)
        out, err = out_of(res, err)
        rec.emit("lib", ev="to366", id=f"C09-{i}-{y0}-{ny}-{lab}", x=enc(a), y0=y0, ny=ny, out=out, err=err)
        if lab == "full" and not err:
            back, err = call(utils.transform_to_gregorian, np.array(res), y0)
            out, err = out_of(back, err)
            rec.emit("lib", ev="round", id=f"C09-{i}-{y0}-{ny}-round", x=enc(a), out=out, err=err)
    z = rng.normal(0, 1, 366 * ny)
    if i % 9 == 0:
        z = z[: -int(rng.integers(1, 366))]
    if i % 8 == 4:
        z = np.round(z * 9)
    res, err = call(utils.transform_to_gregorian, shape_it(rng, z, 10 ** 9), y0)
    out, err = out_of(res, err)
    rec.emit("lib", ev="togreg", id=f"C09-{i}-{y0}-{ny}-togreg", x=enc(z), y0=y0, out=out, err=err)
    q = []
    for _ in range(40):
        ln, y = int(rng.integers(0, 4000)), int(rng.integers(1890, 2110))
        if rng.random() < .5:
            ln = 365 * int(rng.integers(1, 9)) + int(rng.integers(-1, 4))
        r, err = call(utils.gregorian_length_as_366day, ln, y)
        q.append([ln, y, int(r) if not err else -1])
    rec.emit("lib", ev="len366", id=f"C09-{i}-len", q=q, err="")


# ---------------------------------------------------------------- C10
def c10(rec, rng, i, tier):
    y0 = int(rng.choice([1800, 1850, 1895, 1899, 1900, 1999, 2000, 2001, 2096, 1600, 4]))
    m0 = i % 12 + 1
    ref = int(rng.choice([1800, 1900, 1, 2000, y0]))
    months = int(rng.choice([1, 2, 13, 26, 120, 400, 1300, 3600]))
    kw = {}
    if m0 != 1 or i % 24:
        kw["initial_month"] = m0
    if ref != 1800 or i % 2:
        kw["units_start_year"] = ref
    res, err = call(utils.compute_days, y0, months, **kw)
    out = [int(v) for v in res] if not err else []
    rec.emit("lib", ev="days", id=f"C10-{i}-{y0}-{m0}-{ref}", y0=y0, m0=kw.get("initial_month", 1), ref=kw.get("units_start_year", 1800), months=months, out=out, err=err)


# ---------------------------------------------------------------- C11
def c11(rec, rng, i, tier):
    ny = int(rng.choice([1, 2, 4, 5, 9, 25, 60, 130]))
    t = rng.uniform(-5, 20) + rng.uniform(2, 18) * np.sin(2 * np.pi * np.arange(ny * 12) / 12 + rng.uniform(0, 6)) + rng.normal(0, 2, ny * 12)
    t = S.cut(rng, t, 12) if ny > 1 else t
    if i % 3 == 0:
        t = S.holes(rng, t, 12) if t.size > 24 else t
    if i % 29 == 3:
        t[:] = np.nan
    if i % 17 in (6, 9):                                 # never above freezing (or hardly), very hot
        t = t - rng.uniform(25, 50) if i % 17 == 6 else t + rng.uniform(10, 30)
        if i % 34 == 6:
            t[::12] = np.abs(rng.normal(0, .5, t[::12].size))
    if i % 6 == 5:
        t = np.round(t)
    lat = [rng.uniform(-90, 90), 0.0, 90.0, -90.0, 66.6, -66.6, 23.45, 45.0, rng.uniform(-90, 90), rng.uniform(60, 90)][i % 10]
    if i % 21 == 8:
        lat = float(rng.choice([90.001, -90.5, np.nan, np.inf, 1000, -91]))
    start = int(rng.choice([1895, 1896, 1899, 1900, 1997, 1999, 2000, 2001, 2096, 2099, 2100]))
    arr = narrow(t) if i % 12 == 5 else shape_it(rng, t, 12)
    if i % 15 == 9:
        lat = float(np.float32(lat))
    elif i % 15 == 10 and abs(lat) <= 90:
        lat = float(round(lat))
    la = np.array([lat, lat]) if i % 15 == 4 else np.float32(lat) if i % 15 == 9 else int(lat) if i % 15 == 10 and abs(lat) <= 90 else lat
    res, err = call(indices.pet, arr, la, start)
    out, err = out_of(res, err)
    rec.emit("lib", ev="thorn", id=f"C11-{i}-lat{lat:.2f}-{start}", x=enc(t), lat=f64(lat), start=start, out=out, err=err)
    if i % 3 == 1 and -90 <= lat <= 90 and not np.isnan(t).all():
        res, err = call(eto.eto_thornthwaite, shape_it(rng, t, 12), lat, start)
        out, err = out_of(res, err)
        rec.emit("lib", ev="thorn", id=f"C11-{i}-eto", x=enc(t), lat=f64(lat), start=start, out=out, err=err)


# ---------------------------------------------------------------- C12
def c12(rec, rng, i, tier):
    m = int(rng.choice([1, 30, 60, 200, 365, 366, 400, 732, 1000, 1830, 3661]))
    tmean = rng.uniform(-20, 30) + 10 * np.sin(np.arange(m) / 58) + rng.normal(0, 3, m)
    tmin = tmean - rng.gamma(2, 2, m)
    tmax = tmean + rng.gamma(2, 2, m)
    if i % 3 == 0:
        for a in (tmin, tmax, tmean):
            a[rng.random(m) < .02] = np.nan
    if i % 5 == 2:
        q = rng.integers(0, m, 3)
        tmin[q], tmax[q] = tmax[q], tmin[q]
    lat = [0.0, 45.0, -45.0, 66.9, -70.0, 90.0, -90.0, 80.0, rng.uniform(-90, 90), rng.uniform(-90, 90)][i % 10]
    if i % 4 == 3:
        tmin, tmax, tmean = np.round(tmin), np.round(tmax), np.round(tmean)
    a = [tmin, tmax, tmean]
    if i % 11 == 6:
        q = int(rng.integers(0, 3))
        a[q] = np.append(a[q], 1.0)
    if m % 366 == 0 and i % 2:
        args = [v.reshape(-1, 366).copy() if v.size == m else v for v in a]
    else:
        args = [narrow(v) if i % 8 == 3 else shape_it(rng, v, 10 ** 9) for v in a]
    res, err = call(eto.eto_hargreaves, *args, lat)
    out, err = out_of(res, err)
    rec.emit("lib", ev="harg", id=f"C12-{i}-m{m}-lat{lat:.1f}", tmin=enc(a[0]), tmax=enc(a[1]), tmean=enc(a[2]), lat=f64(lat), out=out, err=err)


# ---------------------------------------------------------------- Palmer
CAL = np.array([0.5, -0.5] * 6)
UNIT = dict(alpha=np.ones(12), beta=np.zeros(12), gamma=np.zeros(12), delta=np.zeros(12))


def run_z(z, base=60.0, pad=True):
    """choose precipitation so that Z follows z: with alpha one and the other
    coefficients zero the departure is precipitation minus PET"""
    z = np.asarray(z, float)
    if pad:
        z = np.append(z, np.zeros(-z.size % 12))
    pet = np.full(12 + z.size, base)
    fp = {k: v.copy() for k, v in UNIT.items()}
    r, err = call(palmer.pdsi, pet + np.concatenate([CAL, 0 * z]), pet, 5.0, 2000, 2000, 2000, fp)
    if err:
        return None, err
    ak = r[3][0] / 0.5
    return call(palmer.pdsi, pet + np.concatenate([CAL, z / ak]), pet, 5.0, 2000, 2000, 2000, fp)


def palmer_event(rec, rid, r, err):
    if not err and not (isinstance(r, tuple) and len(r) == 5):
        err = "unexpected result"
    if err:
        rec.emit("lib", ev="same", id=rid, law="computation", a=[], b=[], upto=0, tol=f64(0), err=err)
        return
    if np.isnan(r[3]).any():
        return
    rec.emit("palmer", id=rid, z=enc(r[3]), pdsi=enc(r[0]), phdi=enc(r[1]), pmdi=enc(r[2]))


def spell_series(rng, i):
    n = 12 * int(rng.integers(2, 20))
    k = i % 8
    if k == 0:
        z = rng.normal(0, rng.choice([.3, .8, 1.5, 3]), n)
    elif k == 1:      # persistent
        z = np.convolve(rng.normal(0, 1.5, n + 11), np.ones(12) / 4, "valid")[:n]
    elif k == 2:      # spells of random length and strength
        z = np.concatenate([np.full(int(rng.integers(1, 9)), rng.normal(0, 1.5)) for _ in range(n)])[:n]
    elif k == 3:      # an established spell decaying around the ending threshold
        z = np.concatenate([np.full(4, rng.choice([-3, 3])), rng.normal(0, .3, n)])[:n]
    elif k == 4:      # long undecided
        z = np.concatenate([np.full(3, rng.choice([-2., 2.])), rng.uniform(-.5, .5, n)])[:n]
    elif k == 5:      # alternating
        z = rng.choice([-1, 1], n) * rng.uniform(.1, 2.5, n)
    elif k == 6:      # mostly nothing
        z = np.where(rng.random(n) < .15, rng.normal(0, 3, n), 0.0)
    else:             # weak
        z = rng.uniform(-.4, .4, n)
    return z


class Steer:
    """Where Palmer's decisions lie from here on: only used to choose Z close to them"""

    def __init__(self):
        self.x1 = self.x2 = self.x3 = self.v = self.pro = 0.0

    def step(self, z):
        x1, x2, x3, v, pro = self.x1, self.x2, self.x3, self.v, self.pro
        p3 = pr = pv = 0.0
        grown = .897 * x3 + z / 3
        calm = pro in (0, 100)
        if not (calm and abs(x3) <= .5):
            s = 1 if x3 > 0 else -1
            pv = s * (s * z - .15) + s * min(s * v, 0)
            if (calm and s * z >= .15) or s * pv >= 0:
                self.x1 = self.x2 = self.v = self.pro = 0.0
                self.x3 = grown
                return
            q = -2.691 * x3 + 1.5 * s + (0 if pro == 100 else v)
            pr = 100 * pv / q if q else 100.0
            pr, p3 = (100.0, 0.0) if pr >= 100 else (pr, grown)
        a, b = max(0.0, .897 * x1 + z / 3), min(0.0, .897 * x2 + z / 3)
        if p3 == 0 and a >= 1:
            a, b, p3 = 0.0, 0.0, a
        elif p3 == 0 and b <= -1:
            a, b, p3 = a, 0.0, b
        self.x1, self.x2, self.x3, self.v, self.pro = a, b, p3, pv, pr

    def edges(self):
        x3, v = self.x3, self.v
        e = [3 * (1 - .897 * self.x1), 3 * (-1 - .897 * self.x2), -2.691 * self.x1, -2.691 * self.x2, .15, -.15]
        if x3:
            s = 1 if x3 > 0 else -1
            need = -2.691 * x3 + 1.5 * s
            e += [3 * (w - .897 * x3) for w in (.5, -.5, 0.0)]
            e += [.15 * s - s * min(s * v, 0)]                                                     # the ending fizzles out
            e += [s * .15 + (need + (0 if self.pro == 100 else v)) - s * min(s * v, 0)] * 3        # the spell just ends
        return e


def edge_series(rng):
    """months that come close to every threshold, from either side, and long undecided stretches"""
    s, z = Steer(), []
    n = 12 * int(rng.integers(4, 16))
    hold, size = 0, 1e-6
    while len(z) < n:
        if hold:                                       # x1 and x2 both wither away: nothing is decided
            c = size * (-1) ** hold
            hold -= 1
        elif abs(s.x3) > .6 and s.pro in (0, 100) and rng.random() < .2:
            # an established spell nearly steady: comes down to a half
            k = np.sign(s.x3)
            d = rng.choice([-1, 1, 1]) * 10 ** rng.uniform(-6, -2.2)
            for _ in range(60):
                if .897 * abs(s.x3) + .05 <= .5 + d or .897 * abs(s.x3) + .0502 <= .5:
                    break
                z.append(k * .1503)
                s.step(z[-1])
            c = k * max(.1500001, 3 * (.5 + d - .897 * abs(s.x3)))
            z.append(float(c))
            s.step(z[-1])
            c = k * rng.choice([.14, .16, .2, -.1, -1.0])
        elif s.x1 and s.x2 and rng.random() < .15:
            hold, size = int(rng.choice([20, 38, 39, 40, 41, 60, 90, 130])), 10 ** rng.uniform(-7, -3)
            n += hold
            continue
        elif rng.random() < .55:
            e = [q for q in s.edges() if abs(q) < 12]
            c = e[int(rng.integers(0, len(e)))] + rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -1.5)
        else:
            c = rng.choice([rng.normal(0, 1.5), rng.normal(0, .3), rng.choice([-1, 1]) * rng.uniform(2, 6)])
        z.append(float(c))
        s.step(z[-1])
    return np.array(z)


def c13(rec, rng, i, tier):
    gen = _gen()
    if i < len(gen) and i < 5000:
        # behaviours of the design model, in lattice units of a tenth (slightly off, to stay clear of ties)
        z = np.array(gen[i], float) / 10.0 + 0.00137
        r, err = run_z(np.concatenate([z, np.zeros(3)]) if i % 3 else z, pad=i % 2 == 0)
        palmer_event(rec, f"C13-gen{i}", r, err)
        rec.count("spec_behaviours_replayed")
        if i % 4:
            return
    if i % 5 == 4:
        z = spell_series(rng, i // 5)
        # long undecided stretch
        z = np.concatenate([np.full(6, rng.choice([-4., 4.])), np.full(int(rng.integers(20, 150)), rng.choice([.001, -.001, .14, -.14, .05])), z])
    else:
        z = spell_series(rng, i)
    r, err = run_z(z[:z.size - i % 12] if i % 2 else z, pad=False)
    palmer_event(rec, f"C13-{i}", r, err)
    for j in range(2 if tier == "quick" else 4):
        r, err = run_z(edge_series(rng), pad=j % 2 == 0)
        palmer_event(rec, f"C13-{i}-edges{j}", r, err)
    if i % 3 == 0:
        p, pet, awc, start, c0, c1, _ = palmer_input(rng, i)
        r, err = call(palmer.pdsi, p, pet, awc, start, c0, c1)
        palmer_event(rec, f"C13-{i}-climate", r, err)


_GEN = None


def _gen(key="z"):
    global _GEN
    if _GEN is None:
        import json
        import os
        _GEN = []
        p = os.environ.get("GEN", "")
        if p and os.path.exists(p):
            _GEN = [json.loads(q)[key] if key else json.loads(q) for q in open(p) if q.strip()]
    return _GEN


def palmer_input(rng, i):
    ny = int(rng.choice([3, 5, 10, 20, 35, 62, 110] if i % 4 == 0 else [3, 5, 10, 20, 35]))
    n = 12 * ny
    k = i % 7
    p = rng.gamma(.8, 3, n) * rng.choice([.3, 1, 2])
    if k == 1:
        p[rng.random(n) < .3] = 0
    if k == 2:
        p[rng.integers(0, n, 4)] = -1.0
    if k == 3:
        p = p * (1.2 + np.sin(np.arange(n) * np.pi / 6))
    pet = np.clip(3 + 2.5 * np.sin(np.arange(n) * np.pi / 6) + rng.normal(0, .5, n) - rng.choice([0, 2]), 0, None)
    if k == 4:
        pet[np.arange(n) % 12 < 2] = 0     # frozen months
    if k == 5:
        pet *= 3
    if i % 11 == 4:                    # hardly any demand or rain in some calendar months
        q = np.arange(n) % 12
        for v in (pet, p):
            m = int(rng.integers(0, 12))
            v[q == m] = rng.uniform(0, 2, v[q == m].size) * 10 ** rng.uniform(-5, -2.5)
    if i % 9 == 5:
        p, pet = np.round(p), np.round(pet)
    awc = float(rng.choice([.5, 1, 1.7, 2.25, 5, 9.3]))
    start = 1990
    c0 = start + int(rng.integers(0, ny - 1))
    c1 = int(rng.integers(c0 + 1, start + ny))
    if i % 3 == 0:
        c0, c1 = start, start + ny - 1
    if i % 8 in (2, 3, 6):                               # the last year is not complete
        q = int(rng.integers(1, 12))
        p, pet, c1 = p[:-q], pet[:-q], min(c1, start + ny - 2)
        c0 = min(c0, c1)
    return p, pet, awc, start, c0, c1, ny


def coeffs(d):
    names = ("alpha", "beta", "gamma", "delta")
    return {m: enc(d[m]) if isinstance(d, dict) and m in d else [] for m in names}


def balance_event(rec, rid, p, pet, awc, start, c0, c1, par, r, err):
    if not err and not (isinstance(r, tuple) and len(r) == 5):
        err = "unexpected result"
    rec.emit("bal", id=rid, p=enc(p), pet=enc(pet), awc=f64(awc), start=start, c0=c0, c1=c1, par=par,
             z=enc(r[3]) if not err else [], opar=coeffs(r[4]) if not err else [], err=err)


def c14(rec, rng, i, tier):
    p, pet, awc, start, c0, c1, ny = palmer_input(rng, i)
    if i % 25 == 7:
        p[:] = np.nan
    if i % 25 in (9, 12, 17, 21):                        # different sizes, also with the same number of years
        q = 12 if i % 2 else int(rng.integers(1, 12))
        p, pet = (p[:-q], pet) if i % 25 in (12, 21) else (p, pet[:-q])
    a, b = shape_it(rng, p, 12), shape_it(rng, pet, 12)
    if i % 7 == 2:                                       # whole amounts in narrow types
        p, pet = np.round(np.where(np.isnan(p), 9.0, p)), np.round(np.where(np.isnan(pet), 9.0, pet))
        a, b = narrow(p), narrow(pet)
    elif i % 5 == 1:                                     # missing months: after the calibration years the months before them are judged
        p, pet = p.copy(), pet.copy()
        e = (c1 - start + 1) * 12
        v = (p, pet)[i % 2]
        if e < v.size:
            v[rng.integers(e, v.size, int(rng.integers(1, 4)))] = np.nan
            p[rng.integers(0, p.size, 3)] = -2.0
        a, b = shape_it(rng, p, 12), shape_it(rng, pet, 12)
    r, err = call(palmer.pdsi, a, b, awc, start, c0, c1)
    balance_event(rec, f"C14-{i}", p, pet, awc, start, c0, c1, [], r, err)


def c24(rec, rng, i, tier):
    p, pet, awc, start, c0, c1, ny = palmer_input(rng, i)
    r, err = call(palmer.pdsi, shape_it(rng, p, 12), shape_it(rng, pet, 12), awc, start, c0, c1)
    balance_event(rec, f"C24-{i}", p, pet, awc, start, c0, c1, [], r, err)
    if err or np.isnan(r[3]).any():
        return

    def same(lab, a, b, upto=10 ** 6, tol=1e-7):
        rec.emit("lib", ev="same", id=f"C24-{i}-{lab}", law=lab, a=enc(a), b=enc(b), upto=upto, tol=f64(tol), err="")
    pv = np.concatenate([np.asarray(r[4][m], float) for m in ("alpha", "beta", "gamma", "delta")])
    # change everything after the calibration years
    e = (c1 - start + 1) * 12
    if e < p.size:
        p2, pet2 = p.copy(), pet.copy()
        p2[e:] = rng.gamma(1, 9, p.size - e)
        pet2[e:] = pet2[e:] * rng.uniform(0, 3)
        r2, err = call(palmer.pdsi, p2, pet2, awc, start, c0, c1)
        balance_event(rec, f"C24-{i}-later", p2, pet2, awc, start, c0, c1, [], r2, err)
        if not err:
            same("coefficients unaffected by later data", pv, np.concatenate([np.asarray(r2[4][m], float) for m in ("alpha", "beta", "gamma", "delta")]))
            same("earlier anomalies unaffected by later data", r[3][:e], r2[3][:e])
    # give them back
    fp = {m: (np.array(v), list(v), tuple(v))[i % 3] for m, v in r[4].items()}
    r3, err = call(palmer.pdsi, p.copy(), pet.copy(), awc, start, c0, c1, fp)
    balance_event(rec, f"C24-{i}-given", p, pet, awc, start, c0, c1, coeffs(r[4]), r3, err)
    if not err:
        for j, lab in enumerate(("PDSI", "PHDI", "PMDI", "Z")):
            same(f"{lab} reproduced from returned coefficients", r[j], r3[j])
    # arbitrary sets are used as given
    fq = {m: rng.uniform(.1, 1, 12) for m in fp}
    names = list(fq)
    if i % 4 == 1:                                       # a set without any effect
        fq[names[i // 4 % 4]] = np.zeros(12)
    elif i % 4 == 2:
        fq[names[i // 4 % 4]] = np.full(12, float(rng.choice([1.0, .25])))
        fq[names[(i // 4 + 1) % 4]][rng.integers(0, 12, 5)] = 0.0
    elif i % 4 == 3:
        fq[names[i // 4 % 4]] = rng.integers(0, 2, 12)
    r4, err = call(palmer.pdsi, p.copy(), pet.copy(), awc, start, c0, c1, {m: (list(v) if i % 2 else v) for m, v in fq.items()})
    balance_event(rec, f"C24-{i}-arbitrary", p, pet, awc, start, c0, c1, coeffs({m: np.asarray(v, float) for m, v in fq.items()}), r4, err)
    # incomplete or wrongly sized sets are ignored
    bad = dict(fq)
    m = ("alpha", "beta", "gamma", "delta")[i % 4]
    if i % 3 == 0:
        del bad[m]
    elif i % 3 == 1:
        bad[m] = bad[m][: int(rng.choice([0, 1, 11]))]
    else:
        bad[m] = np.append(bad[m], 1.0) if i % 2 else None
    r5, err = call(palmer.pdsi, p.copy(), pet.copy(), awc, start, c0, c1, bad)
    balance_event(rec, f"C24-{i}-incomplete", p, pet, awc, start, c0, c1, [], r5, err)


# ---------------------------------------------------------------- C21
def c21(rec, rng, i, tier):
    daily = i % 10 == 6
    x, n, ny, start, c0, c1 = base_event(rng, daily)
    k = scale_for(rng, n, ny)
    dist = ("gamma", "pearson")[i % 2]
    kind = ("spi", "spei")[(i // 2) % 2]
    c21_given(rec, np.random.default_rng([i, 21]), i, 12)
    if i % 7 == 3:                        # outliers beyond the calibrated range
        y = x[: x.size // n * n].reshape(-1, n)
        y[-1] *= rng.choice([0.0, .1, 3.0, 12.0])
        c0, c1 = start, start + ny - 2
    pet = pet_like(rng, x.size, n) if kind == "spei" else None
    if np.isnan(x).all():
        return
    common = dict(x=enc(x), pet=enc(pet) if pet is not None else [], k=k, n=n, dist=dist, start=start, c0=c0, c1=c1)

    def run(xx, pp, st, a, b, kk=k):
        if kind == "spi":
            return call(indices.spi, xx.copy(), kk, D[dist], st, a, b, P[n])
        return call(indices.spei, xx.copy(), pp.copy(), kk, D[dist], P[n], st, a, b)
    r, err = run(x, pet, start, c0, c1)
    if err:
        return          # degenerate sample: C01/C02 decide whether it may fail
    rec.emit("lib", ev="order", id=f"C21-{i}-order-{kind}-{dist}", out=enc(r), err="", **common)

    def pair(lab, b, err, perm=[], **kw):
        q = dict(common)
        q.update(kw)
        rec.emit("lib", ev="pair", id=f"C21-{i}-{lab}-{kind}-{dist}", law=lab, a=enc(r), b=enc(b) if not err else [], perm=perm, err=err, **q)
    sh = int(rng.choice([-3, 1, 4, 100]))
    b, err = run(x, pet, start + sh, c0 + sh, c1 + sh)
    pair("shifted years", b, err)
    if kind == "spi" and dist == "gamma":
        lam = float(rng.choice([25.4, 1 / 25.4, 0.001, 1000.0, 3.7]))
        b, err = run(x * lam, pet, start, c0, c1)
        pair("units", b, err)
    if (c0 < start or c1 > start + ny - 1 or (c0 == start and c1 == start + ny - 1)) and x.size == ny * n:
        r1, err1 = run(x, pet, start, c0, c1, 1)
        if not err1:
            order = rng.permutation(ny)
            ix = (order[:, None] * n + np.arange(n)).ravel()
            b, err = run(x[ix], None if pet is None else pet[ix], start, c0, c1, 1)
            r = r1
            pair("reordered years", b, err, perm=[int(q) + 1 for q in ix], k=1)


def c21_given(rec, rng, i, n):
    """order under given parameters: totals over the whole range, also at and beyond the bounds"""
    dist = ("gamma", "pearson")[i % 2]
    q = [0.0, .1, .4]
    if dist == "gamma":
        par = dict(alpha=10 ** rng.uniform(-.5, 1.5, n), beta=10 ** rng.uniform(-1, 2, n))
        mid, wide = par["alpha"] * par["beta"], np.sqrt(par["alpha"]) * par["beta"]
    else:
        par = dict(prob_zero=rng.choice(q, n), loc=rng.uniform(30, 200, n), scale=10 ** rng.uniform(0, 1.7, n), skew=rng.choice([-1, 1], n) * 10 ** rng.uniform(-1.5, .4, n))
        mid, wide = par["loc"], par["scale"]
    rows = [np.maximum(mid + f * wide, 0.0) for f in (-20, -6, -3.2, -2, -1, -.3, 0, .2, .7, 1, 1.7, 2.4, 3.1, 4, 6, 9, 40)]
    if dist == "pearson":
        b = par["loc"] - 2 * par["scale"] / par["skew"]
        rows += [np.maximum(b + f * par["scale"], 0.0) for f in (-3, -.5, -.05, -1e-3, -1e-5, 1e-5, 1e-3, .05, .5, 3)]
    rows += [np.full(n, v) for v in (0.0, .0001, .0004, .0006, .01, 1e5)]
    x = np.array(rows)[rng.permutation(len(rows))]
    x[rng.random(x.shape) < .03] = np.nan
    start = 1950
    pet = []
    if i % 4 < 2:
        r, err = call(indices.spi, x.reshape(-1), 1, D[dist], start, start, start + len(rows) - 1, P[n], par)
    else:
        pet = np.full(x.size, 1000.0)        # so that the balance is the amount
        pet[rng.random(x.size) < .05] += 500
        r, err = call(indices.spei, x.reshape(-1), pet, 1, D[dist], P[n], start, start, start + len(rows) - 1, par)
    out, err = out_of(r, err)
    rec.emit("lib", ev="order", id=f"C21-{i}-given-{dist}", x=enc(x), pet=enc(pet) if len(pet) else [], k=1, n=n, dist=dist, start=start, c0=start, c1=start + len(rows) - 1, out=out, err=err)


# ---------------------------------------------------------------- C26
def some_values(rng, m, holes=True):
    x = rng.normal(0, 10.0 ** rng.integers(-2, 4), m)
    k = rng.integers(0, 4)
    if k == 0:
        x = np.round(x)
    elif k == 1:
        x[rng.random(m) < .3] = 0.0
    if holes and rng.random() < .5:
        x[rng.random(m) < rng.choice([.1, .5, 1.0])] = np.nan
    return x


def any_shape(rng, m):
    """a shape of m elements"""
    opts = [(m,)] + [(q, m // q) for q in (2, 3, 4) if m % q == 0] + [(2, m // 6, 3) for _ in range(1) if m % 6 == 0]
    return opts[int(rng.integers(0, len(opts)))]


def helper(rec, rid, op, res, err, x, shape, **more):
    out, o = [], []
    if not err:
        try:
            a = np.asarray(res)
            out, o = enc(a.astype(float)), list(a.shape)
        except Exception:  # noqa: BLE001
            err = f"result is {type(res).__name__}"
    rec.emit("lib", ev="help", id=rid, op=op, x=enc(x), shape=[int(q) for q in shape], out=out, oshape=o, err=err, **more)


def c26(rec, rng, i, tier):
    # rows
    n = int(rng.choice([12, 366, 1, 5, 12]))
    m = int(rng.integers(1, 6 * n + 3)) if i % 3 else n * int(rng.integers(1, 5))
    x = some_values(rng, m)
    a = shape_it(rng, x, 10 ** 9)
    shape = (m,)
    if i % 4 == 1 and m % n == 0 or i % 16 == 3:
        q = n if i % 4 == 1 else next((d for d in (n + 1, 7, 5, 3, 2, 1) if m % d == 0))
        shape = (m // q, q)
        a = a.reshape(shape)
    elif i % 16 == 7:
        shape = (1, 1, m)
        a = a.reshape(shape)
    helper(rec, f"C26-{i}-rows{n}-{'x'.join(map(str, shape))}", "rows", *call(utils.reshape_to_2d, a, n), x, shape, n=n)
    # divisions
    d, y = int(rng.integers(1, 5)), int(rng.integers(1, 7))
    shape = [(d, 12 * y), (d, 12), (d, y, 12), (d, 12 * y + int(rng.integers(1, 12))), (12 * y,), (d, 12, y + 12), (d, y * 12), (d, y * 12)][i % 8]
    x = some_values(rng, int(np.prod(shape)))
    a = x.reshape(shape)
    if rng.random() < .3:
        a = np.asfortranarray(a)
    helper(rec, f"C26-{i}-divs-{'x'.join(map(str, shape))}", "divs", *call(utils.reshape_to_divs_years_months, a), x, shape)
    # signs
    m = int(rng.integers(1, 40)) * (6 if i % 2 else 1)
    x, z = some_values(rng, m, False), some_values(rng, m, False)
    z[rng.random(m) < .2] = 0.0
    k = rng.random(m) < .3
    x[k] = z[k]
    tiny = rng.random(m) < .2
    x[tiny] = np.where(x[tiny] < 0, -1e-12, 1e-200)
    sa, sb = any_shape(rng, m), any_shape(rng, m)
    if i % 9 == 4:
        z = np.append(z, 1.0)
        sb = z.shape
    helper(rec, f"C26-{i}-sign", "sign", *call(utils.sign_change, x.reshape(sa), z.reshape(sb)), x, sa, y=enc(z))
    # counts
    x = some_values(rng, m)
    if rng.random() < .3:
        x = np.where(x == 0, -0.0, x)
    a = x.reshape(any_shape(rng, m))
    a = a.tolist() if i % 5 == 2 else shape_it(rng, x, 10 ** 9) if i % 5 == 3 else a
    helper(rec, f"C26-{i}-count", "count", *call(utils.count_zeros_and_non_missings, a), x, ())
    # something there
    x = some_values(rng, m)
    if i % 6 == 1:
        x = np.full(m, np.nan)
        if i % 12 == 1:
            x[int(rng.integers(0, m))] = float(rng.choice([0.0, -3.5, np.inf]))
    a, is_array, shown = x.reshape(any_shape(rng, m)), True, x
    if i % 4 == 2:
        y = np.where(np.isnan(x), 7.0, x)
        a = np.ma.MaskedArray(y, np.isnan(x))
    elif i % 8 == 5:
        a, is_array = [x.tolist(), None, "values", 3.0][i // 8 % 4], False
    helper(rec, f"C26-{i}-valid", "valid", *call(utils.is_data_valid, a), shown, (), isarray=is_array)
    # errors
    x, z = some_values(rng, m, False), some_values(rng, m, False)
    if i % 7 == 0:
        z = x.copy()
    s = any_shape(rng, m)
    helper(rec, f"C26-{i}-rmse", "rmse", *call(utils.rmse, x.reshape(s), z.reshape(s)), x, s, y=enc(z))
    # coordinates
    m = int(rng.choice([1, 2, 2, 3, 5, 9, 40]))
    x = rng.uniform(-60, 0) + np.cumsum(rng.uniform(.01, 3, m) if i % 3 else np.full(m, rng.choice([.04, .25, .5, 2.5])))
    if i % 4 == 1:
        x = x[::-1].copy()
    if i % 8 == 6:
        x = np.arange(m) * int(rng.integers(1, 5))
    helper(rec, f"C26-{i}-tol", "tol", *call(utils.get_tolerance, x), x, ())
    # L-moments
    m = int(rng.choice([3, 4, 5, 8, 20, 47, 120]))
    kind = i % 8
    x = rng.gamma(rng.choice([.5, 2.0, 20.0]), rng.uniform(1, 30), m)
    if kind == 1:
        x = -x
    elif kind == 2:
        x = rng.normal(5, 3, m)
    elif kind == 3:
        x = np.round(x)
    elif kind == 4:
        x = np.full(m, float(rng.integers(-4, 9))) if rng.random() < .6 else np.exp(rng.normal(0, 2, m))
    elif kind == 6:
        # nearly symmetric
        x = rng.normal(0, 4, m)
        x = np.concatenate((x, -x))
        m = x.size
        x = x + 10.0 ** rng.uniform(-7, -1) * x ** 2 + float(rng.choice([0, 100]))
    elif kind == 7:
        x = x * float(rng.choice([1e-7, 1e5])) + float(rng.choice([0, 1000]))
    if rng.random() < .5:
        x = np.insert(x, rng.integers(0, m, int(rng.integers(1, 4))), np.nan)
    r, err = call(lmoments.fit, x.copy())
    if not err:
        try:
            r = [r["loc"], r["scale"], r["skew"]]
        except Exception:  # noqa: BLE001
            r, err = None, "not the three parameters"
    helper(rec, f"C26-{i}-lfit-m{m}", "lfit", r, err, x, ())


if __name__ == "__main__":
    main({
        "C01": (c01, 240, 2400), "C02": (c02, 200, 2000), "C03": (c03, 160, 1600), "C04": (c04, 120, 1200),
        "C05": (c05, 16, 120), "C06": (c06, 120, 1500), "C07": (c07, 200, 2500), "C08": (c08_days, 500, 3000),
        "C09": (c09, 96, 700), "C10": (c10, 150, 1200), "C11": (c11, 240, 3000), "C12": (c12, 160, 1500),
        "C13": (c13, 700, 7000), "C14": (c14, 200, 2500), "C24": (c24, 80, 900), "C21": (c21, 160, 1600), "C26": (c26, 240, 4000),
    })
