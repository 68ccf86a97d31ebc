"""Recording side of the conformance checks (runs under the implementation's
Python, records only what public functions and written files show)."""
import json
import logging
import os
import signal
import struct
import sys
import warnings

warnings.simplefilter("ignore")
import numpy as np  # noqa: E402

np.seterr(all="ignore")
logging.disable(logging.CRITICAL)
NAN = [2146959360, 0]


def f64(v):
    v = float(v)
    return list(struct.unpack(">ii", struct.pack(">d", v))) if v == v else NAN


def enc(a):
    if isinstance(a, np.ma.MaskedArray):
        a = np.ma.filled(a.astype(float), np.nan)
    return [f64(v) for v in np.asarray(a, dtype=float).ravel()]


def dec(s):
    return np.array([struct.unpack(">d", struct.pack(">ii", *v))[0] for v in s])


class TimeUp(BaseException):
    pass


def _alarm(signum, frame):
    raise TimeUp()


def call(fn, *args, limit=60, **kw):
    """(result, '') or (None, error text)"""
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(limit)
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return fn(*args, **kw), ""
    except TimeUp:
        return None, "no answer within the time limit"
    except SystemExit as e:
        return None, f"SystemExit {e.code}" if e.code not in (0, None) else ""
    except Exception as e:  # noqa: BLE001
        return None, (type(e).__name__ + ": " + str(e))[:160].encode("ascii", "replace").decode().replace('"', "'").replace("\\", "/").replace("\n", " ")
    finally:
        signal.alarm(0)


def out_of(res, err):
    """encode a numeric array result; anything else is an error"""
    if err:
        return [], err
    if not isinstance(res, np.ndarray) or res.dtype.kind not in "fiu":
        return [], f"result is {type(res).__name__}"
    return enc(res), ""


class Rec:
    def __init__(self, d):
        self.d = d
        self.files = {}
        self.stats = {}

    def emit(self, kind, **e):
        if kind not in self.files:
            self.files[kind] = open(os.path.join(self.d, kind + ".ndjson"), "w")
        self.files[kind].write(json.dumps(e, separators=(", ", ": ")) + "\n")

    def count(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def close(self):
        for f in self.files.values():
            f.close()
        json.dump(self.stats, open(os.path.join(self.d, "stats.json"), "w"))


def rng_for(prop, seed, i):
    return np.random.default_rng([seed, int(prop[1:]), i])


def main(table):
    prop, tier, seed, shard, shards, d = sys.argv[1:7]
    rec = Rec(d)
    gen, quick, thorough = table[prop]
    n = quick if tier == "quick" else thorough
    for i in range(int(shard), n, int(shards)):
        gen(rec, rng_for(prop, int(seed), i), i, tier)
    rec.close()
