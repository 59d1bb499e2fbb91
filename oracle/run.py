"""Runtime oracle: replays properties on the real pySLM2 with concrete inputs, against specifications written in NumPy.

It decides nothing on its own in the proof checks: it turns a failed obligation into a failing input of the real code, and stands in
(labelled bounded) where the real function is outside the verifier's reach.

run.py --prop C01 --prec 32 --seed 1 --budget 20 --out F [--hints JSON]      run the cases of a property
run.py --case FILE                                                            replay one recorded case (exit 1: fails)
"""
import argparse
import json
import os
import sys
import time
import traceback
import zlib

os.environ.setdefault("TF_CPP_MIN_LOG_LEVEL", "3")
os.environ.setdefault("CUDA_VISIBLE_DEVICES", "-1")
os.environ.setdefault("TF_ENABLE_ONEDNN_OPTS", "0")
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get("SLMV_REPO", "/repo"))      # development only: a scratch copy
sys.dont_write_bytecode = True

import numpy as np

import fakes


class Bad(Exception):
    pass


class Skip(Exception):
    pass


class Draw:
    """Named random choices: recorded when drawn, fed back on replay"""

    def __init__(self, seed, preset=None, hints=None):
        self.r = np.random.default_rng(seed)
        self.p = dict(preset or {})
        self.h = hints or {}
        self.out = {}

    def _get(self, n, make, ok=lambda x: True):
        x = make()
        if n in self.h and ok(self.h[n]):
            x = type(x)(self.h[n])
        if n in self.p:
            x = self.p[n]
        self.out[n] = x
        return x

    def int(self, n, lo, hi):
        return self._get(n, lambda: int(self.r.integers(lo, hi + 1)), lambda x: lo <= x <= hi)

    def real(self, n, lo, hi):
        return self._get(n, lambda: float(self.r.uniform(lo, hi)), lambda x: lo <= x <= hi)

    def pick(self, n, xs):
        xs = list(xs)
        return xs[self._get(n, lambda: int(self.r.integers(0, len(xs))), lambda x: False)]

    def seed(self, n):
        return np.random.default_rng(self._get(n, lambda: int(self.r.integers(0, 2 ** 31)), lambda x: False))

    def bool(self, n):
        return bool(self._get(n, lambda: int(self.r.integers(0, 2)), lambda x: False))


CASES = {}


def case(prop, n=6, precs=(32, 64)):
    def deco(f):
        CASES.setdefault(prop, []).append((f.__name__, f, n, precs))
        return f
    return deco


class Lib:
    """the real library, loaded with a precision"""

    def __init__(self, prec):
        fakes.install()
        import tensorflow as tf
        self.tf = tf
        fakes.patch_tf(tf)
        import pySLM2
        from pySLM2 import slm, simulation, profile, window, analysis
        self.pk, self.slm, self.sim, self.profile, self.window, self.analysis = pySLM2, slm, simulation, profile, window, analysis
        tf.random.set_seed(4711)
        self.B = pySLM2.BACKEND
        self.prec = prec
        self.B.dtype = tf.float32 if prec == 32 else tf.float64
        self.R = np.float32 if prec == 32 else np.float64
        self.C = np.complex64 if prec == 32 else np.complex128
        self.eps = 1.0 if prec == 32 else 1e-5      # scale of tolerances

    @property
    def ctl(self):
        from pySLM2.util import controller
        return controller


def close(name, got, want, tol, mask=None):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad("%s: shape %s, expected %s" % (name, got.shape, want.shape))
    ok = np.abs(got - want) <= tol
    ok |= np.isnan(got) & np.isnan(want)
    if mask is not None:
        ok = ok | ~np.broadcast_to(mask, ok.shape)
    if not np.all(ok):
        k = tuple(int(x) for x in np.argwhere(~ok)[0])
        raise Bad("%s: %s at %s, expected %s (tolerance %g, %d of %d wrong)" % (
            name, got[k], k, want[k], np.max(np.broadcast_to(tol, ok.shape)), int((~ok).sum()), ok.size))


def same(name, got, want):
    got, want = np.asarray(got), np.asarray(want)
    if got.shape != want.shape:
        raise Bad("%s: shape %s, expected %s" % (name, got.shape, want.shape))
    if not np.array_equal(got, want):
        k = tuple(int(x) for x in np.argwhere(got != want)[0])
        raise Bad("%s: %s at %s, expected %s (%d of %d differ)" % (name, got[k], k, want[k], int((got != want).sum()), got.size))


def true(name, c, *detail):
    if not c:
        raise Bad(name + " " + " ".join(str(d) for d in detail))


def raises(name, cls, f, says=None):
    try:
        f()
    except cls as e:
        if says is not None and says not in str(e):
            raise Bad("%s: the message %r does not say %r" % (name, str(e), says))
        return
    except Exception as e:
        raise Bad("%s: raised %s (%s), expected %s" % (name, type(e).__name__, str(e)[:200], cls.__name__))
    raise Bad("%s: no exception, expected %s" % (name, cls.__name__))


def load_cases():
    import importlib
    for f in sorted(os.listdir(HERE)):
        if f.startswith("cases_") and f.endswith(".py"):
            importlib.import_module(f[:-3])


def one(f, D, L):
    """None, or what fails"""
    try:
        f(D, L)
    except Skip:
        return "skip", ""
    except Bad as e:
        return "bad", str(e)
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        at = [t for t in tb if "/pySLM2/" in t.filename]
        return "bad", "raised %s: %s%s" % (type(e).__name__, str(e)[:400], " at %s:%d" % (at[-1].filename, at[-1].lineno) if at else " in the oracle %s:%d" % (tb[-1].filename, tb[-1].lineno))
    return "ok", ""


def main():
    ap = argparse.ArgumentParser()
    for a in ("--prop", "--out", "--hints", "--case", "--only"):
        ap.add_argument(a)
    ap.add_argument("--prec", type=int, default=32)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--budget", type=float, default=20)
    ap.add_argument("--scale", type=float, default=1)
    a = ap.parse_args()
    sys.modules["run"] = sys.modules["__main__"]
    load_cases()
    if a.case:
        c = json.load(open(a.case))
        c = c.get("case", c)
        if not c:
            print("no failing input recorded")
            return 0
        L = Lib(c["prec"])
        f = [x for x in CASES[c["prop"]] if x[0] == c["name"]][0][1]
        s, d = one(f, Draw(c["seed"], c["params"]), L)
        print(s, d)
        return 1 if s == "bad" else 0
    res = {"prop": a.prop, "prec": a.prec, "seed": a.seed, "cases": [], "failures": []}

    def save():
        if a.out:
            json.dump(res, open(a.out + ".tmp", "w"))
            os.replace(a.out + ".tmp", a.out)
    try:
        L = Lib(a.prec)
    except Exception as e:
        res["failures"].append({"prop": a.prop, "name": "import", "prec": a.prec, "seed": 0, "params": {}, "what": "the package does not load: %s: %s" % (type(e).__name__, str(e)[:300])})
        res["done"] = True
        save()
        return 1
    hints = json.loads(a.hints) if a.hints else []
    t0 = time.time()
    todo = []
    for name, f, n, precs in CASES.get(a.prop, []):
        if a.prec not in precs or a.only and a.only != name:
            continue
        res["cases"].append({"name": name, "ok": 0, "skip": 0, "bad": 0})
        todo.append((res["cases"][-1], f, max(1, int(n * a.scale))))
    k = 0
    while todo:
        todo = [t for t in todo if t[2] > k]
        for rec, f, n in list(todo):
            # the first round is always completed, later rounds as long as there is time
            if k >= 1 and time.time() - t0 > a.budget:
                todo = []
                break
            if rec["bad"] >= 2:
                continue
            seed = [a.seed, zlib.crc32(rec["name"].encode()), k]
            D = Draw(seed, hints=hints[k] if k < len(hints) else None)
            s, d = one(f, D, L)
            rec[s] += 1
            if s == "bad":
                res["failures"].append({"prop": a.prop, "name": rec["name"], "prec": a.prec, "seed": seed, "params": D.out, "what": d})
                save()
        k += 1
    res["done"] = True
    res["wall"] = time.time() - t0
    save()
    if not a.out:
        print(json.dumps(res, indent=1))
    return 1 if res["failures"] else 0


if __name__ == "__main__":
    sys.exit(main())
