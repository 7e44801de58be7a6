"""C18: scalers are exact, invertible affine maps."""

import random

import numpy as np

from rfv import gen, mon
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (40000, 110)
THOROUGH = (1000000, 780)
RULE = (
    "Random sequences of operations on scalers (fit with axis 0 or None, changed "
    "output ranges, given input ranges, transform, inverse, fit_transform, refits; "
    "1D to 4D arrays of floats and integers of any magnitude, new data outside of the "
    "fitted range) are compared with exact affine maps computed in rational arithmetic; "
    "inverse and transform undo each other, order is kept, ends map to ends, inputs are "
    "not modified, and scalers do not influence each other. Non-trivial: distinct "
    "(operations, shapes, ranges)."
)
NEED = ["transform", "inverse", "round trip", "ends", "rejected", "dummy", "input unchanged"]


def gen_case(rng, tier):
    ops = []
    for _ in range(rng.randint(3, 12)):
        ops.append(rng.choice(["fit", "fit0", "fitN", "fit_transform", "fit_transformN", "transform", "transform", "inverse", "inverse", "range", "new", "newin", "dummy"]))
    return dict(ops=ops, seed=rng.randrange(10**9))


def data(r, nd=None, like=None):
    nd = nd or r.choice([1, 2, 2, 3, 4])
    shape = tuple(r.randint(2, 5) for _ in range(nd)) if like is None else (r.randint(1, 5),) + like[1:]
    if r.random() < 0.01:  # long histories of many cells.
        shape = (r.randint(200, 3000),) + shape[1:]
    mag = 10 ** r.uniform(-6, 7)
    off = r.choice([0, 0, 1, -3]) * mag
    n = int(np.prod(shape))
    v = np.array([off + mag * r.uniform(-1, 1) for _ in range(n)]).reshape(shape)
    k = r.choice(["f8", "f8", "f8", "f8", "f8", "i8", "i8", "f4", "f4", "i1", "u1", "i2"])
    if k == "i8":
        v = np.array([r.randint(-1000, 1000) for _ in range(n)]).reshape(shape)
    elif k in ("i1", "u1", "i2"):  # small integers.
        lo, hi = np.iinfo(k).min, np.iinfo(k).max
        v = np.array([r.choice([lo, hi, r.randint(lo, hi)]) for _ in range(n)], dtype=k).reshape(shape)
    elif k == "f4":
        v = v.astype("f4")
    return v


def out_range(r):
    return r.choice([(0, 1), (-1, 1), (0.0, 1.0), [2, 5], (-3, -1), (1, 0), (10, 1000), (0.25, 0.75), (-1e-3, 1e-3)])


class Shadow:
    """What a scaler has to do."""

    def __init__(self, out, inp=None):
        self.out, self.lo, self.hi = out, None, None
        self.f4 = False  # fitted to single precision
        if inp is not None:
            self.lo, self.hi = np.asarray(inp[0], dtype="longdouble"), np.asarray(inp[1], dtype="longdouble")

    def fit(self, v, axis):
        self.f4 = v.dtype == np.float32
        w = v.astype("longdouble")
        if axis is None:
            self.lo, self.hi = w.ravel()[0], w.ravel()[0]
            for x in w.ravel():
                self.lo, self.hi = min(self.lo, x), max(self.hi, x)
        else:
            self.lo, self.hi = w[0].copy(), w[0].copy()
            for row in w:
                self.lo, self.hi = np.where(row < self.lo, row, self.lo), np.where(row > self.hi, row, self.hi)

    def fwd(self, v):
        a, b = (np.longdouble(x) for x in self.out)
        return a + (b - a) * (v.astype("longdouble") - self.lo) / (self.hi - self.lo)

    def bwd(self, v):
        a, b = (np.longdouble(x) for x in self.out)
        return self.lo + (self.hi - self.lo) * (v.astype("longdouble") - a) / (b - a)

    def usable(self):
        return self.lo is not None and bool(np.all(self.hi > self.lo))

    def shape_ok(self, v):
        return np.ndim(self.lo) == 0 or v.shape[1:] == np.shape(self.lo)


def compare(o, e, what, v, sh):
    eps = 1e-13 if np.asarray(v).dtype != np.float32 and np.asarray(o).dtype != np.float32 and not sh.f4 else 1e-5
    with np.errstate(all="ignore"):
        amp = float(np.max(np.abs(np.concatenate([np.ravel(sh.lo), np.ravel(sh.hi)])) / np.min(sh.hi - sh.lo)))
        amp_v = float(np.max(np.abs(np.asarray(v, dtype=float)))) / float(np.min(sh.hi - sh.lo)) if what == "transform" else 0
        span = max(abs(x) for x in sh.out) + abs(sh.out[1] - sh.out[0])
        k = float(np.max(np.abs(np.asarray(v, dtype=float)))) * 1.0 if what != "transform" else 1.0
    if what == "transform":
        tol = eps * 10 * span * (1 + amp + amp_v)
    else:
        w = float(np.max(sh.hi - sh.lo))
        tol = eps * 10 * (w * (k + span) / abs(sh.out[1] - sh.out[0]) + amp * float(np.min(sh.hi - sh.lo)) + float(np.max(np.abs(e))))
    o = np.asarray(o, dtype="longdouble")
    if o.shape != e.shape:
        fail(f"{what}: shape {o.shape}, expected {e.shape}")
    d = np.abs(o - e)
    if not np.all(d <= tol):
        i = np.unravel_index(int(np.nanargmax(np.where(np.isnan(d), np.inf, d))), d.shape)
        fail(f"{what}: {o[i]} at {i}, expected {e[i]} (tolerance {tol:.3g})")


def run(case, obs):
    r = random.Random(case["seed"])
    S = gen.rf().scalers
    out = out_range(r)
    objs = [[S.MinMax(out), Shadow(tuple(out)), None]]
    trace = []
    for op in case["ops"]:
        cur = r.choice(objs)
        sc, sh, v0 = cur
        trace.append(op)
        if op == "new":
            out = out_range(r)
            objs.append([S.MinMax(output_range=out), Shadow(tuple(out)), None])
            continue
        if op == "newin":
            out = out_range(r)
            lo = r.uniform(-5, 5) * 10 ** r.uniform(-3, 4)
            inp = (lo, lo + 10 ** r.uniform(-3, 4))
            objs.append([S.MinMax(out, r.choice([inp, list(inp)])), Shadow(tuple(out), inp), None])
            continue
        if op == "dummy":
            v = data(r)
            d = S.Dummy(None)
            b = v.copy()
            for w in (d.fit(v).transform(v), d.inverse_transform(v), d.fit_transform(v), d.set_output_range((0, 1)).transform(v)):
                mon.same_array(w, b, "dummy scaler")
            obs.ev("dummy")
            continue
        if op == "range":
            out = out_range(r)
            if sc.set_output_range(out) is not sc:
                fail("set_output_range does not return the scaler")
            sh.out = tuple(out)
            continue
        if op.startswith("fit"):
            v = data(r)
            axis = None if op.endswith("N") else 0
            kw = {} if op in ("fit", "fit_transform") and axis == 0 and r.random() < 0.5 else dict(axis=axis)
            before = v.copy()
            f = sc.fit_transform if "transform" in op else sc.fit
            if axis == 0 and v.ndim > 2:
                try:
                    f(v, **kw)
                except ValueError:
                    obs.ev("rejected")
                else:
                    fail("fit with axis=0 accepted an array of more than 2 dimensions")
                if sh.usable() and v0 is not None:
                    compare(sc.transform(v0), sh.fwd(v0), "transform", v0, sh)
                continue
            with np.errstate(all="ignore"):
                o = f(v, **kw)
            sh.fit(v, axis)
            cur[2] = v
            mon.same_array(v, before, "input of fit")
            obs.ev("input unchanged")
            if "transform" not in op:
                if o is not sc:
                    fail("fit does not return the scaler")
                with np.errstate(all="ignore"):
                    o = sc.transform(v)
            if sh.usable():
                e = sh.fwd(v)
                compare(o, e, "transform", v, sh)
                # ends map to ends.
                lo, hi = sorted(sh.out)
                w = np.asarray(o, dtype=float)
                t = 1e-5 if w.dtype == np.float32 or v.dtype == np.float32 else 1e-9
                t *= max(abs(lo), abs(hi), hi - lo)
                for nm, x in (("min", w.min(axis=axis)), ("max", w.max(axis=axis))):
                    y = lo if nm == "min" else hi
                    if not np.all(np.abs(x - y) <= t):
                        fail(f"{nm} of the fitted data maps to {x}, expected {y}")
                obs.ev("ends")
                obs.ev("transform")
            continue
        if sh.lo is None:
            try:
                getattr(sc, "transform" if op == "transform" else "inverse_transform")(data(r))
            except ValueError:
                obs.ev("rejected")
            else:
                fail(f"{op} of a scaler which is not fitted is accepted")
            continue
        if not sh.usable():
            continue
        v = data(r, like=np.shape(v0) if v0 is not None else None)
        if not sh.shape_ok(v):
            continue
        if r.random() < 0.1 and np.ndim(sh.lo) == 0:
            v = v.ravel()[0]  # a scalar
        b = np.array(v)
        if op == "transform":
            o = sc.transform(v)
            compare(o, sh.fwd(b), "transform", b, sh)
            obs.ev("transform")
            back, e = sc.inverse_transform(o), b.astype("longdouble")
            compare(back, e, "inverse", np.asarray(o, dtype=float), sh) if b.dtype != np.float32 and not sh.f4 else None
        else:
            x = np.array([r.uniform(*sorted(sh.out)) if r.random() < 0.8 else r.uniform(-2, 2) for _ in range(b.size)]).reshape(b.shape)
            v, b = x, x.copy()
            o = sc.inverse_transform(x)
            compare(o, sh.bwd(b), "inverse", b, sh)
            obs.ev("inverse")
            compare(sc.transform(o), b.astype("longdouble"), "transform", np.asarray(o, dtype=float), sh) if np.asarray(o).dtype != np.float32 and not sh.f4 else None
        obs.ev("round trip")
        mon.same_array(np.asarray(v), b, "input")
        obs.ev("input unchanged")
    obs.sig(trace, case["seed"])
