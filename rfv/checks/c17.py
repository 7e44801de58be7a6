"""C17: tables report the recorded history."""

import datetime
import os
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (1300, 110)
THOROUGH = (20000, 780)
RULE = (
    "Tables of random simulations (any schedule, fractional timesteps, wells and "
    "boundaries changed or added between timesteps, all units) are requested with "
    "random columns (all synonyms), boundary, units, melt, scale, drop_nan, drop_zero, "
    "and save; some of the recorded arrays hold rare values (columns which sum to zero, tiny, huge or single values); the monitor rebuilds every table (names, order, values, dates, ids, "
    "coordinates, index, csv file) from the recorded arrays. Non-trivial: distinct "
    "options and structure."
)
NEED = ["table", "melted table", "scaled table", "csv", "date column", "domain", "unusual history"]
SYN = ["t", "time", "d", "date", "q", "rates", "cells", "cells_rate", "p", "pressures", "cells_pressure", "wells", "wells_rate", "wells_pressure"]
CONTENT = {
    "t": ["time"], "time": ["time"], "d": ["date"], "date": ["date"],
    "q": ["cq", "wq"], "rates": ["cq", "wq"], "cells": ["cq", "cp"], "cells_rate": ["cq"],
    "p": ["cp", "wp"], "pressures": ["cp", "wp"], "cells_pressure": ["cp"],
    "wells": ["wq", "wp"], "wells_rate": ["wq"], "wells_pressure": ["wp"],
}
UN = {"field": ("days", "psia", "stb/day"), "metric": ("days", "kpa", "m^3/day"), "lab": ("sec", "atm", "cm^3/sec")}
DEFAULT = {"time": ("MinMax", (0, 1)), "space": ("MinMax", (-1, 1)), "pressure": ("MinMax", (-1, 1)), "rate": (None, None)}
KEYS = {
    "time": ["t", "time", "Time"], "space": ["space", "spatial", "xyz", "x"],
    "pressure": ["p", "pressures", "pressure"], "rate": ["q", "rates", "rate", "Rate"],
}


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.02, huge=0.03, plan=dict(sym=0.05, long=0.03, maxn=4, maxg=3))
    if rng.random() < 0.1:
        c["plan"] = []  # before the first timestep.
    if rng.random() < 0.3:
        c["model"]["dt"] = rng.choice([0.1, 0.25, 0.7, 1.5, 7, 30, 1 / 3])
    tabs = []
    for _ in range(rng.randint(3, 8)):
        cols = rng.sample(SYN, rng.randint(1, 4))
        if rng.random() < 0.15:
            cols = None
        elif rng.random() < 0.2:
            cols = [x.upper() for x in cols]
        t = dict(columns=cols)
        for k, pr in (("boundary", 0.5), ("units", 0.5), ("melt", 0.35), ("scale", 0.3), ("drop_nan", 0.6), ("drop_zero", 0.6), ("save", 0.15)):
            if rng.random() < 0.8:
                t[k] = rng.random() < pr
        if rng.random() < 0.25:
            t["scalers"] = [
                [rng.choice(KEYS[k]), rng.choice([["MinMax", [0, 1]], ["minmaxscaler", [-2, 3]], [None, None]])]
                for k in rng.sample(sorted(KEYS), rng.randint(1, 3))
            ]
        tabs.append(t)
    c["tabs"] = tabs
    c["date"] = rng.choice(["iso", "date", "datetime"])
    c["between"] = rng.random() < 0.4
    c["fake"] = rng.random() < 0.3
    c["seed"] = rng.randrange(10**9)
    return c


def scaled(v, lo, hi, out):
    with np.errstate(all="ignore"):
        return (out[1] - out[0]) * (v - lo) / (hi - lo) + out[0]


class Tables:
    def __init__(self, case, model, ref, obs, start):
        self.case, self.model, self.ref, self.obs, self.start = case, model, ref, obs, start
        self.sc = dict(DEFAULT)
        self.unit = case["model"]["unit"]

    def expected(self, t):
        """[(name, values)] of every column, before anything is dropped."""
        m, g = self.model, self.ref.grid
        sol = m.solution
        n = sol.tstep + 1
        dt = self.case["model"]["dt"]
        bnd, melt, scale = t.get("boundary", True), t.get("melt", False), t.get("scale", False)
        ids = list(range(g.nb)) if bnd else list(g.interior)
        un = UN[self.unit]

        def lab(nm, kk):
            if not t.get("units", False):
                return nm
            if kk == "date":
                return nm + " [d.m.y]"
            if scale and self.sc[kk][0] is not None:
                return nm + " [scaled]"
            return f"{nm} [{un[('time', 'pressure', 'rate').index(kk)]}]"

        def sc(v, kk, data=None):
            if not scale or self.sc[kk][0] is None:
                return np.asarray(v)
            return scaled(np.asarray(v), np.min(data, 0), np.max(data, 0), self.sc[kk][1])

        P = np.array(sol.pressures, dtype=float)
        Q = np.array(sol.rates, dtype=float)
        time = np.array([k * dt for k in range(n)])
        pdat = P[np.isfinite(P)]
        qz = Q[:, (Q != 0).any(axis=0)].ravel()
        out = []
        if melt:
            out.append(("id", np.tile(ids, n)))
            out.append(("Step", np.repeat(np.arange(n), len(ids))))
            ax = ["xyz".index(a) for a in g.fdir]
            cen = g.center[:, ax]
            c = sc(cen, "space", cen)[ids]
            for j, a in enumerate(g.fdir):
                out.append((a, np.tile(c[:, j], n)))
        for col in t["columns"] or ["time", "cells", "wells"]:
            for what in [w for w in ("time", "date", "cq", "cp", "wq", "wp") if w in CONTENT[col.lower()]]:
                if what == "time":
                    v = sc(time, "time", time)
                    out.append((lab("Time", "time"), np.repeat(v, len(ids)) if melt else v))
                elif what == "date":
                    v = np.array([self.date(k) for k in range(n)], dtype=object)
                    out.append((lab("Date", "date"), np.repeat(v, len(ids), axis=0) if melt else v))
                    self.obs.ev("date column")
                elif what in ("cq", "cp"):
                    kk = "rate" if what == "cq" else "pressure"
                    L = what[1].upper()
                    D = Q if what == "cq" else P
                    v = sc(D[:, ids], kk, qz if what == "cq" else pdat)
                    if melt:
                        out.append((lab(L, kk), v.ravel()))
                    else:
                        out += [(lab(f"{L}{i}", kk), v[:, j]) for j, i in enumerate(ids)]
                elif not melt:
                    for w in self.ref.wells:
                        if what == "wq":
                            out.append((lab(f"Qw{w}", "rate"), sc(Q[:, w], "rate", qz)))
                        else:
                            out.append((lab(f"Pwf{w}", "pressure"), sc(np.array(m.w_pressures[w], dtype=float), "pressure", pdat)))
        return out, n

    def date(self, k):
        dt = self.case["model"]["dt"]
        s = k * dt * (1 if self.unit == "lab" else 86400)
        d = self.start + datetime.timedelta(seconds=s)
        return (d + datetime.timedelta(microseconds=500)).strftime("%d.%m.%Y"), (
            d - datetime.timedelta(microseconds=500)
        ).strftime("%d.%m.%Y")

    def check(self, t):
        m = self.model
        if t.get("scalers"):
            d = {k: (v[0], None if v[1] is None else tuple(v[1])) for k, v in t["scalers"]}
            m.set_scalers(d)
            for k, v in t["scalers"]:
                name = next(x for x in KEYS if k in KEYS[x])
                self.sc[name] = (None, None) if v[0] is None else ("MinMax", tuple(v[1]))
        if t.get("scale"):
            if m.solution.tstep == 0:
                return  # nothing to fit the scaler of time to.
            q = np.asarray(m.solution.rates)
            q = q[:, (q != 0).any(axis=0)]
            if self.sc["rate"][0] and (q.size == 0 or q.min() == q.max()):
                return  # constant data can not be scaled.
        kw = {k: t[k] for k in ("boundary", "units", "melt", "scale", "drop_nan", "drop_zero", "save") if k in t}
        if t["columns"] is not None:
            kw["columns"] = list(t["columns"])
        exp, n = self.expected(t)
        with gen.quiet():
            given = list(kw.get("columns", ()))
            df = m.get_df(**kw)
        if list(kw.get("columns", ())) != given:
            fail(f"the list of columns was {given} and is {kw['columns']} after the table")
        melt = t.get("melt", False)
        cols = list(exp)
        num = lambda v: v.dtype != object

        def isnan(v):
            return np.isnan(v.astype(float)) if num(v) else np.zeros(len(v), bool)

        rows = np.ones(len(cols[0][1]) if cols else n, bool)
        if melt:
            if t.get("drop_nan", True):
                for _, v in cols:
                    rows &= ~(isnan(v) if v.ndim == 1 else np.zeros(len(v), bool))
            cols = [(k, v[rows]) for k, v in cols]
        else:
            if t.get("drop_nan", True):
                cols = [(k, v) for k, v in cols if v.ndim == 2 or not isnan(v).all()]
            if t.get("drop_zero", True):
                cols = [(k, v) for k, v in cols if not num(v) or v.ndim == 2 or (v != 0).any()]
        what = f"table {kw}"
        # how often a column asked for twice (by synonyms) comes is nobody's business.
        names = [k for k, _ in cols]
        if len(set(names)) < len(names):
            full, df = df, df.loc[:, ~df.columns.duplicated()]
            cols = [kv for i, kv in enumerate(cols) if kv[0] not in names[:i]]
            self.obs.ev("columns asked for twice")
        else:
            full = df
        if [str(c) for c in df.columns] != [k for k, _ in cols]:
            fail(f"{what}: columns {list(df.columns)}, expected {[k for k, _ in cols]}")
        if not cols:
            return
        if len(df) != int(rows.sum()):
            fail(f"{what}: {len(df)} rows, expected {int(rows.sum())}")
        if list(df.index) != list(range(len(df))):
            fail(f"{what}: index {list(df.index)}")
        if not melt and df.index.name != "Step":
            fail(f"{what}: index name {df.index.name}")
        for j, (k, v) in enumerate(cols):
            o = df.iloc[:, j].to_numpy()
            if v.ndim == 2:  # dates: either side of a rounded midnight
                for x, pair in zip(o, v):
                    if x not in pair:
                        fail(f"{what}: date {x}, expected {pair[0]}")
            else:
                s = float(np.nanmax(np.abs(v.astype(float)))) if len(v) and not isnan(v).all() else 0.0
                mon.same_array(o.astype(float), v.astype(float), f"{what}: column {k}", rtol=1e-9, atol=1e-12 * s + (1e-9 if t.get("scale") else 0))
        if kw.get("save"):
            self.csv(full, what)
        self.obs.ev("melted table" if melt else "table")
        if t.get("scale"):
            self.obs.ev("scaled table")
        self.obs.sig(gen.features(self.case), sorted((k, str(v)) for k, v in t.items()), n)

    def csv(self, df, what):
        import csv

        if os.listdir(".") != ["model_data.csv"]:
            fail(f"{what}: files {os.listdir('.')} were written")
        with open("model_data.csv", newline="") as f:
            rows = list(csv.reader(f))
        os.remove("model_data.csv")
        if rows[0][1:] != [str(c) for c in df.columns] or len(rows) != len(df) + 1:
            fail(f"{what}: the csv file has columns {rows[0]} and {len(rows) - 1} rows")
        for i, r in enumerate(rows[1:]):
            if r[0] != str(df.index[i]):
                fail(f"{what}: index {r[0]} in row {i} of the csv file")
            for x, y in zip(r[1:], df.iloc[i]):
                ok = x == y if isinstance(y, str) else (x == "" if y != y else abs(float(x) - y) <= 1e-12 * abs(y))
                if not ok:
                    fail(f"{what}: value {x} in row {i} of the csv file, expected {y}")
        self.obs.ev("csv")


def domain(model, ref, obs, case):
    """get_time, get_centers, get_domain, get_shape."""
    g = ref.grid
    n = model.solution.tstep + 1
    ax = ["xyz".index(a) for a in g.fdir]
    for bnd in (True, False):
        ids = list(range(g.nb)) if bnd else list(g.interior)
        if tuple(model.get_shape(bnd)) != (n, len(ids)):
            fail(f"get_shape({bnd}) is {model.get_shape(bnd)}, expected {(n, len(ids))}")
        t, x = model.get_domain(False, bnd)
        mon.same_array(t, np.arange(n).reshape(-1, 1) * case["model"]["dt"], "time of the domain", rtol=1e-12)
        mon.same_array(x, g.center[ids][:, ax], "centers of the domain", rtol=1e-12)
        c, f = model.get_centers(False, bnd)
        if list(f) != list(g.fdir):
            fail(f"axes of centers {f}, expected {list(g.fdir)}")
        obs.ev("domain")


def unusual(model, ref, r, obs):
    """Put rare values in the recorded history (tables must report any values)."""
    sol = model.solution
    n = sol.tstep + 1
    P, Q, W = sol.pressures, sol.rates, model.w_pressures
    s = float(np.nanmax(np.abs(P)))

    def column(kk):
        x = r.choice(["pairs", "tiny", "one", "huge", "swap", "ramp"])
        if x == "pairs":  # sums to zero.
            a = gen.u(r, 1, 100)
            v = [a * (-1) ** k for k in range(n)]
            if n % 2:
                v[0] = 0.0
        elif x == "tiny":
            v = [r.choice([0.0, 1e-12, -1e-15, 1e-300]) for _ in range(n)]
        elif x == "one":  # one value only.
            v = [0.0] * n
            v[r.randrange(n)] = gen.u(r, -5, 5)
        elif x == "huge":
            v = [gen.u(r, -1, 1) * 1e12 for _ in range(n)]
        elif x == "swap":
            v = [-gen.u(r, 1, 5) * (k % 2) for k in range(n)]
        else:
            v = [float(k) for k in range(n)]
        return v

    ids = list(range(ref.grid.nb))
    for i in r.sample(ids, r.randint(1, min(4, len(ids)))):
        Q[:n, i] = column("q")
    for i in r.sample(ids, r.randint(0, min(3, len(ids)))):
        P[:n, i] = column("p")
        if r.random() < 0.2:
            P[r.randrange(n), i] = np.nan
    for c in ref.wells:
        if r.random() < 0.5:
            W[c][:] = column("p")
    obs.ev("unusual history")


def run(case, obs):
    start = datetime.datetime(2020, 1, 5)
    c = dict(case)
    c["model"] = dict(case["model"])
    c["model"]["start_date"] = {"iso": "2020-01-05", "date": start.date(), "datetime": start}[case["date"]]
    r = random.Random(case["seed"])
    here = os.getcwd()
    d = os.path.join(here, "t")
    os.makedirs(d, exist_ok=True)
    os.chdir(d)
    try:
        state = {}

        def at(model, ref, sol, *_):
            if "tb" not in state:
                state["tb"] = Tables(c, model, ref, obs, start)
                state["first"] = True
                if case["between"]:
                    return
            tb = state["tb"]
            if case.get("fake") and sol.tstep == total and total:
                unusual(model, ref, r, obs)
            if case["between"] or sol.tstep == total:
                for t in case["tabs"]:
                    if not case["between"] or sol.tstep == total or r.random() < 0.4:
                        tb.check(t)
                domain(model, ref, obs, case)

        total = sum(g["n"] for g in case["plan"])
        with gen.quiet():
            model, ref, sol = sim.execute(c, on_start=at, on_group=at)
        if not case["plan"] or not total:
            for t in case["tabs"]:
                state["tb"].check(t)
    finally:
        for x in os.listdir(d):
            os.remove(os.path.join(d, x))
        os.chdir(here)
