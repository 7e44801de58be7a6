"""C14: independence of objects, inputs are not modified, determinism."""

import copy
import os
import random
import sys
import warnings

import numpy as np
import pandas as pd

from rfv import gen, mon, sim
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (500, 110)
THOROUGH = (20000, 780)
RULE = (
    "Two to four models, each with its own schedule of timesteps and changes, are "
    "driven in one process with their operations interleaved at random; they share "
    "grid, fluid, well objects and condition dictionaries at random. The histories "
    "have to be bit-identical to those of the same workloads driven alone on fresh "
    "objects. Inputs given by the user (lists, arrays, dictionaries, well objects) are "
    "compared before and after, and are overwritten by the user in some runs, which "
    "must not reach the models. Lists, arrays and dictionaries given to queries (tables, "
    "boundaries, scalers) stay as they are. No operation changes settings of the process "
    "(print options, float errors, warning filters, random states, folder, environment, "
    "output streams). Non-trivial: distinct (sharing, structure, schedule)."
)
NEED = ["isolated history", "input unchanged", "overwritten input", "repeated run", "shared grid", "shared fluid", "scalers", "input of a query unchanged", "process", "balance", "printed arrays"]


def gen_case(rng, tier):
    base = sim.gen_sim(rng, tier, big=0.0, plan=dict(sym=0.12, long=0.0, maxn=2))
    specs = [base]
    n = rng.choice([2, 2, 3, 4])
    share_grid = rng.random() < 0.6
    for _ in range(n - 1):
        if share_grid:
            c = copy.deepcopy(base)
            o = sim.gen_sim(rng, tier, big=0.0, unit=base["grid"]["unit"])
            f = copy.deepcopy(o["fluid"])
            if rng.random() < 0.5:
                f = copy.deepcopy(base["fluid"])
            c["fluid"] = f
            resample(rng, c)
        else:
            c = sim.gen_sim(rng, tier, big=0.0, plan=dict(sym=0.1, long=0.0, maxn=2))
        specs.append(c)
    for c in specs:
        if rng.random() < 0.4:
            c["scalers"] = [[rng.random(), gen_scalers(rng)] for _ in range(rng.randint(1, 2))]
        c["looks"] = [[rng.random(), rng.randrange(10**6)] for _ in range(rng.choice([0, 1, 2]))]
    return dict(
        specs=specs, share_grid=share_grid, share_fluid=rng.random() < 0.6,
        arrays=rng.choice(["list", "array", "array"]), overwrite=rng.random() < 0.5,
        seed=rng.randrange(10**9),
    )


def gen_scalers(rng):
    d = {}
    for k in rng.sample(["time", "space", "pressure", "rate"], rng.randint(1, 3)):
        d[k] = rng.choice([[None, None], ["MinMax", (0, rng.randint(1, 9))], ["minmax", (-1, 3)]])
    return d


def resample(rng, c):
    """Another workload for the same grid."""
    ref = gen.RefGrid(c["grid"])
    unit, pref = c["grid"]["unit"], c.get("pref") or c["model"]["pi"]
    inc = not (c["grid"].get("comp") or c["fluid"].get("comp"))
    if c["model"]["pi"] is None and not inc:
        c["model"]["pi"] = pref
    if not inc or rng.random() < 0.5:
        w = gen.gen_wells(rng, ref, unit, pref)
        bcs = gen.gen_bcs(rng, ref, unit, pref, need_p=inc)
        c["acts"] = w + ([dict(op="bcs", d=bcs)] if bcs else [])
    elif not any(a["op"] != "well" for a in c["acts"]) or True:
        bcs = gen.gen_bcs(rng, ref, unit, pref, need_p=True)
        c["acts"] = [a for a in c["acts"] if a["op"] == "well"] + [dict(op="bcs", d=bcs)]
    c["split"] = 0
    c["sparse"] = rng.random() < 0.5
    c["plan"] = sim.gen_plan(rng, c, sym=0.12, long=0.0, maxn=2)


def to_kind(v, how):
    return np.array(v) if how == "array" and isinstance(v, list) else v


def same_input(a, b):
    if isinstance(a, np.ndarray):
        return isinstance(b, np.ndarray) and a.dtype == b.dtype and np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
    if isinstance(a, dict):
        return list(a) == list(b) and all(same_input(a[k], b[k]) for k in a)
    return type(a) is type(b) and a == b


class Inputs:
    """What a user holds and gives to the package."""

    def __init__(self, how):
        self.how = how
        self.held = []

    def give(self, v):
        v = to_kind(copy.deepcopy(v), self.how)
        if isinstance(v, (np.ndarray, list, dict)):
            self.held.append((v, copy.deepcopy(v)))
        return v

    def well(self, a):
        w = gen.rf().wells.SingleCell(cell_id=a["cell"], q=a.get("q"), s=a.get("s"), r=a.get("r"))
        self.held.append((vars(w), copy.deepcopy(vars(w))))
        return w

    def check(self, obs):
        for v, before in self.held:
            if not same_input(v, before):
                fail(f"an input of the user was modified: {before!r} -> {v!r}")
            obs.ev("input unchanged")

    def overwrite(self, obs):
        for v, _ in self.held:
            if isinstance(v, np.ndarray):
                v[...] = 1
            elif isinstance(v, list):
                v[:] = [1] * len(v)
            elif "cell_id" in v:
                v.update(q=-1e-9, r=0.1, s=0)
            elif v:
                for k in list(v):
                    v[k] = ("rate", 1e9)
            obs.ev("overwritten input")
        self.held = []


def mk_grid(g, inp):
    return gen.rf().grids.RegularCartesian(**{k: inp.give(v) for k, v in g.items()})


COLUMNS = ["Time", "P", "q", "Cells", "cells_rate", "WELLS", "date", "rates", "t"]


def process():
    """Settings of the process which every model (and the user) shares."""
    return dict(
        print_options=np.get_printoptions(), float_errors=np.geterr(), filters=list(warnings.filters),
        random=random.getstate(), np_random=[str(x) for x in np.random.get_state()], folder=os.getcwd(),
        environ=dict(os.environ), path=list(sys.path), recursion=sys.getrecursionlimit(),
        stdout=id(sys.stdout), stderr=id(sys.stderr), table=[pd.get_option(k) for k in ("display.max_rows", "display.precision", "mode.copy_on_write")],
    )


def asked(obs, what, f, *args, **kw):
    """A query with containers of the user, which have to stay as they are."""
    before = copy.deepcopy((args, kw))
    out = f(*args, **kw)
    for a, b in zip([*args, *kw.values()], [*before[0], *before[1].values()]):
        if not same_input(a, b):
            fail(f"an input of {what} was modified: {b!r} -> {a!r}")
    obs.ev("input of a query unchanged")
    return out


def look(m, r, obs):
    """Queries of a model, its grid and scalers with lists, arrays and dictionaries."""
    g, sol = m.grid, m.solution
    kind = r.choice(["table", "table", "boundaries", "extract", "dict", "scaler", "balance", "print"])
    f8 = np.asarray(sol.pressures[r.randint(0, sol.tstep)], dtype=float)
    if kind == "table":
        melt = r.random() < 0.4
        asked(obs, "get_df", m.get_df, columns=r.sample(COLUMNS, r.randint(1, 4)), melt=melt, units=r.random() < 0.5,
              boundary=r.random() < 0.5, drop_nan=r.random() < 0.5, drop_zero=r.random() < 0.5)
    elif kind == "boundaries":
        a = f8.copy() if r.random() < 0.5 else f8.reshape(g.get_fshape(True, False)).copy()
        asked(obs, "remove_boundaries", g.remove_boundaries, a, False, r.choice(["both", "left", "right"]))
    elif kind == "extract":
        asked(obs, "extract_boundaries", g.extract_boundaries, f8.copy(), False, r.choice(["array", "list", "tuple"]))
    elif kind == "dict":
        asked(obs, "remove_boundaries", g.remove_boundaries, {"a": f8.copy(), "b": np.arange(len(f8))}, False, "both")
    elif kind == "balance" and sol.tstep > 0:
        with warnings.catch_warnings():
            warnings.simplefilter("always")
            filters, loaded = list(warnings.filters), len(sys.modules)
            sol.check_MB(r.random() < 0.5, r.choice([0.1, -1.0]))
            if list(warnings.filters) != filters and len(sys.modules) == loaded:
                fail(f"check_MB changed the warnings of the process: {warnings.filters[:2]}")
        obs.ev("balance")
    elif kind == "print":
        sol.solve(check_MB=False, update=False, print_arrays=True, isolver=None)
        obs.ev("printed arrays")
    elif kind == "scaler":
        s = gen.rf().scalers.MinMax(output_range=r.choice([(0, 1), (-1, 2)]))
        x = np.array([[r.uniform(-9, 9) for _ in range(3)] for _ in range(4)])
        ax = r.choice([0, None])
        asked(obs, "fit", s.fit, x, axis=ax)
        y = asked(obs, "transform", s.transform, x)
        asked(obs, "inverse_transform", s.inverse_transform, y)
        asked(obs, "fit_transform", s.fit_transform, x, axis=ax)


class Runner:
    """One model and what is left to do with it."""

    def __init__(self, spec, inp, grid=None, fluid=None, wells=None, obs=None):
        self.spec, self.inp, self.obs = spec, inp, obs
        self.grid = grid if grid is not None else mk_grid(spec["grid"], inp)
        self.fluid = fluid if fluid is not None else gen.make_fluid(spec["fluid"])
        self.wells = {} if wells is None else wells
        acts = spec["acts"]
        k = len(acts) - spec.get("split", 0)
        self.todo = [("model",)] + [("act", a) for a in acts[:k]] + [("compile",)]
        self.todo += [("act", a) for a in acts[k:]]
        for g in spec["plan"]:
            self.todo += [("act", a) for a in g["acts"]]
            self.todo += [("step", g)] * (g["n"] if g["how"] == "solve" else 0)
            if g["how"] == "run":
                self.todo.append(("run", g))
        for k, d in spec.get("scalers", []):
            self.todo.insert(1 + int(k * (len(self.todo) - 1)), ("scalers", d))
        for k, seed in spec.get("looks", []):
            j = self.todo.index(("compile",)) + 1
            self.todo.insert(j + int(k * (len(self.todo) - j + 1)), ("look", seed))
        self.model = None

    def step(self):
        before, what, loaded = process(), self.todo[0][0], len(sys.modules)
        self.do()
        if len(sys.modules) != loaded:
            return  # packages loaded on demand have settings of their own.
        after = process()
        for k in before:
            if before[k] != after[k]:
                fail(f"{k} of the process changed with {what}: {before[k]!r:.300} -> {after[k]!r:.300}")
        if self.obs:
            self.obs.ev("process")

    def do(self):
        op = self.todo.pop(0)
        if op[0] == "model":
            self.model = gen.rf().models.BlackOil(self.grid, self.fluid, **self.spec["model"])
        elif op[0] == "act":
            self.act(op[1])
        elif op[0] == "scalers":
            self.model.set_scalers(self.inp.give(op[1]))
        elif op[0] == "look":
            look(self.model, random.Random(op[1]), self.obs)
        elif op[0] == "compile":
            gen.compile_fdm(self.model, self.spec["sparse"])
        elif op[0] == "step":
            sim.drive(self.model, dict(op[1], how="solve", n=1))
        else:
            sim.drive(self.model, op[1])

    def act(self, a):
        if a["op"] == "bcs":
            self.model.set_boundaries(self.inp.give({i: (c, v) for i, c, v in a["d"]}))
        elif a["op"] == "well" and a.get("via") == "object":
            key = repr(sorted(a.items()))
            if key not in self.wells:
                self.wells[key] = self.inp.well(a)
            self.model.set_well(self.wells[key])
        else:
            gen.apply(self.model, a)

    def result(self):
        m, s = self.model, self.model.solution
        q = s.rates[:, (s.rates != 0).any(axis=0)]
        scale = m.scalers_dict["rate"][0] is None or q.size > 0 and q.min() < q.max()
        return dict(
            pressures=s.pressures.copy(), rates=s.rates.copy(), As=np.array(s.As), ds=np.array(s.ds),
            init_p=m.init_pressures.copy(), init_q=m.init_rates.copy(),
            pwf={c: list(v) for c, v in m.w_pressures.items()},
            wells={c: dict(v) for c, v in m.wells.items()}, bdict=dict(m.bdict),
            tstep=(s.tstep, s.nsteps), scalers=dict(m.scalers_dict),
            table=m.get_df(columns=["time", "cells"], scale=scale).to_numpy(dtype=float),
        )


def same_result(a, b, what):
    for k in a:
        if isinstance(a[k], np.ndarray):
            mon.same_array(b[k], a[k], f"{k} of {what}")
        elif repr(a[k]) != repr(b[k]):
            fail(f"{k} of {what}: {b[k]!r}, expected {a[k]!r}")


def run(case, obs):
    r = random.Random(case["seed"])
    specs = case["specs"]
    solo = []
    with gen.quiet():
        for s in specs:
            x = Runner({**s, "looks": []}, Inputs("list"))
            while x.todo:
                x.step()
            solo.append(x.result())
        # again: deterministic.
        x = Runner(specs[0], Inputs(case["arrays"]), obs=obs)
        while x.todo:
            x.step()
        same_result(solo[0], x.result(), "a repeated run")
        obs.ev("repeated run")
        # all together.
        inp = Inputs(case["arrays"])
        runners, grid, fluids, wells = [], None, {}, {}
        for s in specs:
            g = None
            if case["share_grid"]:
                grid = g = grid if grid is not None else mk_grid(s["grid"], inp)
                obs.ev("shared grid")
            f = None
            if case["share_fluid"]:
                key = repr(sorted(s["fluid"].items()))
                if key in fluids:
                    obs.ev("shared fluid")
                f = fluids.setdefault(key, None) or gen.make_fluid(s["fluid"])
                fluids[key] = f
            runners.append(Runner(s, inp, g, f, wells, obs))
        if case["overwrite"]:
            inp.check(obs)
            inp.overwrite(obs)
        trace = []
        live = list(range(len(runners)))
        while live:
            i = r.choice(live)
            trace.append(i)
            runners[i].step()
            if case["overwrite"] and r.random() < 0.3 and not wells:
                inp.check(obs)
                inp.overwrite(obs)
            if not runners[i].todo:
                live.remove(i)
        inp.check(obs)
        for i, x in enumerate(runners):
            same_result(solo[i], x.result(), f"model {i} of {len(runners)} (interleaved)")
            obs.ev("isolated history")
            obs.ev("scalers", len(x.spec.get("scalers", [])))
            a, b = x.model.get_init_arrays()
            a[...] = -7
            b[...] = -7
            x.model.solution.pressures[0, :] = -7
            same_result(dict(init_p=solo[i]["init_p"], init_q=solo[i]["init_q"]),
                        dict(init_p=x.model.init_pressures, init_q=x.model.init_rates), "a model")
    obs.sig(case["share_grid"], case["share_fluid"], case["arrays"], case["overwrite"],
            len(specs), [gen.features(s) for s in specs], trace)
