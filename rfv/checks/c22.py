"""C22: threads never change results."""

import os
import random
import threading

import numpy as np

from rfv import core, gen, hook, inject, mon, sim
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (300, 110)
THOROUGH = (12000, 780)
RULE = (
    "Executions with threads while preemptions are injected at random lines of the "
    "package: threaded assembly inside a simulation, simulations of independent models "
    "in several threads (also with a different solver in every thread), simulations of "
    "models which share a grid, and queries of a shared grid. The monitor compares everything with the same execution in one "
    "thread, and checks that an exception raised inside a thread reaches the caller "
    "and leaves the history as it was. Non-trivial: distinct sequence of thread "
    "switches (function, line) which was observed, and structure."
)
NEED = ["threaded assembly", "solvers in threads", "models in threads", "shared grid", "queries", "exception", "thread switch"]
MODES = ["assembly"] * 5 + ["models"] * 3 + ["shared"] * 3 + ["queries"] * 3 + ["exception"] * 2
MODES += ["solvers"] * 3


def before_import():
    hook.install()


def gen_case(rng, tier):
    mode = rng.choice(MODES)
    small = dict(big=0.0, plan=dict(maxn=2, maxg=2, long=0.0, thr=0.5))
    if mode in ("assembly", "exception"):
        c = sim.gen_sim(rng, tier, big=0.0, plan=dict(maxn=2, maxg=2, long=0.0, sym=1.0))
        for g in c["plan"]:
            g["vectorize"] = False
        cases = [c]
    else:
        cases = [sim.gen_sim(rng, tier, **small) for _ in range(rng.randint(2, 4))]
        if mode == "solvers":
            iso = rng.sample(hook.ITER, len(cases))
            if rng.random() < 0.7:
                # the same timesteps everywhere: the threads run in step.
                cases = [dict(cases[0]) for _ in cases]
                cases[0]["plan"][0]["n"] = 8
            for c, i in zip(cases, iso):
                c["sparse"], c["isolver"] = True, i
                for g in c["plan"]:
                    g["vectorize"] = True
        if mode in ("shared", "queries"):
            g = cases[0]["grid"]
            cases = [cases[0]]
            for _ in range(rng.randint(1, 3)):
                c = sim.gen_sim(rng, tier, **small)
                n = sim.gen_sim(random.Random(rng.random()), tier, **small)
                cases.append(n if mode == "queries" else None)
            if mode == "shared":
                cases = [share(rng, cases[0]) for _ in cases]
    return dict(
        mode=mode, cases=cases, seed=rng.randrange(10**9),
        prob=rng.choice([0.002, 0.02, 0.1]),
    )


def share(rng, c):
    """Another model (sources, initial pressure, time) of the same grid."""
    import copy

    from rfv.ref import RefGrid

    c = copy.deepcopy(c)
    ref = RefGrid(c["grid"])
    unit = c["model"]["unit"]
    pref = c["model"]["pi"] or c["pref"]
    inc = not (c["grid"].get("comp") or c["fluid"].get("comp"))
    w = gen.gen_wells(rng, ref, unit, pref)
    c["acts"] = w + [
        dict(op="bcs", d=gen.gen_bcs(rng, ref, unit, pref, inc))
    ]
    c["model"]["dt"] = gen.u(rng, *gen.R[unit]["dt"])
    c["split"] = 0
    c["plan"] = sim.gen_plan(rng, c, maxn=2, maxg=2, long=0.0, thr=0.5)
    return c


def simulate(case, grid=None, threading_=None, fault=None):
    model = gen.make_model(case, grid=grid)
    sol = gen.compile_fdm(model, case["sparse"])
    for g in case["plan"]:
        g = dict(g)
        if threading_ is not None:
            g["threading"] = threading_
        for a in g["acts"]:
            gen.apply(model, a)
        sim.drive(model, g)
    return dict(
        p=sol.pressures.copy(), q=sol.rates.copy(), A=np.array(sol.As), d=np.array(sol.ds),
        w={c: np.array(v, float) for c, v in model.w_pressures.items()}, t=sol.tstep,
    )


def same(a, b, what):
    if a["t"] != b["t"]:
        fail(f"{a['t']} timesteps {what}, expected {b['t']}")
    P = max(np.nanmax(np.abs(b["p"])), 1e-300)
    mon.same_array(a["A"], b["A"], f"matrices {what}", 1e-12, 1e-14 * np.abs(b["A"]).max())
    mon.same_array(a["d"], b["d"], f"right hand sides {what}", 1e-10, 1e-12 * np.abs(b["d"]).max())
    mon.same_array(a["p"], b["p"], f"pressures {what}", 1e-10, 1e-10 * P)
    mon.same_array(a["q"], b["q"], f"rates {what}", 1e-8, 1e-8 * np.abs(b["q"]).max() + 1e-12)
    if set(a["w"]) != set(b["w"]):
        fail(f"wells {sorted(a['w'])} {what}, expected {sorted(b['w'])}")
    for c in b["w"]:
        mon.same_array(a["w"][c], b["w"][c], f"bottom hole pressures of {c} {what}", 1e-9, 1e-9 * P)


def in_threads(fs, seed, prob, obs, favour=""):
    """Run the functions in threads with injected preemptions."""
    out, errs = [None] * len(fs), []
    start = threading.Barrier(len(fs))

    def work(i):
        try:
            start.wait()
            out[i] = fs[i]()
        except BaseException as e:
            import traceback

            errs.append((i, e, traceback.format_exc()))

    with inject.Preempt(os.path.realpath(core.REPO), seed, prob, favour=favour) as inj:
        ts = [threading.Thread(target=work, args=(i,), daemon=True) for i in range(len(fs))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    seen(inj, obs)
    if errs:
        i, e, tb = errs[0]
        if isinstance(e, core.Violation):
            raise e
        fail(f"thread {i}: {type(e).__name__}: {e}\n{tb}")
    return out, inj


def seen(inj, obs):
    obs.ev("thread switch", len(inj.switches))
    obs.ev("line", inj.nlines)
    obs.mx("threads", len(inj.threads))


def run(case, obs):
    inj = dict(assembly=assembly, models=models, shared=shared, queries=queries, exception=exception,
               solvers=solvers)[
        case["mode"]
    ](case, random.Random(case["seed"]), obs)
    sw = inj.switches[:60] if inj else None
    obs.sig(case["mode"], sw, [sim.features(c) for c in case["cases"]])


def assembly(case, r, obs):
    c = case["cases"][0]
    solo = simulate(c, threading_=False)
    with inject.Preempt(os.path.realpath(core.REPO), case["seed"], case["prob"]) as inj:
        thr = simulate(c, threading_=True)
    seen(inj, obs)
    same(thr, solo, "with threading=True")
    obs.ev("threaded assembly", thr["t"])
    return inj


def models(case, r, obs):
    solo = [simulate(c) for c in case["cases"]]
    fs = [(lambda c=c: simulate(c)) for c in case["cases"]]
    out, inj = in_threads(fs, case["seed"], case["prob"], obs)
    for a, b in zip(out, solo):
        same(a, b, "with other models in other threads")
    obs.ev("models in threads", len(fs))
    return inj


def selected(case):
    """The timesteps of a model, each with the solver of the model."""
    model = gen.make_model(case)
    sol = gen.compile_fdm(model, True)
    out, me = [], threading.get_ident()
    for g in case["plan"]:
        for a in g["acts"]:
            gen.apply(model, a)
        for _ in range(g["n"]):
            n = len(hook.CALLS)
            try:
                sol.solve(isolver=case["isolver"], threading=False)
                err = None
            except Exception as e:
                err = type(e).__name__
            used = {c[0] for c in hook.CALLS[n:] if c[4] == me}
            if used != {case["isolver"]}:
                fail(f"solver {case['isolver']} was selected, {sorted(used)} was used ({err})")
            out.append((err, sol.pressures.copy(), sol.rates.copy()))
    return out


def solvers(case, r, obs):
    hook.reset()
    solo = [selected(c) for c in case["cases"]]
    fs = [(lambda c=c: selected(c)) for c in case["cases"]]
    out, inj = in_threads(fs, case["seed"], case["prob"], obs, "solvers.py")
    for a, b, c in zip(out, solo, case["cases"]):
        for (ea, pa, qa), (eb, pb, qb) in zip(a, b):
            if ea != eb:
                fail(f"{c['isolver']} raised {ea}, alone it raised {eb}")
            P = np.nanmax(np.abs(pb))
            mon.same_array(pa, pb, f"pressures ({c['isolver']})", 1e-9, 1e-9 * P)
            obs.ev("solvers in threads")
    hook.reset()
    return inj


def shared(case, r, obs):
    cs = case["cases"]
    solo = [simulate(c) for c in cs]
    grid = gen.make_grid(cs[0]["grid"])
    build = threading.Lock()

    def work(c):
        # models are defined one by one, and simulated at the same time.
        with build:
            model = gen.make_model(c, grid=grid)
        sol = gen.compile_fdm(model, c["sparse"])
        for g in c["plan"]:
            for a in g["acts"]:
                gen.apply(model, a)
            sim.drive(model, g)
        return dict(
            p=sol.pressures.copy(), q=sol.rates.copy(), A=np.array(sol.As), d=np.array(sol.ds),
            w={i: np.array(v, float) for i, v in model.w_pressures.items()}, t=sol.tstep,
        )

    fs = [(lambda c=c: work(c)) for c in cs]
    out, inj = in_threads(fs, case["seed"], case["prob"], obs)
    for a, b in zip(out, solo):
        same(a, b, "with other models of the same grid in other threads")
    obs.ev("shared grid", len(fs))
    return inj


def arr(x):
    if isinstance(x, dict):
        return tuple((k, arr(v)) for k, v in sorted(x.items()))
    if isinstance(x, (set, frozenset)):
        return tuple(sorted(x))
    if hasattr(x, "toarray"):
        x = x.toarray()
    return np.array(x).copy()


Q = {
    "shape": lambda g, b, f, r: g.get_shape(b),
    "fshape": lambda g, b, f, r: g.get_fshape(b, f),
    "n": lambda g, b, f, r: g.get_n(b),
    "order": lambda g, b, f, r: g.get_order("natural", b, f),
    "id": lambda g, b, f, r: g.get_cells_id(b, f, "array"),
    "i": lambda g, b, f, r: g.get_cells_i(b, f),
    "coords": lambda g, b, f, r: g.get_cells_coords(b, f, "array"),
    "icoords": lambda g, b, f, r: g.get_cells_icoords(b, f, "array"),
    "center": lambda g, b, f, r: g.get_cells_center(b, f, False),
    "dx": lambda g, b, f, r: g.get_cells_dx(b, f),
    "dz": lambda g, b, f, r: g.get_cells_dz(b, f),
    "Ax": lambda g, b, f, r: g.get_cells_Ax(b, f),
    "Ay": lambda g, b, f, r: g.get_cells_Ay(b, f),
    "V": lambda g, b, f, r: g.get_cells_V(b, f, False),
    "ones": lambda g, b, f, r: g.get_ones(b, f, False),
    "zeros": lambda g, b, f, r: g.get_zeros(b, f, False),
    "bound": lambda g, b, f, r: g.get_boundaries("id", "array"),
    "nb": lambda g, b, f, r: g.get_cell_neighbors(id=r, boundary=b, fmt="list"),
    "cb": lambda g, b, f, r: g.get_cell_boundaries(id=r, fmt="list"),
    "cc": lambda g, b, f, r: g.get_cell_coords(r, True),
    "G": lambda g, b, f, r: g.get_cells_G(g.fdir[0] if g.D == 1 else "x", b),
    "kx": lambda g, b, f, r: g.get_cells_k(dir="x", boundary=b, fshape=f),
    "phi": lambda g, b, f, r: g.get_cells_phi(boundary=b, fshape=f),
}


def ask(nm, g, b, f, i):
    try:
        return "value", arr(Q[nm](g, b, f, i))
    except Exception as e:
        return "error", type(e).__name__


def queries(case, r, obs):
    specs = [c["grid"] for c in case["cases"]]
    grids = [gen.make_grid(s) for s in specs]
    plan = []
    for _ in range(r.randint(2, 5)):
        L = []
        for _ in range(60):
            k = 0 if r.random() < 0.7 else r.randrange(len(grids))
            i = r.choice(list(grids[k].cells_id))
            L.append((r.choice(sorted(Q)), k, r.random() < 0.5, r.random() < 0.5, int(i)))
        plan.append(L)
    expect = {}
    for L in plan:
        for q in L:
            if q not in expect:
                nm, k, b, f, i = q
                expect[q] = ask(nm, gen.make_grid(specs[k]), b, f, i)

    def work(L):
        for q in L:
            nm, k, b, f, i = q
            kind, v = ask(nm, grids[k], b, f, i)
            ekind, e = expect[q]
            ok = kind == ekind and (
                np.array_equal(v, e, equal_nan=v.dtype.kind == "f")
                if isinstance(v, np.ndarray) and isinstance(e, np.ndarray)
                else repr(v) == repr(e)
            )
            if not ok:
                fail(f"{q}: {v}, expected {e}, while the grid is used by other threads")
            obs.ev("queries")

    fs = [(lambda L=L: work(L)) for L in plan]
    _, inj = in_threads(fs, case["seed"], case["prob"], obs)
    return inj


class Injected(RuntimeError):
    pass


class Unstorable:
    def __float__(self):
        raise Injected("this is not a number")


def exception(case, r, obs):
    c = case["cases"][0]
    solo = simulate(c, threading_=False)
    model = gen.make_model(c)
    sol = gen.compile_fdm(model, c["sparse"])
    caller = threading.current_thread()
    n = 0
    total = sum(g["n"] for g in c["plan"])
    at = r.randrange(total)
    bad = r.choice(list(model.grid.cells_id))
    with inject.Preempt(os.path.realpath(core.REPO), case["seed"], case["prob"]) as inj:
        for g in c["plan"]:
            for a in g["acts"]:
                gen.apply(model, a)
            for _ in range(g["n"]):
                if n == at:
                    fired = []
                    real = model.get_cell_trans
                    real_eq = sol.get_cell_eq

                    def garbage(*args, **kw):
                        # an equation which can not be stored in the matrices.
                        lhs, rhs = real_eq(*args, **kw)
                        i = args[0] if args else kw.get("cell_id")
                        if i == bad:
                            fired.append(i)
                            return lhs, Unstorable()
                        return lhs, rhs

                    def broken(*args, **kw):
                        i = args[0] if args else kw.get("cell_id")
                        if threading.current_thread() is not caller and (
                            i == bad or not fired and r.random() < 0.05
                        ):
                            fired.append(i)
                            raise Injected(f"cell {i}")
                        return real(*args, **kw)

                    late = r.random() < 0.5
                    if late:
                        sol.get_cell_eq = garbage
                    else:
                        model.get_cell_trans = broken
                    b = (sol.pressures.copy(), sol.rates.copy(), sol.tstep, sol.nsteps)
                    try:
                        sol.solve(threading=True, vectorize=False, isolver=None)
                    except (Injected, TypeError, ValueError):
                        obs.ev("late exception" if late else "exception")
                        raised = True
                    else:
                        raised = False
                    if late:
                        del sol.get_cell_eq
                    else:
                        del model.get_cell_trans
                    if fired and not raised:
                        fail(f"an exception in the thread of cell {bad} was lost")
                    if raised:
                        mon.same_array(sol.pressures, b[0], "pressures after the exception")
                        mon.same_array(sol.rates, b[1], "rates after the exception")
                        if (sol.tstep, sol.nsteps) != b[2:]:
                            fail(f"timestep {sol.tstep} after the exception, before {b[2]}")
                        sol.solve(threading=True, vectorize=False, isolver=None)
                else:
                    sol.solve(threading=True, vectorize=False, isolver=None)
                n += 1
    seen(inj, obs)
    same(
        dict(p=sol.pressures, q=sol.rates, A=np.array(sol.As), d=np.array(sol.ds), t=sol.tstep,
             w={i: np.array(v, float) for i, v in model.w_pressures.items()}),
        solo, "after an exception in a thread",
    )
    return inj
