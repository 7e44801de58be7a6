"""C13: histories are append-only and do not depend on how runs are split."""

import contextlib
import random
import time

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (1500, 110)
THOROUGH = (30000, 780)
RULE = (
    "The same random sequence of timesteps and changes is driven twice: one call of "
    "solve() for each timestep, and split randomly into run() and solve() calls with "
    "read-only operations (tables, equations, balance, trial solutions without "
    "update, reports, selecting the solution again) in between. The monitor compares "
    "the histories, checks after every call that the recorded rows are unchanged, "
    "that one row was appended for each timestep, and that read-only operations "
    "leave no trace. Non-trivial: distinct splits, operations and structure."
)
NEED = ["append", "read-only operation", "split run", "trial", "time of runs"]
READS = ["df", "df_melt", "matrices", "eq", "balance", "trial", "trial", "select", "time", "centers", "init", "trans", "run0"]


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.03, plan=dict(sym=0.08, long=0.02, maxn=4, maxg=3))
    c["reads"] = [rng.choice(READS) for _ in range(8)]
    c["isolver"] = rng.choice([None, None, None, "bicgstab"]) if c["sparse"] else None
    c["seed"] = rng.randrange(10**9)
    return c


def snap(model, sol):
    return dict(
        p=sol.pressures.copy(), q=sol.rates.copy(), A=np.array(sol.As), d=np.array(sol.ds),
        t=(sol.tstep, sol.nsteps), w={c: list(v) for c, v in model.w_pressures.items()},
        wells={c: dict(v) for c, v in model.wells.items()}, bc=dict(model.bdict),
    )


def same_snap(model, sol, b, what, n=None):
    """Rows up to n are the same as in b."""
    n = len(b["p"]) if n is None else n
    a = snap(model, sol)
    for k, nm in (("p", "pressures"), ("q", "rates"), ("A", "matrices"), ("d", "right hand sides")):
        mon.same_array(a[k][:n], b[k][:n], f"recorded {nm} {what}")
    for c in b["w"]:
        mon.same_array(
            np.array(a["w"][c][:n], float), np.array(b["w"][c][:n], float),
            f"recorded bottom hole pressures of {c} {what}",
        )
    return a


def read(op, model, ref, sol, r, g):
    if op == "df":
        model.get_df(columns=["time", "cells", "wells"], boundary=r.random() < 0.5)
    elif op == "df_melt":
        model.get_df(columns=["time", "cells"], melt=True)
    elif op == "matrices":
        sol.get_matrices_vect()
        if ref.grid.n <= 12:
            sol.get_matrices_symb()
    elif op == "eq":
        sol.get_cell_eq(r.choice(ref.grid.interior))
    elif op == "balance":
        if sol.tstep:
            sol.check_MB()
    elif op == "trial":
        sol.solve(update=False, vectorize=True, isolver=None, threading=r.random() < 0.2)
    elif op == "select":
        model.set_solution(model.get_solutions()[0])
        if model.solution is not sol:
            fail("set_solution returned another solution")
    elif op == "run0":
        model.run(nsteps=0, threading=r.random() < 0.2, check_MB=r.random() < 0.7)
    elif op == "time":
        x = model.get_time()
        e = np.arange(sol.tstep + 1) * model.dt
        mon.same_array(np.ravel(x), e, "time", 1e-12, 1e-12)
        sh = tuple(model.get_shape())
        if sh != (sol.tstep + 1, ref.grid.nb):
            fail(f"shape {sh} after {sol.tstep} timesteps")
    elif op == "centers":
        model.get_centers(False, r.random() < 0.5)
        if ref.grid.D == 1:
            model.get_domain(False, True)
    elif op == "init":
        for x in model.get_init_arrays():
            x[:] = -1
    elif op == "trans":
        model.get_cells_trans(False, True, True)
        model.get_alpha() if ref.comp > 0 else None


@contextlib.contextmanager
def slowly(sol):
    """The first timestep takes longer."""
    real, left = sol.solve, [0.06]

    def solve(*a, **k):
        time.sleep(left.pop() if left else 0)
        return real(*a, **k)

    sol.solve = solve
    try:
        yield
    finally:
        del sol.solve


def run(case, obs):
    r = random.Random(case["seed"])
    iso = case["isolver"]
    # one by one
    model = gen.make_model(case)
    ref = gen.make_ref(case)
    sol = gen.compile_fdm(model, case["sparse"])
    for g in case["plan"]:
        for a in g["acts"]:
            gen.apply(model, a)
            ref.apply(a)
        for _ in range(g["n"]):
            b = snap(model, sol)
            sol.solve(threading=g["threading"], vectorize=g["vectorize"], isolver=iso)
            same_snap(model, sol, b, f"changed in timestep {sol.tstep}")
            if sol.pressures.shape[0] != len(b["p"]) + 1:
                fail(f"{sol.pressures.shape[0] - len(b['p'])} rows for one timestep")
            obs.ev("append")
    total = sol.tstep
    # split
    ref = gen.make_ref(case)
    m2 = gen.make_model(case)
    s2 = gen.compile_fdm(m2, case["sparse"])

    def reads(g):
        for _ in range(r.randint(0, 2)):
            op = r.choice(case["reads"])
            b = snap(m2, s2)
            read(op, m2, ref, s2, r, g)
            a = same_snap(m2, s2, b, f"after {op}")
            if len(a["p"]) != len(b["p"]) or a["t"] != b["t"]:
                fail(f"{op} changed the history: {a['t']}, before {b['t']}")
            if a["wells"] != b["wells"] or a["bc"] != b["bc"]:
                fail(f"{op} changed wells or boundaries")
            obs.ev("trial" if op == "trial" else "read-only operation")

    parts = []
    for g in case["plan"]:
        for a in g["acts"]:
            gen.apply(m2, a)
            ref.apply(a)
        left = g["n"]
        reads(g)
        while left:
            n = r.randint(1, left)
            b = snap(m2, s2)
            kw = dict(threading=g["threading"], vectorize=g["vectorize"],
                      check_MB=r.random() < 0.5, isolver=iso)
            if r.random() < 0.7:
                slow = case["seed"] % 40 == 0
                spent = getattr(s2, "ctime", None)
                with slowly(s2) if slow else contextlib.nullcontext():
                    m2.run(nsteps=n, **kw)
                if spent is not None and hasattr(s2, "run_ctime") and abs(s2.ctime - spent - s2.run_ctime) > 0.02:
                    fail(f"time of runs was {spent} and is {s2.ctime} after {s2.run_ctime}")
                if slow:
                    obs.ev("time of runs")
                parts.append(n)
            else:
                n = 1
                m2.solve(**kw)
                parts.append(0)
            left -= n
            a = same_snap(m2, s2, b, "changed by later timesteps")
            if len(a["p"]) != len(b["p"]) + n or a["t"] != (b["t"][0] + n, b["t"][1] + n):
                fail(f"{len(a['p']) - len(b['p'])} rows, {a['t']} (was {b['t']}) for {n} timesteps")
            for nm in ("p", "q", "A", "d"):
                if len(a[nm]) != len(a["p"]):
                    fail(f"{len(a[nm])} rows of {nm} for {len(a['p'])} rows of pressures")
            for c, w in a["w"].items():
                if len(w) != len(a["p"]):
                    fail(f"{len(w)} bottom hole pressures of {c} for {len(a['p'])} rows")
            obs.ev("split run")
            reads(g)
    if s2.tstep != total:
        fail(f"{s2.tstep} timesteps, expected {total}")
    P = sol.pressures
    tol = 1e-9 * max(np.nanmax(np.abs(P)), 1e-300)
    mon.same_array(s2.pressures, P, f"pressures of split runs {parts}", 1e-10, tol)
    mon.same_array(
        s2.rates, sol.rates, f"rates of split runs {parts}", 1e-8,
        1e-9 * np.abs(sol.rates).max() + 1e-12 + tol * 2 * sum(ref.Tb.values())
        + tol * sum(ref.well_J(c) for c in ref.wells),
    )
    obs.sig(sim.features(case), parts)
