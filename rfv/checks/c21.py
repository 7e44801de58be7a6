"""C21: a timestep which fails leaves the state of the last completed one."""

import random

import numpy as np

from rfv import gen, hook, mon, sim
from rfv.mon import fail

LEVEL = "fault_enumeration"
QUICK = (550, 110)
THOROUGH = (12000, 780)
RULE = (
    "For a random model and schedule every call of a linear solver is recorded; for "
    "points of failure chosen over all of these calls (also the second solution of a "
    "timestep in which a well switches, and the middle of run()) the solver is made to "
    "fail (exception, interrupt, not converged, NaN/Inf), or the assembly before it. "
    "The failed call has to raise, the "
    "histories have to hold exactly the completed timesteps, tables and balance still "
    "work, and after continuing with the remaining timesteps the history is the same as "
    "without the failure. Failed analytical runs and calls refused for their arguments "
    "are treated in the same way. "
    "Non-trivial: distinct (point of failure, kind, structure)."
)
NEED = [
    "failed solve", "failed run", "resumed", "failed resolve", "consistent state", "failed assembly",
    "refused run", "failed analytical run", "verbose kept",
]
KINDS = ["raise", "raise", "nan", "nan1", "inf", "info", "illegal", "interrupt", "assembly", "assembly"]


def before_import():
    hook.install()


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.03, plan=dict(sym=0.08, long=0.01, maxn=4))
    for g in c["plan"]:
        g["isolver"] = rng.choice([None, None, None, "bicgstab", "gmres"]) if c["sparse"] else None
    if rng.random() < 0.5:
        near_limit(rng, c)
    c["kinds"] = [rng.choice(KINDS) for _ in range(4)]
    c["seed"] = rng.randrange(10**9)
    c["d1p1"] = rng.random() < 0.12
    return c


def near_limit(rng, c):
    """Rate wells which reach their pressure limit."""
    for a in c["acts"]:
        if a["op"] == "well" and "q" in a:
            a["pwf"] = gen.u(rng, 0.7, 0.999) * (c.get("pref") or c["model"]["pi"])
            a.pop("via", None), a.pop("ctor", None)


def steps(case):
    """One item for each timestep or change."""
    out = []
    for g in case["plan"]:
        out += [("act", a) for a in g["acts"]]
        out.append(("group", g))
    return out


def drive(model, g, n, how):
    kw = dict(threading=g["threading"], vectorize=g["vectorize"], check_MB=g["check_MB"], isolver=g["isolver"])
    if how == "run":
        model.run(nsteps=n, **kw)
    else:
        for _ in range(n):
            model.solve(**kw)


def start(case):
    model = gen.make_model(case, acts=False)
    k = len(case["acts"]) - case.get("split", 0)
    for a in case["acts"][:k]:
        gen.apply(model, a)
    gen.compile_fdm(model, case["sparse"])
    for a in case["acts"][k:]:
        gen.apply(model, a)
    return model


class Assembly(RuntimeError):
    pass


def fail_assembly(model, at, k):
    """The k-th query of transmissibilities before call number at of the solver fails
    (only between the start of a solution and its solver)."""
    sol = model.solution
    solve, trans = sol.solve, model.get_cell_trans
    st = dict(n=None)

    def solve_(*a, **kw):
        if hook.STATE["n"] == at - 1 and st["n"] is None:
            st["n"] = 0
        return solve(*a, **kw)

    def trans_(*a, **kw):
        if st["n"] is not None and hook.STATE["n"] == at - 1:
            st["n"] += 1
            if st["n"] == k:
                raise Assembly("injected failure of the assembly")
        return trans(*a, **kw)

    sol.solve, model.get_cell_trans = solve_, trans_

    def undo():
        del sol.solve, model.get_cell_trans

    return undo


BAD_N = ["2", 2.5, None, [1]]


def refused(model, r, t, obs):
    """Arguments for which a run can not start."""
    sol = model.solution
    b = sol.pressures.copy(), model.verbose
    n = r.choice(BAD_N)
    try:
        model.run(nsteps=n)
    except Exception:
        obs.ev("refused run")
    else:
        fail(f"run accepted nsteps={n!r}")
    mon.same_array(sol.pressures, b[0], "pressures after a refused run")
    if model.verbose is not b[1]:
        fail(f"verbose is {model.verbose} after a refused run, before {b[1]}")
    if (sol.tstep, sol.nsteps) != (t, t + 1):
        fail(f"tstep {sol.tstep}, nsteps {sol.nsteps} after a refused run, expected {t}, {t + 1}")


def analytical(r, obs):
    """Failed run of an analytical solution."""
    nx = r.randint(2, 9)
    g = gen.rf().grids.RegularCartesian(
        nx=nx, ny=1, nz=1, dx=gen.u(r, 50, 300), dy=100, dz=10, kx=gen.u(r, 1, 100), phi=0.2, comp=1e-5, unit="field",
    )
    f = gen.rf().fluids.SinglePhase(mu=gen.u(r, 0.3, 3), B=1, rho=50, dtype="double", unit="field")
    m = gen.rf().models.BlackOil(g, f, pi=3000.0, dt=gen.u(r, 0.01, 5), start_date="2020-01-05")
    m.set_boundaries({0: ("pressure", 4000.0), nx + 1: ("pressure", 2000.0)})
    m.compile(stype="analytical", method="D1P1")
    sol = m.solution
    m.verbose = r.random() < 0.5
    n = 0
    if r.random() < 0.7:
        n = r.randint(1, 6)
        m.run(nsteps=n)
    b = np.array(sol.pressures), m.verbose

    def boom(*a, **kw):
        raise Assembly("injected failure")

    how = r.choice(["pi", "get_alpha", "get_domain", "nsteps"])
    pi, n2 = m.pi, r.randint(1, 6)
    if how == "pi":
        m.pi = None
    elif how == "nsteps":
        n2 = r.choice(BAD_N)
    else:
        setattr(m, how, boom)
    try:
        m.run(nsteps=n2)
    except Exception:
        obs.ev("failed analytical run")
    else:
        if how == "nsteps":
            fail(f"run accepted nsteps={n2!r}")
        obs.ev("analytical run without a stand-in")
        return
    finally:
        m.pi = pi
        m.__dict__.pop(how, None) if how.startswith("get") else None
    mon.same_array(sol.pressures, b[0], f"pressures after a failed analytical run ({how})")
    if (sol.tstep, sol.nsteps, m.verbose) != (n, n + 1, b[1]):
        fail(
            f"tstep, nsteps, verbose = {sol.tstep}, {sol.nsteps}, {m.verbose} after a failed analytical "
            f"run ({how}), expected {n}, {n + 1}, {b[1]}"
        )
    if len(m.get_df(columns=["time", "cells"])) != n + 1:
        fail(f"table has other rows than {n + 1} after a failed analytical run")
    m.run(nsteps=4)
    if (sol.tstep, sol.nsteps, sol.pressures.shape) != (4, 5, (5, nx + 2)):
        fail(f"state after continuing: {sol.tstep}, {sol.nsteps}, {sol.pressures.shape}")


def consistent(model, sol, t, what, obs):
    nb = model.grid.get_n(True)
    n = model.n
    for nm, sh in (("pressures", (t + 1, nb)), ("rates", (t + 1, nb)), ("As", (t + 1, n * n)), ("ds", (t + 1, n))):
        if getattr(sol, nm).shape != sh:
            fail(f"{what}: {nm} has shape {getattr(sol, nm).shape}, expected {sh}")
    if (sol.tstep, sol.nsteps) != (t, t + 1):
        fail(f"{what}: tstep {sol.tstep}, nsteps {sol.nsteps}, expected {t}, {t + 1}")
    for c, v in model.w_pressures.items():
        if len(v) != t + 1:
            fail(f"{what}: well {c} has {len(v)} bottom hole pressures, expected {t + 1}")
    df = model.get_df(columns=["time", "cells", "wells"], drop_nan=False, drop_zero=False)
    if len(df) != t + 1:
        fail(f"{what}: table has {len(df)} rows, expected {t + 1}")
    obs.ev("consistent state")


def run(case, obs):
    r = random.Random(case["seed"])
    hook.reset()
    todo = steps(case)
    # without faults: calls of every timestep.
    calls = []  # (group, timestep in the group, first call, last call)
    with gen.quiet():
        model = start(case)
        done = 0
        for i, (op, a) in enumerate(todo):
            if op == "act":
                gen.apply(model, a)
                continue
            for k in range(a["n"]):
                n0 = hook.STATE["n"]
                try:
                    drive(model, a, 1, "solve")
                except Exception:  # iterative solver: not converged
                    if a["isolver"] is None:
                        raise
                    obs.ev("solver gave up")
                    return
                calls.append((i, k, n0 + 1, hook.STATE["n"], done))
                done += 1
    if case["d1p1"]:
        with gen.quiet():
            analytical(r, obs)
    base = model.solution
    bp, bq = base.pressures.copy(), base.rates.copy()
    bw = {c: np.array(v, float) for c, v in model.w_pressures.items()}
    multi = [c for c in calls if c[3] > c[2]]
    for kind in case["kinds"]:
        pick = r.choice(multi) if multi and r.random() < 0.6 else r.choice(calls)
        gi, gk, c0, c1, t_done = pick
        if c1 < c0:
            obs.ev("solver without a stand-in")
            continue
        at = c0 if kind == "assembly" else r.randint(c0, c1)
        g = todo[gi][1]
        it = g["isolver"] is not None
        knd = kind if it or kind not in ("info", "illegal") else "raise"
        hook.reset({at: knd} if knd != "assembly" else {})
        verbose = r.random() < 0.3
        undo = None
        with gen.quiet():
            model = start(case)
            if knd == "assembly":
                undo = fail_assembly(model, at, r.choice([1, 1, 2, r.randint(1, 12)]))
            t = 0
            failed = False
            for i, (op, a) in enumerate(todo):
                if op == "act":
                    gen.apply(model, a)
                    continue
                n = a["n"]
                if i == gi:
                    p_before = None
                    if a["how"] == "solve" and gk:
                        drive(model, a, gk, "solve")
                        t += gk
                        n -= gk
                    model.verbose = verbose
                    try:
                        drive(model, a, n if a["how"] == "run" else 1, a["how"])
                    except (Exception, KeyboardInterrupt):
                        failed = True
                    if undo:
                        undo()
                        if not failed:  # nothing was queried
                            obs.ev("assembly without a failure")
                            break
                    if not failed:
                        fail(f"failure ({knd}) of call {at} of the solver was not reported")
                    obs.ev("failed run" if a["how"] == "run" else "failed solve")
                    if at > c0:
                        obs.ev("failed resolve")
                    if undo:
                        obs.ev("failed assembly")
                    if model.verbose is not verbose:
                        fail(f"verbose is {model.verbose} after failure ({knd}), before {verbose}")
                    obs.ev("verbose kept")
                    model.verbose = False
                    t = t_done
                    consistent(model, model.solution, t, f"after failure ({knd}) of call {at} in timestep {t + 1}", obs)
                    mon.same_array(model.solution.pressures, bp[: t + 1], "completed pressures")
                    mon.same_array(model.solution.rates, bq[: t + 1], "completed rates")
                    if r.random() < 0.2:
                        model.verbose = verbose
                        refused(model, r, t, obs)
                        model.verbose = False
                    if r.random() < 0.3 and it:
                        # fails again at once
                        hook.FAULTS[hook.STATE["n"] + 1] = "info"
                        try:
                            drive(model, a, 1, "solve")
                        except Exception:
                            pass
                        else:
                            fail("a result which did not converge was accepted")
                        consistent(model, model.solution, t, "after a second failure", obs)
                    n = a["n"] - gk
                drive(model, a, n, a["how"])
                t += n
        if not failed:
            continue
        sol = model.solution
        consistent(model, sol, done, "at the end", obs)
        sc = float(np.nanmax(np.abs(bp)))
        scw = max([sc] + [float(np.nanmax(np.abs(v))) for v in bw.values() if np.isfinite(v).any()])
        exact = at == c0
        tol = 0.0 if exact else (1e-3 if any(x[1]["isolver"] for x in todo if x[0] == "group") else 1e-8)
        if exact:
            mon.same_array(sol.pressures, bp, "pressures after resuming")
            mon.same_array(sol.rates, bq, "rates after resuming")
        else:
            mon.same_array(sol.pressures, bp, "pressures after resuming", rtol=tol, atol=tol * sc)
        for c in bw:
            mon.same_array(np.array(model.w_pressures[c], float), bw[c], f"bottom hole pressures of well {c} after resuming", rtol=tol, atol=tol * 10 * scw)
        obs.ev("resumed")
        obs.sig(gen.features(case), at, knd, at > c0)
    hook.reset()
