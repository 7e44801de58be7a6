"""C12: whatever solver is selected, accepted pressures solve the system."""

import random

import numpy as np

from rfv import gen, hook, mon, sim
from rfv.mon import fail

LEVEL = "fault_enumeration"
QUICK = (1800, 110)
THOROUGH = (30000, 780)
RULE = (
    "Random models and schedules; every group of timesteps uses one of the ten "
    "iterative solvers or the direct one. Stand-ins record every call of a solver: "
    "the selected one is the one used (also when a timestep is resolved after a well "
    "switched), an unconverged or non-finite result (real or injected at a random "
    "call) never becomes a timestep, and the pressures of every accepted timestep "
    "satisfy the independently assembled system within the tolerance of the solver. "
    "Non-trivial: distinct solvers, structure, and faults."
)
NEED = ["iterative timestep", "direct timestep", "rejected injected result"]
ASSUMPTIONS = ["iterative solvers of scipy converge to rtol=1e-5 when they report success"]

KINDS = ["info", "info_far", "illegal", "nan", "nan1", "inf"]


def before_import():
    hook.install()


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.05, huge=0.015, plan=dict(sym=0.06, long=0.0, maxg=4, maxn=3))
    if rng.random() < 0.8:
        c["sparse"] = True
    for g in c["plan"]:
        g["isolver"] = rng.choice(hook.ITER + [None] * 3)
        g["fault"] = [rng.randint(1, 4), rng.choice(KINDS)] if rng.random() < 0.35 else None
    # pressure limits of rate wells next to the switching point.
    c["near"] = [rng.choice([-1, 1]) * 10 ** rng.uniform(-8, -4) for _ in range(8)]
    if rng.random() < 0.7:
        c["near"] = None
    c["seed"] = rng.randrange(10**9)
    return c


def snapshot(model, sol):
    return (
        sol.pressures.copy(), sol.rates.copy(), sol.tstep, sol.nsteps,
        {c: list(v) for c, v in model.w_pressures.items()},
    )


def unchanged(a, model, sol, what):
    b = snapshot(model, sol)
    mon.same_array(b[0], a[0], f"pressures {what}")
    mon.same_array(b[1], a[1], f"rates {what}")
    if b[2:4] != a[2:4]:
        fail(f"(tstep, nsteps) = {b[2:4]} {what}, before it was {a[2:4]}")
    for c in a[4]:
        mon.same_array(np.array(b[4][c], float), np.array(a[4][c], float), f"pwf of {c} {what}")


def mon_system(ref, model, sol, t, isolver, sparse, obs):
    """Residual norm of the system solved over timestep t (the last one)."""
    g = ref.grid
    st = {}
    for c, w in ref.wells.items():
        on_q = w["q"] is not None and model.wells[c]["constrain"] == "q"
        st[c] = "q" if on_q else "pwf"
    A, d = ref.system(sol.pressures[t - 1], st)
    p = sol.pressures[t, g.interior]
    r = np.linalg.norm(A @ p - d)
    size = np.linalg.norm(A, 2) * np.linalg.norm(p)
    if isolver is None or not sparse:
        ok = r <= 1e-10 * (size + np.linalg.norm(d)) + 1e-12
        obs.mx("direct relative residual", r / (size + 1e-300))
        obs.ev("direct timestep")
    else:
        lim = 5e-5 * np.linalg.norm(d) + 1e-9 * size
        if isolver == "minres":
            # documented as inaccurate: its criteria do not bound the residual.
            obs.ev("minres timestep")
            return
        ok = r <= lim + 1e-12
        obs.mx("iterative relative residual", r / (np.linalg.norm(d) + 1e-300))
        obs.ev("iterative timestep")
    if not ok:
        fail(
            f"timestep {t} (isolver={isolver}, sparse={sparse}): |A p - d| = {r:.4g}, "
            f"|d| = {np.linalg.norm(d):.4g}, |A||p| = {size:.4g}"
        )


def near(case, obs):
    """Limits of rate wells are moved to their pressure in the first timestep."""
    hook.reset()
    m = gen.make_model(case)
    gen.compile_fdm(m, case["sparse"]).solve(isolver=None)
    acts = []
    for i, a in enumerate(case["acts"]):
        a = dict(a)
        if a["op"] == "well" and "q" in a and m.wells[a["cell"]]["constrain"] == "q":
            a.pop("via", None), a.pop("ctor", None)
            f = case["near"][i % 8]
            a["pwf"] = float(m.w_pressures[a["cell"]][1]) * (1 + f)
            obs.ev("limit next to the switching point")
        acts.append(a)
    return dict(case, acts=acts)


def run(case, obs):
    if case["near"]:
        case = near(case, obs)
    model = gen.make_model(case)
    ref = gen.make_ref(case)
    sparse = case["sparse"]
    sol = gen.compile_fdm(model, sparse)
    r = random.Random(case["seed"])
    for g in case["plan"]:
        for a in g["acts"]:
            gen.apply(model, a)
            ref.apply(a)
        iso = g["isolver"]
        at, knd = g["fault"] or (0, None)
        for k in range(g["n"]):
            hook.reset({at: knd} if at and k == 0 else None)
            before = snapshot(model, sol)
            kw = dict(vectorize=g["vectorize"], threading=g["threading"],
                      check_MB=g["check_MB"], isolver=iso)
            err = None
            try:
                if g["how"] == "run":
                    model.run(nsteps=1, **kw)
                elif iso == "cgs" and r.random() < 0.5:
                    kw.pop("isolver")  # the default of solve.
                    model.solve(**kw)
                else:
                    model.solve(**kw)
            except Exception as e:
                err = e
            calls = list(hook.CALLS)
            if err is not None and not calls:
                raise err
            used = {c[0] for c in calls}
            if iso is not None and sparse:
                if used != {iso}:
                    fail(f"solver {iso} was selected, {sorted(used)} was used")
            elif used & set(hook.ITER):
                fail(f"the direct solver was selected, {sorted(used)} was used")
            refused = [c for c in calls if c[1] not in (None, 0) or not c[2]]
            if len(calls) > 1:
                obs.ev("resolved timestep")
            if err is None:
                if refused:
                    fail(f"results {refused} were accepted in timestep {sol.tstep}")
                if sol.tstep != before[2] + 1:
                    fail(f"tstep {sol.tstep} after timestep {before[2] + 1}")
                mon_system(ref, model, sol, sol.tstep, iso, sparse, obs)
            else:
                if not refused:
                    raise err
                unchanged(before, model, sol, f"after a solver failed ({refused})")
                obs.ev("rejected injected result" if refused[-1][3] else "rejected unconverged result")
                # the next timestep can be solved.
                hook.reset()
                model.solve(isolver=None)
                mon_system(ref, model, sol, sol.tstep, None, sparse, obs)
    for t in range(1, sol.tstep + 1):
        if not np.isfinite(sol.pressures[t, ref.grid.interior]).all():
            fail(f"pressures are not finite at timestep {t}")
    obs.sig(sim.features(case), [(g["isolver"], g["fault"]) for g in case["plan"]])
