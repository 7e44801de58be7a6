"""C08: global material balance and its reported error."""

import contextlib
import io
import re
import warnings

import numpy as np

from rfv import gen, hook, mon, sim
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (2600, 110)
THOROUGH = (45000, 780)
RULE = (
    "Random models and schedules; the monitor sums the accumulation of all cells and "
    "all reported rates over every timestep (conservation), checks that only wells "
    "and boundaries exchange fluid, recomputes the reported error, and then corrupts "
    "the recorded rates or pressures to observe that the reported error and warning "
    "follow the real imbalance; a timestep with a perturbed solver has to be reported "
    "with its true error and warned of if (and only if) it exceeds the threshold, which "
    "is the default again after reports with other thresholds. Non-trivial: distinct structure and schedule."
)
NEED = ["inaccurate solver", "threshold by default", "global balance", "reported error", "corrupted history", "zero net rate", "corrupted first timestep"]


def before_import():
    hook.install()


def gen_case(rng, tier):
    if rng.random() < 0.12:
        c = balanced(rng, sim.gen_sim(rng, tier, plan=dict(sym=0.08, maxn=3), comp=True, wells=False))
    else:
        c = sim.gen_sim(rng, tier, plan=dict(sym=0.08))
    c["corrupt"] = [rng.choice(["rates", "pressures"]), rng.choice([-1, 1]) * rng.uniform(0.01, 3)]
    c["threshold"] = rng.choice([0.1, 0.1, 0.01, 1.5])
    c["text"] = rng.random() < 0.3
    c["off"] = rng.choice([-1, 1]) * 10 ** rng.uniform(-6, -2)
    if rng.random() < 0.2:  # the first timestep.
        c["plan"] = c["plan"][:1]
        c["plan"][0]["n"] = 1
        c["first"] = True
    c["before"] = rng.choice([None, 0.0, 0.05, 3.0, 50.0])
    return c


def balanced(rng, c):
    """Closed, or what flows in flows out: the net rate is zero."""
    ref = RefGrid(c["grid"])
    r = gen.R[c["model"]["unit"]]
    b = ref.connected_boundaries()
    rng.shuffle(b)
    bcs = []
    for i in range(0, len(b) - 1, 2):
        if rng.random() < 0.4:
            q = gen.number(rng, *r["q"])
            bcs += [[b[i], "rate", q], [b[i + 1], "rate", -q]]
    if rng.random() < 0.4:
        bcs = []
    c["acts"] = [dict(op="bcs", d=bcs)] if bcs else []
    c["split"] = 0
    for g in c["plan"]:
        g["acts"] = []
    c["balanced"] = True
    return c


def expected_error(ref, sol, t):
    """(error, comparable)"""
    g = ref.grid
    net = float(sol.rates[t].sum())
    if ref.comp == 0:
        return net, True, float(np.abs(sol.rates[t]).sum())
    acc = sum(
        ref.acc[c] * (sol.pressures[t, c] - sol.pressures[t - 1, c]) for c in g.interior
    )
    sc = float(np.abs(sol.rates[t]).sum()) + sum(
        ref.acc[c] * abs(sol.pressures[t, c]) for c in g.interior
    )
    if abs(net) < 1e-6 * sc:
        return None, False, sc
    return abs(acc - net) / abs(net), True, sc


def watched(f, *args, **kw):
    """Whether a call warned of the balance."""
    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        with gen.quiet():
            f(*args, **kw)
    return any("balance" in str(w.message).lower() for w in ws)


def by_default(case, obs, sol, e):
    """The threshold is 0.1 if none is given, whatever was given before."""
    if case["before"] is not None:
        watched(sol.check_MB, error_threshold=case["before"])
    if not 0.0999 < abs(e) < 0.1001:
        if watched(sol.check_MB) is not bool(abs(e) > 0.1):
            mon.fail(f"balance error {e}: warning is {abs(e) <= 0.1} after a report with threshold {case['before']}")
        obs.ev("threshold by default")


def inaccurate(case, obs, model, ref, sol):
    """A timestep whose solver is not accurate: its balance is not closed."""
    if case["before"] is not None:
        watched(sol.check_MB, error_threshold=case["before"])
    hook.reset({i: f"off:{case['off']}" for i in range(1, 200)})
    try:
        vect = case["seed"] % 5 > 0 if "seed" in case else True
        warned = watched(model.solve, vectorize=vect, check_MB=True, isolver=None)
    finally:
        hook.reset()
    t = sol.tstep
    e, ok, sc = expected_error(ref, sol, t)
    if not ok:
        return
    mon.close(sol.error, e, 1e-6 * abs(e) + (1e-7 * sc if ref.comp == 0 else 1e-6) , f"reported error at timestep {t} (inaccurate solver)")
    if abs(e) > 0.1001 and not warned or abs(e) < 0.0999 and warned:
        mon.fail(f"timestep {t} with balance error {e}: warning is {warned}")
    obs.ev("inaccurate solver")
    obs.ev("warning of a timestep" if warned else "timestep without warning")


def run(case, obs):
    def group(model, ref, sol, first, last):
        for t in range(first, last + 1):
            mon.mon_balance(ref, sol, t, obs, 1e-9)
            mon.mon_only_sources(ref, sol, t, obs)
        e, ok, sc = expected_error(ref, sol, last)
        sol.check_MB()
        if ok:
            tol = 1e-7 * sc if ref.comp == 0 else 1e-6
            # round-off relative to the internal flow.
            tol += 1e-13 * mon.mon_balance(ref, sol, last, obs, 1e-9)[1] * (
                1 if ref.comp == 0 else 1 / max(abs(sol.rates[last].sum()), 1e-300)
            )
            mon.close(sol.error, e, tol, f"reported error at timestep {last}")
            obs.ev("reported error")
        elif case.get("balanced"):
            # not more than what round-off of the flow terms amounts to.
            big = mon.mon_balance(ref, sol, last, obs, 1e-9)[1]
            acc = sum(ref.acc[c] * abs(sol.pressures[last, c]) for c in ref.grid.interior)
            tol = 1e-3 + 1e-13 * big / (1e-10 * acc)
            mon.close(sol.error, 0.0, tol, f"reported error of a balanced timestep {last}")
            obs.ev("zero net rate")

    model, ref, sol = sim.execute(case, None, group)
    if not case.get("first"):
        inaccurate(case, obs, model, ref, sol)
    # corrupt the last row: the report has to show the imbalance.
    t = sol.tstep
    what, f = case["corrupt"]
    arr = getattr(sol, what)
    sc = abs(sol.rates[t]).sum()
    if ref.comp == 0:
        what, arr = "rates", sol.rates
    if sc > 0:
        c = ref.grid.interior[0] if what == "pressures" else sorted(ref.wells or ref.bc)[0]
        if what == "pressures":
            arr[t, c] += f * sc / ref.acc[c]
        else:
            arr[t, c] += f * sc
        e, ok, _ = expected_error(ref, sol, t)
        if ok:
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                text = io.StringIO()
                with contextlib.redirect_stdout(text):
                    sol.check_MB(verbose=case.get("text", False), error_threshold=case["threshold"])
            steps = [int(x) for x in re.findall(r"step (\d+)", text.getvalue())]
            if any(x != t for x in steps):
                mon.fail(f"timestep {t} is reported as {text.getvalue()!r}")
            obs.ev("timestep in the report", len(steps))
            warned = any("balance" in str(w.message).lower() for w in ws)
            mon.close(sol.error, e, 1e-6 * abs(e) + 1e-6, "reported error of a corrupted history")
            th = case["threshold"]
            if abs(e) > th * 1.001 and not warned:
                mon.fail(f"no warning for a balance error of {e} (threshold {th})")
            if abs(e) < th * 0.999 and warned:
                mon.fail(f"warning for a balance error of {e} (threshold {th})")
            by_default(case, obs, sol, e)
            # exactly at the threshold, and next to it.
            e = abs(sol.error)
            for th, want in ((e, False), (np.nextafter(e, 0), True)):
                if e == 0 or not np.isfinite(e):
                    break
                with warnings.catch_warnings(record=True) as ws:
                    warnings.simplefilter("always")
                    with gen.quiet():
                        sol.check_MB(error_threshold=th)
                if abs(sol.error) != e:
                    mon.fail(f"error {sol.error} of the same timestep, before {e}")
                warned = any("balance" in str(w.message).lower() for w in ws)
                if warned is not want:
                    mon.fail(f"warned {warned} for a balance error of {e} (threshold {th!r})")
                obs.ev("threshold equal to the error")
            obs.ev("corrupted history")
            if t == 1:
                obs.ev("corrupted first timestep")
    obs.sig(sim.features(case))
