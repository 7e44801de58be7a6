"""C15: analytical solution of 1D single phase flow."""

import random

import numpy as np

from rfv import gen, mon
from rfv.mon import close, fail
from rfv.ref import FACTORS, RefGrid

LEVEL = "exploration"
QUICK = (700, 110)
THOROUGH = (12000, 780)
RULE = (
    "Random homogeneous horizontal 1D models (x, y, z; constant or per-cell sizes; "
    "all units; any initial and boundary pressures, also uniform) are solved by D1P1; "
    "the monitor compares every cell of every timestep with an independent solution of "
    "the diffusivity equation (Fourier series and, at early times, images), checks one "
    "row for each timestep (also for repeated runs), the constant boundaries, "
    "monotone approach to the steady state, the extremum principle, the recomputed "
    "solution of calc_solution and its domain, and the numerical solution (FDM) of a "
    "refined grid of the same model. Non-trivial: distinct (direction, sizes, unit, "
    "pressures, times)."
)
NEED = ["cell value", "calc_solution", "boundary value", "numerical comparison", "uniform pressure"]
ASSUMPTIONS = [
    "boundary pressures act at the centers of boundary cells for D1P1 (its domain)",
    "the series is truncated at 1000 terms: row 0 is compared within 2% of the range",
]


def gen_case(rng, tier):
    unit = rng.choices(gen.UNITS, [4, 3, 3])[0]
    fdir = rng.choice("xyz")
    g = gen.gen_grid(rng, fdir=fdir, unit=unit, dips=False, rock=rng.choice(["homog", "aniso"]))
    g["phi"] = gen.u(rng, 0.05, 0.4)
    # only the permeability at the flow direction is needed.
    if rng.random() < 0.3:
        for k in ("kx", "ky", "kz"):
            if k[1] != fdir:
                del g[k]
    f = dict(mu=gen.gen_mu(rng), B=gen.gen_B(rng), unit=unit)
    w = rng.choice(["f", "g", "fg"])
    if "f" in w:
        f["comp"] = gen.lu(rng, *gen.R[unit]["comp"])
    if "g" in w:
        g["comp"] = gen.lu(rng, *gen.R[unit]["comp"])
    pr = gen.R[unit]["p"]
    pi, p0, pn = (gen.number(rng, *pr) for _ in range(3))
    x = rng.random()
    if x < 0.1:
        p0 = pn = pi
    elif x < 0.25:
        p0 = pn
    elif x < 0.4:
        p0 = pi
    # the time of a step relative to the diffusion time.
    return dict(
        grid=g, fluid=f, fdir=fdir, pi=pi, p0=p0, pn=pn, unit=unit,
        tD=gen.lu(rng, 4e-6, 0.2), n=rng.randint(1, 12), whole=rng.random() < 0.3,
        runs=rng.choice([1, 1, 2]), num=rng.random() < 0.25, seed=rng.randrange(10**9),
        total=rng.choice([None, None, None, "model", "compiled"]),
        N=rng.choice([50, 300, 1000]), out=rng.choice([[-1, 1], [0, 1], [2, 5]]),
    )


def exact(xD, tD, pi, p0, pn):
    """Pressure at xD (array) and tD > 0 of the unit slab."""
    from math import erfc, sqrt

    p = p0 + (pn - p0) * xD
    if tD >= 0.02:
        for n in range(1, 60):
            c = 2 / (n * np.pi) * ((pi - p0) - (-1) ** n * (pi - pn))
            p = p + c * np.sin(n * np.pi * xD) * np.exp(-((n * np.pi) ** 2) * tD)
        return p
    # images: influence of each end.
    s = 2 * sqrt(tD)
    out = np.empty(len(xD))
    for i, x in enumerate(xD):
        a = b = 0.0
        for m in range(0, 6):
            a += erfc((2 * m + x) / s) - erfc((2 * m + 2 - x) / s)
            b += erfc((2 * m + 1 - x) / s) - erfc((2 * m + 1 + x) / s)
        out[i] = pi + (p0 - pi) * a + (pn - pi) * b
    return out


def other(case, g):
    """The rock, or one of another compressibility if it is set for the model."""
    return dict(g, comp=3 * g.get("comp", 0) + 1e-6) if case.get("total") else g


def total(case, when, m, comp, obs):
    if case.get("total") == when:
        m.set_comp(comp)
        obs.ev("compressibility of the model")


def scaled(v, lo, hi, out):
    return out[0] + (out[1] - out[0]) * (v - lo) / (hi - lo)


def run(case, obs):
    g, f, unit = case["grid"], case["fluid"], case["unit"]
    ref = RefGrid(g)
    F = FACTORS[unit]
    a = "xyz".index(case["fdir"])
    comp = g.get("comp", 0) + f.get("comp", 0)
    k = g["k" + case["fdir"]]
    diff = F["trans"] * k / (f["mu"] * f["B"]) / (
        g["phi"] * comp / (F["vol"] * f["B"])
    )
    x = np.array([ref.center[n, a] for n in range(ref.nb)])
    L = x[-1] - x[0]
    xD = (x - x[0]) / L
    dt = case["tD"] * L**2 / diff
    if case["whole"] and dt > 1:
        dt = int(dt)
    pi, p0, pn = case["pi"], case["p0"], case["pn"]
    lo, hi = min(pi, p0, pn), max(pi, p0, pn)
    span = hi - lo

    def make(cls_method):
        m = gen.rf().models.BlackOil(
            gen.make_grid(other(case, g)), gen.make_fluid(dict(f, dtype="double")), pi=pi, dt=dt, unit=unit,
            start_date="2020-01-05",
        )
        m.set_boundaries({0: ("pressure", p0), ref.nb - 1: ("pressure", pn)})
        total(case, "model", m, comp, obs)
        m.compile(stype="analytical" if cls_method == "D1P1" else "numerical", method=cls_method)
        total(case, "compiled", m, comp, obs)
        return m

    with gen.quiet():
        m = make("D1P1")
        for i in range(case["runs"]):
            n = case["n"] + i
            m.run(nsteps=n)
        sol = m.solution
        p = np.array(sol.pressures)
        if p.shape != (n + 1, ref.nb) or sol.tstep != n or sol.nsteps != n + 1:
            fail(f"shape {p.shape}, tstep {sol.tstep}, nsteps {sol.nsteps} after {n} timesteps")
        if not np.isfinite(p).all():
            fail(f"pressures are not finite: {p}")
        al = np.asarray(m.get_alpha())
        mon.same_array(al[ref.interior], np.full(ref.n, diff), "diffusivity", rtol=1e-9)
        prev = None
        for t in range(n + 1):
            tD = diff * dt * t / L**2
            if t == 0:
                e = np.full(ref.nb, float(pi))
                e[0], e[-1] = p0, pn
                # the series of a jump converges slowly next to it.
                near = np.sin(np.pi / 2 * np.minimum(xD, 1 - xD).clip(1e-9))
                tols = 0.02 + 2e-3 / near
            else:
                e = exact(xD, tD, pi, p0, pn)
                tols = np.full(ref.nb, 1e-6)
            for c in range(ref.nb):
                close(p[t, c], e[c], tols[c] * span + 1e-9 * hi, f"pressure of cell {c} at timestep {t} (tD={tD:.3g})")
                obs.ev("cell value")
            for c, v in ((0, p0), (ref.nb - 1, pn)):
                close(p[t, c], v, 1e-9 * hi, f"pressure of boundary {c} at timestep {t}")
                obs.ev("boundary value")
            if p[t].min() < lo - 1e-9 * hi or p[t].max() > hi + 1e-9 * hi:
                fail(f"pressures at timestep {t} are outside of [{lo}, {hi}]")
            far = np.abs(p[t] - (p0 + (pn - p0) * xD)).max()
            if t > 1 and far > prev + 1e-6 * span + 1e-9 * hi:
                fail(f"the distance to the steady state grows at timestep {t}: {prev} -> {far}")
            prev = far
        if span == 0:
            obs.ev("uniform pressure")
        # the solution as a function of its domain.
        tt = np.arange(n + 1) * dt
        for scale in (False, True):
            kw = {} if case["N"] == 1000 else dict(N=case["N"])
            if scale:
                if span == 0:
                    continue
                kw["output_range"] = case["out"]
            X, q = m.solution.calc_solution(scale=scale, **kw)
            X, q = np.asarray(X), np.asarray(q)
            if X.shape != (n + 1, ref.nb, 2) or q.shape != (n + 1, ref.nb):
                fail(f"calc_solution returned shapes {X.shape}, {q.shape}")
            if not scale:
                eX, eq = np.stack(np.meshgrid(tt, x, indexing="ij"), -1), p
            else:
                eX = np.stack(
                    np.meshgrid(scaled(tt, 0, tt[-1], (0, 1)), scaled(x, x[0], x[-1], (-1, 1)), indexing="ij"), -1
                )
                eq = scaled(p, lo, hi, case["out"])
            mon.same_array(X, eX, "domain of calc_solution", rtol=1e-9, atol=1e-9)
            sp = span if not scale else case["out"][1] - case["out"][0]
            # rows where the truncated series has converged.
            ok = [t for t in range(1, n + 1) if case["N"] ** 2 * np.pi**2 * diff * dt * t / L**2 > 20]
            mon.same_array(q[ok], eq[ok], f"calc_solution(scale={scale})", atol=1e-2 * sp if scale and p[1:].min() > lo + 1e-3 * span else 2e-3 * sp + 1e-9 * hi)
            obs.ev("calc_solution")
        mon.same_array(sol.pressures, p, "pressures after calc_solution")
        if case["num"]:
            numerical(case, obs, diff, comp)
    obs.sig(case["fdir"], ref.N, unit, pi, p0, pn, dt, n, case["runs"])


def numerical(case, obs, diff, comp):
    """FDM and D1P1 of a refined model (boundary pressures at the outer faces for
    FDM, at the centers of boundary cells for D1P1)."""
    g, f, unit = dict(case["grid"]), case["fluid"], case["unit"]
    d = case["fdir"]
    n = 40
    g["n" + d] = n
    h = 1000.0 / n if unit == "field" else (300.0 / n if unit == "metric" else 20.0 / n)
    g["d" + d] = h
    L = n * h
    steps, dtD = 30, 0.002
    dt = dtD * L**2 / diff
    pi, p0, pn = case["pi"], case["p0"], case["pn"]
    span = max(pi, p0, pn) - min(pi, p0, pn)
    res = {}
    for meth in ("FDM", "D1P1"):
        m = gen.rf().models.BlackOil(
            gen.make_grid(other(case, g)), gen.make_fluid(dict(f, dtype="double")), pi=pi, dt=dt, unit=unit,
            start_date="2020-01-05",
        )
        m.set_boundaries({0: ("pressure", p0), n + 1: ("pressure", pn)})
        total(case, "model", m, comp, obs)
        m.compile(stype="n" if meth == "FDM" else "a", method=meth)
        total(case, "compiled", m, comp, obs)
        m.run(nsteps=steps)
        res[meth] = np.array(m.solution.pressures)
    xD = (np.arange(n) + 0.5) / n
    e = exact(xD, dtD * steps, pi, p0, pn)
    hi = max(pi, p0, pn)
    err = np.abs(res["FDM"][steps, 1 : n + 1] - e).max()
    obs.mx("FDM error / range", err / span if span else 0)
    if err > 0.01 * span + 1e-6 * hi:
        fail(f"FDM differs from the exact solution by {err} where pressures range over {span}")
    err = np.abs(res["FDM"][steps, 1 : n + 1] - res["D1P1"][steps, 1 : n + 1]).max()
    obs.mx("FDM-D1P1 / range", err / span if span else 0)
    if err > 0.07 * span + 1e-6 * hi:
        fail(f"FDM and D1P1 differ by {err} where pressures range over {span}")
    obs.ev("numerical comparison")
