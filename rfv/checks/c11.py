"""C11: physical invariances of simulations (metamorphic monitor)."""

import copy
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail
from rfv.ref import RefGrid, kind

LEVEL = "exploration"
QUICK = (1800, 110)
THOROUGH = (30000, 780)
RULE = (
    "Pairs (or triples) of real simulations of a random model and a transformed one: "
    "mirrored or relabeled axes, shifted datum, shifted or scaled pressures, "
    "superposed sources, rescaled rock/fluid/time, permuted definitions; and single "
    "runs: equilibrium at rest (horizontal or hydrostatic), extremum principle, "
    "monotone response to injection, steady state of incompressible flow. The monitor "
    "compares the complete histories of pressures, rates and bottom hole pressures. "
    "Non-trivial: distinct (relation, structure, schedule)."
)
RELS = [
    "mirror", "mirror", "relabel", "relabel", "datum", "pshift", "pscale", "superpose",
    "rest", "rest", "extremum", "monotone", "steady", "kmu", "ctime", "order",
]
NEED = sorted(set(RELS))


def gen_case(rng, tier):
    rel = rng.choice(RELS)
    kw = dict(big=0.05, plan=dict(sym=0.06, long=0.02, maxn=3, bcall=False))
    if rel == "extremum":
        kw.update(wells=False, bkinds="p", comp=rng.random() < 0.8)
    elif rel == "superpose":
        kw.update(well_kinds=("pwf",))
    elif rel == "steady":
        kw.update(comp=False)
    elif rel in ("ctime",):
        kw.update(comp=True)
    elif rel == "rest":
        kw.update(wells=False)
    c = sim.gen_sim(rng, tier, **kw)
    c["rel"] = rel
    c["seed"] = rng.randrange(10**9)
    if c["model"].get("pi") is None:
        c["model"]["pi"] = c["pref"]
    if rel in ("rest", "extremum", "superpose", "steady", "monotone"):
        for g in c["plan"]:
            g["acts"] = []
    c["split"] = 0
    return c


# --- transformations --------------------------------------------------------


def tr_acts(acts, ids=None, fp=None, fq=None, fg=None):
    ids = ids or (lambda i: i)
    fp, fq, fg = fp or (lambda v: v), fq or (lambda v: v), fg or (lambda v: v)

    def val(c, v):
        return dict(pressure=fp, rate=fq, gradient=fg)[kind(c)](v)

    out = []
    for a in acts:
        a = dict(a)
        if a["op"] == "bcs":
            a["d"] = [[ids(i), c, val(c, v)] for i, c, v in a["d"]]
        elif a["op"] == "bc":
            a["id"], a["v"] = ids(a["id"]), val(a["cond"], a["v"])
        elif a["op"] == "well":
            a["cell"] = ids(a["cell"])
            if a.get("q") is not None:
                a["q"] = fq(a["q"])
            if a.get("pwf") is not None:
                a["pwf"] = fp(a["pwf"])
        out.append(a)
    return out


def tr_all(case, **kw):
    c = copy.deepcopy(case)
    c["acts"] = tr_acts(c["acts"], **kw)
    for g in c["plan"]:
        g["acts"] = tr_acts(g["acts"], **kw)
    return c


def limit_wells(case):
    """Rate wells get an explicit pressure limit (otherwise it is zero)."""
    for acts in [case["acts"]] + [g["acts"] for g in case["plan"]]:
        for a in acts:
            if a["op"] == "well" and a.get("pwf") is None and a.get("via") != "object":
                a["pwf"] = 0.0
            elif a["op"] == "well" and a.get("via") == "object":
                a.pop("via")
                a.pop("ctor", None)
                a["pwf"] = 0.0


def simulate(case, obs):
    model, ref, sol = sim.execute(case)
    W = {c: np.array(model.w_pressures[c], dtype=float) for c in ref.wells}
    obs.ev("timesteps", sol.tstep)
    # condition of the systems which were solved.
    st = {c: ("q" if w["q"] is not None else "pwf") for c, w in ref.wells.items()}
    A, _ = ref.system(sol.pressures[0], st)
    kap = np.linalg.cond(A)
    for s in (1, sol.tstep):
        if s < len(sol.As):
            n = ref.grid.n
            kap = max(kap if np.isfinite(kap) else 0, np.linalg.cond(sol.As[s].reshape(n, n)))
    return sol.pressures.copy(), sol.rates.copy(), W, ref, kap


def tolerances(runs):
    ptol, qtol = 0.0, 0.0
    for P, Q, W, ref, kap in runs:
        s = max(np.nanmax(np.abs(P)), mon.max_p(ref), 1e-300)
        for w in W.values():
            s = max(s, np.nanmax(np.abs(w)))
        gz = abs(ref.gam) * np.abs(ref.grid.z).max()
        s = s + gz
        tol = s * min(1e-3, 1e-9 + 1e-14 * kap * len(P))
        J = sum(ref.Tb.values()) * 2 + sum(ref.well_J(c) for c in ref.wells)
        qs = np.abs(Q).max()
        ptol = max(ptol, tol)
        qtol = max(qtol, 2 * J * tol + 1e-9 * qs + 1e-13)
        for c, w in ref.wells.items():
            if w["q"] is not None:
                ptol = max(ptol, 1e-9 * abs(w["q"]) / ref.well_J(c))
    return ptol, qtol


def same(run, P, Q, W, runs, what):
    ptol, qtol = tolerances(runs)
    mon.same_array(run[0], P, f"pressures ({what})", 1e-9, ptol)
    mon.same_array(run[1], Q, f"rates ({what})", 1e-7, qtol)
    for c in W:
        mon.same_array(run[2][c], W[c], f"bottom hole pressures of {c} ({what})", 1e-9, 5 * ptol)


def run(case, obs):
    rel = case["rel"]
    r = random.Random(case["seed"])
    {
        "mirror": axes, "relabel": axes, "datum": datum, "pshift": pshift,
        "pscale": pscale, "superpose": superpose, "rest": rest, "extremum": extremum,
        "monotone": monotone, "steady": steady, "kmu": rescale, "ctime": rescale,
        "order": order,
    }[rel](case, r, obs)
    obs.sig(rel, sim.features(case))


def axes(case, r, obs):
    rel = case["rel"]
    g = case["grid"]
    ref = RefGrid(g)
    perm, flip = [0, 1, 2], [False] * 3
    if rel == "mirror":
        for a in ref.flow:
            flip[a] = r.random() < 0.6
        if not any(flip):
            flip[r.choice(ref.flow)] = True
    else:
        has_well = any(
            a["op"] == "well"
            for acts in [case["acts"]] + [p["acts"] for p in case["plan"]]
            for a in acts
        )
        if has_well:
            if ref.fdir == "x":  # the well model needs flow along x.
                flip[0] = True
            else:
                perm = [1, 0, 2]
        else:
            while perm == [0, 1, 2]:
                r.shuffle(perm)
    # new axis a holds old axis perm[a].
    h = dict(g)
    names = (("nx", "ny", "nz"), ("dx", "dy", "dz"), ("kx", "ky", "kz"))
    for a in range(3):
        o = perm[a]
        for nm in names:
            h[nm[a]] = g[nm[o]]
        v = h[f"d{'xyz'[a]}"]
        if flip[o] and isinstance(v, list):
            h[f"d{'xyz'[a]}"] = v[::-1]
    new = RefGrid(h)
    idmap = {}
    for i, c in enumerate(ref.coords):
        c2 = [ref.NB[o] - 1 - c[o] if flip[o] else c[o] for o in perm]
        idmap[i] = new.id[tuple(c2)]
    inv = np.array([idmap[i] for i in range(ref.nb)])
    for nm in ("kx", "ky", "kz", "phi", "z"):
        if isinstance(h.get(nm), list):
            v = [0] * ref.nb
            for i in range(ref.nb):
                v[inv[i]] = h[nm][i]
            h[nm] = v
    c2 = tr_all(case, ids=lambda i: int(idmap[i]))
    c2["grid"] = h
    a, b = simulate(case, obs), simulate(c2, obs)
    moved = b[0][:, inv], b[1][:, inv], {c: b[2][idmap[c]] for c in a[2]}
    same(moved, *a[:3], (a, b), f"axes {perm}, mirrored {flip}")
    obs.ev(rel)


def datum(case, r, obs):
    g = dict(case["grid"])
    ref = RefGrid(g)
    sh = gen.u(r, -500, 3000)
    z = ref.full(g.get("z") or 0) + sh
    g["z"] = float(z[0]) if np.all(z == z[0]) and r.random() < 0.5 else [float(x) for x in z]
    c2 = copy.deepcopy(case)
    c2["grid"] = g
    a, b = simulate(case, obs), simulate(c2, obs)
    same(b, *a[:3], (a, b), f"all depths moved by {sh}")
    obs.ev("datum")


def pshift(case, r, obs):
    case = copy.deepcopy(case)
    limit_wells(case)
    # limits may become negative pressures: use a positive base.
    d = gen.u(r, 0.1, 2) * case["model"]["pi"]
    c2 = tr_all(case, fp=lambda v: v + d)
    c2["model"]["pi"] = case["model"]["pi"] + d
    a, b = simulate(case, obs), simulate(c2, obs)
    moved = [b[0] - d, b[1], {c: w - d for c, w in b[2].items()}]
    same(moved, *a[:3], (a, b), f"all pressures moved by {d}")
    obs.ev("pshift")


def pscale(case, r, obs):
    lam = r.choice([0.5, 3.0, gen.u(r, 0.2, 5)])
    f = lambda v: v * lam
    c2 = tr_all(case, fp=f, fq=f, fg=f)
    c2["model"]["pi"] = case["model"]["pi"] * lam
    if c2["fluid"].get("rho"):
        c2["fluid"]["rho"] *= lam
    a, b = simulate(case, obs), simulate(c2, obs)
    moved = [b[0] / lam, b[1] / lam, {c: w / lam for c, w in b[2].items()}]
    same(moved, *a[:3], (a, b), f"pressures, rates and density times {lam}")
    obs.ev("pscale")


def superpose(case, r, obs):
    """p(mean of two data sets) = mean of the solutions."""
    unit = case["model"]["unit"]
    pref = case["model"]["pi"]
    R = gen.R[unit]

    other = tr_all(
        case,
        fp=lambda v: gen.u(r, 0.3, 1.6) * pref,
        fq=lambda v: r.choice([-1, 1]) * gen.u(r, *R["q"]),
        fg=lambda v: gen.gen_bc_value(r, unit, "g", pref),
    )
    other["model"]["pi"] = gen.u(r, 0.5, 1.5) * pref
    other["fluid"]["rho"] = gen.u(r, *R["rho"])
    w = r.choice([0.5, gen.u(r, 0.1, 0.9)])

    mix = copy.deepcopy(case)
    mix["model"]["pi"] = w * case["model"]["pi"] + (1 - w) * other["model"]["pi"]
    mix["fluid"]["rho"] = w * (case["fluid"].get("rho") or 0) + (1 - w) * other["fluid"]["rho"]
    for x, y in zip(mix["acts"], other["acts"]):
        if x["op"] == "bcs":
            x["d"] = [
                [i, c, w * v + (1 - w) * v2] for (i, c, v), (_, _, v2) in zip(x["d"], y["d"])
            ]
        elif x["op"] == "bc":
            x["v"] = w * x["v"] + (1 - w) * y["v"]
        else:
            x["pwf"] = w * x["pwf"] + (1 - w) * y["pwf"]
    a, b, m = simulate(case, obs), simulate(other, obs), simulate(mix, obs)
    e = [w * a[k] + (1 - w) * b[k] for k in (0, 1)]
    W = {c: w * a[2][c] + (1 - w) * b[2][c] for c in a[2]}
    same(m, e[0], e[1], W, (a, b, m), f"superposition with weight {w}")
    obs.ev("superpose")


def rest(case, r, obs):
    """Without sources a reservoir at (hydrostatic) equilibrium stays there."""
    case = copy.deepcopy(case)
    c0 = case["model"]["pi"]
    ref = gen.make_ref(case, acts=False)
    g = ref.grid
    eq = c0 + ref.gam * g.z
    need = ref.comp == 0
    bc = {}
    for b in g.boundary:
        x = r.random()
        if x < 0.3:
            bc[b] = [b, r.choice(gen.SYN["p"]), float(eq[b])]
        elif x < 0.5:
            bc[b] = [b, r.choice(gen.SYN["q"] + gen.SYN["g"]), 0]
    if need:
        b = r.choice(g.connected_boundaries())
        bc[b] = [b, "pressure", float(eq[b])]
    case["acts"] = [dict(op="bcs", d=list(bc.values()))]
    model = gen.make_model(dict(case, model=dict(case["model"], pi=eq[g.interior])))
    sol = gen.compile_fdm(model, case["sparse"])
    for p in case["plan"]:
        sim.drive(model, p)
    scale = np.abs(eq).max() + abs(ref.gam) * np.abs(g.z).max()
    A, _ = gen.make_ref(case).system(eq, {})
    kap = np.linalg.cond(A)
    tol = scale * min(1e-3, 1e-9 + 1e-14 * kap * sol.tstep)
    for t in range(1, sol.tstep + 1):
        mon.same_array(
            sol.pressures[t, g.interior], eq[g.interior], f"pressures at rest, timestep {t}", 0, tol
        )
        J = max([2 * v for v in ref.Tb.values()])
        q = np.abs(sol.rates[t]).max()
        if not q <= J * tol * 2 + 1e-12:
            fail(f"flow of {q} at rest, timestep {t}")
    obs.ev("rest")


def extremum(case, r, obs):
    """Without gravity and rates, pressures stay between initial and
    boundary pressures, and the range of the cells shrinks."""
    case = copy.deepcopy(case)
    case["fluid"].pop("rho", None)
    P, Q, W, ref, kap = simulate(case, obs)
    vals = [v for b, (k, v) in ref.bc.items() if b in ref.grid.link]
    tol = tolerances([(P, Q, W, ref, kap)])[0]
    I = ref.grid.interior
    for t in range(1, len(P)):
        prev = list(P[t - 1, I]) if ref.comp > 0 else []
        lo, hi = min(vals + prev), max(vals + prev)
        if P[t, I].min() < lo - tol or P[t, I].max() > hi + tol:
            fail(
                f"pressures [{P[t, I].min()}, {P[t, I].max()}] at timestep {t} leave the "
                f"range of previous and boundary pressures [{lo}, {hi}]"
            )
    obs.ev("extremum")


def monotone(case, r, obs):
    """More injection (or boundary pressure) never lowers a pressure."""
    unit = case["model"]["unit"]
    c2 = copy.deepcopy(case)
    up = lambda v: v + gen.u(r, 0.1, 1) * (abs(v) + gen.R[unit]["q"][0])
    upp = lambda v: v * (1 + gen.u(r, 0, 0.5))
    c2["acts"] = tr_acts(c2["acts"], fp=upp, fq=up)
    a, b = simulate(case, obs), simulate(c2, obs)
    tol = tolerances((a, b))[0]
    I = a[3].grid.interior
    d = b[0][:, I] - a[0][:, I]
    if d.min() < -2 * tol:
        fail(f"a pressure is lower by {-d.min()} with higher rates and boundary pressures")
    obs.ev("monotone")


def steady(case, r, obs):
    """Incompressible: same pressures in all timesteps, whatever pi and dt."""
    c2 = copy.deepcopy(case)
    c2["model"]["pi"] = None
    c2["model"]["dt"] = gen.u(r, 0.1, 50)
    a, b = simulate(case, obs), simulate(c2, obs)
    ptol, qtol = tolerances((a, b))
    I = a[3].grid.interior
    for t in range(1, len(a[0])):
        mon.same_array(a[0][t, I], a[0][1, I], f"steady pressures, timestep {t}", 1e-9, ptol)
    same(
        [b[0][1:], b[1][1:], {c: w[1:] for c, w in b[2].items()}],
        a[0][1:], a[1][1:], {c: w[1:] for c, w in a[2].items()},
        (a, b), "without initial pressure, other dt",
    )
    obs.ev("steady")


def rescale(case, r, obs):
    lam = gen.u(r, 0.2, 6) if r.random() < 0.7 else gen.lu(r, 0.005, 200)
    c2 = copy.deepcopy(case)
    mul = lambda v: [x * lam for x in v] if isinstance(v, list) else v * lam
    if case["rel"] == "kmu":
        for k in ("kx", "ky", "kz"):
            c2["grid"][k] = mul(c2["grid"][k])
        c2["fluid"]["mu"] *= lam
        what = f"permeability and viscosity times {lam}"
    else:
        for x in (c2["grid"], c2["fluid"]):
            if x.get("comp"):
                x["comp"] *= lam
        c2["model"]["dt"] *= lam
        what = f"compressibility and timestep times {lam}"
    a, b = simulate(case, obs), simulate(c2, obs)
    same(b, *a[:3], (a, b), what)
    obs.ev(case["rel"])


def order(case, r, obs):
    """The order in which wells and boundaries are defined has no effect."""
    c2 = copy.deepcopy(case)
    wells, bcs = {}, {}
    for a in c2["acts"]:
        if a["op"] == "well":
            old = {} if a.get("via") == "object" else wells.get(a["cell"], {})
            new = {k: a[k] for k in ("q", "pwf", "r", "s") if a.get(k) is not None}
            wells[a["cell"]] = {**old, **new}
    w = [dict(op="well", cell=c, **x) for c, x in wells.items()]
    for a in c2["acts"]:
        if a["op"] == "bcs":
            bcs = {i: [i, c, v] for i, c, v in a["d"]}
        elif a["op"] == "bc":
            bcs[a["id"]] = [a["id"], a["cond"], a["v"]]
    b = list(bcs.values())
    r.shuffle(b)
    if r.random() < 0.5:
        new = w + [dict(op="bc", id=i, cond=c, v=v) for i, c, v in b]
        r.shuffle(new)
    else:
        new = w + [dict(op="bcs", d=b)]
        r.shuffle(new)
    c2["acts"] = new
    c2["sparse"] = r.random() < 0.5
    c2["split"] = r.randint(0, len(new))
    a, b = simulate(case, obs), simulate(c2, obs)
    same(b, *a[:3], (a, b), "other order of definitions")
    obs.ev("order")
