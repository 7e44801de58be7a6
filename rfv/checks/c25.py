"""C25: single and double precision."""

import copy
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (700, 110)
THOROUGH = (20000, 780)
RULE = (
    "The same random model and schedule is simulated in single and in double precision "
    "(every solver path); initial pressures, rock properties, sizes, volumes and transmissibilities are exact to the last digits of the precision; histories have the declared precision in every row, single "
    "precision satisfies flow, boundary and well equations within its rounding, and "
    "agrees with double precision within rounding times the condition of the systems; "
    "double precision is not degraded (its residuals are at double rounding); mixed "
    "precision is refused. Non-trivial: distinct structure and schedule."
)
NEED = ["single row", "double row", "compared", "mixed refused", "cell flow equation", "initial data"]
EPS = {"single": 6e-8, "double": 1.2e-16}
NP = {"single": np.float32, "double": np.float64}


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.03, plan=dict(sym=0.15, long=0.02, maxn=3))
    c["names"] = rng.choice([["single", "double"]] * 3 + [["float32", "float64"]])
    c["seed"] = rng.randrange(10**9)
    if rng.random() < 0.7:
        # values with all digits of double precision.
        def full(v):
            if isinstance(v, list):
                return [full(x) for x in v]
            return v * (1 + rng.uniform(-1, 1) * 1e-7) if isinstance(v, float) else v

        for o, ks in (("grid", ("dx", "dy", "dz", "kx", "ky", "kz", "phi", "z", "comp")), ("fluid", ("mu", "B", "rho", "comp")), ("model", ("pi", "dt"))):
            for k in ks:
                if c[o].get(k) is not None:
                    c[o][k] = full(c[o][k])
        for a in c["acts"] + [a for g in c["plan"] for a in g["acts"]]:
            for k in ("q", "pwf", "r", "s", "v"):
                if k in a:
                    a[k] = full(a[k])
            if a["op"] == "bcs":
                a["d"] = [[b, k, full(v)] for b, k, v in a["d"]]
    return c


def initial(case, model, ref, sol, prec, obs):
    """The first row and the data of the model hold the values which were given."""
    g = ref.grid
    pi = case["model"].get("pi")
    if pi is not None:
        e = np.full(g.n, 1.0) * np.asarray(pi, dtype=float)
        o = sol.pressures[0][g.interior]
        mon.same_array(o, e.astype(NP[prec]), f"initial pressures ({prec})", rtol=4 * EPS[prec])
    for b, (kk, v) in ref.bc.items():
        if kk == "pressure":
            mon.close(float(sol.pressures[0, b]), float(v), 4 * EPS[prec] * abs(v), f"initial pressure of boundary {b} ({prec})")
    for nm in ("kx", "ky", "kz", "phi", "z"):
        x = getattr(model.grid, nm, None)
        if x is None or case["grid"].get(nm) is None:
            continue
        e = np.ones(g.nb) * np.asarray(case["grid"][nm], dtype=float)
        mon.same_array(np.asarray(x, dtype=float), e, f"{nm} ({prec})", rtol=4 * EPS[prec])
    for a in "xyz":
        mon.same_array(np.asarray(model.grid.d[a], dtype=float), g.d[:, "xyz".index(a)], f"sizes along {a} ({prec})", rtol=4 * EPS[prec])
    mon.same_array(np.asarray(model.grid.V, dtype=float), g.V, f"volumes ({prec})", rtol=40 * EPS[prec])
    pos = {c: i for i, c in enumerate(g.interior)}
    n = g.n
    e = np.zeros((n, n))
    for (m, c), v in ref.T.items():
        e[pos[m], pos[c]] = e[pos[c], pos[m]] = v
    for sparse in (False, True):
        for vectorize in (True, False):
            T = model.get_cells_trans(False, sparse, vectorize)
            T = T.toarray() if sparse else np.asarray(T)
            if prec == "double" and T.dtype != np.float64:
                fail(f"transmissibilities are {T.dtype} (sparse={sparse}, vectorize={vectorize})")
            mon.same_array(np.asarray(T, dtype=float), e, f"transmissibilities ({prec}, sparse={sparse}, vectorize={vectorize})", rtol=100 * EPS[prec])
    for c in g.interior[:3]:
        for k, v in model.get_cell_trans(int(c), None, False).items():
            mon.close(float(v), e[pos[c], pos[k]], 100 * EPS[prec] * e[pos[c], pos[k]], f"transmissibility of {c} and {k} ({prec})")
    for nm in ("x", "y", "z"):
        A = np.asarray(model.grid.get_cells_A(nm, True, False), dtype=float)
        i = "xyz".index(nm)
        mon.same_array(A, g.d[:, (i + 1) % 3] * g.d[:, (i + 2) % 3], f"areas along {nm} ({prec})", rtol=40 * EPS[prec])
    C = np.asarray(model.grid.get_cells_center(True, False, False), dtype=float)
    mon.same_array(C, g.center, f"centers ({prec})", rtol=200 * EPS[prec], atol=200 * EPS[prec] * np.abs(g.center).max())
    obs.ev("initial data")


def with_dtype(case, name):
    c = copy.deepcopy(case)
    for k in ("grid", "fluid", "model"):
        c[k]["dtype"] = name
    return c


def run(case, obs):
    r = random.Random(case["seed"])
    out = {}
    for prec, name in zip(("single", "double"), case["names"]):
        c = with_dtype(case, name)
        eps = EPS[prec]

        def on_start(model, ref, sol):
            for nm in ("pressures", "rates"):
                if getattr(sol, nm).dtype != NP[prec]:
                    fail(f"initial {nm} are {getattr(sol, nm).dtype}, declared {name}")
            initial(c, model, ref, sol, prec, obs)

        def on_group(model, ref, sol, first, last):
            for nm in ("pressures", "rates"):
                x = getattr(sol, nm)
                if x.dtype != NP[prec]:
                    fail(f"{nm} are {x.dtype}, declared {name}")
                if x.shape != (last + 1, ref.grid.nb):
                    fail(f"{nm} have the shape {x.shape} after {last} timesteps")
            tol = 3e-4 if prec == "single" else 1e-10
            for t in range(first, last + 1):
                w = mon.mon_flow(ref, sol, t, obs, tol=tol)
                obs.mx(f"residual {prec}", w)
                mon.mon_bc(ref, sol, t, obs, tol=tol) if prec == "double" else None
                mon.mon_wells(ref, sol, t, obs, tol=tol)
                obs.ev(f"{prec} row")

        model, ref, sol = sim.execute(c, on_start=on_start, on_group=on_group)
        out[prec] = (model, ref, sol)
    (m1, ref, s1), (m2, _, s2) = out["single"], out["double"]
    g = ref.grid
    st = {c: ("q" if w["q"] is not None else "pwf") for c, w in ref.wells.items()}
    A, _ = ref.system(s2.pressures[0], st)
    n = g.n
    kap = np.linalg.cond(A)
    for t in range(1, s2.tstep + 1):
        kap = max(kap if np.isfinite(kap) else 0, np.linalg.cond(s2.As[t].reshape(n, n)))
    P = max(np.nanmax(np.abs(s2.pressures)), mon.max_p(ref))
    gz = abs(ref.gam) * np.abs(g.z).max()
    rel = 60 * EPS["single"] * (10 + kap) * (1 + s2.tstep)
    obs.mx("condition", kap)
    switching = any(w["q"] is not None for w in ref.wells.values())
    if rel < 0.05 and not switching:
        d = np.abs(s1.pressures.astype(float) - s2.pressures)
        tol = rel * (P + gz)
        if not np.nanmax(d) <= tol:
            fail(f"single and double precision differ by {np.nanmax(d)} (tolerance {tol}, condition {kap})")
        if not np.array_equal(np.isnan(s1.pressures), np.isnan(s2.pressures)):
            fail("pressures are missing in other cells in single precision")
        obs.mx("difference / tolerance", np.nanmax(d) / tol)
        J = 2 * sum(ref.Tb.values()) + sum(ref.well_J(c) for c in ref.wells)
        q = np.abs(s1.rates.astype(float) - s2.rates)
        qtol = J * tol + 1e-5 * np.abs(s2.rates).max() + 1e-12
        if not q.max() <= qtol:
            fail(f"rates of single and double precision differ by {q.max()} (tolerance {qtol})")
        obs.ev("compared")
    # mixed precision
    c = copy.deepcopy(case)
    which = r.choice(["grid", "fluid", "model"])
    for k in ("grid", "fluid", "model"):
        c[k]["dtype"] = "single" if k == which else "double"
    try:
        if which == "fluid":
            c["grid"]["dtype"] = r.choice(["single", "double"])
            c["model"]["dtype"] = c["grid"]["dtype"]
            c["fluid"]["dtype"] = {"single": "double", "double": "single"}[c["grid"]["dtype"]]
        gen.make_model(c, acts=False)
    except AssertionError:
        obs.ev("mixed refused")
    else:
        fail(f"a model was made with precision {[c[k]['dtype'] for k in ('grid', 'fluid', 'model')]}")
    obs.sig(sim.features(case), case["names"])
