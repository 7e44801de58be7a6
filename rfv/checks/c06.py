"""C06: every way to assemble and store the equations gives the same system."""

import contextlib
import io

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (360, 110)
THOROUGH = (16000, 780)
RULE = (
    "Random models and schedules with changes; before every group of timesteps the "
    "system assembled by each of vectorized/symbolic, threaded or not, dense/sparse "
    "is compared row by row (up to its sign) with an independent dense assembly; the "
    "recorded systems are satisfied by the recorded pressures; and twins of the model "
    "solved through the other ways keep the same pressures, rates, and bottom hole "
    "pressures. Non-trivial: distinct structure and schedule."
)
NEED = ["vectorized rows", "symbolic rows", "recorded system", "twin"]


def gen_case(rng, tier):
    if rng.random() < 0.2:  # many terms are exactly zero, and sources are switched off.
        c = sim.gen_sim(rng, tier, big=0.0, comp=False, plan=dict(maxn=1, maxg=5, long=0.0, changes=0.95, off=0.6, sym=0.5))
        c["fluid"].pop("rho", None)
    elif rng.random() < 0.012:  # ids above 999.
        a = rng.sample(range(3), 2)
        shape = [1, 1, 1]
        shape[a[0]], shape[a[1]] = rng.randint(250, 280), 2
        kw = {} if sorted(a) == [0, 1] else dict(wells=False)
        c = sim.gen_sim(rng, tier, big=0.0, shape=shape, plan=dict(maxn=1, maxg=1, long=0.0, many=0.0, thr=0.0), **kw)
    else:
        c = sim.gen_sim(rng, tier, big=0.0, plan=dict(maxn=2, long=0.0, changes=0.6))
    c["twins"] = [
        dict(
            vectorize=rng.random() < 0.4,
            sparse=rng.random() < 0.5,
            threading=rng.random() < 0.5,
            print_arrays=rng.random() < 0.1,
        )
        for _ in range(2)
    ]
    if rng.random() < 0.1 and c["model"].get("pi") is not None:
        c["model"]["pi"] = rng.choice([0, 0.0])
    c["thr"] = [rng.random() < 0.4]
    if max(c["grid"][k] for k in ("nx", "ny", "nz")) >= 250:
        c["thr"] = [False]
        c["twins"] = [dict(vectorize=False, sparse=rng.random() < 0.5, threading=False, print_arrays=False)]
    return c


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.array(x)


def rows(A, d, ref, RA, Rd, scale, what, obs, name):
    A, d = dense(A), dense(d).ravel()
    n = ref.grid.n
    if A.shape != (n, n) or d.shape != (n,):
        fail(f"{what}: shapes {A.shape}, {d.shape}")
    for i in range(n):
        s = np.abs(RA[i]).max()
        tol = 1e-9
        sd = scale[i] + abs(Rd[i])
        for sign in (1, -1):
            if (
                np.all(np.abs(sign * A[i] - RA[i]) <= tol * s)
                and abs(sign * d[i] - Rd[i]) <= tol * sd + 1e-13
            ):
                break
        else:
            fail(
                f"{what}: equation of cell {ref.grid.interior[i]} is\n{A[i]} = {d[i]}, "
                f"expected (up to sign)\n{RA[i]} = {Rd[i]}"
            )
        obs.ev(name)


def states(model, ref):
    return {
        c: ("q" if model.wells[c]["constrain"] == "q" else "pwf") for c in ref.wells
    }


def d_scale(ref, p_old, state):
    """Size of the terms which add up to the right hand side."""
    g = ref.grid
    s = np.zeros(g.n)
    for c in g.interior:
        i = g.index[c]
        for m, t in ref.adj[c]:
            s[i] += t * abs(ref.gam) * (abs(g.z[m]) + abs(g.z[c]))
        if ref.comp > 0:
            s[i] += ref.acc[c] * abs(p_old[c])
    for b, (knd, v) in ref.bc.items():
        if b in g.link:
            c = g.link[b][0]
            s[g.index[c]] += (
                2 * ref.Tb[b] * (abs(v) + abs(ref.gam) * (abs(g.z[b]) + abs(g.z[c])))
                if knd == "pressure"
                else abs(ref.b_flow(b, None))
            )
    for c, st in state.items():
        i = g.index[c]
        if st == "q":
            s[i] += abs(ref.wells[c]["q"])
        else:
            s[i] += ref.well_J(c) * ref.well_pwf_sp(c)
    return s


def run(case, obs):
    twins = []
    for tw in case["twins"]:
        m = gen.make_model(case)
        twins.append((tw, m, gen.compile_fdm(m, tw["sparse"])))
    model = gen.make_model(case)
    ref = gen.make_ref(case)
    sol = gen.compile_fdm(model, case["sparse"])
    g = ref.grid
    t = 0
    kappa = 1.0
    for grp in case["plan"]:
        for a in grp["acts"]:
            ref.apply(a)
            for m in [model] + [x[1] for x in twins]:
                gen.apply(m, a)
        p_old = sol.pressures[-1].copy()
        st = states(model, ref)
        RA, Rd = ref.system(p_old, st)
        scale = d_scale(ref, p_old, st)
        kappa = max(kappa, np.linalg.cond(RA / np.abs(RA).max(axis=1, keepdims=True)))
        for th in case["thr"]:
            what = f"(threading={th}, sparse={case['sparse']}, timestep {t})"
            A, d = sol.get_matrices_vect(th)
            rows(A, d, ref, RA, Rd, scale, "vectorized " + what, obs, "vectorized rows")
            A, d = sol.get_matrices_symb(th)
            rows(A, d, ref, RA, Rd, scale, "symbolic " + what, obs, "symbolic rows")
        if sol.pressures.shape[0] != t + 1:
            fail("assembling the equations changed the history")
        mon.same_array(sol.pressures[-1], p_old, "pressures after assembling")
        sim.drive(model, grp)
        for tw, _, s in twins:
            for _ in range(grp["n"]):
                with contextlib.redirect_stdout(io.StringIO()):
                    s.solve(
                        threading=tw["threading"],
                        vectorize=tw["vectorize"],
                        print_arrays=tw["print_arrays"],
                        isolver=None,
                    )
        for s in range(t + 1, t + grp["n"] + 1):
            A = sol.As[s].reshape(g.n, g.n)
            d = sol.ds[s].ravel()
            p = sol.pressures[s, g.interior]
            sc = np.abs(A) @ np.abs(p) + np.abs(d)
            if not np.all(np.abs(A @ p - d) <= 1e-9 * sc + 1e-13):
                fail(f"recorded pressures do not satisfy the recorded system {s}")
            obs.ev("recorded system")
        t += grp["n"]
        # twins
        P = sol.pressures[: t + 1]
        scale_p = max(np.nanmax(np.abs(P)), mon.max_p(ref))
        tol = scale_p * min(1e-3, 1e-8 + 1e-14 * kappa * (t + 1))
        for tw, m, s in twins:
            what = f"solved by {tw}"
            mon.same_array(s.pressures, sol.pressures, f"pressures {what}", 0, tol)
            J = sum(ref.Tb.values()) + sum(ref.well_J(c) for c in ref.wells)
            mon.same_array(
                s.rates, sol.rates, f"rates {what}", 1e-7, 1e-12 + 4 * J * tol
            )
            for c in ref.wells:
                mon.same_array(
                    np.array(m.w_pressures[c], dtype=float),
                    np.array(model.w_pressures[c], dtype=float),
                    f"pwf of well {c} {what}",
                    0,
                    10 * tol + (1e-7 * abs(ref.wells[c]["q"] or 0) / ref.well_J(c)),
                )
            obs.ev("twin")
        if g.nb > 999:
            obs.ev("ids above 999")
    obs.mx("condition number", kappa)
    obs.sig(sim.features(case), [tuple(x.values()) for x in case["twins"]])
