"""C19: several solutions of one model."""

import copy
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (700, 110)
THOROUGH = (16000, 780)
RULE = (
    "One model is compiled to several solutions (FDM dense and sparse, D1P1; all "
    "aliases of names in any case; compiled before, between and after definitions and "
    "timesteps; compiled again; unavailable or unknown methods) and timesteps, "
    "selection of solutions, and changes of wells and boundaries are interleaved at "
    "random. The history of every solution is compared with a fresh model which has "
    "only this solution and sees the same changes at the same points; a solution which "
    "is not selected never changes. Non-trivial: distinct (interleaving, structure)."
)
NEED = ["compile", "selection", "rejected", "independent history", "untouched solution", "compiled again"]
ST = {"numerical": ["n", "num", "numerical", "Numerical", "NUM", "N"], "analytical": ["a", "ana", "analytical", "Analytical", "A"]}
ME = {
    "FDM": ["fdm", "FDM", "Fdm", "finite difference method", "Finite-Difference-Method"],
    "D1P1": ["d1p1", "D1P1", "1d1p", "1D1P", "1-dimension-1-phase", "1Dimension1Phase"],
}
BAD = [
    ("numerical", "FVM"), ("n", "fem"), ("nn", "pinn"), ("neurical", "DeepONet"), ("a", "d2p1"), ("a", "d3p3"),
    ("analytical", "D1P2"), ("a", "d1p3"), ("analytical", "d2p2"), ("a", "D2P3"), ("analytical", "1d2p"), ("a", "d3p1"), ("a", "D3P2"),
    ("numerical", "fdx"), ("magic", "fdm"), ("a", "fdm"), ("n", "d1p1"), ("nn", "fdm"), ("", "fdm"), ("n", ""),
]


def gen_case(rng, tier):
    ana = rng.random() < 0.25
    kw = dict(big=0.0, plan=dict(sym=0.1, long=0.0, maxn=2))
    if ana:
        c = sim.gen_sim(rng, tier, fdir=rng.choice("xyz"), wells=False, comp=True, dips=False, rock="homog", **kw)
        ref = RefGrid(c["grid"])
        pr = gen.R[c["model"]["unit"]]["p"]
        c["grid"]["phi"] = 0.2
        c["acts"] = [dict(op="bcs", d=[[0, "p", gen.number(rng, *pr)], [ref.nb - 1, "pressure", gen.number(rng, *pr)]])]
    else:
        c = sim.gen_sim(rng, tier, **kw)
    c["split"] = 0
    sols = ["FDM-True", "FDM-False"] + (["D1P1-True"] if ana else [])
    # events
    ref = RefGrid(c["grid"])
    unit, pref = c["model"]["unit"], c.get("pref") or c["model"]["pi"]
    inc = not (c["grid"].get("comp") or c["fluid"].get("comp"))
    wells, bcs = {}, {}
    ev = [["act", a] for a in c["acts"]]
    sim.track(c["acts"], wells, bcs, ref)
    k = rng.randint(0, len(ev)) if rng.random() < 0.5 else len(ev)
    if not inc:
        ev.insert(k, ["compile", rng.choice(sols)])
    else:
        ev.append(["compile", rng.choice(sols)])
    for _ in range(rng.randint(5, 14)):
        x = rng.random()
        if x < 0.17:
            ev.append(["compile", rng.choice(sols)])
        elif x < 0.4:
            ev.append(["select", rng.choice(sols)])
        elif x < 0.47:
            ev.append(["bad", list(rng.choice(BAD))])
        elif x < 0.5:
            ev.append(["badselect", rng.choice(["", "FDM", "BlackOil-numerical-FDM", "x"])])
        elif x < 0.85:
            ev.append(["step", dict(how=rng.choice(["run", "solve"]), n=rng.randint(1, 3), vectorize=rng.random() < 0.85, threading=rng.random() < 0.2, check_MB=rng.random() < 0.5)])
        elif not ana:
            a = sim.gen_change(rng, ref, unit, pref, inc, wells, bcs)
            if a is not None:
                sim.track([a], wells, bcs, ref)
                ev.append(["act", a])
    c["events"] = ev
    c["plan"] = []
    c["seed"] = rng.randrange(10**9)
    return c


def name(s):
    meth, sp = s.split("-")
    return f"BlackOil-{'numerical' if meth == 'FDM' else 'analytical'}-{meth}-{sp}"


def comp(model, s, r):
    meth, sp = s.split("-")
    st = r.choice(ST["numerical" if meth == "FDM" else "analytical"])
    me = r.choice(ME[meth])
    if sp == "True" and r.random() < 0.3:
        model.compile(st, me)
    else:
        model.compile(stype=st, method=me, sparse=sp == "True")


def snap(sol):
    return (sol.pressures.copy(), sol.rates.copy(), sol.tstep, sol.nsteps, {c: list(v) for c, v in sol.w_pressures.items()})


def same_snap(a, b, what):
    for i, nm in ((0, "pressures"), (1, "rates")):
        mon.same_array(b[i], a[i], f"{nm} of {what}")
    if repr(a[2:]) != repr(b[2:]):
        fail(f"{what} changed: {a[2:]} -> {b[2:]}")


def step(model, g):
    if type(model.solution).__name__ == "D1P1":
        model.run(nsteps=g["n"])
    else:
        sim.drive(model, g)


def replay(case, upto, s, start):
    """Only solution s, compiled at event number start."""
    model = gen.make_model(case, acts=False)
    cur, n = None, 0
    for i, (op, a) in enumerate(case["events"][:upto]):
        if op == "act":
            gen.apply(model, a)
        elif op == "compile":
            cur = a
            if i == start:
                meth, sp = s.split("-")
                model.compile(stype="numerical" if meth == "FDM" else "analytical", method=meth, sparse=sp == "True")
        elif op == "select":
            cur = a if a in case["_sel"][i] else cur
        elif op == "step" and cur == s and i > start:
            step(model, a)
            n += 1
    return model.solution, n


def run(case, obs):
    r = random.Random(case["seed"])
    case = dict(case)
    case["_sel"] = {}
    made = {}  # solution -> number of the event
    with gen.quiet():
        model = gen.make_model(case, acts=False)
        cur = None
        if model.solution is not None or model.get_solutions() != []:
            fail("a new model has a solution")
        trace = []
        objs = {}
        for i, (op, a) in enumerate(case["events"]):
            trace.append((op, a if isinstance(a, str) else None))
            before = {s: snap(o) for s, o in objs.items()}
            if op == "act":
                gen.apply(model, a)
                before = {}
            elif op == "compile":
                comp(model, a, r)
                if a in objs:
                    obs.ev("compiled again")
                    if model.solution is objs[a]:
                        fail("compiling again did not start a new solution")
                    del before[a]
                objs[a] = model.solution
                made[a] = i
                cur = a
                sol = model.solution
                if type(sol).__name__ != a.split("-")[0] or sol.tstep != 0 or len(sol.pressures) != 1:
                    fail(f"compiling {a} gave {type(sol).__name__} at timestep {sol.tstep}")
                if sol.sparse != (a.split("-")[1] == "True"):
                    fail(f"compiling {a} gave sparse={sol.sparse}")
                obs.ev("compile")
            elif op == "select":
                case["_sel"][i] = list(objs)
                if a in objs:
                    model.set_solution(name(a))
                    cur = a
                    obs.ev("selection")
                else:
                    rejected(model, lambda: model.set_solution(name(a)), obs, "an unknown solution")
            elif op == "bad":
                rejected(model, lambda: model.compile(stype=a[0], method=a[1], sparse=r.choice([True, False])), obs, f"compile{tuple(a)}")
                if r.random() < 0.5:
                    rejected(model, lambda: model.compile("n", "fdm", r.choice([1, "yes", None])), obs, "sparse which is not bool")
            elif op == "badselect":
                rejected(model, lambda: model.set_solution(a), obs, "an unknown solution")
            elif op == "step" and cur is not None:
                step(model, a)
                before.pop(cur)
            if cur is not None and (model.solution is not objs[cur] or model.solve.__self__ is not objs[cur] or model.run.__self__ is not objs[cur]):
                fail(f"after {op} {a}: {cur} is not the solution of the model")
            if cur is not None and str(model.compiler) != name(cur):
                fail(f"after {op}: compiler is {model.compiler}, expected {name(cur)}")
            if sorted(model.get_solutions()) != sorted(name(s) for s in objs):
                fail(f"solutions {model.get_solutions()}, expected {sorted(objs)}")
            for s, b in before.items():
                same_snap(b, snap(objs[s]), f"solution {s}, which is not selected,")
                obs.ev("untouched solution")
        for s, o in objs.items():
            e, n = replay(case, len(case["events"]), s, made[s])
            if o.tstep != e.tstep or o.nsteps != e.nsteps:
                fail(f"solution {s} has {o.tstep} timesteps, expected {e.tstep}")
            sc = float(np.nanmax(np.abs(e.pressures))) if np.isfinite(e.pressures).any() else 1.0
            mon.same_array(o.pressures, e.pressures, f"pressures of solution {s}", rtol=1e-7, atol=1e-8 * sc)
            sq = float(np.abs(e.rates).max())
            J = [w["G"] / (model.fluid.mu * model.fluid.B) for w in model.wells.values() if "G" in w]
            mon.same_array(o.rates, e.rates, f"rates of solution {s}", rtol=1e-6, atol=1e-7 * sq + 1e-8 * sc * max(J + [stiff(model)]))
            if set(o.w_pressures) != set(e.w_pressures):
                fail(f"wells of solution {s}: {list(o.w_pressures)}, expected {list(e.w_pressures)}")
            for c in e.w_pressures:
                mon.same_array(np.array(o.w_pressures[c], float), np.array(e.w_pressures[c], float), f"pwf of well {c} in solution {s}", rtol=1e-6, atol=1e-7 * sc)
            obs.ev("independent history")
    obs.sig(gen.features(case), trace)


def stiff(model):
    """Largest transmissibility at a boundary."""
    t = [0.0]
    for b in model.bdict:
        t += [2 * float(v) for v in model.get_cell_trans(b, None, False).values()]
    return max(t)


def rejected(model, f, obs, what):
    b = (model.solution, model.compiler, model.solve, model.run, list(model.solutions.items()))
    try:
        f()
    except Exception:
        pass
    else:
        fail(f"{what} was accepted")
    a = (model.solution, model.compiler, model.solve, model.run, list(model.solutions.items()))
    if a[0] is not b[0] or a[1] is not b[1] or a[2:] != b[2:]:
        fail(f"{what} changed the model: {b} -> {a}")
    obs.ev("rejected")
