"""Simulation workloads: a model, a schedule of timesteps, and changes of
wells and boundaries between the timesteps."""

import numpy as np

from rfv import gen, mon
from rfv.ref import RefGrid


def gen_plan(rng, spec, changes=0.4, sym=0.15, thr=0.2, maxn=4, maxg=3, long=0.03,
             bcall=True, many=0.03, off=0.05):
    """[{how, n, vectorize, threading, check_MB, acts}]"""
    ref = RefGrid(spec["grid"])
    unit = spec["model"]["unit"]
    pref = spec["model"]["pi"]
    if pref is None:
        pref = spec["pref"]
    inc = not (spec["grid"].get("comp") or spec["fluid"].get("comp"))
    wells = {}
    bcs = {}
    track(spec["acts"], wells, bcs, ref)
    groups = []
    if rng.random() < many:  # many changes, mostly between single timesteps.
        changes, maxn, ng = 0.9, 2, rng.randint(5, 10)
    else:
        ng = rng.randint(1, maxg)
    for gi in range(ng):
        symb = rng.random() < sym
        g = dict(
            how=rng.choice(["run", "run", "solve"]),
            n=rng.randint(1, maxn),
            vectorize=not symb,
            threading=rng.random() < thr,
            check_MB=rng.random() < 0.7,
            acts=[],
        )
        if rng.random() < long and not symb:
            g["n"] = rng.randint(15, 40) if rng.random() < 0.8 else rng.randint(60, 130)
        if gi > 0 and rng.random() < changes:
            for _ in range(rng.randint(1, 3)):
                a = gen_off(rng, wells, bcs, pref) if rng.random() < off else None
                a = a or gen_change(rng, ref, unit, pref, inc, wells, bcs, bcall)
                if a is not None:
                    g["acts"].append(a)
                    track([a], wells, bcs, ref)
        groups.append(g)
    return groups


def track(acts, wells, bcs, ref):
    for a in acts:
        if a["op"] == "bcs":
            bcs.clear()
            for b, c, v in a["d"]:
                bcs[b] = (c, v)
        elif a["op"] == "bc":
            bcs[a["id"]] = (a["cond"], a["v"])
        elif a["op"] == "bcall":
            for b in ref.boundary:
                bcs[b] = (a["cond"], a["v"])
        elif a["op"] == "well":
            if a.get("via") == "object":
                wells[a["cell"]] = {}
            w = wells.setdefault(a["cell"], {})
            for k in ("q", "pwf", "r", "s"):
                if a.get(k) is not None:
                    w[k] = a[k]


def gen_off(rng, wells, bcs, pref):
    """One source is switched off."""
    src = [("w", c) for c in sorted(wells) if "q" in wells[c] and "r" in wells[c]]
    src += [("b", b) for b in sorted(bcs) if bcs[b][0][0].lower() != "p" and bcs[b][1] != 0]
    if not src:
        return None
    k, i = rng.choice(src)
    if k == "w":
        return dict(op="well", cell=i, q=rng.choice([0, 0.0]))
    return dict(op="bc", id=i, cond=bcs[i][0], v=rng.choice([0, 0.0]))


def gen_change(rng, ref, unit, pref, inc, wells, bcs, bcall=False):
    a = gen_change_(rng, ref, unit, pref, inc, wells, bcs, bcall)
    return a if a is None else gen.gen_types(rng, a)


def gen_change_(rng, ref, unit, pref, inc, wells, bcs, bcall):
    r = gen.R[unit]
    x = rng.random()
    if bcall and rng.random() < 0.07:
        kk = "p" if inc else rng.choice("pqg")
        v = gen.gen_bc_value(rng, unit, kk, pref)
        return dict(op="bcall", cond=rng.choice(gen.SYN[kk]), v=v)
    if x < 0.06 and bcs and not inc:
        # another kind with the same value.
        b = rng.choice(sorted(bcs))
        cond, v = bcs[b]
        kk = rng.choice("qg" if abs(v) < 0.3 * pref else "p")
        return dict(op="bc", id=b, cond=rng.choice(gen.SYN[kk]), v=v)
    if x < 0.45 and ref.boundary:
        if inc:
            # keep the problem well-posed: only values change.
            if not bcs:
                return None
            b = rng.choice(sorted(bcs))
            cond = bcs[b][0]
            kk = cond[0].lower() if cond[0].lower() != "r" else "q"
            return dict(op="bc", id=b, cond=cond, v=gen.gen_bc_value(rng, unit, kk, pref))
        b = rng.choice(ref.boundary)
        kk = rng.choice("pqg")
        return dict(
            op="bc",
            id=b,
            cond=rng.choice(gen.SYN[kk]),
            v=gen.gen_bc_value(rng, unit, kk, pref),
        )
    if x < 0.55 and not inc:
        d = gen.gen_bcs(rng, ref, unit, pref) if rng.random() < 0.85 else []
        return dict(op="bcs", d=d)
    if ref.fdir not in ("x", "xy", "xyz"):
        return None
    if x < 0.8 and wells:
        c = rng.choice(sorted(wells))
        a = dict(op="well", cell=c)
        if "q" in wells[c] and "r" in wells[c] and rng.random() < 0.15:
            # replaced using an object: only rate, no bottom hole pressure.
            a.update(via="object", r=wells[c]["r"], q=gen.number(rng, *r["q"]))
            a["q"] *= rng.choice([-1, -1, 0, 1])
            if rng.random() < 0.5:
                a["obj_cell"] = rng.choice([None, 0, rng.choice(ref.interior)])
            return a
        if "q" in wells[c] and rng.random() < 0.6:
            a["q"] = rng.choice([-1, -1, 1]) * gen.number(rng, *r["q"])
            if rng.random() < 0.12:  # shut in.
                a["q"] = 0
        else:
            a["pwf"] = gen.number(rng, 0.02 * pref, 1.1 * pref)
        if not inc and rng.random() < 0.2:
            a["q"] = -gen.number(rng, *r["q"])
        if rng.random() < 0.3:
            a["s"] = abs(gen.gen_skin(rng))
        return a
    ws = [w for w in gen.gen_wells(rng, ref, unit, pref, 1) if w["cell"] not in wells]
    return ws[0] if ws else None


def gen_sim(rng, tier, big=0.1, plan=None, huge=0.006, **kw):
    maxn = 40 if rng.random() > big else (120 if tier == "quick" else 400)
    if big >= 0.02 and rng.random() < huge:
        maxn = 600
    if plan and "bcall" in plan:
        kw["bcall"] = plan["bcall"]
    if rng.random() < 0.04 and "max_wells" not in kw:
        kw["max_wells"] = 9
    spec = gen.gen_model(rng, maxn=maxn, **kw)
    inc = not (spec["grid"].get("comp") or spec["fluid"].get("comp"))
    if inc and rng.random() < 0.25:
        # the initial pressure is not needed by incompressible systems.
        spec["pref"] = spec["model"]["pi"]
        del spec["model"]["pi"]
        spec["model"]["pi"] = None
    spec["split"] = rng.choice([0, 0, rng.randint(0, len(spec["acts"]))])
    spec["plan"] = gen_plan(rng, spec, **(plan or {}))
    n = RefGrid(spec["grid"]).n
    if n > 150:
        for g in spec["plan"]:
            g.update(vectorize=True, n=min(g["n"], 3))
    elif n <= 8 and big >= 0.02 and rng.random() < 0.006:  # a very long history.
        spec["plan"][-1].update(how="run", n=rng.choice([260, 320, 550, 700]), vectorize=True, threading=False)
    return spec


def equal_histories(a, b):
    return set(a) == set(b) and all(
        len(a[k]) == len(b[k]) and np.allclose(a[k], b[k], 1e-6, 0, equal_nan=True) for k in b
    )


def drive(model, g, isolver=None):
    """One group of timesteps."""
    kw = dict(
        threading=g["threading"],
        vectorize=g["vectorize"],
        check_MB=g["check_MB"],
        isolver=isolver,
    )
    if g["how"] == "run":
        model.run(nsteps=g["n"], **kw)
    else:
        for _ in range(g["n"]):
            model.solve(**kw)


def execute(case, on_start=None, on_group=None, on_step=None, isolver=None):
    """Run the workload. Monitors see the history after every group.

    on_start(model, ref, sol); on_group(model, ref, sol, first, last);
    on_step(model, ref, sol, t).
    """
    model = gen.make_model(case, acts=False)
    ref = gen.make_ref(case, acts=False)
    n_after = case.get("split", 0)
    acts = case["acts"]
    before, after = acts[: len(acts) - n_after], acts[len(acts) - n_after :]
    for a in before:
        gen.apply(model, a)
        ref.apply(a)
    pi = case["model"].get("pi")
    made = {a["cell"] for a in acts[:1] if a.get("ctor")}  # by the constructor
    e = {c: [np.nan if pi is None else pi] for c in made | set(ref.wells)}
    if not equal_histories(model.w_pressures, e):
        mon.fail(f"bottom hole pressures before the first timestep: {model.w_pressures}, expected {e}")
    sol = gen.compile_fdm(model, case["sparse"])
    for a in after:
        gen.apply(model, a)
        ref.apply(a)
    if on_start:
        on_start(model, ref, sol)
    t = 0
    for g in case["plan"]:
        for a in g["acts"]:
            gen.apply(model, a)
            ref.apply(a)
        drive(model, g, isolver)
        first, t = t + 1, t + g["n"]
        if on_group:
            on_group(model, ref, sol, first, t)
        if on_step:
            for s in range(first, t + 1):
                on_step(model, ref, sol, s)
    return model, ref, sol


def features(case):
    return gen.features(case), [
        (g["how"], g["n"], g["vectorize"], g["threading"], [a["op"] for a in g["acts"]])
        for g in case["plan"]
    ]
