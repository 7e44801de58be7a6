"""Random workloads and how they are applied to the package."""

import contextlib
import io

from rfv.ref import RefGrid, RefModel

UNITS = ("field", "metric", "lab")

R = {
    "field": dict(
        dl=(40, 800), dz=(5, 80), k=(0.5, 800), q=(1, 900), p=(1500, 7000),
        rho=(20, 65), comp=(1e-6, 1e-4), dt=(0.2, 20), z=(2000, 9000), dzz=300,
        r=(2.5, 9),
    ),
    "metric": dict(
        dl=(10, 250), dz=(2, 30), k=(0.001, 0.8), q=(0.5, 150), p=(9000, 50000),
        rho=(600, 1100), comp=(1e-7, 1e-5), dt=(0.2, 20), z=(600, 3000), dzz=90,
        r=(0.6, 3),
    ),
    "lab": dict(
        dl=(0.5, 12), dz=(0.5, 5), k=(0.01, 2), q=(1e-3, 0.5), p=(2, 120),
        rho=(0.6, 1.2), comp=(1e-5, 5e-3), dt=(0.5, 60), z=(0, 60), dzz=8,
        r=(0.3, 1.2),
    ),
}


def u(rng, lo, hi):
    return float("%.6g" % rng.uniform(lo, hi))


def lu(rng, lo, hi):
    import math

    return float("%.6g" % math.exp(rng.uniform(math.log(lo), math.log(hi))))


def gen_mu(rng):
    """Viscosity: mostly ordinary oils, sometimes thin as gas or very thick."""
    x = rng.random()
    if x < 0.1:
        return lu(rng, 0.004, 0.3)
    if x < 0.17:
        return lu(rng, 4, 100)
    return u(rng, 0.3, 4)


def gen_B(rng):
    x = rng.random()
    if x < 0.06:
        return lu(rng, 0.004, 0.9)
    if x < 0.5:
        return 1
    return u(rng, 0.9, 1.7)


def number(rng, lo, hi, ints=True):
    """float or (when the range allows) int."""
    v = u(rng, lo, hi)
    if ints and rng.random() < 0.3 and int(v) >= max(lo, 1):
        return int(v)
    return v


FD = ["x", "y", "z", "xy", "xz", "yz", "xyz"]


def gen_shape(rng, fdir=None, maxn=48, minn=2, long1d=12):
    """nx, ny, nz for a flow direction."""
    if fdir is None:
        fdir = rng.choices(FD, [3, 2, 2, 4, 3, 3, 6])[0]
    his = (long1d, 7, 5) if maxn <= 200 else (maxn, 25, 9)
    if fdir != "-" and long1d == 12 and rng.random() < 0.05:  # one long axis.
        n = [1, 1, 1]
        for c in fdir:
            n["xyz".index(c)] = rng.randint(2, 3)
        a = "xyz".index(rng.choice(fdir))
        n[a] = 1
        most = min(maxn // (n[0] * n[1] * n[2]), 150)
        if most > his[len(fdir) - 1]:
            n[a] = rng.randint(his[len(fdir) - 1], most)
            return n
    for _ in range(200):
        n = [1, 1, 1]
        for c in fdir.replace("-", ""):
            hi = his[len(fdir) - 1]
            n["xyz".index(c)] = rng.randint(2, hi)
        if minn <= n[0] * n[1] * n[2] <= maxn or fdir == "-":
            return n
    return [2 if c in fdir else 1 for c in "xyz"]


def gen_sizes(rng, lo, hi, n):
    """Sizes per cell with special patterns."""
    base = u(rng, lo, hi)
    v = [float("%.6g" % (base * rng.uniform(0.4, 1.8))) for _ in range(n)]
    x = rng.random()
    if x < 0.15:
        v = [max(1, int(i)) for i in v]
    elif x < 0.25:  # ints first, then floats.
        h = rng.randint(1, n - 1)
        v = [max(1, int(i)) for i in v[:h]] + [i + 0.25 for i in v[h:]]
    elif x < 0.30:  # floats first, then ints.
        v = v[:1] + [max(1, int(i)) for i in v[1:]]
    elif x < 0.40:  # constant sizes given as list.
        v = [rng.choice([v[0], max(1, int(v[0]))])] * n
    elif x < 0.50:  # nearly constant.
        e = 10 ** rng.uniform(-5, -2)
        v = [float("%.9g" % (base * (1 + e * rng.uniform(-1, 1)))) for _ in range(n)]
    elif x < 0.58:  # same first and last sizes.
        v[1] = v[0]
        v[-1] = v[-2] = v[0]
    elif x < 0.66:  # one different cell.
        w, i = v[0], rng.randrange(n)
        v = [w] * n
        v[i] = float("%.6g" % (w * rng.choice([0.5, 1.01, 1.5, 3])))
    elif x < 0.72:  # geometric.
        f = rng.choice([1.3, 0.75, 1.08])
        v = [float("%.6g" % (base * f ** (i - n / 2))) for i in range(n)]
    return v


def gen_values(rng, n, mid, spread, digits=6):
    """Values per cell with special patterns (spread in decades)."""
    x = rng.random()
    f = lambda y: float("%.*g" % (digits, y))
    if x < 0.12:  # nearly uniform.
        e = 10 ** rng.uniform(-5, -1.5)
        return [float("%.9g" % (mid * (1 + e * rng.uniform(-1, 1)))) for _ in range(n)]
    if x < 0.20:  # one different cell.
        v = [f(mid)] * n
        v[rng.randrange(n)] = f(mid * 10 ** rng.uniform(-spread, spread))
        return v
    if x < 0.26:  # two values.
        w = [f(mid), f(mid * 10 ** rng.uniform(-spread, spread))]
        return [rng.choice(w) for _ in range(n)]
    if x < 0.32 and mid >= 4:  # ints.
        return [max(1, int(mid * 10 ** rng.uniform(-spread, spread))) for _ in range(n)]
    if x < 0.36:  # uniform, as list.
        return [f(mid)] * n
    return [f(mid * 10 ** rng.uniform(-spread, spread)) for _ in range(n)]


def gen_depths(rng, ref, unit):
    r = R[unit]
    z0 = u(rng, *r["z"])
    x = rng.random()
    f = lambda y: float("%.8g" % y)
    if x < 0.35:  # dipping plane.
        s = [rng.uniform(-0.3, 0.3) for _ in range(3)]
        return [f(z0 + sum(s[a] * ref.center[n, a] for a in range(3))) for n in range(ref.nb)]
    if x < 0.45:  # dip in one direction.
        a = rng.randrange(3)
        s = rng.choice([-1, 1]) * rng.uniform(0.01, 0.4)
        return [f(z0 + s * ref.center[n, a]) for n in range(ref.nb)]
    if x < 0.52:  # nearly flat.
        e = 10 ** rng.uniform(-4, -1) * r["dzz"]
        return [f(z0 + e * rng.uniform(-1, 1)) for _ in range(ref.nb)]
    if x < 0.58:  # around the datum (negative and positive).
        return [f(rng.uniform(-1, 1) * r["dzz"]) for _ in range(ref.nb)]
    if x < 0.66:  # ints.
        return [int(z0 + rng.uniform(-1, 1) * r["dzz"]) for _ in range(ref.nb)]
    if x < 0.72:  # flat except for one cell.
        v = [f(z0)] * ref.nb
        v[rng.choice(ref.interior)] += f(rng.uniform(-1, 1) * r["dzz"])
        return v
    if x < 0.77:  # flat reservoir, other depths at boundaries.
        return [
            f(z0) if n in ref.inter else f(z0 + rng.uniform(-1, 1) * r["dzz"])
            for n in range(ref.nb)
        ]
    return [f(z0 + rng.uniform(-1, 1) * r["dzz"]) for _ in range(ref.nb)]


def gen_grid(
    rng,
    fdir=None,
    unit=None,
    dtype="double",
    maxn=48,
    rock="auto",
    dips=True,
    unify=None,
    sizes="auto",
    shape=None,
):
    unit = unit or rng.choices(UNITS, [5, 3, 2])[0]
    r = R[unit]
    nx, ny, nz = shape or gen_shape(rng, fdir, maxn)
    g = dict(nx=nx, ny=ny, nz=nz, unit=unit, dtype=dtype)
    g["unify"] = rng.random() < 0.5 if unify is None else unify
    N = (nx, ny, nz)
    mode = rng.choice(["const", "const", "var", "mixed"]) if sizes == "auto" else sizes
    for a, key in enumerate(("dx", "dy", "dz")):
        lo, hi = r["dz"] if a == 2 else r["dl"]
        var = mode == "var" or (mode == "mixed" and rng.random() < 0.5)
        if N[a] > 1 and var:
            g[key] = gen_sizes(rng, lo, hi, N[a] + 2)
        else:
            g[key] = number(rng, lo, hi)
    ref = RefGrid(g)
    if rock == "auto":
        rock = rng.choices(
            ["homog", "aniso", "hetero", "mixed", "rim"], [6, 4, 10, 4, 1]
        )[0]
    k0 = number(rng, *r["k"]) if unit == "field" else lu(rng, *r["k"])
    for a, key in enumerate(("kx", "ky", "kz")):
        if rock == "homog":
            if a and rng.random() < 0.3:
                k0 = lu(rng, *r["k"])
            g[key] = k0
        elif rock == "rim":  # uniform except for the outer layer.
            v, w = lu(rng, *r["k"]), lu(rng, *r["k"])
            g[key] = [v if n in ref.inter else w for n in range(ref.nb)]
        elif rock == "aniso" or (rock == "mixed" and rng.random() < 0.5):
            g[key] = lu(rng, *r["k"])
        else:
            lo, hi = r["k"]
            mid = lu(rng, lo, hi)
            g[key] = gen_values(rng, ref.nb, mid, 0.8)
    if rng.random() < 0.6:
        g["phi"] = u(rng, 0.05, 0.4)
    else:
        g["phi"] = gen_values(rng, ref.nb, u(rng, 0.08, 0.25), 0.3)
    zr = rng.random()
    if zr < 0.2 or not dips:
        pass
    elif zr < 0.3:
        g["z"] = number(rng, *r["z"])
    else:
        g["z"] = gen_depths(rng, ref, unit)
    return g


def gen_bc_value(rng, unit, kindname, pref):
    r = R[unit]
    if kindname == "p":
        return number(rng, 0.5 * pref, 1.5 * pref)
    if kindname == "q":
        if rng.random() < 0.2:
            return rng.choice([0, 0.0])
        return rng.choice([-1, 1]) * number(rng, *r["q"])
    if rng.random() < 0.1:
        return 0
    return u(rng, -1, 1) * pref / (20 * r["dl"][1])


SYN = {
    "p": ["pressure", "press", "p", "Pressure", "P"],
    "q": ["rate", "q", "Rate", "Q"],
    "g": ["gradient", "grad", "g", "Gradient"],
}


def gen_bcs(rng, ref, unit, pref, need_p=False, kinds="pqg", synonyms=True):
    """List of [id, cond, v]."""
    out = {}
    conn = ref.connected_boundaries()
    dens = rng.choice([0, 0.15, 0.4, 1.0])
    for b in ref.boundary:
        if rng.random() < dens:
            kk = rng.choice(kinds)
            cond = rng.choice(SYN[kk]) if synonyms else SYN[kk][0]
            out[b] = [b, cond, gen_bc_value(rng, unit, kk, pref)]
    if need_p:
        b = rng.choice(conn)
        cond = rng.choice(SYN["p"]) if synonyms else "pressure"
        out[b] = [b, cond, gen_bc_value(rng, unit, "p", pref)]
    items = list(out.values())
    rng.shuffle(items)
    return items


def gen_wells(rng, ref, unit, pref, nmax=3, kinds=("q", "pwf", "both")):
    """Well actions (only grids for which wells are defined)."""
    if ref.fdir not in ("x", "xy", "xyz"):
        return []
    r = R[unit]
    out = []
    cells = list(ref.interior)
    rng.shuffle(cells)
    for c in cells[: rng.randint(0, nmax)]:
        w = dict(op="well", cell=c)
        kk = rng.choice(kinds)
        # radius is given in 1/12 of the length unit.
        w["r"] = u(rng, *r["r"])
        if kk in ("q", "both"):
            w["q"] = rng.choice([-1, -1, 1]) * number(rng, *r["q"])
            if rng.random() < 0.08:
                w["q"] = 0
        if kk in ("pwf", "both"):
            w["pwf"] = number(rng, 0.02 * pref, 1.1 * pref)
        if rng.random() < 0.6:
            w["s"] = gen_skin(rng)
        if kk == "q" and rng.random() < 0.3:
            w["via"] = "object"
            if rng.random() < 0.5:  # the argument overrides the cell of the object.
                w["obj_cell"] = rng.choice([None, 0, rng.choice(ref.interior)])
        # keep the well model valid (cell much larger than the well).
        d = ref.d[c]
        rmax = 12 * 0.1 * min(d[0], d[1])
        w["r"] = min(w["r"], float("%.5g" % rmax))
        # negative skin (stimulated): the inflow stays positive.
        if w.get("s", 0) < 0:
            w["s"] = 0.4 * w["s"]
        out.append(w)
    return out


def gen_skin(rng):
    x = rng.random()
    if x < 0.15:
        return rng.choice([0, 0.0])
    if x < 0.25:
        return rng.randint(1, 4)
    if x < 0.35:
        return u(rng, -0.5, 0)
    return u(rng, 0, 4)


def gen_model(
    rng,
    fdir=None,
    unit=None,
    dtype=None,
    comp=None,
    maxn=48,
    wells=True,
    bkinds="pqg",
    rock="auto",
    dips=True,
    sizes="auto",
    well_kinds=("q", "pwf", "both"),
    max_wells=3,
    bcall=True,
    shape=None,
):
    unit = unit or rng.choices(UNITS, [5, 3, 2])[0]
    dtype = dtype or "double"
    g = gen_grid(rng, fdir, unit, dtype, maxn, rock, dips, sizes=sizes, shape=shape)
    ref = RefGrid(g)
    r = R[unit]
    if comp is None:
        comp = rng.random() < 0.65
    f = dict(
        mu=gen_mu(rng),
        B=gen_B(rng),
        unit=unit,
        dtype=dtype,
    )
    if rng.random() < 0.6:
        f["rho"] = number(rng, *r["rho"]) if unit != "lab" else u(rng, *r["rho"])
    if comp:
        which = rng.choice(["f", "g", "fg"])
        if "f" in which:
            f["comp"] = lu(rng, *r["comp"])
        if "g" in which:
            g["comp"] = lu(rng, *r["comp"])
    pref = number(rng, *r["p"])
    m = dict(unit=unit, dtype=dtype, dt=rng.choice([1, number(rng, *r["dt"])]), pi=pref)
    m["start_date"] = "2020-01-05"
    w = gen_wells(rng, ref, unit, pref, max_wells, well_kinds) if wells else []
    has_pwf = any("q" not in x for x in w)
    need_p = (not comp) and not has_pwf
    bcs = gen_bcs(rng, ref, unit, pref, need_p, bkinds)
    acts = list(w)
    style = rng.choice(["bcs", "bc", "bcs", "mixed"])
    if bcs:
        if style == "bcs":
            acts.append(dict(op="bcs", d=bcs))
        elif style == "bc":
            acts += [dict(op="bc", id=b, cond=c, v=v) for b, c, v in bcs]
        else:
            h = len(bcs) // 2
            acts.append(dict(op="bcs", d=bcs[:h]))
            acts += [dict(op="bc", id=b, cond=c, v=v) for b, c, v in bcs[h:]]
    if style != "mixed":
        rng.shuffle(acts)
    # conditions and wells which are replaced later.
    pre = []
    inc = not comp
    if bcs and rng.random() < 0.3:
        if bcall and rng.random() < 0.5:
            k = rng.choice(bkinds)
            a = dict(op="bcall", cond=rng.choice(SYN[k]), v=gen_bc_value(rng, unit, k, pref))
        elif rng.random() < 0.5:
            a = dict(op="bcs", d=gen_bcs(rng, ref, unit, pref, False, bkinds))
        else:
            b, k = rng.choice(bcs)[0], rng.choice(bkinds)
            a = dict(op="bc", id=b, cond=rng.choice(SYN[k]), v=gen_bc_value(rng, unit, k, pref))
        pre.append(a)
    for x in w:
        if rng.random() < 0.12 and x.get("via") != "object":
            a = dict(x)
            for k in ("q", "pwf"):
                if k in a:
                    a[k] = a[k] * rng.choice([0, 0.5, 1, 1.5])
            a.pop("s", None)
            pre.append(a)
    acts = pre + acts
    if bcall and acts and rng.random() < 0.1:
        k = "p" if inc and not has_pwf else rng.choice(bkinds)
        if inc and "p" in bkinds:
            k = "p"
        a = dict(op="bcall", cond=rng.choice(SYN[k]), v=gen_bc_value(rng, unit, k, pref))
        if not inc or k == "p":
            acts.append(a)
    o = [x for x in acts if x.get("via") == "object" and "obj_cell" not in x]
    if o and rng.random() < 0.4:
        acts.remove(o[0])
        acts.insert(0, dict(o[0], ctor=True))
    for a in acts:
        gen_types(rng, a)
    return dict(grid=g, fluid=f, model=m, acts=acts, sparse=rng.random() < 0.5)


def gen_types(rng, a):
    """Some ids and values are given as numpy scalars."""
    if rng.random() < 0.12:
        a["np"] = rng.choice(["id", "v", "idv"])
    return a


# ---------------------------------------------------------------------------
# applying workloads
# ---------------------------------------------------------------------------


def rf():
    import reservoirflow

    return reservoirflow


def as_array(v, how=None):
    return v


def make_grid(g):
    kw = {k: v for k, v in g.items()}
    return rf().grids.RegularCartesian(**kw)


def make_fluid(f):
    return rf().fluids.SinglePhase(**f)


def make_model(spec, acts=True, grid=None, fluid=None):
    grid = make_grid(spec["grid"]) if grid is None else grid
    fluid = make_fluid(spec["fluid"]) if fluid is None else fluid
    kw = dict(spec["model"])
    if spec["acts"] and spec["acts"][0].get("ctor"):
        kw["well"] = make_well(spec["acts"][0])
    model = rf().models.BlackOil(grid, fluid, **kw)
    if "well" in kw and list(model.wells) != [spec["acts"][0]["cell"]]:
        from rfv import mon

        mon.fail(f"wells {list(model.wells)} of a model made with a well in cell {spec['acts'][0]['cell']}")
    if acts:
        for a in spec["acts"]:
            apply(model, a)
    return model


def make_well(act):
    return rf().wells.SingleCell(
        cell_id=act.get("obj_cell", act["cell"]),
        q=act.get("q"), s=act.get("s"), r=act.get("r"),
    )


def apply(model, act):
    import numpy as np

    op = act["op"]
    t = act.get("np", "")
    nid = np.int64 if "id" in t else (lambda i: i)
    nv = (lambda v: v if v is None else np.float64(v)) if "v" in t else (lambda v: v)
    if op == "bc":
        model.set_boundary(nid(act["id"]), act["cond"], nv(act["v"]))
    elif op == "bcs":
        model.set_boundaries({nid(i): (c, nv(v)) for i, c, v in act["d"]})
    elif op == "bcall":
        model.set_all_boundaries(act["cond"], nv(act["v"]))
    elif op == "well":
        if act.get("ctor"):
            return  # already defined by the constructor.
        if act.get("via") == "object":
            if "obj_cell" in act:
                model.set_well(make_well(act), cell_id=nid(act["cell"]))
            else:
                model.set_well(make_well(act))
        else:
            model.set_well(
                cell_id=nid(act["cell"]),
                q=nv(act.get("q")),
                pwf=nv(act.get("pwf")),
                r=act.get("r"),
                s=act.get("s"),
            )
    else:
        raise ValueError(op)


def make_ref(spec, acts=True):
    ref = RefModel(spec)
    if acts:
        for a in spec["acts"]:
            ref.apply(a)
    return ref


def compile_fdm(model, sparse):
    model.compile(stype="numerical", method="FDM", sparse=sparse)
    return model.solution


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(
        io.StringIO()
    ):
        yield


def features(spec):
    """Structural signature of a workload."""
    g, f = spec["grid"], spec["fluid"]
    ref = RefGrid(g)
    arr = lambda v: isinstance(v, list)
    w = sorted(
        ("q" if "q" in a else "") + ("p" if "pwf" in a else "")
        for a in spec["acts"]
        if a["op"] == "well"
    )
    kinds = set()
    for a in spec["acts"]:
        if a["op"] == "bcs":
            kinds |= {c[0].lower() for _, c, _ in a["d"]}
        elif a["op"] in ("bc", "bcall"):
            kinds.add(a["cond"][0].lower())
    return (
        ref.fdir,
        ref.N,
        g["unit"],
        g["unify"],
        tuple(arr(g[k]) for k in ("dx", "dy", "dz", "kx", "ky", "kz")),
        arr(g.get("z")),
        bool(f.get("rho")),
        bool(f.get("comp")),
        bool(g.get("comp")),
        tuple(w),
        tuple(sorted(kinds)),
        spec.get("sparse"),
    )
