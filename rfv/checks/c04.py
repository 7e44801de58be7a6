"""C04: rock and fluid properties: the latest value set is the one in effect."""

import random

import numpy as np

from rfv import gen, mon
from rfv.checks.c01 import fshape
from rfv.mon import fail
from rfv.ref import FACTORS, RefGrid

LEVEL = "exploration"
QUICK = (2600, 110)
THOROUGH = (30000, 780)
RULE = (
    "Random grids and fluids receive random sequences of updates (all cells by a "
    "scalar or an array, one cell by id or coordinates, through both setters) mixed "
    "with queries in every form; a shadow copy holds the latest values. Geometric "
    "factors and a timestep of a model made afterwards have to use them as well. "
    "Non-trivial: distinct (shape, sequence of operations)."
)
NEED = ["uniform", "not uniform", "value", "view", "geometric factor", "fluid value", "model after updates", "cell of an array", "transmissibility", "compressibility of the model"]

PROPS = ["kx", "ky", "kz", "phi", "z"]


def value(rng, unit, name):
    r = gen.R[unit]
    if name[0] == "k":
        return gen.lu(rng, *r["k"]) if rng.random() < 0.7 else gen.number(rng, 1, 50)
    if name == "phi":
        return gen.u(rng, 0.05, 0.4)
    return gen.number(rng, *r["z"]) if rng.random() < 0.8 else 0


def gen_case(rng, tier):
    spec = gen.gen_model(rng, wells=False, comp=True, maxn=30)
    g = spec["grid"]
    ref = RefGrid(g)
    unit = g["unit"]
    ops = []
    for _ in range(rng.randint(4, 16)):
        x = rng.random()
        if x < 0.62:
            name = rng.choice(PROPS)
            how = rng.choice(["scalar", "array", "id", "coords", "id", "coords"])
            v = (
                [value(rng, unit, name) for _ in range(ref.nb)]
                if how == "array"
                else value(rng, unit, name)
            )
            ops.append(
                dict(
                    op="rock", name=name, how=how, v=v, cell=rng.randrange(ref.nb),
                    via=rng.choice(["set_prop", "set_props"]), np=rng.random() < 0.5,
                )
            )
        elif x < 0.7:
            # several properties of one cell / all cells in one call.
            names = rng.sample(PROPS, rng.randint(2, 3))
            ops.append(
                dict(
                    op="many", v={n: value(rng, unit, n) for n in names},
                    how=rng.choice(["scalar", "id", "coords"]), cell=rng.randrange(ref.nb),
                )
            )
        elif x < 0.78:
            ops.append(dict(op="comp", v=rng.choice([0, gen.lu(rng, *gen.R[unit]["comp"])]),
                            via=rng.choice(["set_comp", "set_props"])))
        else:
            n = rng.choice(["mu", "B", "rho", "comp"])
            v = dict(
                mu=gen.gen_mu(rng), B=gen.gen_B(rng), rho=gen.u(rng, *gen.R[unit]["rho"]),
                comp=rng.choice([0, gen.lu(rng, *gen.R[unit]["comp"])]),
            )[n]
            if n == "rho" and rng.random() < 0.3:
                v = 0
            ops.append(dict(op="fluid", name=n, v=v, via=rng.choice(["set", "set_props"])))
    spec["ops"] = ops
    if rng.random() < 0.35:
        spec["total"] = [rng.choice(["before", 0, 0, 1, 2]), rng.choice([0.1, 0.5, 2.0, 30.0])]
    spec["seed"] = rng.randrange(10**9)
    return spec


def run(case, obs):
    r = random.Random(case["seed"])
    g = dict(case["grid"])
    f = dict(case["fluid"])
    ref = RefGrid(g)
    un = g["unify"]
    grid = gen.make_grid(g)
    fluid = gen.make_fluid(f)
    S = {n: ref.full(g[n]) if g.get(n) is not None else ref.full(0) for n in PROPS}
    comp = g.get("comp") or 0

    early = None
    if r.random() < 0.4:
        # a model which exists before the updates.
        early = gen.make_model(dict(case, acts=[]), grid=grid, fluid=fluid)

    def trans():
        refs(ref, S)
        muB = f["mu"] * f["B"]
        c = r.choice(ref.interior)
        e = {m: ref.G(c, m, a) / muB for a in ref.flow for m in ref.nbr[c][a]}
        kind = r.randrange(4)
        if kind == 0:
            x = early.get_cell_trans(c, None, True)
            if set(x) != set(e):
                fail(f"transmissibilities of cell {c}: {x}, expected {e}")
            for m in e:
                mon.close(float(x[m]), e[m], 1e-9 * e[m], f"transmissibility {c}-{m}")
        elif kind == 1 and ref.D:
            k = r.randint(1, ref.D)
            off = 1
            for a in ref.flow[: k - 1]:
                off *= ref.NB[a]
            x = np.asarray(early.get_cells_trans_diag(True, k))
            a = ref.flow[k - 1]
            for m, i in ((c - off, c - off), (c + off, c)):
                mon.close(float(x[i]), e[m], 1e-9 * e[m], f"entry {i} of diagonal {k}")
        else:
            sparse = r.random() < 0.5
            x = early.get_cells_trans(False, sparse, kind == 2)
            i = ref.interior.index(c)
            row = np.asarray(x.toarray() if sparse else x)[i]
            w = np.zeros(ref.n)
            for m in e:
                if m in ref.interior:
                    w[ref.interior.index(m)] = e[m]
            mon.same_array(row, w, f"transmissibilities of cell {c}", 1e-9)
        obs.ev("transmissibility")

    def query():
        if early is not None and r.random() < 0.25:
            return trans()
        name = r.choice(PROPS)
        s = S[name]
        i = r.randrange(ref.nb)
        kind = r.randrange(8)
        if kind == 0:
            b = r.random() < 0.5
            fs = r.random() < 0.5
            fmt = "array" if fs else r.choice(["array", "list", "tuple"])
            e = s if b else s[ref.interior]
            if fs:
                e = e.reshape(fshape(ref, b, un))
            x = grid.get_prop(name, b, fs, fmt)
            mon.same_array(x, e, f"{name}(boundary={b}, fshape={fs}, fmt={fmt})")
            if name[0] == "k":
                mon.same_array(grid.get_cells_k(name[1], b, fs, fmt), e, f"get_cells_k {name}")
            obs.ev("value")
        elif kind == 1:
            mon.same_array(np.ravel(getattr(grid, name)), s, f"attribute {name}")
            if name[0] == "k":
                mon.same_array(np.ravel(grid.k[name[1]]), s, f"k[{name[1]}]")
            obs.ev("view")
        elif kind == 2:
            d = r.choice("xyz")
            kw = dict(id=i) if r.random() < 0.5 else dict(coords=ref.coords[i])
            e = S["k" + d][i]
            mon.close(float(grid.get_cell_k(d, **kw)), e, 0, f"k{d} of {kw}")
            mon.close(float(getattr(grid, f"get_cell_k{d}")(**kw)), e, 0, f"k{d} of {kw}")
            obs.ev("value")
        elif kind == 3:
            c = r.choice(ref.interior)
            Gs = grid.get_cell_G(c, None, True)
            refs(ref, S)
            e = {m: ref.G(c, m, a) for a in ref.flow for m in ref.nbr[c][a]}
            if set(Gs) != set(e):
                fail(f"geometric factors of cell {c}: {Gs}, expected {e}")
            for m in e:
                mon.close(float(Gs[m]), e[m], 1e-9 * e[m], f"geometric factor {c}-{m}")
            obs.ev("geometric factor")
        elif kind == 4:
            if (grid.comp, grid.comp_type) != (
                comp,
                "compressible" if comp else "incompressible",
            ):
                fail(f"rock: comp={grid.comp}, {grid.comp_type}, expected {comp}")
            obs.ev("value")
        elif kind == 7 and ref.D:
            # one cell of an array of the user.
            shape = fshape(ref, True, un)
            a = np.arange(float(ref.nb)).reshape(shape)
            e = np.arange(float(ref.nb))
            v = r.choice([7.5, -1.0, 0])
            kw = dict(id=i) if r.random() < 0.5 else dict(coords=ref.coords[i])
            e[i] = v
            grid.set_cell_value(a, v, **kw)
            mon.same_array(a, e.reshape(shape), f"array after set_cell_value({kw})")
            obs.ev("cell of an array")
        elif kind >= 6:
            # whether interior cells and all cells agree.
            for names, a, b in (
                (["phi"], grid.is_homogeneous, grid.is_heterogeneous),
                (["kx", "ky", "kz"], grid.is_isotropic, grid.is_anisotropic),
            ):
                full = all(np.all(S[n] == S[n][0]) for n in names)
                part = all(np.all(S[n][ref.interior] == S[n][ref.interior[0]]) for n in names)
                if bool(a) == bool(b):
                    fail(f"{names}: uniform {a}, not uniform {b}")
                if full == part:
                    if bool(a) != full:
                        fail(f"{names}: reported as uniform: {a}, values {[S[n] for n in names]}")
                    obs.ev("uniform" if full else "not uniform")
        else:
            for n in ("mu", "B"):
                mon.close(getattr(fluid, n), f[n], 0, f"fluid {n}")
            rho = f.get("rho") or 0
            mon.close(fluid.rho, rho, 0, "fluid rho")
            e = FACTORS[f["unit"]]["grav"] * rho
            mon.close(fluid.g, e, 1e-9 * e, "fluid gravity")
            c = f.get("comp") or 0
            if (fluid.comp, fluid.comp_type) != (c, "compressible" if c else "incompressible"):
                fail(f"fluid: comp={fluid.comp}, {fluid.comp_type}, expected {c}")
            obs.ev("fluid value")

    for _ in range(6):
        query()
    given = []
    for op in case["ops"]:
        if op["op"] == "rock":
            n, v = op["name"], op["v"]
            if op["how"] == "array" and op["np"]:
                v = np.array(v, dtype=float)
                given.append((v, v.copy()))
            kw = {}
            if op["how"] == "id":
                kw = dict(id=op["cell"])
            elif op["how"] == "coords":
                if ref.D == 0:
                    continue
                kw = dict(coords=ref.coords[op["cell"]])
            if op["via"] == "set_prop":
                grid.set_prop(n, v, **kw)
            else:
                grid.set_props(**{n: v}, **kw)
            if kw:
                S[n][op["cell"]] = v
            else:
                S[n] = ref.full(v)
        elif op["op"] == "many":
            kw = {}
            if op["how"] == "id":
                kw = dict(id=op["cell"])
            elif op["how"] == "coords":
                kw = dict(coords=ref.coords[op["cell"]])
            grid.set_props(**op["v"], **kw)
            for n, v in op["v"].items():
                if kw:
                    S[n][op["cell"]] = v
                else:
                    S[n] = ref.full(v)
        elif op["op"] == "comp":
            if op["via"] == "set_comp":
                grid.set_comp(op["v"])
            else:
                grid.set_props(comp=op["v"])
            comp = op["v"]
        else:
            if op["via"] == "set":
                getattr(fluid, "set_" + op["name"])(op["v"])
            else:
                fluid.set_props(**{op["name"]: op["v"]})
            f[op["name"]] = op["v"]
        for _ in range(r.randint(1, 4)):
            query()
    for a, b in given:
        mon.same_array(a, b, "array passed by the user")
    # a model made now uses the latest values.
    for n in PROPS:
        g[n] = [float(x) for x in S[n]]
    g["comp"] = comp
    spec = dict(case, grid=g, fluid=f)
    known = gen.make_ref(spec)
    if not known.comp and not any(
        k == "pressure" and b in ref.link for b, (k, _) in known.bc.items()
    ):
        b = r.choice(RefGrid(g).connected_boundaries())
        spec["acts"] = case["acts"] + [
            dict(op="bc", id=b, cond="pressure", v=case["model"]["pi"])
        ]
    model = gen.make_model(spec, grid=grid, fluid=fluid)
    mref = gen.make_ref(spec)
    total = case.get("total")

    def change():
        # the total compressibility is set for the model.
        c = mref.comp * total[1]
        model.set_comp(c)
        mref.acc = mref.acc * (c / mref.comp)
        mref.comp = c
        obs.ev("compressibility of the model")

    if not mref.comp > 0:
        total = None
    if total and total[0] == "before":
        change()
    sol = gen.compile_fdm(model, case["sparse"])
    n = r.randint(1, 3)
    for t in range(1, n + 1):
        if total and total[0] == t - 1:
            change()
        sol.solve(vectorize=r.random() < 0.85, isolver=None)
        mon.mon_flow(mref, sol, t, obs, 1e-9)
        mon.mon_bc(mref, sol, t, obs)
        if model.comp_type != ("compressible" if mref.comp > 0 else "incompressible"):
            fail(f"model is {model.comp_type}, compressibility {mref.comp}")
    obs.ev("model after updates")
    obs.sig(ref.N, un, [(o["op"], o.get("name"), o.get("how"), o.get("via")) for o in case["ops"]])


def refs(ref, S):
    ref.k = [S["kx"], S["ky"], S["kz"]]
    ref.phi, ref.z = S["phi"], S["z"]
