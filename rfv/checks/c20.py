"""C20: what can not be part of a model is refused, and leaves no trace."""

import copy
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "fault_enumeration"
QUICK = (1100, 110)
THOROUGH = (20000, 780)
RULE = (
    "Random models and schedules receive invalid operations at random points "
    "(conditions at interior or missing cells, unknown conditions, bulk conditions with "
    "one bad entry at any position, wells outside of the reservoir or without radius, "
    "wells for flow directions without a well model, unknown properties, wrong lengths, "
    "ids or coordinates out of range, negative compressibility, unknown units, solvers, "
    "columns, scalers, formats, directions, orders, incompatible precision). Each has "
    "to raise, the state after it has to be bit-identical, and the whole history has to "
    "be bit-identical to a twin which never saw them. Non-trivial: distinct (operation, "
    "point, structure)."
)
KINDS = [
    "bc_interior", "bc_missing", "bc_cond", "bcs_interior", "bcs_cond", "bcs_missing", "bcall_cond",
    "well_outside", "well_missing", "well_no_r", "well_no_id", "well_object", "well_fdir",
    "prop_unknown", "prop_len", "prop_id", "prop_coords", "comp_model", "comp_fluid", "comp_grid",
    "units", "isolver", "column", "scaler", "scaler_col", "fmt", "dir", "order", "coords", "id",
    "props_bulk", "fluid_bulk", "scalers_bulk", "bc_value", "bcs_value", "get_prop", "grid_new", "fluid_new", "model_new", "eq", "set_solution", "compile",
    "splits", "no_place",
]
NEED = KINDS + ["twin"]


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.0, plan=dict(sym=0.1, long=0.0, maxn=2, maxg=3))
    ref = RefGrid(c["grid"])
    # wells of unsupported directions
    n = rng.randint(4, 12)
    c["bad"] = [[rng.choice(KINDS), rng.randint(0, len(c["plan"])), rng.randrange(10**9)] for _ in range(n)]
    c["seed"] = rng.randrange(10**9)
    return c


def state(model, sol):
    g, f = model.grid, model.fluid
    gi = {
        "k": {a: np.array(v) for a, v in g.k.items() if v is not None},
        "attr": {a: np.array(getattr(g, a)) for a in ("kx", "ky", "kz") if hasattr(g, a)}, "phi": np.array(g.phi), "z": np.array(g.z), "comp": (g.comp, g.comp_type), "unit": g.unit,
        "factors": dict(g.factors), "G": np.asarray(g.get_cells_G(False, False)), "V": np.array(g.V),
    }
    fi = {k: getattr(f, k) for k in ("mu", "B", "rho", "comp", "comp_type", "unit", "g")}
    mi = {
        "wells": {c: dict(w) for c, w in model.wells.items()}, "bdict": dict(model.bdict),
        "update": list(getattr(model, "bdict_update", [])), "p0": model.init_pressures.copy(), "q0": model.init_rates.copy(),
        "comp": (model.comp, model.comp_type), "RHS": np.array(getattr(model, "RHS", 0.0)), "scalers": copy.deepcopy(model.scalers_dict),
        "scaler": {
            a: (type(o).__name__, sorted((k, repr(v)) for k, v in vars(o).items()))
            for a, o in ((a, getattr(model, a)) for a in ("time_scaler", "space_scaler", "pressures_scaler", "rates_scaler"))
        },
        "unit": (model.unit, dict(model.factors)), "pi": model.pi, "dt": model.dt,
        "sols": list(model.get_solutions()), "sol": id(model.solution),
    }
    si = {
        "p": sol.pressures.copy(), "q": sol.rates.copy(), "A": np.array(sol.As), "d": np.array(sol.ds),
        "t": (sol.tstep, sol.nsteps), "w": {c: list(v) for c, v in sol.w_pressures.items()},
    }
    return {"grid": gi, "fluid": fi, "model": mi, "solution": si}


def same(a, b, what):
    if isinstance(a, dict):
        if list(a) != list(b):
            fail(f"{what}: {list(b)}, expected {list(a)}")
        for k in a:
            same(a[k], b[k], f"{what}.{k}")
    elif isinstance(a, np.ndarray):
        mon.same_array(b, a, what)
    elif repr(a) != repr(b):
        fail(f"{what} is {b!r}, expected {a!r}")


def attempt(kind, model, ref, r, spec):
    """A function which has to raise, or None when it does not apply."""
    g = ref.grid
    grid, fluid, sol = model.grid, model.fluid, model.solution
    inter, bnd = list(g.interior), list(g.boundary)
    out = r.choice([-1, -2, g.nb, g.nb + 7, 10**6])
    pv = lambda: r.uniform(1, 100)
    C = r.choice(["p", "rate", "gradient", "Pressure"])
    UNK = r.choice(["pres", "rates", "flux", "", "x", "pressure ", "dp", "none"])
    if kind == "bc_interior":
        return lambda: model.set_boundary(r.choice(inter), C, pv())
    if kind == "bc_missing":
        return lambda: model.set_boundary(out, C, pv())
    if kind == "bc_cond":
        return lambda: model.set_boundary(r.choice(bnd), UNK, pv())
    if kind in ("bcs_interior", "bcs_cond", "bcs_missing"):
        ids = r.sample(bnd, min(len(bnd), r.randint(1, 4)))
        items = [(b, (r.choice(["p", "q", "g"]), pv())) for b in ids]
        bad = {"bcs_interior": (r.choice(inter), ("p", pv())), "bcs_missing": (out, ("q", pv())),
               "bcs_cond": (ids[0], (UNK, pv()))}[kind]
        if kind == "bcs_cond":
            items = items[1:]
        items.insert(r.randint(0, len(items)), bad)
        return lambda: model.set_boundaries(dict(items))
    if kind == "bcall_cond":
        return lambda: model.set_all_boundaries(UNK, pv())
    okw = g.fdir in ("x", "xy", "xyz")
    kw = dict(q=-pv(), r=0.01, s=r.choice([None, 1.5]))
    if r.random() < 0.3:
        kw["pwf"] = pv()
    if kind == "well_outside":
        c = r.choice(bnd)
        return lambda: model.set_well(cell_id=c, **kw)
    if kind == "well_missing":
        return lambda: model.set_well(cell_id=out, **kw)
    if kind == "well_no_id":
        return lambda: model.set_well(**kw)
    if kind == "well_no_r":
        c = [x for x in inter if x not in model.wells]
        if not okw or not c:
            return None
        c = r.choice(c)
        kw.pop("r")
        if r.random() < 0.4:
            w = gen.rf().wells.SingleCell(cell_id=c, q=-1.0)
            return lambda: model.set_well(w)
        return lambda: model.set_well(cell_id=c, **kw)
    if kind == "well_object":
        w = gen.rf().wells.SingleCell(cell_id=r.choice(bnd + [g.nb + 3]), q=-1.0, r=0.01, s=1)
        if r.random() < 0.3:
            w = gen.rf().wells.SingleCell(q=-1.0, r=0.01, s=1)
        return lambda: model.set_well(w)
    if kind == "well_fdir":
        if okw:
            return None
        return lambda: model.set_well(cell_id=r.choice(inter), **kw)
    if kind == "prop_unknown":
        return lambda: grid.set_prop(r.choice(["k", "foo", "Kx", "poro", "mu"]), pv())
    if kind == "prop_len":
        n = r.choice([m for m in (2, 3, g.nb - 1, g.nb + 1) if m not in (1, g.nb, g.n)])
        nm = r.choice(["kx", "ky", "kz", "phi", "z"])
        if r.random() < 0.3:
            shape = r.choice([(1, g.nb), (g.nb, 1), (1, 1, g.nb), (g.nb, g.nb)])
            set_ = r.choice([grid.set_prop, lambda k, v: grid.set_props(**{k: v})])
            return lambda: set_(nm, np.full(shape, 0.2))
        return lambda: grid.set_prop(nm, r.choice([list, np.array])([pv() for _ in range(n)]))
    if kind == "prop_id":
        return lambda: grid.set_prop(r.choice(["kx", "phi"]), pv(), id=out)
    far = tuple(x + 30 for x in (1, 1, 1))
    if kind == "prop_coords":
        return lambda: grid.set_prop(r.choice(["kx", "phi"]), pv(), coords=far)
    if kind == "comp_model":
        return lambda: model.set_comp(-pv())
    if kind == "comp_fluid":
        return lambda: (fluid.set_comp if r.random() < 0.5 else lambda v: fluid.set_props(comp=v))(-1e-6)
    if kind == "comp_grid":
        return lambda: (grid.set_comp if r.random() < 0.5 else lambda v: grid.set_props(comp=v))(-1e-6)
    if kind == "units":
        o = r.choice([model, grid, fluid])
        return lambda: o.set_units(r.choice(["si", "Field", "", "imperial"]))
    if kind == "isolver":
        if not sol.sparse:
            return None
        f = model.solve if r.random() < 0.5 else lambda **k: model.run(nsteps=2, **k)
        return lambda: f(isolver=r.choice(["foo", "CG", "bicgstabl", "direct"]))
    if kind == "column":
        if sol.tstep == 0:
            return None
        return lambda: model.get_df(columns=r.choice([["time", "foo"], ["pressure"], ["cells", "Rate"], ["wellz"]]), boundary=r.random() < 0.5)
    if kind == "scaler":
        return lambda: model.set_scalers({r.choice(["time", "space", "p", "q"]): [r.choice(["standard", "max", ""]), (0, 1)]})
    if kind == "scaler_col":
        return lambda: model.set_scalers({r.choice(["foo", "Times", "pwf"]): ["minmax", (0, 1)]})
    if kind == "fmt":
        f = r.choice([
            lambda: grid.get_cells_id(r.random() < 0.5, False, "bogus"),
            lambda: grid.get_cell_neighbors(id=r.choice(inter), boundary=True, fmt="bogus"),
            lambda: grid.get_cell_boundaries(id=r.choice(inter), fmt="bogus"),
        ])
        return f
    if kind == "dir":
        d = r.choice(["w", "X", "xy", ""])
        return r.choice([lambda: grid.get_cells_d(d, True), lambda: grid.get_cell_d(d, id=r.choice(inter)), lambda: grid.get_cells_A(d, True)])
    if kind == "order":
        return lambda: grid.get_order(type=r.choice(["reverse", "snake", ""]))
    if kind == "coords":
        return r.choice([lambda: grid.get_cell_d("x", coords=far), lambda: grid.set_prop("kx", 1, coords=(-5, 0, 0))])
    if kind == "id":
        return r.choice([lambda: grid.get_cell_coords(out), lambda: grid.get_cell_G(abs(out) + g.nb), lambda: sol.get_cell_eq(r.choice(bnd))])
    if kind == "props_bulk":
        # one invalid value or place between valid values.
        kw = {k: r.uniform(0.1, 0.3) for k in r.sample(["kx", "ky", "kz", "phi", "z"], r.randint(1, 3))}
        how = r.choice(["len", "comp", "id", "coords", "one", "one"])
        if how == "len":
            kw[r.choice(["kx", "ky", "kz", "phi", "z"])] = [0.2] * r.choice([g.nb + 1, g.nb + 2])
        elif how == "comp":
            kw["comp"] = r.choice([-1e-6, float("nan")])
        elif how == "one":
            kw[r.choice(["kx", "phi", "z"])] = r.choice(["a", [0.2] * 5])
            if r.random() < 0.5:
                kw["comp"] = 5e-6
            kw.update(r.choice([dict(id=r.choice(inter)), dict(coords=g.coords[r.choice(inter)])]))
        else:
            kw["comp"] = r.choice([0, 5e-6])
            kw.update(dict(id=out) if how == "id" else dict(coords=far))
        kw = dict(r.sample(list(kw.items()), len(kw)))
        return lambda: grid.set_props(**kw)
    if kind == "fluid_bulk":
        kw = {k: r.uniform(0.5, 2) for k in r.sample(["mu", "B", "rho"], r.randint(1, 3))}
        return lambda: fluid.set_props(**kw, comp=r.choice([-1e-6, float("nan")]))
    if kind == "scalers_bulk":
        items = [(c, r.choice([["minmax", (0, 5)], [None, None], ["MinMaxScaler", (-3, 1)]])) for c in r.sample(["time", "space", "pressure", "rate", "t", "q"], r.randint(1, 3))]
        bad = r.choice([("foo", ["minmax", (0, 1)]), ("xyz", ["standard", (0, 1)]), ("Time", ["max", (0, 1)]), ("pwf", [None, None])])
        items.insert(r.randint(0, len(items)), bad)
        return lambda: model.set_scalers(dict(items))
    if kind == "bc_value":
        v = r.choice(["a", "5", None, [1.0, 2.0], (3,), {}])
        return lambda: model.set_boundary(r.choice(bnd), r.choice(["p", "rate", "gradient"]), v)
    if kind == "bcs_value":
        ids = r.sample(bnd, min(len(bnd), r.randint(1, 4)))
        items = [(b, (r.choice(["p", "q", "g"]), pv())) for b in ids]
        bad = r.choice([("p",), ("q", "a"), ("g", None), ("p", [1.0, 2.0]), ("g", 1.0, 2.0), "p", None, 5.0])
        k = r.randrange(len(items))
        items[k] = (items[k][0], bad)
        return lambda: model.set_boundaries(dict(items))
    if kind == "eq":
        return lambda: sol.get_cell_eq(r.choice(bnd + [out]))
    if kind == "get_prop":
        return lambda: grid.get_prop(r.choice(["foo", "K", "mu"]))
    if kind == "set_solution":
        return lambda: model.set_solution(r.choice(["", "FDM", "x", "BlackOil-analytical-D1P1-True"]))
    if kind == "compile":
        st = r.choice(["n", "a", "nn", "q", "numerical", "analytical", "neurical", ""])
        me = r.choice(["fvm", "d3p3", "xx", "pinns", "FEM", "d1p2", "D2P1", "deeponet", ""])
        if r.random() < 0.3:
            st, me = r.choice([("numerical", "FDM"), ("analytical", "D1P1")])
            sp = r.choice([1, 0, "True", None, 2.0])
            return lambda: model.compile(stype=st, method=me, sparse=sp)
        return lambda: model.compile(st, me)
    if kind == "splits":
        # arrays which do not fit, unknown parts, types and formats.
        n = g.nb + r.choice([1, 2, 7])
        a = r.choice([lambda: np.arange(n), lambda: np.ones((n, 3)), lambda: np.ones((2, n))])()
        good = np.arange(g.nb, dtype=float)
        return r.choice([
            lambda: grid.remove_boundaries(a), lambda: grid.extract_boundaries(a), lambda: grid.remove_boundaries({"x": good, "y": a}),
            lambda: grid.extract_boundaries(good, fmt=r.choice(["tup", "x", ""])), lambda: grid.extract_boundaries(list(good)),
            lambda: grid.remove_boundaries(list(good)), lambda: grid.remove_boundaries(tuple(good)), lambda: grid.get_boundaries(by=r.choice(["ids", "x", ""])),
        ] + ([lambda: grid.remove_boundaries(good, remove=r.choice(["all", "x", "top"]))] if g.flow else []))
    if kind == "no_place":
        # neither id nor coordinates, or boundary cells where they are not allowed.
        return r.choice([
            lambda: grid.get_cell_d("x"), lambda: grid.get_cell_A("x"), lambda: grid.get_cell_V(), lambda: grid.get_cell_center(),
            lambda: grid.get_cell_neighbors(), lambda: grid.get_cell_boundaries(),
            lambda: grid.get_cell_boundaries(id=r.choice(bnd)) if bnd else 1 / 0,
        ])
    if kind == "grid_new":
        if r.random() < 0.4:
            a = r.randrange(3)
            n = r.choice([m for m in range(1, g.NB[a] + 5) if m != g.NB[a]])
            d = r.choice([list, tuple, np.array])([pv()] * n)
            return lambda: gen.make_grid({**spec["grid"], "d" + "xyz"[a]: d})
        bad = r.choice([
            dict(nx=0), dict(ny=-1), dict(nz=0), dict(unit="si"), dict(comp=-1e-6), dict(dtype="foo"),
            dict(dx=[1.0] * (g.N[0] + 5)), dict(dz=[2.0] * (g.N[2] + 4)), dict(kx=[1.0] * (g.nb + 3)), dict(z=[1.0] * (g.nb + 3)),
        ])
        return lambda: gen.make_grid({**spec["grid"], **bad})
    if kind == "fluid_new":
        return lambda: gen.make_fluid({**spec["fluid"], **r.choice([dict(unit="si"), dict(comp=-1e-9)])})
    if kind == "model_new":
        o = "single" if spec["model"]["dtype"] == "double" else "double"
        bad = r.choice([dict(dtype=o), dict(unit="si"), dict(pi=[1.0, 2.0] if g.n != 2 else [1.0, 2.0, 3.0])])
        return lambda: gen.rf().models.BlackOil(grid, fluid, **{**spec["model"], **bad})
    raise ValueError(kind)


def run(case, obs):
    spec = {k: case[k] for k in ("grid", "fluid", "model")}
    bad = {}
    for k, at, seed in case["bad"]:
        bad.setdefault(at, []).append((k, seed))
    count = [0]

    def at(model, ref, sol, *_):
        for k, seed in bad.get(count[0], []):
            r = random.Random(seed)
            f = attempt(k, model, ref, r, spec)
            if f is None:
                continue
            before = state(model, sol)
            try:
                f()
            except Exception:
                pass
            else:
                fail(f"{k} (seed {seed}) was accepted")
            same(before, state(model, sol), f"after {k}:")
            obs.ev(k)
            obs.sig(k, count[0] > 0, gen.features(case))
        count[0] += 1

    with gen.quiet():
        a = sim.execute(case)
        b = sim.execute(case, on_start=at, on_group=at)
    ignore = ("sol",)
    x, y = state(a[0], a[2]), state(b[0], b[2])
    for k in ignore:
        x["model"].pop(k), y["model"].pop(k)
    same(x, y, "twin")
    obs.ev("twin")
