"""C02: neighbors and boundaries."""

import random

import numpy as np

from rfv import gen, mon
from rfv.checks.c01 import fshape, gen_case as shape_case
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (2500, 110)
THOROUGH = (12000, 780)
RULE = (
    "Random grid shapes in all flow directions, unified or not; neighbors and "
    "boundaries of every cell by id and by coordinates in every container, the set "
    "of boundary cells, and the split of random arrays (scalars and points, flat and "
    "flow shape) into interior and boundary parts are compared with face adjacency "
    "computed from explicit coordinates. Non-trivial: distinct (shape, unify)."
)
NEED = ["neighbors by id", "neighbors by coords", "boundaries of cell", "split", "dictionary split"]


def gen_case(rng, tier):
    c = shape_case(rng, tier)
    while c["n"] == [1, 1, 1]:
        c = shape_case(rng, tier)
    return c


def run(case, obs):
    r = random.Random(case["seed"])
    nx, ny, nz = case["n"]
    un = case["unify"]
    g = dict(nx=nx, ny=ny, nz=nz, dx=10, dy=20, dz=5, unit="field")
    ref = RefGrid(g)
    grid = gen.make_grid(dict(g, kx=1, ky=1, kz=1, phi=0.1, unify=un, dtype="double"))
    todo = []

    def want(i, boundary):
        out = {}
        for a in range(3):
            l = ref.nbr[i].get(a, [])
            if not boundary:
                l = [m for m in l if m in ref.inter]
            out["xyz"[a]] = l
        return out

    def norm(x):
        if isinstance(x, tuple) or isinstance(x, np.ndarray):
            return tuple(int(v) for v in x)
        return int(x)

    def check(x, e, fmt, what):
        if fmt == "dict":
            ok = set(x) == set("xyz") and all(
                sorted(map(norm, x[k])) == sorted(e[k]) and len(x[k]) == len(e[k])
                for k in "xyz"
            )
        else:
            cont = dict(array=np.ndarray, list=list, tuple=tuple, set=set)[fmt]
            flat = sum(e.values(), [])
            ok = isinstance(x, cont) and sorted(map(norm, x)) == sorted(flat)
        if not ok:
            fail(f"{what} ({fmt}): observed {x!r}, expected {e!r}; {case['n']}")

    FM = ("dict", "list", "tuple", "set", "array")

    def by_id(i, boundary):
        fmt = r.choice(FM)
        x = mon.vary(r, grid.get_cell_neighbors, i, None, boundary, fmt)
        check(x, want(i, boundary), fmt, f"neighbors of cell {i}, boundary={boundary}")
        obs.ev("neighbors by id")

    def by_coords(i, boundary):
        fmt = r.choice(FM)
        x = mon.vary(r, grid.get_cell_neighbors, None, ref.coords[i], boundary, fmt)
        e = {k: [ref.coords[m] for m in v] for k, v in want(i, boundary).items()}
        check(x, e, fmt, f"neighbors of cell {ref.coords[i]}, boundary={boundary}")
        obs.ev("neighbors by coords")

    def bnd(i):
        e = {
            "xyz"[a]: [m for m in ref.nbr[i].get(a, []) if m not in ref.inter]
            for a in range(3)
        }
        fmt = r.choice(FM)
        check(mon.vary(r, grid.get_cell_boundaries, i, None, fmt), e, fmt, f"boundaries of cell {i}")
        fmt = r.choice(FM)
        ec = {k: [ref.coords[m] for m in v] for k, v in e.items()}
        c = ref.coords[i]
        check(mon.vary(r, grid.get_cell_boundaries, None, c, fmt), ec, fmt, f"boundaries of cell {c}")
        obs.ev("boundaries of cell")

    inner = ref.interior if ref.n <= 25 else r.sample(ref.interior, 25)
    outer = ref.boundary if len(ref.boundary) <= 25 else r.sample(ref.boundary, 25)
    for i in inner:
        todo.append(lambda i=i: by_id(i, True))
        todo.append(lambda i=i: by_id(i, False))
        todo.append(lambda i=i: bnd(i))
    # id and coordinates of the cells of a sample.
    few = r.sample(inner, min(len(inner), 8))
    for i in few:
        todo.append(lambda i=i: by_coords(i, True))
        todo.append(lambda i=i: by_coords(i, False))
    for i in r.choices(few, k=12):
        # the same questions, in another order.
        f = r.choice([by_id, by_id, by_coords, bnd])
        a = () if f is bnd else (r.random() < 0.5,)
        todo.append(lambda i=i, f=f, a=a: f(i, *a))
    for i in outer:
        todo.append(lambda i=i: by_id(i, False))

    def rejects(i):
        try:
            x = mon.vary(r, grid.get_cell_neighbors, i, None, True, "dict")
        except Exception:
            obs.ev("rejected boundary cell")
        else:
            fail(f"neighbors of boundary cell {i} including boundaries: {x}")

    for i in r.sample(outer, min(3, len(outer))):
        todo.append(lambda i=i: rejects(i))

    def boundaries():
        for fmt in r.sample(["tuple", "list", "set", "array"], 4):
            x = mon.vary(r, grid.get_boundaries, "id", fmt)
            if sorted(map(norm, x)) != ref.boundary or len(x) != len(ref.boundary):
                fail(f"boundary cells ({fmt}): {x!r}, expected {ref.boundary}")
            if fmt != "set" and [norm(v) for v in x] != ref.boundary:
                fail(f"boundary cells ({fmt}) are not in natural order: {x!r}")
            x = mon.vary(r, grid.get_boundaries, "coords", fmt)
            e = sorted(ref.coords[b] for b in ref.boundary)
            if sorted(map(norm, x)) != e or len(x) != len(e):
                fail(f"coordinates of boundary cells ({fmt}): {x!r}, expected {e}")
            obs.ev("boundary set")

    todo.append(boundaries)

    def split(points, shaped, dt):
        nb = ref.nb
        n = nb * 3 if points else nb
        v = np.array([r.randrange(10**6) for _ in range(n)], dtype=dt)
        v = v.reshape(nb, 3) if points else v
        keep = v.copy()
        arg = v.reshape(fshape(ref, True, un, points)) if shaped else v
        # "points" is found automatically, except for scalars in a shape (.., 3).
        auto = points or not (arg.ndim > 1 and arg.shape[-1] == 3)
        how = r.choice([points, None]) if auto else points
        inn = mon.vary(r, grid.remove_boundaries, arg, how, "both")
        e = keep[ref.interior]
        if shaped:
            e = e.reshape(fshape(ref, False, un, points))
        mon.same_array(inn, e, f"interior part (points={how}, shaped={shaped})")
        fmt = r.choice(["array", "array", "list", "tuple"])
        out = mon.vary(r, grid.extract_boundaries, arg, how, fmt)
        cont = dict(array=np.ndarray, list=list, tuple=tuple)[fmt]
        if not isinstance(out, cont) or len(out) != len(ref.boundary):
            fail(f"boundary part ({fmt}, points={how}): {out!r}")
        eb = keep[ref.boundary]
        if points:
            a = sorted(map(tuple, np.asarray(out).tolist()))
            b = sorted(map(tuple, eb.tolist()))
        else:
            a, b = sorted(np.asarray(out).tolist()), sorted(eb.tolist())
        if a != b:
            fail(f"boundary part (points={how}, shaped={shaped}): {a}, expected {b}")
        mon.same_array(v, keep, "input array of a split")
        obs.ev("split")

    for points in (False, True):
        for shaped in (False, True):
            todo.append(
                lambda p=points, s=shaped: split(p, s, r.choice(["double", "int64"]))
            )

    def one_side(v, side):
        """v without the boundaries of this side; v has one value per cell."""
        sl = dict(left=slice(1, None), right=slice(0, -1), both=slice(1, -1))[side]
        f = v.reshape(fshape(ref, True, True))  # (z, y, x)
        return f[tuple(sl if a in ref.flow else slice(None) for a in (2, 1, 0))].ravel()

    def sides():
        v = np.arange(ref.nb) * 7
        for side in ("left", "right"):
            x = grid.remove_boundaries(v.copy(), False, side)
            e = one_side(v, side)
            mon.same_array(np.ravel(x), e, f"array without {side} boundaries")
            obs.ev("one-sided split")

    def dicts():
        # A dictionary of arrays: each of them; the dictionary itself is not changed.
        side = r.choice(["both", "left", "right"])
        d = {k: np.arange(ref.nb) * m for m, k in enumerate("xyz", 1)}
        keys, kept = list(d), {k: v.copy() for k, v in d.items()}
        vals = dict(d)
        x = mon.vary(r, grid.remove_boundaries, d, False, side)
        if list(x) != keys:
            fail(f"keys of a split dictionary: {list(x)}, expected {keys}")
        for k in keys:
            e = one_side(kept[k], side)
            mon.same_array(np.ravel(x[k]), e, f"dictionary without {side} boundaries: {k}")
        if list(d) != keys or any(d[k] is not vals[k] for k in keys):
            fail("the dictionary given to a split was modified")
        for k in keys:
            mon.same_array(d[k], kept[k], "input array in a dictionary of a split")
        obs.ev("dictionary split")

    todo.append(sides)
    todo.append(dicts)
    r.shuffle(todo)
    for f in todo:
        f()
    obs.sig(case["n"], un, case["seed"] % 4)
