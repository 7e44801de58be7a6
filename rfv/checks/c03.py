"""C03: cell geometry."""

import random

import numpy as np

from rfv import gen, mon
from rfv.checks.c01 import fshape
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (2500, 110)
THOROUGH = (14000, 780)
RULE = (
    "Random grids with constant and per-cell sizes (ints and floats, scalars, lists "
    "and arrays) in all flow directions and units; sizes, areas, volumes, centers of "
    "every cell in every form (single cell by id/coords, listings, flow shape, with "
    "and without boundaries, own or mesh calculation) and the corners of the exported "
    "3D mesh are compared with an explicit enumeration. Non-trivial: distinct (shape, "
    "size pattern, unit, unify)."
)
NEED = ["d", "A", "V", "center", "mesh"]


def gen_case(rng, tier):
    fdir = rng.choices(gen.FD + ["-"], [2, 2, 2, 4, 4, 4, 8, 1])[0]
    g = gen.gen_grid(rng, fdir, maxn=60)
    for k in ("kx", "ky", "kz", "phi", "z"):
        g.pop(k, None)
    return dict(grid=g, seed=rng.randrange(10**9), np=rng.random() < 0.3)


def run(case, obs):
    r = random.Random(case["seed"])
    g = case["grid"]
    ref = RefGrid(g)
    un = g["unify"]
    kw = dict(g)
    if case["np"]:
        for k in ("dx", "dy", "dz"):
            if isinstance(kw[k], list):
                kw[k] = np.array(kw[k])
    kw.update(kx=1, ky=1, kz=1, phi=0.1)
    grid = gen.make_grid(kw)
    L = np.array([e[-1] for e in ref.edges])
    tolL = 1e-9 * max(L)
    todo = []

    def shaped(v, b, points=False):
        v = v if b else v[ref.interior]
        return v.reshape(fshape(ref, b, un, points))

    if ref.D == 0:
        ref.interior = [0]

    def arr(name, get, val, rtol=1e-12, points=False, atol=0.0):
        for b in (True, False):
            for fs in (True, False):

                def f(b=b, fs=fs):
                    e = shaped(val, b, points) if fs else (val if b else val[ref.interior])
                    mon.same_array(
                        get(b, fs), e, f"{name}(boundary={b}, fshape={fs})", rtol, atol
                    )
                    obs.ev(name.split()[0])

                todo.append(f)

    for a, x in enumerate("xyz"):
        arr(f"d {x}", lambda b, fs, x=x: grid.get_cells_d(x, b, fs), ref.d[:, a])
        arr(f"d {x}", getattr(grid, f"get_cells_d{x}"), ref.d[:, a])
        arr(f"A {x}", lambda b, fs, x=x: grid.get_cells_A(x, b, fs), ref.A[:, a])
        arr(f"A {x}", getattr(grid, f"get_cells_A{x}"), ref.A[:, a])
    arr("V", lambda b, fs: grid.get_cells_V(b, fs, False), ref.V)
    arr("V mesh", lambda b, fs: grid.get_cells_V(b, fs, True), ref.V, 1e-6)
    arr("center", lambda b, fs: grid.get_cells_center(b, fs, False), ref.center, 1e-12, True, tolL)
    arr("center mesh", lambda b, fs: grid.get_cells_center(b, fs, True), ref.center, 1e-6, True, 1e-6 * max(L))

    def all_dirs():
        for b in (True,):
            for nm, val, get in (("d", ref.d, grid.get_cells_d), ("A", ref.A, grid.get_cells_A)):
                x = get("all", True, False)
                for a, c in enumerate("xyz"):
                    mon.same_array(np.ravel(x[c]), val[:, a], f"{nm}{c} of all", 1e-12)
                obs.ev(nm)

    todo.append(all_dirs)

    def attrs():
        for a, c in enumerate("xyz"):
            mon.same_array(np.ravel(getattr(grid, "d" + c)), ref.d[:, a], f"d{c}", 1e-12)
            mon.same_array(np.ravel(grid.d[c]), ref.d[:, a], f"d[{c}]", 1e-12)
            mon.same_array(np.ravel(getattr(grid, "A" + c)), ref.A[:, a], f"A{c}", 1e-12)
            mon.same_array(np.ravel(grid.A[c]), ref.A[:, a], f"A[{c}]", 1e-12)
        mon.same_array(np.ravel(grid.V), ref.V, "V", 1e-12)

    todo.append(attrs)

    def total():
        Vi = ref.V[ref.interior].sum()
        mon.close(float(grid.get_Vt(True)), ref.V.sum(), 1e-9 * ref.V.sum(), "total volume")
        mon.close(float(grid.get_Vt(False)), Vi, 1e-9 * Vi, "interior volume")
        mon.close(float(grid.get_Vt(True, True)), ref.V.sum(), 1e-5 * ref.V.sum(), "mesh total volume")
        mon.close(float(grid.get_Vt(False, True)), Vi, 1e-5 * Vi, "mesh interior volume")
        obs.ev("V", 4)

    todo.append(total)

    def single(i, how):
        kw = dict(id=i) if how else dict(coords=ref.coords[i])
        s = f"of {kw}"
        for a, c in enumerate("xyz"):
            x, y = float(grid.get_cell_d(c, **kw)), float(getattr(grid, f"get_cell_d{c}")(**kw))
            mon.close(x, ref.d[i, a], 1e-12 * abs(x), f"d{c} {s}")
            mon.close(y, ref.d[i, a], 1e-12 * abs(y), f"d{c} {s}")
            x, y = float(grid.get_cell_A(c, **kw)), float(getattr(grid, f"get_cell_A{c}")(**kw))
            mon.close(x, ref.A[i, a], 1e-12 * abs(x), f"A{c} {s}")
            mon.close(y, ref.A[i, a], 1e-12 * abs(y), f"A{c} {s}")
        x = float(grid.get_cell_V(**kw))
        mon.close(x, ref.V[i], 1e-12 * abs(x), f"V {s}")
        mon.same_array(grid.get_cell_center(**kw), ref.center[i], f"center {s}", 1e-12, tolL)
        obs.ev("single cell")

    cells = r.sample(range(ref.nb), min(ref.nb, 10))
    for i in cells:
        todo.append(lambda i=i: single(i, True))
        if ref.D > 0:  # a single cell has no array coordinates.
            todo.append(lambda i=i: single(i, False))

    def mesh(b):
        m = grid.get_pyvista_grid(b)
        ids = list(range(ref.nb)) if b else ref.interior
        if m.n_cells != len(ids):
            fail(f"mesh (boundary={b}) has {m.n_cells} cells, expected {len(ids)}")
        e0 = [0.0, 0.0, 0.0]
        pick = ids if len(ids) <= 12 else r.sample(ids, 12)
        for i in pick:
            bd = m.get_cell(ids.index(i)).bounds
            c = ref.coords[i]
            for a in range(3):
                lo, hi = ref.edges[a][c[a]], ref.edges[a][c[a] + 1]
                mon.close(bd[2 * a], lo, 1e-5 * L[a], f"lower {'xyz'[a]} of cell {i} in the mesh")
                mon.close(bd[2 * a + 1], hi, 1e-5 * L[a], f"upper {'xyz'[a]} of cell {i} in the mesh")
            obs.ev("mesh")

    todo.append(lambda: mesh(True))
    todo.append(lambda: mesh(False))

    def regular():
        d = ref.d[ref.interior]
        e = bool(all(np.all(d[:, a] == d[0, a]) for a in range(3)))
        if bool(grid.is_regular) != e or bool(grid.is_irregular) == e:
            fail(f"is_regular={grid.is_regular}, is_irregular={grid.is_irregular}; sizes {d}")
        obs.ev("regular flag")

    todo.append(regular)
    r.shuffle(todo)
    for f in todo:
        f()
    obs.sig(ref.N, [isinstance(g[k], list) for k in ("dx", "dy", "dz")], g["unit"], un)
