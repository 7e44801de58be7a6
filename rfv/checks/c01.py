"""C01: cell numbering."""

import numpy as np

from rfv import gen, mon
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (2400, 110)
THOROUGH = (14000, 780)
RULE = (
    "Random grid shapes in all flow directions (including a single cell), unified or "
    "not; every listing of cells (id, active index, coordinates, array coordinates; "
    "with/without boundaries; flat/flow shape; every container) and every single-cell "
    "conversion, called in random order, is compared with an explicit enumeration. "
    "Non-trivial: distinct (shape, unify, call order)."
)
NEED = ["id->coords", "coords->id", "listing"]


def gen_case(rng, tier):
    fdir = rng.choices(gen.FD + ["-"], [2, 2, 2, 4, 4, 4, 8, 1])[0]
    big = rng.random() < 0.1
    n = gen.gen_shape(rng, fdir, 48 if not big else 400, 1, 12 if not big else 60)
    if big and len(fdir) > 1:
        n = [x if x == 1 else x + rng.randint(0, 6) for x in n]
    return dict(n=n, unify=rng.random() < 0.5, seed=rng.randrange(10**9))


def fshape(ref, boundary, unify, points=False):
    N = ref.NB if boundary else ref.N
    full = (N[2], N[1], N[0])
    if unify or ref.D == 3:
        s = full
    elif ref.D == 0:
        s = (1,)
    else:
        s = tuple(N[a] for a in (2, 1, 0) if a in ref.flow)
    return s + (3,) if points else s


def container(x, fmt, points):
    if fmt == "array":
        return isinstance(x, np.ndarray)
    return type(x) is dict(list=list, tuple=tuple, set=set)[fmt]


def run(case, obs):
    import random

    r = random.Random(case["seed"])
    nx, ny, nz = case["n"]
    g = dict(nx=nx, ny=ny, nz=nz, dx=10, dy=20, dz=5, unit="field")
    ref = RefGrid(g)
    grid = gen.make_grid(
        dict(g, kx=1, ky=1, kz=1, phi=0.1, unify=case["unify"], dtype="double")
    )
    un = case["unify"]
    todo = []

    def call_(f, *a):
        return mon.vary(r, f, *a)

    def eq(a, b, what):
        if not (a == b):
            fail(f"{what}: observed {a!r}, expected {b!r} for {case['n']}, unify={un}")
        obs.ev("scalar")

    def t_basic():
        eq(grid.get_D(), ref.D, "dimension")
        eq(grid.get_fdir(), ref.fdir, "flow direction")
        for b in r.sample([True, False], 2):
            eq(tuple(call_(grid.get_shape, b)), ref.NB if b else ref.N, f"shape({b})")
            eq(int(call_(grid.get_n, b)), ref.nb if b else ref.n, f"number of cells({b})")
            eq(int(call_(grid.get_n_max, b)), max(ref.NB if b else ref.N), f"n_max({b})")

    todo.append(t_basic)

    def t_fshape(b, p):
        eq(tuple(call_(grid.get_fshape, b, p)), fshape(ref, b, un, p), f"flow shape({b},{p})")

    for b in (True, False):
        for p in (True, False):
            todo.append(lambda b=b, p=p: t_fshape(b, p))

    ids = {True: list(range(ref.nb)), False: list(ref.interior)}
    if ref.D == 0:
        ids[False] = [0]

    def listing(name, get, expect, fmts, points):
        def flat(b, fmt):
            x = get(b, False, fmt)
            e = expect(b)
            if not container(x, fmt, points):
                fail(f"{name}({b}, {fmt}) is a {type(x).__name__}")
            if fmt == "set":
                ok = x == set(e) and len(x) == len(e)
            elif fmt == "array":
                ok = np.array_equal(x, np.array(e))
            else:
                ok = list(x) == e
            if not ok:
                fail(f"{name}(boundary={b}, fmt={fmt}) of {case['n']}: {x!r} != {e!r}")
            obs.ev("listing")

        def shaped(b):
            x = np.asarray(get(b, True, None))
            s = fshape(ref, b, un, points)
            if x.shape != s:
                fail(f"{name}(boundary={b}) has flow shape {x.shape}, expected {s}")
            e = np.array(expect(b)).reshape(s)
            if not np.array_equal(x, e):
                fail(f"{name}(boundary={b}) in flow shape: {x!r} != {e!r}")
            obs.ev("listing")

        for b in (True, False):
            for fmt in fmts:
                todo.append(lambda b=b, fmt=fmt: flat(b, fmt))
            todo.append(lambda b=b: shaped(b))

    F = ("array", "list", "tuple", "set")

    def call(f):
        def get(b, fs, fmt):
            return call_(f, b, fs) if fmt is None else call_(f, b, fs, fmt)

        return get

    listing("cells id", call(grid.get_cells_id), lambda b: ids[b], F, False)
    listing(
        "cells index",
        call(grid.get_cells_i),
        lambda b: list(range(ref.nb if b else len(ids[False]))),
        F,
        False,
    )
    coords = lambda b: [ref.coords[i] for i in ids[b]]
    listing("cells coords", call(grid.get_cells_coords), coords, F, True)

    def icoord(c):
        if un or ref.D == 3:
            return tuple(c[::-1])
        return tuple(c[a] for a in (2, 1, 0) if a in ref.flow)

    def t_order(b, fs):
        x = call_(grid.get_order, "natural", b, fs)
        e = np.array(ids[b])
        if fs:
            e = e.reshape(fshape(ref, b, un))
        mon.same_array(x, e, f"natural order({b},{fs})")
        obs.ev("listing")

    for b in (True, False):
        for fs in (True, False):
            todo.append(lambda b=b, fs=fs: t_order(b, fs))

    def t_icoords(b):
        x = call_(grid.get_cells_icoords, b, False, r.choice(["tuple", "list"]))
        e = [icoord(c) for c in coords(b)]
        if [tuple(i) for i in x] != e:
            fail(f"cells icoords({b}): {x!r} != {e!r}")
        x = grid.get_cells_icoords(b)
        if [tuple(i) for i in x] != e:
            fail(f"cells icoords({b}) in the default form: {x!r} != {e!r}")
        fmt = r.choice(["array", "set"])
        x = call_(grid.get_cells_icoords, b, False, fmt)
        if sorted(tuple(int(v) for v in i) for i in x) != sorted(e) or len(x) != len(e):
            fail(f"cells icoords({b}, {fmt}): {x!r} != {e!r}")
        x = np.asarray(call_(grid.get_cells_icoords, b, True))
        y = np.array(e).reshape(fshape(ref, b, un) + (len(e[0]),))
        if x.shape != y.shape or not np.array_equal(x, y):
            fail(f"cells icoords({b}) in flow shape: {x!r} != {y!r}")
        obs.ev("listing")

    if ref.D > 0:
        todo.append(lambda: t_icoords(True))
        todo.append(lambda: t_icoords(False))

    def t_values():
        # array coordinates address the value of the same cell.
        x = grid.get_cells_id(True, True)
        for c in r.sample(ref.coords, min(len(ref.coords), 12)):
            ic = grid.get_cell_icoords(c)
            eq(tuple(ic), icoord(c), f"icoords of {c}")
            eq(int(x[ic]), ref.id[c], f"id at icoords of {c}")
            obs.ev("icoords->id")

    if ref.D > 0:
        todo.append(t_values)

    def t_single(i, kind):
        c = ref.coords[i]
        if kind == 0:
            x = call_(grid.get_cell_coords, i, True)
            eq(tuple(int(v) for v in x), c, f"coords of id {i}")
            obs.ev("id->coords")
        elif kind == 1:
            eq(int(call_(grid.get_cell_id, c, True)), i, f"id of coords {c}")
            obs.ev("coords->id")
        else:
            eq(
                int(call_(grid.get_cell_id, tuple(call_(grid.get_cell_coords, i, True)), True)),
                i,
                f"id -> coords -> id of {i}",
            )
            obs.ev("round trip")

    sample = range(ref.nb) if ref.nb <= 20 else r.sample(range(ref.nb), 20)
    for i in sample:
        for kind in range(3):
            todo.append(lambda i=i, kind=kind: t_single(i, kind))

    def t_many():
        # in any order, and with repetitions.
        s = [r.choice(range(ref.nb)) for _ in range(r.randint(1, 6))]
        cs = tuple(ref.coords[i] for i in s)
        x = call_(grid.get_cell_coords, tuple(s), True)
        eq([tuple(int(v) for v in a) for a in x], list(cs), "coords of ids")
        y = call_(grid.get_cell_id, cs, True)
        eq([int(v) for v in y], s, "ids of coords")
        if ref.D > 0:
            z = grid.get_cell_icoords(cs)
            eq([tuple(int(v) for v in a) for a in z], [icoord(c) for c in cs], "icoords of coords")
        obs.ev("several cells")

    for _ in range(3):
        todo.append(t_many)

    def t_noboundary():
        # numbering of the grid without boundaries.
        N = ref.N
        cs = [(i, j, k) for k in range(N[2]) for j in range(N[1]) for i in range(N[0])]
        for i in r.sample(range(len(cs)), min(len(cs), 6)):
            x = call_(grid.get_cell_coords, i, False)
            eq(tuple(int(v) for v in x), cs[i], f"coords of {i} without boundaries")
            eq(int(call_(grid.get_cell_id, cs[i], False)), i, f"index of {cs[i]} without boundaries")
            obs.ev("id->coords")

    todo.append(t_noboundary)

    def t_ones():
        for b in r.sample([True, False], 2):
            for fs in r.sample([True, False], 2):
                s = fshape(ref, b, un) if fs else (ref.nb if b else ref.n,)
                eq(call_(grid.get_ones, b, fs).tolist(), np.ones(s).tolist(), "ones")
                eq(call_(grid.get_zeros, b, fs).tolist(), np.zeros(s).tolist(), "zeros")

    todo.append(t_ones)
    mon.same_array(np.asarray(grid.cells_id), np.array(ids[False]), "active cells id")
    r.shuffle(todo)
    for f in todo:
        f()
    obs.sig(case["n"], un, case["seed"] % 4)
