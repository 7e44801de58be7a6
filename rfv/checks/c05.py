"""C05: transmissibilities."""

import random

import numpy as np

from rfv import gen, mon
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (3000, 110)
THOROUGH = (25000, 780)
RULE = (
    "Random grids (all flow directions, constant and per-cell sizes, uniform, "
    "anisotropic, heterogeneous rock, outer layer different from the interior) and "
    "fluids; every form of the transmissibility (one cell by id/coordinates with or "
    "without boundaries, dense and sparse matrices, vectorized or not, diagonals) is "
    "compared for every pair of cells with the flow-distance weighted harmonic mean "
    "of the two cells. Non-trivial: distinct (shape, rock and size pattern)."
)
NEED = ["cell by id", "cell by coords", "dense matrix", "sparse matrix", "diagonal"]


def tiny(rng, k):
    if isinstance(k, list):
        return [tiny(rng, v) if isinstance(v, list) or rng.random() < 0.5 else v for v in k]
    return k * 10.0 ** rng.randint(-14, -3) if isinstance(k, (int, float)) else k


def gen_case(rng, tier):
    unit = rng.choices(gen.UNITS, [5, 3, 2])[0]
    g = gen.gen_grid(rng, unit=unit, maxn=60 if rng.random() > 0.1 else 200)
    if rng.random() < 0.08:  # almost impermeable.
        for a in ("kx", "ky", "kz"):
            if g.get(a) is not None and rng.random() < 0.7:
                g[a] = tiny(rng, g[a])
    f = dict(mu=gen.gen_mu(rng), B=gen.gen_B(rng), unit=unit)
    return dict(grid=g, fluid=f, seed=rng.randrange(10**9))


def dense(x):
    return x.toarray() if hasattr(x, "toarray") else np.asarray(x)


def run(case, obs):
    r = random.Random(case["seed"])
    g, f = case["grid"], case["fluid"]
    ref = RefGrid(g)
    muB = f["mu"] * f["B"]
    grid = gen.make_grid(g)
    model = gen.rf().models.BlackOil(grid, gen.make_fluid(dict(f, dtype="double")), unit=g["unit"])
    n = ref.n
    e = np.zeros((n, n))
    for a, b, ax in ref.faces():
        e[ref.index[a], ref.index[b]] = e[ref.index[b], ref.index[a]] = ref.G(a, b, ax)
    todo = []

    def matrix(sparse, vect, model_level):
        def fn():
            if model_level:
                x = model.get_cells_trans(False, sparse, vect)
                w = e / muB
            else:
                x = grid.get_cells_G(False, sparse)
                w = e
            if hasattr(x, "toarray") != sparse:
                fail(f"sparse={sparse} returns a {type(x).__name__}")
            x = dense(x)
            what = f"transmissibilities (sparse={sparse}, vectorize={vect}, model={model_level})"
            mon.same_array(x, w, what, 1e-10)
            if not np.array_equal(x != 0, w != 0):
                fail(f"{what}: cells which are not neighbors are connected")
            if np.abs(x - x.T).max() > 1e-12 * np.abs(x).max():
                fail(f"{what} are not symmetric")
            obs.ev("sparse matrix" if sparse else "dense matrix")

        return fn

    for sparse in (True, False):
        todo.append(matrix(sparse, True, True))
        todo.append(matrix(sparse, False, True))
        todo.append(matrix(sparse, None, False))

    def full(sparse, vect):
        # with boundaries: rows of interior cells.
        if vect is None:
            x, m1 = dense(grid.get_cells_G(True, sparse)), 1
        else:
            x, m1 = dense(model.get_cells_trans(True, sparse, vect)), muB
        what = f"(sparse={sparse}, vectorize={vect})"
        if x.shape != (ref.nb, ref.nb):
            fail(f"transmissibilities with boundaries have the shape {x.shape} {what}")
        for c in ref.interior:
            row = np.zeros(ref.nb)
            for a in ref.flow:
                for m in ref.nbr[c][a]:
                    row[m] = ref.G(c, m, a) / m1
            mon.same_array(x[c], row, f"row of cell {c} with boundaries {what}", 1e-10)
            mon.same_array(x[:, c], row, f"column of cell {c} with boundaries {what}", 1e-10)
        obs.ev("sparse matrix" if sparse else "dense matrix")
        obs.ev("with boundaries")

    for sparse in (True, False):
        for vect in (None, True, False):
            todo.append(lambda sparse=sparse, vect=vect: full(sparse, vect))

    def cell(c, how, boundary):
        kw = (c, None) if how == "id" else (None, ref.coords[c])
        w = {}
        for a in ref.flow:
            for m in ref.nbr[c][a]:
                if boundary or m in ref.inter:
                    w[m if how == "id" else ref.coords[m]] = ref.G(c, m, a)
        for x, s in (
            (grid.get_cell_G(*kw, boundary), 1),
            (model.get_cell_trans(*kw, boundary), muB),
        ):
            norm = {
                (int(k) if how == "id" else tuple(int(v) for v in k)): float(v)
                for k, v in x.items()
            }
            if set(norm) != set(w):
                fail(f"cell {kw} is connected to {set(norm)}, expected {set(w)}")
            for m in w:
                if not norm[m] > 0:
                    fail(f"transmissibility {kw}-{m} is {norm[m]}")
                mon.close(norm[m], w[m] / s, 1e-10 * w[m] / s, f"transmissibility {kw}-{m}")
        obs.ev(f"cell by {how}")

    for c in r.sample(ref.interior, min(n, 12)):
        for how in ("id", "coords"):
            b = r.random() < 0.5
            todo.append(lambda c=c, how=how, b=b: cell(c, how, b))

    def outer(b):
        # a boundary cell is connected to the cell next to it.
        x = model.get_cell_trans(b, None, False)
        w = {}
        if b in ref.link:
            c, a = ref.link[b]
            w = {c: ref.G(c, b, a) / muB}
        if {int(k) for k in x} != set(w):
            fail(f"boundary {b} is connected to {set(x)}, expected {set(w)}")
        for m in w:
            mon.close(float(x[m]), w[m], 1e-10 * w[m], f"transmissibility of boundary {b}")
        obs.ev("boundary cell")

    for b in r.sample(ref.boundary, min(len(ref.boundary), 8)):
        todo.append(lambda b=b: outer(b))

    def diag(k):
        off = 1
        for a in ref.flow[: k - 1]:
            off *= ref.N[a]
        w = np.diagonal(e, off) / muB
        x = model.get_cells_trans_diag(False, k)
        mon.same_array(np.asarray(x), w, f"diagonal {k} (offset {off})", 1e-10)
        obs.ev("diagonal")

    def diag_b(k):
        # with boundaries: pairs with an interior cell.
        off = 1
        for a in ref.flow[: k - 1]:
            off *= ref.NB[a]
        x = np.asarray(model.get_cells_trans_diag(True, k))
        if x.shape != (ref.nb - off,):
            fail(f"diagonal {k} with boundaries has the shape {x.shape}")
        for c in ref.interior:
            for m, i in ((c - off, c - off), (c + off, c)):
                w = ref.G(c, m, ref.flow[k - 1]) / muB
                mon.close(float(x[i]), w, 1e-10 * w, f"entry {i} of diagonal {k} with boundaries")
        obs.ev("diagonal")

    for k in range(1, ref.D + 1):
        todo.append(lambda k=k: diag(k))
        todo.append(lambda k=k: diag_b(k))
    r.shuffle(todo)
    for fn in todo:
        fn()
    obs.sig(ref.N, [isinstance(g[k], list) for k in ("dx", "dy", "dz", "kx", "ky", "kz")], g["unit"])
