"""C24: what is displayed is the recorded history on the true geometry."""

import contextlib
import io
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail
from rfv.ref import RefGrid

LEVEL = "exploration"
QUICK = (1800, 110)
THOROUGH = (9000, 780)
RULE = (
    "Random grids and simulated models are displayed (3D grid and model scenes with "
    "random labels, property, boundary, wells, static or interactive, animations, 2D "
    "plots); instead of drawing, the monitor reads the scene which would be drawn: the "
    "cells and where they are, the value of every cell for every timestep selected with "
    "the slider and for every frame of the animation, color limits, texts (date, "
    "timestep, minimum, average, maximum), labels of every cell, positions of wells, and "
    "lines and images of plots; all are compared with the recorded history and the "
    "reference geometry. Displaying never changes the model or the mesh of the grid, "
    "and scenes are independent of each other. Non-trivial: distinct "
    "options and structure."
)
NEED = ["grid scene", "model scene", "slider step", "frame", "cell label", "well", "line plot", "image plot", "rejected", "mesh unchanged", "two scenes", "long history"]
LABELS = [
    "coords", "icoords", "id", "i", "dx", "dy", "dz", "area_x", "Ax", "area_y", "Ay", "area_z", "Az",
    "volume", "V", "center", "centers",
]
SHOWN = []
FRAMES = []
CALLS = {}


def prepare(tier):
    import pyvista as pv

    P = pv.Plotter

    def show(self, *a, **k):
        SHOWN.append((self, dict(CALLS)))

    def open_gif(self, filename, *a, **k):
        CALLS["gif"] = (filename, a, k)
        FRAMES.clear()

    def write_frame(self):
        FRAMES.append(scene(self))

    def record(name, call):
        real = getattr(P, name)

        def f(self, *a, **k):
            CALLS.setdefault(name, []).append((a, k))
            return real(self, *a, **k) if call else None

        setattr(P, name, f)

    P.show, P.open_gif, P.write_frame = show, open_gif, write_frame
    record("add_point_labels", True)
    record("add_slider_widget", True)
    record("add_points", True)
    P.render = lambda self, *a, **k: None
    pv.set_jupyter_backend = lambda *a, **k: None
    try:
        import vtk

        vtk.vtkObject.GlobalWarningDisplayOff()
    except Exception:
        pass
    import matplotlib.pyplot as plt

    plt.show = lambda *a, **k: None


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.05, plan=dict(sym=0.02, long=0.02, maxn=3, maxg=2))
    if c["model"].get("pi") is None:
        c["model"]["pi"] = c["pref"]
    if rng.random() < 0.01 and RefGrid(c["grid"]).nb < 60:
        c["plan"][-1].update(how="run", n=rng.randint(180, 330), vectorize=True, threading=False, check_MB=False)
        c["long"] = rng.choice(["gif", "model"])
    c["seed"] = rng.randrange(10**9)
    return c


def scene(pl):
    """{"mesh": cells and data, "wells": [...], "texts": [...]}"""
    out = dict(mesh=None, wells=[], texts=[], at=[], bars=list(pl.scalar_bars.keys()), size=tuple(pl.window_size))
    for a in pl.actors.values():
        t = type(a).__name__
        if t == "Text":
            out["texts"].append(a.input if hasattr(a, "input") else a.GetInput())
            out["at"].append(tuple(a.GetPositionCoordinate().GetValue()[:2]))
            continue
        ds = getattr(getattr(a, "mapper", None), "dataset", None)
        if ds is None:
            continue
        k = type(ds).__name__
        if k == "PolyData":
            if "labels" not in ds.array_names and ds.n_cells > 0 and ds.n_cells != ds.n_points:
                out["wells"].append((np.array(ds.center), np.array(ds.bounds)))
        else:
            data = {n: np.array(ds.cell_data[n]).copy() for n in ds.cell_data.keys()}
            name = ds.cell_data.active_scalars_name
            m = a.mapper
            out["mesh"] = dict(
                n=ds.n_cells, data=data, active=name, grid=ds,
                clim=tuple(m.scalar_range), on=bool(m.scalar_visibility),
                opacity=a.prop.opacity, colors=np.array(m.lookup_table.values).copy(),
            )
    return out


def expected(sol, prop, ids):
    x = sol.pressures if prop[0] == "p" else sol.rates
    return np.array(x)[:, ids]


def run(case, obs):
    import warnings

    warnings.simplefilter("ignore")
    r = random.Random(case["seed"])
    g = case["grid"]
    ref = RefGrid(g)
    grid = gen.make_grid(g)
    model = gen.make_model(case, grid=grid)
    sol = gen.compile_fdm(model, case["sparse"])
    if r.random() < 0.4:
        show_grid(grid, ref, r, obs)
    for p in case["plan"]:
        for a in p["acts"]:
            gen.apply(model, a)
        sim.drive(model, p)
        if r.random() < 0.5:
            look(case, model, sol, grid, ref, r, obs)
    look(case, model, sol, grid, ref, r, obs)
    if r.random() < 0.3:
        rejected(model, grid, r, obs)


def mesh_state(grid, b):
    m = grid.get_pyvista_grid(b)
    return sorted(m.cell_data.keys()) + sorted(m.point_data.keys()), np.array(m.points).copy(), m.n_cells


def look(case, model, sol, grid, ref, r, obs):
    P, Q = sol.pressures.copy(), sol.rates.copy()
    b = r.random() < 0.5
    before = mesh_state(grid, b)
    what = r.choice(["grid", "model", "model", "model", "gif", "plot", "plot", "image"])
    what = case.get("long", what)
    with contextlib.redirect_stdout(io.StringIO()):
        o = dict(
            grid=lambda: show_grid(grid, ref, r, obs),
            model=lambda: show_model(model, sol, ref, r, obs),
            gif=lambda: gif(model, sol, ref, r, obs),
            plot=lambda: plot(model, sol, ref, r, obs),
            image=lambda: image(model, sol, ref, r, obs),
        )[what]()
    mon.same_array(sol.pressures, P, f"pressures after {what} was displayed")
    mon.same_array(sol.rates, Q, f"rates after {what} was displayed")
    after = mesh_state(grid, b)
    if before[0] != after[0] or before[2] != after[2]:
        fail(f"the mesh of the grid had {before[2]} cells with data {before[0]}, and has {after[2]} with {after[0]} after {what} was displayed")
    mon.same_array(after[1], before[1], f"points of the mesh after {what} was displayed")
    obs.ev("mesh unchanged")
    if "long" in case:
        obs.ev("long history")
    obs.sig(what, o, sim.features(case))


def display(f):
    import pyvista as pv

    SHOWN.clear()
    CALLS.clear()
    FRAMES.clear()
    with contextlib.redirect_stdout(io.StringIO()):
        f()
    if len(SHOWN) != 1:
        fail(f"{len(SHOWN)} scenes were displayed")
    return SHOWN[0]


def close(pl):
    try:
        pl.close()
    except Exception:
        pass


def geometry(mesh, ref, ids):
    if mesh is None:
        fail("no mesh is displayed")
    ds = mesh["grid"]
    if ds.n_cells != len(ids):
        fail(f"{ds.n_cells} cells are displayed, the grid has {len(ids)}")
    c = np.array(ds.cell_centers().points)
    L = [max(e[-1], 1e-300) for e in ref.edges]
    mon.same_array(c / L, ref.center[ids] / L, "displayed positions of cells", 0, 2e-5)


def geom_labels(ref, ids, grid, label, pts, labels):
    L = [max(e[-1], 1e-300) for e in ref.edges]
    pts = np.array(pts)
    if len(pts) != len(ids) or len(labels) != len(ids):
        fail(f"{len(labels)} labels at {len(pts)} points for {len(ids)} cells")
    un = ref.g["unify"]
    seen = set()
    C = ref.center[ids] / L
    for p, lab in zip(pts, labels):
        e = np.abs(C - p / L).max(axis=1)
        k = int(e.argmin())
        if e[k] > 2e-5:
            fail(f"label {lab} is at {p}, which is not the center of a cell")
        if k in seen:
            fail(f"two labels at {p}")
        seen.add(k)
        n = ids[k]
        c = ref.coords[n]
        d = ref.d[n]
        if label == "coords":
            want = c
        elif label == "icoords":
            want = tuple(c[::-1]) if un or ref.D == 3 else tuple(c[a] for a in (2, 1, 0) if a in ref.flow)
        elif label == "id":
            want = n
        elif label == "i":
            want = k
        elif label in ("dx", "dy", "dz"):
            want = d["xyz".index(label[1])]
        elif label[0] in "aA":
            want = ref.A[n]["xyz".index(label[-1])]
        elif label[0] in "vV":
            want = ref.V[n]
        else:
            want = ref.center[n]
        x, w = np.ravel(np.array(lab, float)), np.ravel(np.array(want, float))
        if x.shape != w.shape or not np.allclose(x, w, rtol=1e-5, atol=1e-5 * max(L) if label[:6] == "center" else 0):
            fail(f"cell {n} at {p} has the label {label}={lab}, expected {want}")


CMAPS = ["Blues", "Blues", "coolwarm", "jet", "viridis", "plasma", "tab10", "Set1", "Dark2", "tab20", "viridis_r", "twilight"]
QUAL = ("tab10", "Set1", "Dark2", "tab20")


def style(r):
    """Options of the appearance."""
    o = {}
    if r.random() < 0.4:
        o["title"] = r.choice(["Field A", "x", None])
    if r.random() < 0.5:
        o["cmap"] = r.choice(CMAPS)
    if r.random() < 0.5:
        o["n_colors"] = r.randint(2, 8) if o.get("cmap") in QUAL else r.randint(2, 20)
    if r.random() < 0.3:
        o["gamma"] = r.choice([0.5, 1, 1.0, 2])
    if r.random() < 0.3:
        o["opacity"] = r.choice([0.1, 0.5, 1])
    if r.random() < 0.3:
        o["window_size"] = r.choice([(300, 200), (640, 480)])
    if r.random() < 0.2:
        o["zoom"], o["azimuth"], o["elevation"] = r.choice([(1.5, 10, 20), (1, 0, 0)])
    if r.random() < 0.15:
        o["ruler"] = True
    return o


def desc_ok(sc, ref, o):
    """The description and the places of texts."""
    bs = ("with" if o["boundary"] else "without") + " boundary"
    on = any(f"{ref.D}D" in t and bs in t and f"{ref.fdir}-direction" in t for t in sc["texts"])
    if on != bool(o["desc"]):
        fail(f"description {sc['texts']} of a {ref.D}D grid ({ref.fdir}) {bs}, desc={o['desc']}")
    if len(set(sc["at"])) != len(sc["at"]):
        fail(f"texts {sc['texts']} are at the same place: {sc['at']}")


def style_ok(sc, o, obs, values=True):
    import matplotlib as mpl

    title = o.get("title") or "ReservoirFlow"
    if title not in [t.strip() for t in sc["texts"]]:
        fail(f"title {title!r} is not among {sc['texts']}")
    if abs(sc["mesh"]["opacity"] - o.get("opacity", 0.9)) > 1e-9:
        fail(f"opacity {sc['mesh']['opacity']}, given {o.get('opacity', 0.9)}")
    size = o.get("window_size")
    if size is None and o.get("static"):
        size = (1920, 1080)
    if size is not None and tuple(sc["size"]) != tuple(size):
        fail(f"window size {sc['size']}, expected {size}")
    if not values:
        return
    want = [o["prop"].lower().capitalize()] if o["cbar"] else []
    if [b.capitalize() for b in sc["bars"]] != want:
        fail(f"color bars {sc['bars']}, expected {want}")
    n, name = o.get("n_colors", 10), o.get("cmap", "Blues")
    c = sc["mesh"]["colors"].astype(float)
    x = np.linspace(0, 1, n)
    if name in QUAL:
        e = mpl.colormaps[name].resampled(n)(x)
    else:
        e = mpl.colormaps[name](x ** o.get("gamma", 0.7))
    for i in range(n):
        k = int((i + 0.5) / n * len(c))
        if np.abs(c[k][:3] - 255 * e[i][:3]).max() > 4:
            fail(f"color {i} of {n} is {c[k][:3]}, expected {255 * e[i][:3]} of {name}")
    obs.ev("color", n)


def show_grid(grid, ref, r, obs):
    b = r.random() < 0.5
    label = r.choice(LABELS + [None, "sphere"])
    o = dict(boundary=b, label=label, corners=r.random() < 0.1, desc=r.random() < 0.3,
             static=r.random() < 0.5, notebook=r.random() < 0.5, **style(r))
    pl, calls = display(lambda: grid.show(**o))
    try:
        ids = list(range(ref.nb)) if b else ref.interior
        sc = scene(pl)
        geometry(sc["mesh"], ref, ids)
        style_ok(sc, o, obs, False)
        lab = calls.get("add_point_labels", [])
        if o["corners"]:
            a, k = lab[0]
            pts = np.array(k.get("points", a[0] if a else None))
            mon.same_array(np.array(k["labels"]), pts, "labels of corners", 1e-6, 1e-6)
            lab = lab[1:]
        if o.get("opacity") == 1:
            pass  # labels would be hidden in opaque cells
        elif label in (None, "sphere"):
            if lab:
                fail(f"labels are displayed for label={label}")
        else:
            if len(lab) != 1:
                fail(f"{len(lab)} sets of labels for label={label}")
            a, k = lab[0]
            geom_labels(ref, ids, grid, label, k["points"], k["labels"])
            obs.ev("cell label", len(ids))
        desc_ok(sc, ref, o)
        obs.ev("grid scene")
    finally:
        close(pl)
    return tuple(o.values())


def texts(sc, row, date, t, what):
    T = " | ".join(sc["texts"])
    for w in (f"current date: {date}", f"current timestep: {t:02d}",
              f"avg pressure: {np.nanmean(row):.0f}", f"min pressure: {np.nanmin(row):.0f}",
              f"max pressure: {np.nanmax(row):.0f}"):
        if w not in T:
            fail(f"{what}: {w!r} is not among the texts {T!r}")


def wells(sc, model, ref, on):
    W = sc["wells"]
    n = len(model.wells) if on else 0
    if len(W) != n:
        fail(f"{len(W)} wells are displayed instead of {n}")
    L = [max(e[-1], 1e-300) for e in ref.edges]
    left = {int(w): ref.center[int(w)] for w in (model.wells if on else ())}
    for c, bounds in W:
        for w, x in left.items():
            if np.abs(c[:2] - x[:2]).max() <= 1e-4 * max(L[:2]):
                # it begins in its cell (drawn to whole units of length).
                h, lo, hi = ref.d[w][2], bounds[4], bounds[5]
                eps = 1e-4 * max(L)
                if not x[2] - max(h / 2, 1) - eps <= lo <= min(x[2] + h / 2 + eps, hi):
                    fail(f"the well of cell {w} is displayed from {lo} to {hi}, the cell is at {x[2]} +- {h / 2}")
                del left[w]
                break
        else:
            fail(f"a well is displayed at {c}, remaining wells are at {left}")


def values_ok(sc, row, what):
    d = sc["mesh"]["data"]
    name = sc["mesh"]["active"] or "Data"
    if name not in d:
        fail(f"{what}: no values are displayed ({sorted(d)})")
    mon.same_array(np.array(d[name], float), row, what, 1e-6, 0)


def options(r):
    prop = r.choice(["pressures", "rates", "pressures", "p", "q", "pressure", "rate", "Pressures"])
    return dict(
        prop=prop, boundary=r.random() < 0.5, wells=r.random() < 0.6, info=r.random() < 0.7,
        cbar=r.random() < 0.5, label=r.choice([None, None] + LABELS), desc=r.random() < 0.2,
    )


def dates(model, sol):
    import pandas as pd

    df = model.get_df(columns=["date"])
    d = list(df["Date"])
    if len(d) != sol.tstep + 1:
        fail(f"{len(d)} dates for {sol.tstep} timesteps")
    return d


def show_model(model, sol, ref, r, obs):
    o = options(r)
    o.update(static=r.random() < 0.5, notebook=r.random() < 0.5, **style(r))
    pl, calls = display(lambda: model.show(**o))
    try:
        ids = list(range(ref.nb)) if o["boundary"] else ref.interior
        V = expected(sol, o["prop"].lower(), ids)
        last = sol.tstep
        D = dates(model, sol)
        sc = scene(pl)
        geometry(sc["mesh"], ref, ids)
        values_ok(sc, V[last], f"displayed {o['prop']} at first")
        lo, hi = np.nanmin(V), np.nanmax(V)
        if hi > lo and not (np.isclose(sc["mesh"]["clim"][0], lo) and np.isclose(sc["mesh"]["clim"][1], hi)):
            fail(f"color limits {sc['mesh']['clim']}, the history has {(lo, hi)}")
        wells(sc, model, ref, o["wells"])
        style_ok(sc, o, obs)
        desc_ok(sc, ref, o)
        if o["info"]:
            texts(sc, V[last], D[last], last, "first display")
        if o["label"] is not None and o.get("opacity") != 1:
            lab = calls.get("add_point_labels", [])
            geom_labels(ref, ids, model.grid, o["label"], lab[-1][1]["points"], lab[-1][1]["labels"])
            obs.ev("cell label", len(ids))
        sl = calls.get("add_slider_widget", [])
        if o["static"] and o["notebook"]:
            if sl:
                fail("a static picture has a slider")
        else:
            if len(sl) != 1:
                fail(f"{len(sl)} sliders")
            a, k = sl[0]
            if tuple(k["rng"]) != (0, last) or k["value"] != last:
                fail(f"slider {k['rng']} at {k['value']} for timesteps 0..{last}")
            for _ in range(4):
                t = r.randint(0, last)
                k["callback"](r.choice([t, float(t)]) if t == last else t + r.choice([0, 0.0, 0.4]))
                sc = scene(pl)
                values_ok(sc, V[t], f"displayed {o['prop']} of timestep {t}")
                if o["info"] and np.isfinite(V[t]).any():
                    texts(sc, V[t], D[t], t, f"timestep {t}")
                obs.ev("slider step")
            obs.ev("slider")
            if r.random() < 0.15:
                other = dict(o, prop=r.choice(["pressures", "rates"]))
                pl2, _ = display(lambda: model.show(**other))
                try:
                    values_ok(scene(pl), V[t], f"displayed {o['prop']} of timestep {t}, after another scene was opened,")
                finally:
                    close(pl2)
                obs.ev("two scenes")
        obs.ev("well", len(sc["wells"]))
        obs.ev("model scene")
    finally:
        close(pl)
    return tuple(o.values())


def gif(model, sol, ref, r, obs):
    o = options(r)
    o.update(style(r))
    SHOWN.clear()
    CALLS.clear()
    FRAMES.clear()
    name = f"anim{r.randrange(1000)}.gif"
    fps = r.choice([5, 10])
    with contextlib.redirect_stdout(io.StringIO()):
        model.save_gif(file_name=name, fps=fps, **o)
    ids = list(range(ref.nb)) if o["boundary"] else ref.interior
    V = expected(sol, o["prop"].lower(), ids)
    D = dates(model, sol)
    g = CALLS.get("gif")
    if g is None or name not in (g[0],) or g[2].get("fps") != fps:
        fail(f"animation was saved as {g}")
    if len(FRAMES) != sol.tstep + 1:
        fail(f"{len(FRAMES)} frames for {sol.tstep + 1} rows")
    for t, sc in enumerate(FRAMES):
        if sc["mesh"]["n"] != len(ids):
            fail(f"{sc['mesh']['n']} cells in frame {t}")
        values_ok(sc, V[t], f"frame {t} of {o['prop']}")
        if t == 0:
            style_ok(sc, dict(o, static=True), obs)
        desc_ok(sc, ref, o)
        if o["info"]:
            texts(sc, V[t], D[t], t, f"frame {t}")
        wells(sc, model, ref, o["wells"])
        obs.ev("frame")
    return tuple(o.values())


def plot(model, sol, ref, r, obs):
    import matplotlib.pyplot as plt

    plt.close("all")
    prop = r.choice(["pressures", "rates"])
    x = getattr(sol, prop)
    kw = {}
    if r.random() < 0.5:
        kw["id"] = r.choice(range(ref.nb))
        want = x[:, kw["id"]]
    else:
        t = sol.tstep
        if r.random() < 0.6:
            t = kw["tstep"] = r.randint(0, sol.tstep)
        want = x[t]
    model.plot(prop, **kw)
    L = plt.gca().get_lines()
    if len(L) != 1:
        fail(f"{len(L)} lines in the plot")
    mon.same_array(np.array(L[0].get_ydata(), float), want, f"plot of {prop} {kw}")
    mon.same_array(np.array(L[0].get_xdata(), float), np.arange(len(want)), f"x of the plot {kw}")
    if "id" not in kw:
        for tick, lab in zip(plt.gca().get_xticks(), plt.gca().get_xticklabels()):
            if int(float(lab.get_text())) != int(tick):
                fail(f"cell {int(tick)} is labeled {lab.get_text()}")
    plt.close("all")
    obs.ev("line plot")
    return prop, tuple(kw)


def image(model, sol, ref, r, obs):
    import matplotlib.pyplot as plt

    plt.close("all")
    prop = r.choice(["pressures", "rates"])
    kw = {}
    t = sol.tstep
    if r.random() < 0.6:
        t = kw["tstep"] = r.randint(0, sol.tstep)
    model.plot_grid(prop, **kw)
    ax = plt.gcf().axes[0]
    im = ax.get_images()
    if len(im) != 1:
        fail(f"{len(im)} images")
    a = np.ma.filled(np.ma.masked_invalid(im[0].get_array()), np.nan)
    mon.same_array(np.ravel(a), getattr(sol, prop)[t, ref.interior], f"image of {prop} {kw}")
    plt.close("all")
    obs.ev("image plot")
    return prop, tuple(kw)


def rejected(model, grid, r, obs):
    bad = r.choice([
        lambda: model.show(prop="saturation"),
        lambda: model.save_gif(prop="x", file_name="no.gif"),
        lambda: model.show(label="nothing"),
        lambda: grid.show(label="nothing"),
    ])
    SHOWN.clear()
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            bad()
    except ValueError:
        obs.ev("rejected")
    else:
        fail("an unknown property or label was displayed")
