"""C16: the same physical problem in field, metric, and lab units."""

import copy
import random

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import close, fail
from rfv.ref import kind

LEVEL = "exploration"
QUICK = (900, 110)
THOROUGH = (20000, 780)
RULE = (
    "Random models and schedules in field units are converted to metric and lab units "
    "with physical constants and simulated in all three: histories of pressures, "
    "rates and bottom hole pressures, converted back, have to agree; so do "
    "transmissibilities, diffusivities, volumes, storage, hydrostatic heads and the tables (values and "
    "labels). Non-trivial: distinct structure and schedule."
)
NEED = ["history", "transmissibility", "hydrostatic", "table label", "initial state", "diffusivity"]
ASSUMPTIONS = [
    "conversion factors of the package are rounded (0.001127): histories are compared within "
    "1e-3 of the spread of pressures and rates, transmissibilities within 1.5e-4, hydrostatic "
    "gradients within 1e-5, storage within 1e-6",
    "metric permeability is in square micrometers; well radius is in 1/12 of the length unit",
]

# 1 field unit = x units
CONV = {
    "metric": dict(L=0.3048, p=6.894757293, k=9.869233e-4, q=0.158987294928, rho=16.01846337, t=1.0),
    "lab": dict(L=30.48, p=6.894757293 / 101.325, k=9.869233e-4 / 0.9869233, q=158987.294928 / 86400, rho=0.01601846337, t=86400.0),
}
LABELS = {
    "field": dict(time="days", pressure="psia", rate="stb/day"),
    "metric": dict(time="days", pressure="kpa", rate="m^3/day"),
    "lab": dict(time="sec", pressure="atm", rate="cm^3/sec"),
}


def gen_case(rng, tier):
    c = sim.gen_sim(rng, tier, big=0.02, unit="field", plan=dict(sym=0.06, long=0.02, maxn=3))
    return c


def mul(v, f):
    if v is None:
        return None
    if isinstance(v, list):
        return [x * f for x in v]
    return v * f


def conv_act(a, C):
    a = dict(a)
    if a["op"] == "bc":
        a["v"] = a["v"] * factor(a["cond"], C)
    elif a["op"] == "bcs":
        a["d"] = [[b, c, v * factor(c, C)] for b, c, v in a["d"]]
    elif a["op"] == "bcall":
        a["v"] = a["v"] * factor(a["cond"], C)
    else:
        for k, f in (("q", C["q"]), ("pwf", C["p"]), ("r", C["L"])):
            if k in a:
                a[k] = a[k] * f
    return a


def factor(cond, C):
    k = kind(cond)
    return {"pressure": C["p"], "rate": C["q"], "gradient": C["p"] / C["L"]}[k]


def convert(case, unit):
    C = CONV[unit]
    c = copy.deepcopy(case)
    g, f, m = c["grid"], c["fluid"], c["model"]
    for k in ("dx", "dy", "dz", "z"):
        if k in g:
            g[k] = mul(g[k], C["L"])
    for k in ("kx", "ky", "kz"):
        g[k] = mul(g[k], C["k"])
    for o in (g, f):
        if "comp" in o:
            o["comp"] = o["comp"] / C["p"]
    if "rho" in f:
        f["rho"] = f["rho"] * C["rho"]
    m["pi"] = mul(m["pi"], C["p"])
    m["dt"] = m["dt"] * C["t"]
    for o in (g, f, m):
        o["unit"] = unit
    c["acts"] = [conv_act(a, C) for a in c["acts"]]
    for gr in c["plan"]:
        gr["acts"] = [conv_act(a, C) for a in gr["acts"]]
    return c


def result(case):
    model, ref, sol = sim.execute(case)
    return model, ref, dict(
        p=np.array(sol.pressures), q=np.array(sol.rates),
        w={c: np.array(v, dtype=float) for c, v in model.w_pressures.items()},
    )


def run(case, obs):
    with gen.quiet():
        m0, ref, a = result(case)
    ps = [a["p"][np.isfinite(a["p"])]] + [v[np.isfinite(v)] for v in a["w"].values()]
    ps = np.concatenate(ps)
    sp = float(ps.max() - ps.min()) + 1e-6 * float(np.abs(ps).max())
    rng_g = abs(ref.gam) * float(ref.grid.z.max() - ref.grid.z.min())
    sq = float(np.abs(a["q"]).max())
    # flow through the faces of boundaries and wells.
    for b in ref.grid.boundary:
        if b in ref.bc and b in ref.grid.link:
            sq = max(sq, ref.Tb[b] * (sp + rng_g) * 2 * (ref.bc[b][0] == "pressure"))
    for c in ref.wells:
        sq = max(sq, ref.well_J(c) * sp)
    for unit in ("metric", "lab"):
        C = CONV[unit]
        with gen.quiet():
            m, _, b = result(convert(case, unit))
        tol = 2e-3
        mon.same_array(b["p"] / C["p"], a["p"], f"pressures ({unit})", atol=tol * (sp + rng_g))
        mon.same_array(b["q"] / C["q"], a["q"], f"rates ({unit})", atol=1e-3 * sq + 1e-9)
        if set(b["w"]) != set(a["w"]):
            fail("wells")
        for c in a["w"]:
            mon.same_array(b["w"][c] / C["p"], a["w"][c], f"bottom hole pressures ({unit})", atol=tol * (sp + rng_g))
        obs.mx("pressure deviation / spread", np.nanmax(np.abs(b["p"] / C["p"] - a["p"])) / (sp + rng_g))
        obs.mx("rate deviation / largest", np.abs(b["q"] / C["q"] - a["q"]).max() / (sq + 1e-300))
        obs.ev("history", a["p"].size)
        mon.same_array(b["p"][0] / C["p"], a["p"][0], "initial pressures", rtol=1e-9)
        obs.ev("initial state")
        T0, T1 = (np.asarray(x.get_cells_trans(False, False, True)) for x in (m0, m))
        mon.same_array(T1 / (C["q"] / C["p"]), T0, f"transmissibility ({unit})", rtol=1.5e-4)
        obs.ev("transmissibility")
        if case["grid"].get("comp") or case["fluid"].get("comp"):
            # diffusivity: length^2 / time.
            a0, a1 = (np.asarray(x.get_alpha(), dtype=float) for x in (m0, m))
            i = ref.grid.interior
            with np.errstate(all="ignore"):
                mon.same_array(
                    a1[i] / (C["L"] ** 2 / C["t"]), a0[i], f"diffusivity ({unit})", rtol=1.5e-4
                )
            obs.ev("diffusivity")
        for bnd in (True, False):
            V0, V1 = (np.asarray(x.grid.get_cells_V(bnd, False)) for x in (m0, m))
            mon.same_array(V1 / C["L"] ** 3, V0, f"volumes ({unit})", rtol=1e-9)
        # head of one length unit.
        close(m.fluid.g / (C["p"] / C["L"]), m0.fluid.g, 1e-5 * abs(m0.fluid.g), f"hydrostatic gradient ({unit})")
        obs.ev("hydrostatic")
        if hasattr(m0, "RHS"):
            mon.same_array(
                np.asarray(m.RHS) / (C["q"] / C["p"]), np.asarray(m0.RHS), f"storage ({unit})", rtol=1e-6
            )
        df0 = m0.get_df(columns=["time", "cells", "wells"], units=True, drop_nan=False, drop_zero=False)
        df1 = m.get_df(columns=["time", "cells", "wells"], units=True, drop_nan=False, drop_zero=False)
        labels = []
        for mm, u_ in ((m0, "field"), (m, unit)):
            for k in ("time", "pressure", "rate"):
                labels.append((k, mm.units[k]))
        n0 = [str(x).split(" [")[0] for x in df0.columns]
        n1 = [str(x).split(" [")[0] for x in df1.columns]
        if n0 != n1:
            fail(f"columns differ between units: {n0} {n1}")
        for c0, c1, nm in zip(df0.columns, df1.columns, n0):
            kk = "time" if nm == "Time" else ("pressure" if nm[0] == "P" else "rate")
            for mm, col in ((m0, c0), (m, c1)):
                if str(col) != f"{nm} [{mm.units[kk]}]":
                    fail(f"label {col!r} does not name the unit {mm.units[kk]!r}")
            obs.ev("table label")
        close(float(df1.iloc[-1, 0]) / C["t"], float(df0.iloc[-1, 0]), 1e-9 * float(df0.iloc[-1, 0]), "time")
        same_units(obs, unit, m)
    obs.sig(sim.features(case))


def same_units(obs, unit, m):
    from reservoirflow import UNITS

    for k, v in LABELS[unit].items():
        if UNITS[unit][k] != v:
            fail(f"unit of {k} is labeled {UNITS[unit][k]!r} in {unit} units, expected {v!r}")
    for o in (m, m.grid, m.fluid):
        if o.unit != unit or o.units != UNITS[unit]:
            fail(f"units of {type(o).__name__} are not {unit}")
