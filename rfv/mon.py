"""Monitors over recorded simulation histories."""

import inspect

import numpy as np

from rfv.core import Violation


def fail(msg, key=None):
    raise Violation(msg, key)


def vary(r, f, *args, **kw):
    """Call f in one of the equivalent ways: arguments by position or by name,
    default values given or not."""
    sig = inspect.signature(f)
    kind = inspect.Parameter
    if any(p.kind in (kind.VAR_POSITIONAL, kind.VAR_KEYWORD) for p in sig.parameters.values()):
        return f(*args, **kw)
    given = sig.bind(*args, **kw).arguments
    names = list(sig.parameters)
    k = r.choice([0, len(given), len(given), r.randint(0, len(given))])
    pos, key = [], {}
    for i, n in enumerate(names):
        if n in given and i < k and i == len(pos):
            pos.append(given[n])
        elif n in given:
            d = sig.parameters[n].default
            v = given[n]
            if type(v) is type(d) and isinstance(v, (bool, str, int, type(None))) and v == d and r.random() < 0.5:
                continue
            key[n] = v
    key = dict(r.sample(list(key.items()), len(key)))
    return f(*pos, **key)


def close(a, b, tol, what, key=None):
    if not (abs(a - b) <= tol):  # also catches NaN
        fail(f"{what}: observed {a!r}, expected {b!r} (tolerance {tol:.3g})", key)


def same_array(a, b, what, rtol=0.0, atol=0.0, key=None):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        fail(f"{what}: shape {a.shape}, expected {b.shape}", key)
    if rtol == 0 and atol == 0:
        ok = np.array_equal(a, b, equal_nan=a.dtype.kind == "f" and b.dtype.kind == "f")
    else:
        ok = np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if not ok:
        with np.errstate(all="ignore"):
            bad = np.argwhere(
                ~np.isclose(a, b, rtol=rtol or 0, atol=atol or 0, equal_nan=True)
            )
        idx = tuple(bad[0]) if len(bad) else ()
        fail(
            f"{what}: {len(bad)} entries differ, first at {idx}: "
            f"observed {a[idx]!r}, expected {b[idx]!r}",
            key,
        )


def well_rates(ref, sol, t):
    return {c: float(sol.rates[t, c]) for c in ref.wells}


def mon_shapes(ref, sol, steps):
    nb = ref.grid.nb
    for nm in ("pressures", "rates"):
        sh = getattr(sol, nm).shape
        if sh != (steps + 1, nb):
            fail(f"{nm} history has shape {sh}, expected {(steps + 1, nb)}")
    if sol.tstep != steps or sol.nsteps != steps + 1:
        fail(f"tstep={sol.tstep}, nsteps={sol.nsteps} after {steps} timesteps")


def mon_flow(ref, sol, t, obs, tol=1e-7, bc=None):
    """Discretized flow equation of every cell over timestep t-1 -> t."""
    p = sol.pressures[t]
    p_old = sol.pressures[t - 1]
    qw = well_rates(ref, sol, t)
    worst = 0
    for c, (r, s) in ref.residuals(p, p_old, qw, bc).items():
        if not abs(r) <= tol * s + 1e-12:
            fail(
                f"flow equation of cell {c} is not satisfied at timestep {t}: "
                f"residual {r:.6g} where the terms are of order {s:.6g}"
            )
        worst = max(worst, abs(r) / (s + 1e-300))
        obs.ev("cell flow equation")
    return worst


def mon_balance(ref, sol, t, obs, tol=1e-7):
    """Accumulation = sum of all reported rates over timestep t."""
    g = ref.grid
    p = sol.pressures[t]
    rates = sol.rates[t]
    if not np.isfinite(rates).all():
        fail(f"reported rates are not finite at timestep {t}")
    acc = 0.0
    sc = float(np.abs(rates).sum())
    if ref.comp > 0:
        p_old = sol.pressures[t - 1]
        for c in g.interior:
            acc += ref.acc[c] * (p[c] - p_old[c])
            sc += ref.acc[c] * (abs(p[c]) + abs(p_old[c]))
    # round-off of the solution of the linear system.
    for (m, n), T in ref.T.items():
        sc += T * (abs(p[m]) + abs(p[n]) + abs(ref.gam * (g.z[m] - g.z[n])))
    for b, (knd, v) in ref.bc.items():
        if knd == "pressure" and b in g.link:
            sc += 2 * ref.Tb[b] * (abs(v) + abs(p[g.link[b][0]]))
    for c in ref.wells:
        sc += ref.well_J(c) * (abs(p[c]) + abs(ref.well_pwf_sp(c)))
    d = acc - float(rates.sum())
    if not abs(d) <= tol * sc + 1e-12:
        fail(
            f"mass is not balanced over timestep {t}: accumulation {acc:.9g}, "
            f"sum of boundary and well rates {rates.sum():.9g}"
        )
    obs.ev("global balance")
    return acc, sc


def mon_only_sources(ref, sol, t, obs):
    """Only wells and boundaries have rates."""
    g = ref.grid
    rates = sol.rates[t]
    for c in range(g.nb):
        if c in ref.wells or c in g.link and c in ref.bc:
            continue
        if rates[c] != 0:
            fail(f"cell {c} has a rate of {rates[c]} without a well or a boundary")
    obs.ev("no other sources")


def mon_bc(ref, sol, t, obs, bc=None, tol=1e-8):
    g = ref.grid
    bc = ref.bc if bc is None else bc
    p, q = sol.pressures[t], sol.rates[t]
    for b in g.boundary:
        if b not in bc:
            close(q[b], 0.0, 0, f"rate of closed boundary {b} at timestep {t}")
            if not np.isnan(p[b]):
                fail(f"closed boundary {b} has a pressure {p[b]} at timestep {t}")
            obs.ev("closed boundary")
            continue
        knd, v = bc[b]
        if knd == "pressure":
            close(p[b], v, 1e-9 * abs(v), f"pressure of boundary {b} at timestep {t}")
        elif not np.isnan(p[b]):
            fail(f"{knd} boundary {b} has a pressure {p[b]} at timestep {t}")
        if b not in g.link:
            close(q[b], 0.0, 0, f"rate of unconnected boundary {b} at timestep {t}")
            obs.ev("unconnected boundary")
            continue
        exp = ref.b_flow(b, p, bc)
        sc = abs(exp)
        if knd == "pressure":
            c = g.link[b][0]
            sc += 2 * ref.Tb[b] * (
                abs(v) + abs(p[c]) + abs(ref.gam * (g.z[b] - g.z[c]))
            )
        close(q[b], exp, tol * sc + 1e-13, f"rate of {knd} boundary {b} at timestep {t}")
        obs.ev(f"{knd} boundary")


def mon_wells(ref, sol, t, obs, pwf=None, tol=1e-7):
    """Well control. pwf: {cell: pwf at timestep t}"""
    for c, w in ref.wells.items():
        J = ref.well_J(c)
        p, q = float(sol.pressures[t, c]), float(sol.rates[t, c])
        f = float(pwf[c]) if pwf is not None else float(sol.w_pressures[c][t])
        psp = ref.well_pwf_sp(c)
        ptol = tol * (abs(p) + abs(psp) + abs(f))
        qtol = J * ptol
        if w["q"] is not None:
            qtol += tol * abs(w["q"])
        close(q, -J * (p - f), qtol, f"inflow of well {c} at timestep {t} (p={p}, pwf={f})")
        if w["q"] is None:
            close(f, psp, ptol, f"bottom hole pressure of well {c} at timestep {t}")
            obs.ev("pwf well")
            continue
        ptol_q = ptol + tol * abs(w["q"]) / J
        if f < psp - ptol_q:
            fail(f"well {c}: pwf {f} is below its limit {psp} at timestep {t}")
        if q < w["q"] - qtol:
            fail(f"well {c}: rate {q} is below the specified {w['q']} at timestep {t}")
        on_q = abs(q - w["q"]) <= qtol
        on_p = abs(f - psp) <= ptol_q
        if not (on_q or on_p):
            fail(
                f"well {c}: neither its rate {q} (specified {w['q']}) nor its "
                f"pressure {f} (limit {psp}) is honoured at timestep {t}"
            )
        obs.ev("rate well on rate" if on_q else "rate well on pressure limit")


def max_p(ref):
    vals = [abs(v) for k, v in ref.bc.values() if k == "pressure"]
    if ref.pi is not None:
        vals.append(abs(ref.pi))
    return max(vals + [1.0])
