"""Independent reference of the documented discretization.

Written from the documentation (units & factors tables, user guide) and the
standard block-centred finite difference formulation; shares no code with
the package. Cells are enumerated with explicit (i, j, k) loops.
"""

import math

import numpy as np

FACTORS = {
    "field": dict(trans=0.001127, grav=0.00021584 * 32.174, vol=5.614583),
    "metric": dict(trans=0.0864, grav=0.001 * 9.806635, vol=1.0),
    "lab": dict(trans=1.0, grav=9.86923e-07 * 980.6635, vol=1.0),
}
PRESS = ("pressure", "press", "p")
RATE = ("rate", "q")
GRAD = ("gradient", "grad", "g")


def kind(cond):
    c = cond.lower()
    if c in PRESS:
        return "pressure"
    if c in RATE:
        return "rate"
    if c in GRAD:
        return "gradient"
    raise ValueError(cond)


class RefGrid:
    def __init__(self, g):
        self.g = g
        self.N = (g["nx"], g["ny"], g["nz"])
        self.flow = [a for a in range(3) if self.N[a] > 1]
        self.D = len(self.flow)
        self.fdir = "".join("xyz"[a] for a in self.flow) or "-"
        self.NB = tuple(n + 2 if n > 1 else n for n in self.N)
        self.n = self.N[0] * self.N[1] * self.N[2]
        self.nb = self.NB[0] * self.NB[1] * self.NB[2]
        self.coords = [
            (i, j, k)
            for k in range(self.NB[2])
            for j in range(self.NB[1])
            for i in range(self.NB[0])
        ]
        self.id = {c: n for n, c in enumerate(self.coords)}
        self.interior = [
            n
            for n, c in enumerate(self.coords)
            if all(0 < c[a] < self.NB[a] - 1 for a in self.flow)
        ]
        inter = set(self.interior)
        self.boundary = [n for n in range(self.nb) if n not in inter]
        if self.D == 0:
            self.boundary = []
        self.inter = inter
        self.index = {c: i for i, c in enumerate(self.interior)}
        # neighbors: {id: {axis: [left, right]}}
        self.nbr = {}
        for n, c in enumerate(self.coords):
            r = {}
            for a in self.flow:
                r[a] = []
                for s in (-1, 1):
                    m = list(c)
                    m[a] += s
                    if 0 <= m[a] < self.NB[a]:
                        r[a].append(self.id[tuple(m)])
            self.nbr[n] = r
        # boundary cell which touches an interior cell: {b: (cell, axis)}
        self.link = {}
        for n in self.interior:
            for a in self.flow:
                for m in self.nbr[n][a]:
                    if m not in inter:
                        self.link[m] = (n, a)
        # sizes
        ax = []
        for a, key in enumerate(("dx", "dy", "dz")):
            v = g[key]
            if isinstance(v, (list, tuple)):
                ax.append([float(x) for x in v])
            else:
                ax.append([float(v)] * self.NB[a])
        self.ax = ax
        self.d = np.array([[ax[a][c[a]] for a in range(3)] for c in self.coords])
        self.A = np.stack(
            [
                self.d[:, 1] * self.d[:, 2],
                self.d[:, 0] * self.d[:, 2],
                self.d[:, 0] * self.d[:, 1],
            ],
            axis=1,
        )
        self.V = self.d[:, 0] * self.d[:, 1] * self.d[:, 2]
        self.edges = [np.concatenate([[0.0], np.cumsum(v)]) for v in ax]
        self.center = np.array(
            [
                [(self.edges[a][c[a]] + self.edges[a][c[a] + 1]) / 2 for a in range(3)]
                for c in self.coords
            ]
        )
        self.bc = FACTORS[g.get("unit", "field")]["trans"]
        # rock
        self.k = [None, None, None]
        for a, key in enumerate(("kx", "ky", "kz")):
            if g.get(key) is not None:
                self.k[a] = self.full(g[key])
        self.phi = self.full(g["phi"]) if g.get("phi") is not None else None
        self.z = self.full(g["z"]) if g.get("z") is not None else self.full(0)
        self.comp = g.get("comp") or 0

    def full(self, v):
        return np.ones(self.nb) * np.array(v, dtype=float)

    def G(self, m, n, a):
        """Geometric factor between adjacent cells m and n along axis a."""
        k = self.k[a]
        return (
            2
            * self.bc
            / (
                self.d[m, a] / (self.A[m, a] * k[m])
                + self.d[n, a] / (self.A[n, a] * k[n])
            )
        )

    def faces(self):
        """(m, n, axis) of faces between interior cells."""
        for m in self.interior:
            for a in self.flow:
                for n in self.nbr[m][a]:
                    if n > m and n in self.inter:
                        yield m, n, a

    def connected_boundaries(self):
        return sorted(self.link)


class RefModel:
    def __init__(self, spec):
        self.spec = spec
        self.grid = g = RefGrid(spec["grid"])
        f = spec["fluid"]
        m = spec["model"]
        self.unit = m.get("unit", "field")
        fac = FACTORS[self.unit]
        ff = FACTORS[f.get("unit", "field")]
        self.muB = f["mu"] * f["B"]
        self.rho = f.get("rho") or 0
        self.gam = ff["grav"] * self.rho
        self.fcomp = f.get("comp") or 0
        self.comp = self.fcomp + g.comp
        self.dt = m["dt"]
        self.pi = m.get("pi")
        if self.comp > 0:
            self.acc = g.V * g.phi * self.comp / (fac["vol"] * f["B"] * self.dt)
        else:
            self.acc = np.zeros(g.nb)
        self.well_fac = fac["trans"]
        self.bc = {}
        self.wells = {}
        self.T = {}
        self.adj = {n: [] for n in g.interior}
        for a_, b_, ax in g.faces():
            t = g.G(a_, b_, ax) / self.muB
            self.T[a_, b_] = t
            self.adj[a_].append((b_, t))
            self.adj[b_].append((a_, t))
        self.Tb = {}
        for b, (c, ax) in g.link.items():
            self.Tb[b] = g.G(c, b, ax) / self.muB

    # setup ------------------------------------------------------------
    def apply(self, act):
        op = act["op"]
        if op == "bc":
            self.bc[act["id"]] = (kind(act["cond"]), act["v"])
        elif op == "bcs":
            self.bc = {i: (kind(c), v) for i, c, v in act["d"]}
        elif op == "bcall":
            for b in self.grid.boundary:
                self.bc[b] = (kind(act["cond"]), act["v"])
        elif op == "well":
            old = self.wells.get(act["cell"])
            if act.get("via") == "object" or old is None:
                w = dict(q=None, pwf=None, r=None, s=None)
            else:
                w = dict(old)
            for k in ("q", "pwf", "r", "s"):
                if act.get(k) is not None:
                    w[k] = act[k]
            self.wells[act["cell"]] = w
        else:
            raise ValueError(op)

    # wells ------------------------------------------------------------
    def well_G(self, c, w):
        g = self.grid
        dx, dy, dz = g.d[c]
        if g.fdir == "x":
            req = 0.14 * math.sqrt(dx**2 + dy**2)
            kh = g.k[0][c]
        else:
            kx, ky = g.k[0][c], g.k[1][c]
            a = math.sqrt(ky / kx)
            b = math.sqrt(kx / ky)
            req = (
                0.28
                * math.sqrt(a * dx**2 + b * dy**2)
                / (math.sqrt(a) + math.sqrt(b))
            )
            kh = math.sqrt(kx * ky)
        den = math.log(req / (w["r"] / 12)) + (w.get("s") or 0)
        return 2 * math.pi * self.well_fac * kh * dz / den, req

    def well_J(self, c):
        return self.well_G(c, self.wells[c])[0] / self.muB

    def well_pwf_sp(self, c):
        v = self.wells[c]["pwf"]
        return 0.0 if v is None else v

    # flow terms ---------------------------------------------------------
    def b_flow(self, b, p, bc=None):
        """Flow (into the reservoir) through boundary cell b."""
        bc = self.bc if bc is None else bc
        if b not in bc or b not in self.grid.link:
            return 0.0
        c, a = self.grid.link[b]
        knd, v = bc[b]
        if knd == "rate":
            return v
        if knd == "gradient":
            return self.Tb[b] * self.grid.d[c, a] * v
        dz = self.grid.z[b] - self.grid.z[c]
        return 2 * self.Tb[b] * ((v - p[c]) - self.gam * dz)

    def residuals(self, p, p_old, qw, bc=None):
        """Per cell: (residual, scale) of the discretized flow equation.

        qw: {cell: rate of the well in the cell}.
        """
        g = self.grid
        bc = self.bc if bc is None else bc
        out = {}
        for c in g.interior:
            r = 0.0
            s = 0.0
            for n, t in self.adj[c]:
                dz = g.z[n] - g.z[c]
                r += t * ((p[n] - p[c]) - self.gam * dz)
                s += t * (abs(p[n]) + abs(p[c]) + abs(self.gam * dz))
            for a in g.flow:
                for b in g.nbr[c][a]:
                    if b in g.inter or b not in bc:
                        continue
                    f = self.b_flow(b, p, bc)
                    r += f
                    s += abs(f)
                    if bc[b][0] == "pressure":
                        s += 2 * self.Tb[b] * (abs(bc[b][1]) + abs(p[c]))
            if c in qw:
                r += qw[c]
                s += abs(qw[c])
                if c in self.wells:
                    s += self.well_J(c) * (abs(p[c]) + abs(self.well_pwf_sp(c)))
            if self.comp > 0:
                r -= self.acc[c] * (p[c] - p_old[c])
                s += self.acc[c] * (abs(p[c]) + abs(p_old[c]))
            out[c] = (r, s)
        return out

    # forward ------------------------------------------------------------
    def system(self, p_old, state, bc=None):
        """Dense system for well states {cell: "q"|"pwf"}."""
        g = self.grid
        bc = self.bc if bc is None else bc
        n = g.n
        A = np.zeros((n, n))
        d = np.zeros(n)
        for c in g.interior:
            i = g.index[c]
            for m, t in self.adj[c]:
                A[i, g.index[m]] += t
                A[i, i] -= t
                d[i] += t * self.gam * (g.z[m] - g.z[c])
            if self.comp > 0:
                A[i, i] -= self.acc[c]
                d[i] -= self.acc[c] * p_old[c]
        for b, (knd, v) in bc.items():
            if b not in g.link:
                continue
            c, a = g.link[b]
            i = g.index[c]
            if knd == "pressure":
                A[i, i] -= 2 * self.Tb[b]
                d[i] -= 2 * self.Tb[b] * (v - self.gam * (g.z[b] - g.z[c]))
            else:
                d[i] -= self.b_flow(b, None, bc)
        for c, st in state.items():
            i = g.index[c]
            if st == "q":
                d[i] -= self.wells[c]["q"]
            else:
                J = self.well_J(c)
                A[i, i] -= J
                d[i] -= J * self.well_pwf_sp(c)
        return A, d

    def step(self, p_old):
        """Next pressures (interior) with the unique consistent well states."""
        g = self.grid
        state = {c: ("q" if w["q"] is not None else "pwf") for c, w in self.wells.items()}
        for _ in range(200):
            A, d = self.system(p_old, state)
            x = np.linalg.solve(A, d)
            flip = None
            for c in self.wells:
                w = self.wells[c]
                if w["q"] is None:
                    continue
                pc = x[g.index[c]]
                J = self.well_J(c)
                if state[c] == "q":
                    if pc + w["q"] / J < self.well_pwf_sp(c) - 1e-12 * abs(pc):
                        flip = c
                elif pc + w["q"] / J > self.well_pwf_sp(c) + 1e-9 * abs(pc):
                    flip = c
                if flip is not None:
                    break
            if flip is None:
                p = np.full(g.nb, np.nan)
                p[g.interior] = x
                for b, (knd, v) in self.bc.items():
                    if knd == "pressure":
                        p[b] = v
                return p, state, np.linalg.cond(A)
            state[flip] = "pwf" if state[flip] == "q" else "q"
        raise RuntimeError("well states")

    def init_p(self):
        p = np.full(self.grid.nb, np.nan)
        if self.pi is not None:
            p[self.grid.interior] = self.pi
        for b, (knd, v) in self.bc.items():
            if knd == "pressure":
                p[b] = v
        return p
