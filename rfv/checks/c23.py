"""C23: diagnostics observe, and change nothing."""

import contextlib
import io
import os
import random
import re
import sys
import warnings

import numpy as np

from rfv import gen, mon, sim
from rfv.mon import fail

LEVEL = "exploration"
QUICK = (400, 110)
THOROUGH = (14000, 780)
RULE = (
    "Twins of a simulation, one plain and one with diagnostics switched on at random "
    "(verbose grid, fluid and model, toggled between timesteps, printed arrays, balance "
    "with or without text and thresholds, reports, str and repr of every object, "
    "profiled solve and run), have to keep the same histories; printed reports show "
    "the current values. Analytical solutions have twins too. Random functions (results, exceptions, recursion, several calls) are "
    "run through every profiler: called once with their arguments, same result or "
    "exception, files only where and when requested. Non-trivial: distinct diagnostics "
    "and structure, distinct function behaviour."
)
NEED = ["printed row", "printed arrays", "twin history", "report", "profiled function", "profiled exception", "analytical twin", "output file", "verbose text", "quiet"]
REPORTS = ["report", "str", "repr", "prop", "mb"]


def gen_case(rng, tier):
    if rng.random() < 0.3:
        return dict(mode="profile", seed=rng.randrange(10**9))
    if rng.random() < 0.08:
        return dict(
            mode="analytical", seed=rng.randrange(10**9), n=rng.randint(2, 8), k=rng.uniform(1, 50),
            p=[rng.uniform(1000, 5000) for _ in range(3)],
            runs=[[rng.randint(1, 4), rng.random() < 0.6, rng.random() < 0.2] for _ in range(rng.randint(1, 3))],
        )
    c = sim.gen_sim(rng, tier, big=0.0, plan=dict(sym=0.25, long=0.01, maxn=3))
    c["mode"] = "twin"
    c["verbose"] = [rng.random() < 0.5 for _ in range(3)]
    for g in c["plan"]:
        g["verbose"] = rng.random() < 0.5
        g["print"] = rng.random() < 0.25
        g["wrap"] = rng.choice([None, None, "timeit", "profile", "cProfiler", "lProfiler"])
        g["reports"] = [rng.choice(REPORTS) for _ in range(rng.randint(0, 3))]
    c["seed"] = rng.randrange(10**9)
    return c


def run(case, obs):
    r = random.Random(case["seed"])
    if case["mode"] == "profile":
        profile(r, obs)
    elif case["mode"] == "analytical":
        analytical(case, r, obs)
    else:
        twin(case, r, obs)


def profme():
    from reservoirflow.utils import profme

    return profme


def wrap(kind, f):
    p = profme()
    if kind == "timeit":
        return p.timeit(f)
    if kind == "profile":
        return p.profile(f)
    if kind == "cProfiler":
        return p.cProfiler(print_output=True, save_output=False)(f)
    if kind == "lProfiler":
        return p.lProfiler(print_output=True, save_output=False)(f)
    return f


def printed(f):
    s = io.StringIO()
    with contextlib.redirect_stdout(s):
        x = f()
    return x, s.getvalue()


def state(model, sol):
    return (
        sol.pressures.copy(), sol.rates.copy(), sol.tstep, sol.nsteps,
        {c: dict(w) for c, w in model.wells.items()}, dict(model.bdict),
        {c: list(v) for c, v in model.w_pressures.items()}, repr(sol.error) if hasattr(sol, "error") else None,
    )


def look(op, model, sol, r, obs):
    o = r.choice([model, model.grid, model.fluid])
    if op in ("report", "str"):
        text = printed((lambda: o.report(ifmt=r.randint(0, 5))) if op == "report" else (lambda: str(o)))[1]
        for k, v in vars(o).items():
            if k in ("units", "factors", "pv_grid", "corners", "centers"):
                continue
            if k not in text:
                fail(f"{k} is missing in the report of {o.name}")
            if isinstance(v, (int, float, str)) and str(v) and str(v) not in text:
                try:
                    shown = f"{float(v):g}" in text
                except ValueError:
                    shown = False
                if not shown:
                    fail(f"{k}={v} is missing in the report of {o.name}")
    elif op == "repr":
        if o.name and "unit" not in repr(o):
            fail("repr has no unit")
    elif op == "prop":
        k = r.choice(sorted(vars(o)))
        text = printed(lambda: o.report(k))[1]
        if k not in text or str(vars(o)[k]) not in text:
            fail(f"report('{k}') shows {text!r}")
    elif op == "mb":
        if sol.tstep == 0:
            return
        warnings.simplefilter("ignore")
        e = sol.error if hasattr(sol, "error") else None
        _, text = printed(lambda: sol.check_MB(verbose=True, error_threshold=10 ** r.uniform(-12, 3)))
        if f"rror in step {sol.tstep}" not in text or str(sol.error) not in text:
            fail(f"check_MB(verbose=True) printed {text!r}")
    obs.ev("report")


def twin(case, r, obs):
    A = gen.make_model(case)
    a = gen.compile_fdm(A, case["sparse"])
    v = case["verbose"]
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        g = gen.rf().grids.RegularCartesian(**case["grid"], verbose=v[0])
        f = gen.rf().fluids.SinglePhase(**case["fluid"], verbose=v[1])
        spec = dict(case, model=dict(case["model"], verbose=v[2]))
        B = gen.make_model(spec, grid=g, fluid=f)
    if "[info]" in out.getvalue() and not any(v):
        fail(f"text without verbose: {out.getvalue()[:300]!r}")
    with contextlib.redirect_stdout(out):
        b = gen.compile_fdm(B, case["sparse"])
    obs.ev("quiet" if not any(v) else "verbose text")
    for p in case["plan"]:
        for act in p["acts"]:
            gen.apply(A, act)
            with contextlib.redirect_stdout(out):
                gen.apply(B, act)
        B.verbose = p["verbose"]
        g.verbose, f.verbose = r.random() < 0.3, r.random() < 0.3
        sym = p["print"] or not p["vectorize"]
        kw = dict(threading=p["threading"], vectorize=not sym, check_MB=True, isolver=None)
        kb = dict(kw, print_arrays=p["print"], check_MB=p["check_MB"])
        if p["how"] == "run":
            A.run(nsteps=p["n"], **kw)
            with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
                wrap(p["wrap"], B.run)(nsteps=p["n"], **kb)
        else:
            for _ in range(p["n"]):
                A.solve(**kw)
                mine = io.StringIO()
                rule = {c: w.get("constrain") for c, w in B.wells.items()}
                with contextlib.redirect_stdout(mine):
                    wrap(p["wrap"], B.solve)(**kb)
                again = rule != {c: w.get("constrain") for c, w in B.wells.items()}
                shown(mine.getvalue(), B.verbose, b, p["print"], again, obs)
        if B.verbose != p["verbose"]:
            fail(f"verbose is {B.verbose} after {p['how']}, it was {p['verbose']}")
        P = np.nanmax(np.abs(a.pressures))
        mon.same_array(b.pressures, a.pressures, "pressures with diagnostics", 1e-10, 1e-12 * P)
        J = max([0.0] + [abs(w["G"]) for w in A.wells.values()])
        mon.same_array(
            b.rates, a.rates, "rates with diagnostics", 1e-8, 1e-9 * np.abs(a.rates).max() + 1e-12
        )
        mon.same_array(b.As, a.As, "matrices with diagnostics", 1e-12, 1e-13 * np.abs(a.As).max())
        obs.ev("twin history")
        for op in p["reports"]:
            s = state(B, b)
            with contextlib.redirect_stderr(out):
                look(op, B, b, r, obs)
            t = state(B, b)
            for k in (0, 1):
                mon.same_array(t[k], s[k], f"history after {op}")
            if repr(t[2:7]) != repr(s[2:7]):
                fail(f"{op} changed the model: {t[2:7]}, before {s[2:7]}")
    for c in A.wells:
        mon.same_array(
            np.array(B.w_pressures[c], float), np.array(A.w_pressures[c], float),
            f"bottom hole pressures of {c} with diagnostics", 1e-9, 1e-9 * P,
        )
    obs.sig(
        sim.features(case), v, [(p["verbose"], p["print"], p["wrap"], p["reports"]) for p in case["plan"]]
    )


def numbers(text):
    """The numbers of a printed array."""
    return np.array([float(x) for x in re.findall(r"[-+]?(?:nan|inf|\d+\.?\d*(?:e[-+]?\d+)?)", text)])


def shown(text, verbose, sol, arrays, again, obs):
    """A verbose timestep shows the values which were recorded."""
    n = np.get_printoptions()["threshold"]
    if verbose:
        for head, rows in (("Pressures", sol.pressures), ("rates", sol.rates)):
            part = re.findall(rf"\[info\] {head}:\s*\[([^\]]*)\]", text)
            if not part:
                fail(f"a verbose timestep shows no {head}: {text[-300:]!r}")
            if rows.shape[1] <= n:
                mon.same_array(numbers(part[-1]), rows[sol.tstep], f"printed {head}", 1e-6, 1e-8 + 1e-7 * np.nanmax(np.abs(rows[sol.tstep])))
                obs.ev("printed row")
    elif re.search(r"^\[info\] (Pressures|rates):\s*\[", text, re.M):
        fail(f"text without verbose: {text[:300]!r}")
    if arrays:
        k = text.rfind("step:")
        if k < 0 or text[k:].split()[1] != str(sol.tstep - 1):
            fail(f"printed arrays of timestep {sol.tstep - 1}: {text[k : k + 100]!r}")
        m = len(sol.model.grid.cells_id)
        x = numbers(text[k + 5 :].split("[", 1)[1].split("]]")[0])
        if 3 * m * m <= n:
            x = x.reshape(3, m, m)
            # arrays of a timestep which is solved again are of the first attempt.
            want = x[0] if again else sol.As[sol.tstep].reshape(m, m)
            sc = np.abs(want).max()
            for j, what in ((0, "symbolic"), (1, "vectorized")):
                mon.same_array(np.abs(x[j]), np.abs(want), f"printed matrix ({what})", 1e-6, 1e-8 + 1e-6 * sc)
            if np.abs(x[2]).max() > 1e-8 + 1e-6 * sc:
                fail(f"printed difference of matrices {np.abs(x[2]).max()}")
            obs.ev("printed arrays")


class Boom(Exception):
    pass


def analytical(case, r, obs):
    """Twins of an analytical solution, plain and verbose."""

    def make():
        g = gen.make_grid(dict(nx=case["n"], ny=1, nz=1, dx=50, dy=20, dz=10, kx=case["k"], phi=0.2,
                               comp=1e-6, unit="field"))
        f = gen.make_fluid(dict(mu=1.0, B=1.1, rho=0, comp=1e-5, unit="field"))
        m = gen.rf().models.BlackOil(g, f, pi=case["p"][0], dt=1, start_date="2020-01-01")
        m.set_boundaries({0: ("pressure", case["p"][1]), case["n"] + 1: ("pressure", case["p"][2])})
        return m

    out = io.StringIO()
    A, B = make(), make()
    A.compile("analytical", "1D1P", False)
    with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
        B.compile("analytical", "1D1P", False)
    for n, v, prof in case["runs"]:
        B.verbose = v
        A.run(nsteps=n)
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            wrap("timeit" if prof else None, B.run)(nsteps=n)
            str(B), repr(B), B.report()
        if B.verbose is not v:
            fail(f"verbose is {B.verbose} after run of the analytical solution, it was {v}")
        mon.same_array(B.solution.pressures, A.solution.pressures, "analytical pressures with diagnostics")
        if (A.solution.tstep, A.solution.nsteps) != (B.solution.tstep, B.solution.nsteps):
            fail("timesteps of the analytical solution with diagnostics")
        obs.ev("analytical twin")
    obs.sig("analytical", case["runs"])


def profile(r, obs):
    p = profme()
    d = os.path.join(os.getcwd(), f"prof{r.randrange(10**9)}")
    os.makedirs(os.path.join(d, "sub"))
    old = os.getcwd()
    os.chdir(os.path.join(d, "sub") if r.random() < 0.5 else d)
    sys.path.insert(0, d)
    try:
        for _ in range(4):
            one(p, r, d, obs)
    finally:
        sys.path.remove(d)
        os.chdir(old)


def files(d):
    """The profilers write next to the script or in the working directory."""
    out = {os.path.join(d, x) for x in os.listdir(d)}
    s = os.path.join(d, "sub")
    return (out - {s}) | {os.path.join(s, x) for x in os.listdir(s)}


def one(p, r, d, obs):
    kind = r.choice(["cProfiler", "lProfiler", "profile", "timeit"])
    calls = []
    behave = r.choice(["value", "value", "none", "raise", "base", "recursive", "heavy", "mutate", "falsy", "array"])
    token = object()
    falsy = r.choice([[], {}, "", 0, False, 0.0, (), set(), np.zeros(0), float("nan")])
    array = np.arange(r.randint(1, 5))

    def work(*args, **kwargs):
        """text of work"""
        calls.append((args, dict(kwargs)))
        if behave == "raise":
            raise Boom(token)
        if behave == "base":
            raise KeyboardInterrupt(token)
        if behave == "recursive":
            return sum(fib(i) for i in range(8))
        if behave == "heavy":
            return float(np.linalg.det(np.eye(20) * 2))
        if behave == "mutate":
            args[0].append(token)
            return args[0]
        if behave in ("falsy", "array"):
            return dict(falsy=falsy, array=array)[behave]
        return None if behave == "none" else token

    def fib(n):
        return n if n < 2 else fib(n - 1) + fib(n - 2)

    work.__qualname__ = work.__name__ = f"work{r.randrange(1000)}"
    save, show = r.random() < 0.5, r.random() < 0.5
    sort = r.choice(["tottime", "cumtime", "ncalls"])
    if kind == "cProfiler":
        f = p.cProfiler(sort_stats=sort, print_output=show, save_output=save)(work)
    elif kind == "lProfiler":
        f = p.lProfiler(print_output=show, save_output=save)(work)
    else:
        save, show = False, True
        f = getattr(p, kind)(work)
    if f.__name__ != work.__name__ or f.__doc__ != work.__doc__:
        fail(f"{kind}: name or text of the function changed: {f.__name__}, {f.__doc__}")
    for k in range(r.randint(1, 3)):
        before = files(d)
        cwd, path = os.getcwd(), list(sys.path)
        n = len(calls)
        lst = [k]
        args, kw = (lst, 2.5), dict(key=token)
        hook = sys.getprofile()
        try:
            out = printed(lambda: f(*args, **kw))
            res, text = out
            exc = None
        except (Boom, KeyboardInterrupt) as e:
            exc, res, text = e, None, None
        if os.getcwd() != cwd or sys.path != path:
            fail(f"{kind}: the working directory or the search path was changed")
        if sys.getprofile() is not hook:
            fail(f"{kind}: a profiler is still active after {behave}")
        if len(calls) != n + 1:
            fail(f"{kind}: the function was called {len(calls) - n} times")
        a, b = calls[-1]
        if a[0] is not lst or a[1:] != args[1:] or b != kw:
            fail(f"{kind}: arguments {a}, {b} instead of {args}, {kw}")
        if behave in ("raise", "base"):
            if exc is None or exc.args[0] is not token:
                fail(f"{kind}: {behave} was not raised: {exc!r}")
            obs.ev("profiled exception")
        else:
            if exc is not None:
                fail(f"{kind}: raised {exc!r}")
            want = {"value": token, "none": None, "recursive": 33, "heavy": 2.0**20, "mutate": lst,
                    "falsy": falsy, "array": array}[behave]
            if not (res is want or type(res) is type(want) and isinstance(res, (int, float)) and abs(res - want) < 1e-6 * abs(want)):
                fail(f"{kind}: returned {res!r} instead of {want!r}")
            obs.ev("profiled function")
            if bool(text.strip()) != show:
                fail(f"{kind}: print_output={show} printed {text[:200]!r}")
            new = {f"{kind}_{work.__qualname__}.csv"} if save else set()
            got = files(d) - before
            have = {os.path.basename(x) for x in before}
            if {os.path.basename(x) for x in got} != (new - have):
                fail(f"{kind}: save_output={save} created {got}")
            for x in new:
                t = open(next(y for y in files(d) if os.path.basename(y) == x)).read()
                head = "ncalls" if kind == "cProfiler" else "Hits"
                body = "work" if kind == "cProfiler" else "calls.append"
                if head not in t or body not in t:
                    fail(f"{kind}: {x} holds {t[:300]!r}")
                obs.ev("output file")
    obs.sig(kind, behave, save, show, sort)
