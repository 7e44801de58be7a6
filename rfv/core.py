"""Runner of the monitors.

A check is a module ``rfv.checks.<id>`` with

* ``gen(rng, tier) -> case``: a JSON-able workload,
* ``run(case, obs)``: drives the real code with that workload while monitors
  observe it; a monitor reports through ``obs`` or raises ``Violation``,
* ``RULE``, ``LEVEL``, ``QUICK``, ``THOROUGH``: text and budgets.

Cases are spread over forked workers. Verdicts: held (exit 0), violated
(exit 1, with a replay file), error/inconclusive (exit 2).
"""

import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RFV_REPO", "/repo")


class Violation(Exception):
    """A monitor observed a violation of the property."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key  #: mechanism (for known findings).


class Hang(BaseException):
    pass


class Obs:
    """What the monitors observed."""

    def __init__(self):
        self.evals = 0
        self.events = {}
        self.sigs = set()
        self.samples = []
        self.maxima = {}

    def ev(self, name, n=1):
        """n observations made by the monitor `name`."""
        self.events[name] = self.events.get(name, 0) + n

    def mx(self, name, v):
        """Largest value seen of a monitored quantity."""
        self.maxima[name] = max(self.maxima.get(name, 0.0), float(v))

    def sig(self, *parts):
        """A distinct non-trivial situation which was observed."""
        self.sigs.add(hashlib.md5(repr(parts).encode()).hexdigest()[:12])

    def sample(self, s):
        if len(self.samples) < 2:
            self.samples.append(s)


def env_setup():
    os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
    os.environ["MPLBACKEND"] = "Agg"
    os.environ["PYVISTA_OFF_SCREEN"] = "true"
    for v in ("OPENBLAS_NUM_THREADS", "OMP_NUM_THREADS", "MKL_NUM_THREADS"):
        os.environ[v] = "1"
    sys.dont_write_bytecode = True
    import warnings

    warnings.simplefilter("ignore")


def import_target():
    """Import reservoirflow from the working tree (never an installed copy)."""
    sys.path.insert(0, REPO)
    import reservoirflow

    path = os.path.realpath(reservoirflow.__file__)
    if not path.startswith(os.path.realpath(REPO) + os.sep):
        raise RuntimeError(f"reservoirflow was imported from {path}")
    return reservoirflow


def case_rng(cid, seed, i):
    return random.Random(f"{cid}/{seed}/{i}")


def run_case(mod, case, obs, limit):
    """Returns None or (message, key)."""

    def on_alarm(*_):
        raise Hang()

    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(limit)
    try:
        mod.run(case, obs)
    except Violation as e:
        return str(e), e.key
    except (MemoryError, KeyboardInterrupt):
        raise
    except Hang:
        return f"no result after {limit} seconds", "hang"
    except Exception as e:
        tb = traceback.format_exc()
        return f"unexpected {type(e).__name__}: {e}\n{tb}", type(e).__name__
    finally:
        signal.alarm(0)
    return None


def worker(mod, cid, seed, tier, w, nw, ncases, deadline, out, limit):
    obs = Obs()
    fails = []
    done = 0
    scratch = os.path.join(out, f"cwd{w}")
    os.makedirs(scratch, exist_ok=True)
    os.chdir(scratch)
    if os.environ.get("RFV_DEBUG") is None:
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        os.dup2(devnull, 2)
        sys.stdout = open(os.devnull, "w")
        sys.stderr = open(os.devnull, "w")
    for i in range(w, ncases, nw):
        if time.time() > deadline or len(fails) >= 5:
            break
        rng = case_rng(cid, seed, i)
        case = mod.gen_case(rng, tier)
        with open(os.path.join(out, f"cur{w}.json"), "w") as f:
            json.dump([i, case], f)
        r = run_case(mod, case, obs, limit)
        done += 1
        if i < 3 * nw:
            obs.sample(case)
        if r is not None:
            fails.append([i, case, r[0], r[1]])
    res = dict(
        done=done,
        fails=fails,
        events=obs.events,
        sigs=sorted(obs.sigs),
        samples=obs.samples,
        maxima=obs.maxima,
    )
    tmp = os.path.join(out, f"w{w}.tmp")
    with open(tmp, "w") as f:
        json.dump(res, f)
    os.rename(tmp, os.path.join(out, f"w{w}.json"))


def known_findings(cid):
    """[(mechanism key, text)] for open findings of this property."""
    out = []
    path = os.path.join(VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("KNOWN-FINDING:"):
                # KNOWN-FINDING: property=<id> key=<key> <what fails>
                f = line.split(None, 3)
                if f[1] == f"property={cid}":
                    out.append((f[2].split("=", 1)[1], f[3]))
    return out


def shorten(x, n=1500):
    s = json.dumps(x)
    return x if len(s) <= n else s[:n] + "..."


def main(cid, tier, seed, replay=None):
    t0 = time.time()
    env_setup()
    mod = importlib.import_module(f"rfv.checks.{cid.lower()}")
    if hasattr(mod, "before_import"):
        mod.before_import()
    try:
        import_target()
    except Exception:
        traceback.print_exc()
        return 2
    out = tempfile.mkdtemp(prefix=f"rfv_{cid}_")
    os.environ["MPLCONFIGDIR"] = out
    try:
        if hasattr(mod, "prepare"):
            mod.prepare(tier)
        if replay:
            return do_replay(mod, cid, replay, out)
        return do_run(mod, cid, tier, seed, out, t0)
    finally:
        os.chdir("/")
        shutil.rmtree(out, ignore_errors=True)


def selftest():
    """Is everything that the checks need available?"""
    env_setup()
    import numpy
    import pandas
    import pyvista
    import scipy
    import sympy

    import_target()
    for m in (numpy, scipy, sympy, pandas, pyvista):
        print(m.__name__, m.__version__)
    return 0


def do_replay(mod, cid, replay, out):
    data = json.load(open(replay))
    os.chdir(out)
    r = run_case(mod, data["case"], Obs(), 600)
    if r is None:
        print(f"property {cid} held on {replay}")
        return 0
    print(r[0])
    print(f"VIOLATION property={cid} replay={replay}")
    return 1


def do_run(mod, cid, tier, seed, out, t0):
    ncases, cap = mod.QUICK if tier == "quick" else mod.THOROUGH
    ncases = int(os.environ.get("RFV_CASES", ncases))
    nw = int(os.environ.get("RFV_WORKERS", min(8, os.cpu_count() or 1)))
    nw = max(1, min(nw, getattr(mod, "MAXW", 8), ncases))
    deadline = time.time() + cap
    limit = getattr(mod, "LIMIT", 240)
    pids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for w in range(nw):
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                worker(mod, cid, seed, tier, w, nw, ncases, deadline, out, limit)
            except BaseException:
                with open(os.path.join(out, f"err{w}.txt"), "w") as f:
                    traceback.print_exc(file=f)
                code = 3
            finally:
                os._exit(code)
        pids[pid] = w
    crashed = []
    while pids:
        pid, status = os.wait()
        w = pids.pop(pid, None)
        if w is None:
            continue
        if status != 0 or not os.path.exists(os.path.join(out, f"w{w}.json")):
            crashed.append((w, status))

    done, fails, events, sigs, samples, maxima = 0, [], {}, set(), [], {}
    for w in range(nw):
        p = os.path.join(out, f"w{w}.json")
        if not os.path.exists(p):
            continue
        r = json.load(open(p))
        done += r["done"]
        fails += r["fails"]
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        sigs |= set(r["sigs"])
        samples += r["samples"]
        for k, v in r["maxima"].items():
            maxima[k] = max(maxima.get(k, 0.0), v)

    err = None
    for w, status in crashed:
        p = os.path.join(out, f"err{w}.txt")
        if os.WIFSIGNALED(status) and os.WTERMSIG(status) in (
            signal.SIGSEGV,
            signal.SIGABRT,
            signal.SIGFPE,
            signal.SIGBUS,
        ):
            i, case = json.load(open(os.path.join(out, f"cur{w}.json")))
            msg = f"the process died with signal {os.WTERMSIG(status)}"
            fails.append([i, case, msg, "signal"])
        else:
            err = open(p).read() if os.path.exists(p) else f"worker status {status}"

    known = known_findings(cid)
    known_keys = {k for k, _ in known}
    fails.sort(key=lambda f: f[0])
    new = [f for f in fails if f[3] not in known_keys]
    for k, text in known:
        print(f"KNOWN-FINDING: property={cid} {text}")

    evidence = dict(
        property=cid,
        tier=tier,
        seed=seed,
        level=mod.LEVEL,
        coverage=dict(
            evaluations=done,
            distinct_nontrivial=len(sigs),
            rule=mod.RULE,
            samples=[shorten(s) for s in samples[:3]],
            monitor_events=events,
            monitor_events_total=sum(events.values()),
            largest_observed=maxima,
            cases_planned=ncases,
            workers=nw,
        ),
        assumptions=getattr(mod, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(new),
    )
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{cid}.json"), "w") as f:
        json.dump(evidence, f, indent=1)

    print(
        f"{cid} {tier} seed={seed}: {done}/{ncases} cases, "
        f"{sum(events.values())} monitor events, {len(sigs)} distinct, "
        f"{len(new)} violations, {time.time() - t0:.1f}s"
    )
    if new:
        rdir = os.path.join(VERIF, "replays")
        os.makedirs(rdir, exist_ok=True)
        for i, case, msg, key in new[:3]:
            path = os.path.join(rdir, f"{cid}-{tier}-{seed}-{i}.json")
            with open(path, "w") as f:
                json.dump(dict(property=cid, case=case, message=msg, key=key), f)
            print(f"--- case {i} ({key}):\n{msg[-3000:]}")
            print(f"VIOLATION property={cid} replay={path}")
        return 1
    if err:
        print("worker error:\n" + err[-3000:])
        return 2
    need = getattr(mod, "NEED", {})
    missing = [k for k in need if events.get(k, 0) == 0]
    if missing and done < ncases // 2:  # out of time: rare events may be missing.
        print(f"out of time, without {missing}")
        missing = []
    if done == 0 or sum(events.values()) == 0 or missing:
        print(f"inconclusive: monitors observed nothing {missing}")
        return 2
    return 0
