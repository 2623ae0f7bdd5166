"""Forked execution of scenarios, seeded batches, minimisation, replay files and evidence."""
import gc
import hashlib
import importlib
import json
import mmap
import os
import pickle
import random
import selectors
import signal
import struct
import subprocess
import sys
import time
import traceback
import warnings
from collections import Counter

from . import boot

CHILD_TIMEOUT = 240  # real seconds; a run that needs this long is inconclusive, never a pass


class Inconclusive(Exception):
    pass


# ------------------------------------------------------------------- forking
def _child_main(fn, wfd):
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        devnull = os.open(os.devnull, os.O_WRONLY)
        os.dup2(devnull, 1)
        if not os.environ.get("SIM_DEBUG"):
            os.dup2(devnull, 2)
        gc.disable()
        try:
            out = ("ok", fn())
        except BaseException as e:  # noqa
            out = ("error", "%s: %s\n%s" % (type(e).__name__, e, traceback.format_exc()))
        data = pickle.dumps(out)
        data = struct.pack("<Q", len(data)) + data
        mv = memoryview(data)
        while mv:
            n = os.write(wfd, mv)
            mv = mv[n:]
    finally:
        os._exit(0)


def spawn_child(fn):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        _child_main(fn, w)
    os.close(w)
    return pid, r


def collect_child(pid, r, timeout=CHILD_TIMEOUT):
    """-> ("ok", value) | ("error", text) | ("died", status) | ("timeout", None)"""
    end = time.monotonic() + timeout
    buf = b""
    sel = selectors.DefaultSelector()
    sel.register(r, selectors.EVENT_READ)
    status = None
    try:
        while True:
            left = end - time.monotonic()
            if left <= 0 or not sel.select(left):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                return ("timeout", None)
            chunk = os.read(r, 1 << 20)
            if not chunk:
                break
            buf += chunk
        _, status = os.waitpid(pid, 0)
    finally:
        sel.close()
        os.close(r)
    if len(buf) >= 8 and len(buf) == 8 + struct.unpack("<Q", buf[:8])[0]:
        return pickle.loads(buf[8:])
    return ("died", status)


def in_child(fn, timeout=CHILD_TIMEOUT):
    return collect_child(*spawn_child(fn), timeout)


def pristine(fn, timeout=CHILD_TIMEOUT):
    """Run fn in a fresh copy of this process (no history) and return its value."""
    return _value(in_child(fn, timeout))


def _value(r):
    st, v = r
    if st == "ok":
        return v
    if st == "died":
        raise RuntimeError("reference process died with status %s" % v)
    if st == "timeout":
        raise Inconclusive("reference process timed out")
    raise RuntimeError("reference process failed: " + v)


class Twin:
    """A copy of the run process made before its first call; it only forks fresh processes for references."""

    def __init__(self):
        qr, qw = os.pipe()
        ar, aw = os.pipe()
        self.pid = os.fork()
        if self.pid == 0:
            try:
                os.close(qw)
                os.close(ar)
                while True:
                    q = _read_msg(qr)
                    if q is None:
                        break
                    fn, args = pickle.loads(q)
                    _write_msg(aw, pickle.dumps(in_child(lambda: fn(*args))))
            finally:
                os._exit(0)
        os.close(qr)
        os.close(aw)
        self.q, self.a = qw, ar

    def call(self, fn, args):
        _write_msg(self.q, pickle.dumps((fn, args)))
        a = _read_msg(self.a)
        if a is None:
            raise RuntimeError("the reference twin ended")
        return pickle.loads(a)

    def close(self):
        os.close(self.q)
        os.close(self.a)
        os.waitpid(self.pid, 0)


def _write_msg(fd, data):
    mv = memoryview(struct.pack("<Q", len(data)) + data)
    while mv:
        mv = mv[os.write(fd, mv):]


def _read_n(fd, n):
    buf = b""
    while len(buf) < n:
        c = os.read(fd, min(n - len(buf), 1 << 20))
        if not c:
            return None
        buf += c
    return buf


def _read_msg(fd):
    n = _read_n(fd, 8)
    return None if n is None else _read_n(fd, struct.unpack("<Q", n)[0])


TWIN = None


def reference(fn, *args):
    """fn(*args) in a process without any history, whatever this process did before; fn is a module-level function."""
    if TWIN is None:
        return pristine(lambda: fn(*args))
    return _value(TWIN.call(fn, args))


# --------------------------------------------------------------------- batch
def prop_module(pid):
    return importlib.import_module("simtatc.props." + pid.lower())


def run_rng(pid, seed, i):
    h = hashlib.sha256(("%s:%d:%d" % (pid, seed, i)).encode()).digest()
    return random.Random(int.from_bytes(h[:8], "big"))


def scenario(mod, seed, i, tier):
    sc = mod.generate(run_rng(mod.ID, seed, i), i, tier)
    return json.loads(json.dumps(sc))  # replay files hold exactly what is executed


def outcome_of(mod, sc, timeout=CHILD_TIMEOUT):
    """Execute one scenario in a pristine child; normalises crashes and harness failures."""

    def go():
        global TWIN
        warnings.simplefilter("ignore")
        if not getattr(mod, "TWIN", False):
            return mod.execute(sc)
        TWIN = Twin()
        try:
            return mod.execute(sc)
        finally:
            TWIN.close()
            TWIN = None

    st, v = in_child(go, timeout)
    if st == "ok":
        return v
    if st == "died":
        if os.WIFSIGNALED(v) and os.WTERMSIG(v) == signal.SIGKILL:
            return dict(error="killed (out of memory?)", stats={})
        return dict(violation=dict(kind="process-died", msg="the process running the calls died (status %s)" % v),
                    stats={}, digest="died", sig="died", nontrivial=True)
    if st == "timeout":
        return dict(error="timeout after %d s" % timeout, stats={})
    return dict(error=v, stats={})


class Shared:
    """Lowest violating index so far, shared between workers."""

    def __init__(self):
        self.m = mmap.mmap(-1, 8)
        self.m[:] = struct.pack("<q", 2**62)

    def get(self):
        return struct.unpack("<q", self.m[:])[0]

    def low(self, i):
        if i < self.get():
            self.m[:] = struct.pack("<q", i)


def batch(mod, seed, tier, n, workers, deadline, progress=None):
    """Run scenarios 0..n-1; returns (results by index, indices executed)."""
    shared = Shared()
    known = load_known(mod.ID)
    gc.collect()
    gc.freeze()
    procs = []
    for w in range(workers):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in [p[1] for p in procs]:
                os.close(fd)
            code = 0
            try:
                for i in range(w, n, workers):
                    if i > shared.get() or time.monotonic() > deadline:
                        break
                    try:
                        sc = scenario(mod, seed, i, tier)
                        o = outcome_of(mod, sc)
                    except BaseException as e:  # noqa
                        o = dict(error="generator: %s\n%s" % (e, traceback.format_exc()), stats={})
                    if o.get("violation") and not match_known(known, o["violation"]):
                        shared.low(i)
                    data = pickle.dumps((i, o))
                    data = struct.pack("<Q", len(data)) + data
                    mv = memoryview(data)
                    while mv:
                        k = os.write(wr, mv)
                        mv = mv[k:]
            except BaseException:  # noqa
                traceback.print_exc()
                code = 3
            os._exit(code)
        os.close(wr)
        procs.append((pid, r))
    results = {}
    sel = selectors.DefaultSelector()
    bufs = {}
    for pid, r in procs:
        sel.register(r, selectors.EVENT_READ)
        bufs[r] = b""
    open_fds = {r for _, r in procs}
    while open_fds:
        for key, _ in sel.select():
            fd = key.fd
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                sel.unregister(fd)
                os.close(fd)
                open_fds.discard(fd)
                continue
            b = bufs[fd] + chunk
            while len(b) >= 8:
                ln = struct.unpack("<Q", b[:8])[0]
                if len(b) < 8 + ln:
                    break
                i, o = pickle.loads(b[8:8 + ln])
                results[i] = o
                b = b[8 + ln:]
            bufs[fd] = b
    bad_exit = 0
    for pid, _ in procs:
        _, st = os.waitpid(pid, 0)
        if st != 0:
            bad_exit += 1
    return results, bad_exit


# ------------------------------------------------------------------ minimise
def minimise(mod, sc, out, budget, workers):
    """Greedy shrink: keep the first simpler candidate that fails the same way."""
    kind = out["violation"]["kind"]
    end = time.monotonic() + budget
    tried = 0
    if hasattr(mod, "concretise"):
        c = mod.concretise(sc, out)
        if c is not None:
            o = outcome_of(mod, c, 60)
            tried += 1
            if o.get("violation") and o["violation"]["kind"] == kind:
                sc, out = c, o
    improved = True
    while improved and time.monotonic() < end:
        improved = False
        cands = mod.shrink(sc)
        pending = []
        it = iter(cands)
        stop = False
        while not stop and time.monotonic() < end:
            group = []
            for c in it:
                c = json.loads(json.dumps(c))
                if c != sc:
                    group.append(c)
                if len(group) >= workers:
                    break
            if not group:
                break
            kids = []
            for c in group:
                def go(c=c):
                    warnings.simplefilter("ignore")
                    return mod.execute(c)
                kids.append((c,) + spawn_child(go))
            got = None
            for c, pid, r in kids:
                st, v = collect_child(pid, r, 60)
                tried += 1
                if st == "died":
                    v = dict(violation=dict(kind="process-died", msg="the process running the calls died"))
                elif st != "ok":
                    v = {}
                if got is None and v.get("violation") and v["violation"]["kind"] == kind:
                    got = (c, v)
            if got:
                sc, out = got
                if hasattr(mod, "concretise"):
                    c2 = mod.concretise(sc, out)
                    if c2 is not None and c2 != sc:
                        o2 = outcome_of(mod, c2, 60)
                        if o2.get("violation") and o2["violation"]["kind"] == kind:
                            sc, out = json.loads(json.dumps(c2)), o2
                improved = True
                stop = True
    return sc, out, tried


def write_replay(pid, seed, i, sc, out, directory):
    os.makedirs(directory, exist_ok=True)
    body = dict(property=pid, verif_seed=seed, run_index=i, violation=out["violation"],
                trace=out.get("trace"), scenario=sc)
    txt = json.dumps(body, indent=1, sort_keys=True, default=str)
    path = os.path.join(directory, "%s-%s.json" % (pid, hashlib.sha256(txt.encode()).hexdigest()[:10]))
    with open(path, "w") as f:
        f.write(txt + "\n")
    return path


def replay_in_fresh_process(path):
    env = dict(os.environ)
    env.pop("SIMTATC_BOOT", None)
    env.pop("LD_PRELOAD", None)
    p = subprocess.run([boot.PYTHON, "-m", "simtatc", "replay", path], cwd=boot.VERIF, env=env,
                       capture_output=True, text=True, timeout=300)
    return p.returncode, p.stdout


# ------------------------------------------------------------------ evidence
def merge_stats(results):
    c = Counter()
    for o in results.values():
        for k, v in (o.get("stats") or {}).items():
            c[k] += v
    return c


def check(pid, tier, seed, runs=None, budget=None, workers=None, quiet=False):
    t0 = time.monotonic()
    mod = prop_module(pid)
    workers = workers or min(8, os.cpu_count() or 1)
    n = runs or mod.RUNS[tier]
    budget = budget or (mod.BUDGET[tier] if hasattr(mod, "BUDGET") else {"quick": 240, "thorough": 3000}[tier])
    if hasattr(mod, "prepare"):
        mod.prepare()
    results, bad_exit = batch(mod, seed, tier, n, workers, t0 + budget)
    errors = {i: o["error"] for i, o in results.items() if o.get("error")}
    viol = sorted(i for i, o in results.items() if o.get("violation"))
    known = load_known(pid)
    rc = 0
    lines = []
    replay = None
    reported = None
    for i in viol:
        o = results[i]
        k = match_known(known, o["violation"])
        if k:
            ln = "KNOWN-FINDING: property=%s %s" % (pid, k["what"])
            if ln not in lines:
                lines.append(ln)
            continue
        sc = scenario(mod, seed, i, tier)
        msc, mout, tried = minimise(mod, sc, o, 90 if tier == "quick" else 300, workers)
        rdir = os.path.join(boot.VERIF, "replays")
        replay = write_replay(pid, seed, i, msc, mout, rdir)
        code, txt = replay_in_fresh_process(replay)
        if code != 1:
            replay = write_replay(pid, seed, i, sc, o, rdir)
            code, txt = replay_in_fresh_process(replay)
        reported = dict(run_index=i, violation=mout["violation"], replay=replay, replay_reproduces=code == 1,
                        minimisation_runs=tried)
        lines.append("violation in run %d (seed %d): %s: %s" % (i, seed, mout["violation"]["kind"], mout["violation"]["msg"]))
        if code == 1:
            lines.append("VIOLATION property=%s replay=%s" % (pid, replay))
            rc = 1
        else:
            lines.append("ERROR property=%s: run %d failed but its replay file does not reproduce it" % (pid, i))
            rc = 2
        break
    if rc == 0 and (errors or bad_exit):
        for i in sorted(errors)[:3]:
            lines.append("ERROR property=%s run=%d: %s" % (pid, i, errors[i]))
        rc = 2
    if rc == 0 and len(results) < min(n, getattr(mod, "MIN_RUNS", 20)):
        lines.append("ERROR property=%s: only %d of %d runs finished in the time allowed" % (pid, len(results), n))
        rc = 2
    wall = time.monotonic() - t0
    write_evidence(mod, tier, seed, results, wall, n, workers, rc, reported, lines, errors)
    for ln in lines:
        print(ln)
    if not quiet:
        print("%s %s: %d runs, %d distinct, %.1f s, exit %d" % (
            pid, tier, len(results), len({o.get("sig") for o in results.values()}), wall, rc))
    sys.stdout.flush()
    return rc


def write_evidence(mod, tier, seed, results, wall, n, workers, rc, reported, lines, errors):
    stats = merge_stats(results)
    faults = {k[6:]: v for k, v in stats.items() if k.startswith("fault.")}
    probes = {k[6:]: v for k, v in stats.items() if k.startswith("probe.")}
    other = {k: v for k, v in stats.items() if not k.startswith(("fault.", "probe."))}
    sigs = {o.get("sig") for o in results.values() if o.get("nontrivial")}
    hist = hashlib.sha256()
    for i in sorted(results):
        hist.update(("%d:%s;" % (i, results[i].get("digest"))).encode())
    samples = []
    for i in sorted(results)[:2]:
        try:
            s = json.dumps(scenario(mod, seed, i, tier))
        except Exception as e:  # noqa
            s = repr(e)
        samples.append(dict(run_index=i, scenario=s[:1500], digest=results[i].get("digest"),
                            stats=results[i].get("stats")))
    cov = dict(
        evaluations=len(results),
        distinct_nontrivial=len(sigs),
        rule=mod.RULE,
        samples=samples,
        planned_runs=n,
        seed_derivation="sha256('<property>:<VERIF_SEED>:<run index>')",
        runs_per_hour=round(len(results) / wall * 3600) if wall else 0,
        seeds_per_hour=round(len(results) / wall * 3600) if wall else 0,
        simulated_seconds=other.pop("sim_s", 0),
        simulated_steps=other.pop("steps", 0),
        faults_injected=faults,
        probes=probes,
        counts=other,
        history_digest=hist.hexdigest()[:32],
        workers=workers,
        components_real=getattr(mod, "REAL", COMMON_REAL),
        components_stub=getattr(mod, "STUB", COMMON_STUB),
        inconclusive_runs=len(errors),
        exit_code=rc,
    )
    if reported:
        cov["reported"] = reported
    ev = dict(property=mod.ID, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov, wall_s=round(wall, 2),
              assumptions=getattr(mod, "ASSUME", []) + COMMON_ASSUME,
              violations=1 if rc == 1 else 0)
    path = os.path.join(boot.VERIF, "evidence", mod.ID + ".json")
    os.makedirs(os.path.dirname(path), exist_ok=True)
    tmp = path + ".tmp"
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1, sort_keys=True, default=str)
    os.replace(tmp, path)


COMMON_REAL = ["tatc (all of /repo/src/tatc, working tree)", "skyfield", "sgp4", "numpy", "pandas", "geopandas",
               "shapely", "pyproj", "pydantic", "CSPICE (spiceypy), entered through a wrapper"]
COMMON_STUB = ["DE421 ephemeris (absent from the repository copy): analytic Sun/Earth/Jupiter/Saturn",
               "numba JIT disabled: the @njit functions run as the same Python source",
               "wall clock, entropy: seeded LD_PRELOAD seam"]
COMMON_ASSUME = ["third-party calls are atomic between two source lines of tatc",
                 "seeded sampling: a clean batch is evidence, not proof"]


# ------------------------------------------------------------- known findings
KNOWN = os.path.join(boot.VERIF, "known_findings.jsonl")


def load_known(pid):
    out = []
    try:
        with open(KNOWN) as f:
            for line in f:
                line = line.strip()
                if line.startswith("{"):
                    d = json.loads(line)
                    if d.get("property") == pid and d.get("status") == "open":
                        out.append(d)
    except FileNotFoundError:
        pass
    return out


def match_known(known, v):
    for d in known:
        if d["kind"] == v["kind"] and d["match"] in v["msg"]:
            return d
    return None
