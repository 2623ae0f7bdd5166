"""C04: calls never modify the caller's data or process-wide settings."""
import hashlib
import json
import os
import random

from .. import boot, fp, gen, kernel, ops, runner
from ..common import (Stats, attempt, config_state, describe, g_config, h, is_exc, key, probe_faults, set_config,
                      snap_diff, viol, with_key, without)

ID = "C04"
LEVEL = "exploration"
RULE = ("a run makes one to three calls on caller-owned objects, observing every argument and process-wide setting at "
        "seeded steps inside the call, at its end, after ending it by a fault, and after scribbling over its result; "
        "non-trivial when at least one observation was made inside a call; distinct by (calls, mode, observed lines)")
RUNS = {"quick": 700, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2400}
TWIN = True


def generate(rng, i, tier):
    w = gen.g_world(rng, sats=(1, 2), cons=(0, 1), points=(1, 2), stations=(1, 2), masks=2,
                    kinds=["circular", "sso", "keplerian", "tle", "multitle", "repeat"])
    ops.g_frames(rng, w)
    acts = []
    for n in range(rng.choice([1, 1, 2, 3])):
        mode = rng.choice(["watch", "watch", "scribble", "kill"])
        op = ops.g_op(rng, w, tmax=5, day=0.1) if n else ops.variant(rng, w, i, tmax=5, day=0.1)
        acts.append(dict(op=op, mode=mode, seed=rng.randrange(2**31), exc=rng.choice(["interrupt", "memory", "oserror"]),
                         frac=round(rng.random(), 4)))
    return dict(world=w, config=g_config(rng), acts=acts, env=rng.randrange(4))


# --------------------------------------------------------------- process state
def proc_state(full=True):
    """Process-wide settings a call must leave alone."""
    import decimal
    import gc
    import locale
    import logging
    import signal
    import socket
    import sys
    import time
    import warnings

    import geopandas as gpd
    import numpy as np
    import pandas as pd
    from pandas._config import config as pdc

    s = {
        "environment": tuple(sorted(os.environ.items())),
        "working directory": os.getcwd(),
        "locale": locale.setlocale(locale.LC_ALL, None),
        "time zone": (time.tzname, time.timezone),
        "sys.path": tuple(sys.path),
        "recursion limit": sys.getrecursionlimit(),
        "switch interval": sys.getswitchinterval(),
        "socket timeout": socket.getdefaulttimeout(),
        "root log level": (logging.getLogger().level, logging.root.manager.disable),
        "configuration": config_state(),
        "constants": constants_state(),
        "sigint": repr(signal.getsignal(signal.SIGINT)),
        "garbage collector": (gc.isenabled(), gc.get_threshold()),
        "decimal context": repr(decimal.getcontext()),
        "random": hashlib.sha256(repr(random.getstate()).encode()).hexdigest(),
        "numpy random": hashlib.sha256(repr(np.random.get_state()).encode()).hexdigest(),
    }
    if full:  # third-party code changes these temporarily around its own work
        s.update({
            "numpy error handling": tuple(sorted(np.geterr().items())),
            "numpy print options": repr(sorted(np.get_printoptions().items(), key=str)),
            "pandas options": repr(pdc._global_config),
            "geopandas options": repr(gpd.options.__dict__) if hasattr(gpd.options, "__dict__") else "",
            "warning filters": repr(warnings.filters),
        })
    return s


def constants_state():
    from tatc import constants

    return tuple(sorted((k, v) for k, v in vars(constants).items() if isinstance(v, (int, float)))) + (
        id(constants.de421), id(constants.timescale))


def state_diff(a, b):
    for k in a:
        if k in b and a[k] != b[k]:
            return "%s: %s -> %s" % (k, fp.short(a[k]), fp.short(b[k]))
    return None


ENVS = [dict(), dict(divide="raise"), dict(over="raise"), dict(under="ignore", invalid="warn")]


# ------------------------------------------------------------------- scribbling
def scribble(x, rng):
    """Overwrite a returned frame or list the way a caller may."""
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import Point

    n = 0
    if isinstance(x, pd.DataFrame):
        if len(x):
            for c in list(x.columns):
                col = x[c]
                try:
                    if c == "geometry":
                        x.loc[x.index[0], c] = Point(1.25, 2.5)
                    elif pd.api.types.is_datetime64_any_dtype(col):
                        x[c] = col + pd.Timedelta(days=400)
                    elif pd.api.types.is_timedelta64_dtype(col):
                        x[c] = col * 3
                    elif pd.api.types.is_bool_dtype(col):
                        x[c] = ~col
                    elif pd.api.types.is_numeric_dtype(col):
                        x.iloc[0, list(x.columns).index(c)] = 77
                        x[c] = col * 2 + 1
                    else:
                        x[c] = "scribbled"
                    n += 1
                except Exception:
                    pass
            try:
                x.sort_index(ascending=False, inplace=True)
                x.drop(columns=[x.columns[-1]], inplace=True)
            except Exception:
                pass
        x["scribbled"] = 1
        x.attrs["scribbled"] = True
        return n + 1
    if isinstance(x, list):
        for e in x:
            n += scribble(e, rng) if isinstance(e, (pd.DataFrame, list)) else 0
        if x:
            x.pop()
        x.append("scribbled")
        return n + 1
    return n


class Bad(Exception):
    def __init__(self, kind, msg):
        self.v = viol(kind, msg)


SCRIBBLE_EXEMPT = {"to_tle"}


def execute(sc):
    import numpy as np

    w, cfg = sc["world"], sc["config"]
    st, v, looked, digest = Stats(), None, 0, []
    infos = {key(a["op"]): probe_faults(w, a["op"], cfg) for a in sc["acts"]}
    set_config(cfg)
    if sc["env"]:
        np.seterr(**ENVS[sc["env"]])
        # settings that make calls fail anyway are not interesting
        if any(is_exc(attempt_env(w, a["op"], cfg, ENVS[sc["env"]])) != is_exc(infos[key(a["op"])]["result"]) for a in sc["acts"]):
            np.seterr(divide="warn", over="warn", under="ignore", invalid="warn")
    random.seed(5)
    np.random.seed(5)
    W = ops.FWorld(w)
    sites = []
    try:
        for a in sc["acts"]:
            op, inf = a["op"], infos[key(a["op"])]
            rng = random.Random(a["seed"])
            W.prepare(op)
            before, proc = W.snapshot(), proc_state()
            light = proc_state(False)
            st.ops([op])
            firsts = set(rng.sample(inf["firsts"], min(len(inf["firsts"]), 14)))
            for _ in range(4):
                if inf["eligible"]:
                    firsts.add(1 + rng.randrange(inf["eligible"]))
            kill = None
            if a["mode"] == "kill" and inf["firsts"]:
                kill = inf["firsts"][int(a["frac"] * len(inf["firsts"]))]

            def look(where):
                nonlocal looked
                looked += 1
                d = snap_diff(before, W.snapshot())
                if d:
                    raise Bad("input-changed", "%s: visible to other threads at %s: %s" % (describe(op), where, d))
                d = state_diff(light, proc_state(False))
                if d:
                    raise Bad("setting-changed", "%s: visible to other threads at %s: %s" % (describe(op), where, d))

            wt = Watcher(firsts, look, kill, a["exc"])
            result, ended = None, None
            with wt:
                try:
                    result = ops.run_op(W, op)
                except Bad:
                    raise
                except BaseException as e:  # noqa
                    ended = type(e).__name__
            if wt.bad is not None:
                raise wt.bad
            if wt.fired:
                st["fault." + a["exc"]] += 1
            sites.append((wt.fired, ended))
            st["steps"] += wt.n
            what = "ended by %s at %s" % (ended, wt.fired) if ended else "after it returned"
            d = snap_diff(before, W.snapshot())
            if d:
                raise Bad("input-changed", "%s, %s: %s" % (describe(op), what, d))
            d = state_diff(proc, proc_state())
            if d:
                raise Bad("setting-changed", "%s, %s: %s" % (describe(op), what, d))
            digest.append(fp.digest(fp.canon(result)) if ended is None else ended)
            if a["mode"] == "scribble" and ended is None and op["op"] not in SCRIBBLE_EXEMPT:
                if scribble(result, rng):
                    st["fault.scribble"] += 1
                    d = snap_diff(before, W.snapshot())
                    if d:
                        raise Bad("aliased-input", "changing the result of %s changed its argument: %s" % (describe(op), d))
                    d = fp.diff(attempt(lambda: ops.run_op(W, op)), inf["result"])
                    if d:
                        raise Bad("aliased-result", "%s repeated after its first result was changed: %s" % (describe(op), d))
    except Bad as b:
        v = b.v
    st["probe.looks_inside_calls"] = looked
    return dict(violation=v, stats=dict(st), digest=h(digest, sites, looked, v and v["msg"]),
                sig=h([a["op"]["op"] for a in sc["acts"]], [a["mode"] for a in sc["acts"]], sites, [a["seed"] for a in sc["acts"]]),
                nontrivial=looked > 0, trace=[[a["op"]["op"], a["mode"], list(map(str, s))] for a, s in zip(sc["acts"], sites)])


def attempt_env(w, op, cfg, env):
    def go():
        import numpy as np

        np.seterr(**env)
        set_config(cfg)
        return attempt(lambda: ops.run_op(ops.FWorld(w), op))

    return runner.pristine(go)


class Watcher(kernel.Stepper):
    """Stepper that looks at the world when chosen steps are reached."""

    def __init__(self, at, look, kill_at, exc):
        super().__init__(kill_at=kill_at, exc=exc)
        self.at, self.look, self.bad, self.busy = at, look, None, False

    def _line(self, code, line):
        if self.busy:
            return
        if line not in kernel.skip_lines(code.co_filename) and (self.eligible + 1) in self.at and self.bad is None:
            self.busy = True
            try:
                self.look("%s line %d" % (code.co_qualname, line))
            except Bad as b:
                self.bad = b
                raise
            finally:
                self.busy = False
        super()._line(code, line)


def shrink(sc):
    for a in without(sc["acts"]):
        if a:
            yield with_key(sc, "acts", a)
    for i, a in enumerate(sc["acts"]):
        if a["mode"] != "watch":
            yield with_key(sc, "acts", sc["acts"][:i] + [dict(a, mode="watch")] + sc["acts"][i + 1:])
    if sc["env"]:
        yield with_key(sc, "env", 0)
