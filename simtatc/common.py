"""Helpers shared by the property modules."""
import hashlib
import json
from collections import Counter

from . import fp, gen, kernel, ops, runner
from .gen import parse

# configuration variants; the repeat cycle search is kept short so that a run stays cheap
CONFIGS = [
    dict(repeat_cycle_search_duration_days=2),
    dict(repeat_cycle_search_duration_days=2, orbit_tle_lazy_load=False),
    dict(repeat_cycle_search_duration_days=2, repeat_cycle_lazy_load=False),
    dict(repeat_cycle_search_duration_days=2, repeat_cycle_for_orbit_track=False),
    dict(repeat_cycle_search_duration_days=2, repeat_cycle_for_observation_events=False),
    dict(repeat_cycle_for_orbit_track=False, repeat_cycle_for_observation_events=False,
         footprint_points_elliptical=16, footprint_points_rectangular_side=3),
]


def g_config(rng):
    return dict(rng.choice(CONFIGS))


def set_config(cfg):
    from tatc import config

    for k, v in cfg.items():
        setattr(config.rc, k, v)


def attempt(fn):
    """Canonical result, or canonical exception, of one call."""
    try:
        return fp.canon(fn())
    except Exception as e:  # noqa
        return ("exc", type(e).__name__)


def is_exc(c):
    return isinstance(c, tuple) and len(c) == 2 and c[0] == "exc"


def describe(op):
    return "%s(%s)" % (op["op"], ", ".join("%s=%s" % (k, v) for k, v in op.items() if k != "op"))


def snap_diff(a, b):
    """First caller-owned object that changed between two snapshots."""
    for k in a:
        if a[k] is not b.get(k):
            d = fp.diff(b.get(k, "gone"), a[k], fp.Tol(0, 0, 0, 0))
            if d:
                return "%s%s" % (k, d)
    return None


def config_state():
    from tatc import config

    return fp.canon(config.rc)


def _probe_faults(w, op, cfg):
    from . import boot

    set_config(cfg)
    W = ops.FWorld(w)
    boot.EPH.reads = 0
    with kernel.Stepper(record=True) as st:
        r = attempt(lambda: ops.run_op(W, op))
    return dict(result=r, steps=st.n, eligible=st.eligible, firsts=sorted(st.firsts.values()), reads=boot.EPH.reads)


def probe_faults(w, op, cfg):
    """Result and the possible fault points of one operation in a fresh process."""
    return runner.reference(_probe_faults, w, op, cfg)


def _baseline(w, op, cfg, world, step):
    set_config(cfg)
    W = (world or ops.FWorld)(w)
    if not step:
        return attempt(lambda: ops.run_op(W, op)), 0, 0
    with kernel.Stepper() as st:
        r = attempt(lambda: ops.run_op(W, op))
    return r, st.n, st.eligible


def baseline(w, op, cfg, world=None, step=True):
    """(canonical result, steps) of one operation on freshly built objects in a fresh process."""
    return runner.reference(_baseline, w, op, cfg, world, step)


def baselines(w, oplist, cfg, world=None, step=True):
    out = {}
    for op in oplist:
        k = json.dumps(op, sort_keys=True)
        if k not in out:
            out[k] = baseline(w, op, cfg, world, step)
    return out


def key(op):
    return json.dumps(op, sort_keys=True)


def span(op):
    """Mission seconds covered by one operation."""
    if "start" in op and "end" in op:
        return (parse(op["end"]) - parse(op["start"])).total_seconds()
    if "times" in op:
        return float(op["times"][1] * (op["times"][2] - 1))
    return 0.0


def h(*xs):
    return hashlib.sha256(repr(xs).encode()).hexdigest()[:16]


def viol(kind, msg, **extra):
    return dict(kind=kind, msg=str(msg)[:1500], **extra)


class Stats(Counter):
    def ops(self, oplist):
        for o in oplist:
            self["op." + o["op"]] += 1
            self["sim_s"] += span(o)
        return self


# ------------------------------------------------------------------- shrinking
def without(lst):
    """All lists with one contiguous chunk removed, large chunks first."""
    n = len(lst)
    size = n // 2
    while size >= 1:
        for i in range(0, n, size):
            c = lst[:i] + lst[i + size:]
            if len(c) < n:
                yield c
        size //= 2
    if n == 1:
        yield []


def with_key(sc, k, v):
    c = dict(sc)
    c[k] = v
    return c
