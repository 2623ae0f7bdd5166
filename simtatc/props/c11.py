"""C11: results do not depend on wall clock, time zone, hash seed, entropy, locale or process."""
import copy
import datetime as dt
import json
import os
import pickle
import re
import shutil
import subprocess
import tempfile

from .. import boot, fp, gen, ops, runner
from ..common import Stats, attempt, describe, g_config, h, set_config, viol, with_key, without
from ..gen import parse

ID = "C11"
LEVEL = "exploration"
RULE = ("a run executes one list of calls under a seeded environment: wall clock with jumps before and steps during calls, "
        "local time zone (also changed between calls), entropy, and every instant written with another UTC offset or zone; "
        "every fifth run starts a new process with its own hash seed, locale, home and working directory; each result is "
        "compared with the same call in the reference process; non-trivial when a clock jump, zone or hash seed differed; "
        "distinct by (calls, environment)")
RUNS = {"quick": 1250, "thorough": 16000}
BUDGET = {"quick": 240, "thorough": 2400}
STUB = ["DE421 ephemeris (absent from the repository copy): analytic Sun/Earth/Jupiter/Saturn",
        "numba JIT disabled: the @njit functions run as the same Python source",
        "wall clock, entropy: seeded LD_PRELOAD seam, answers, jumps and steps chosen per call"]

ZONES = ["UTC", "America/New_York", "Asia/Kathmandu", "Pacific/Apia", "Australia/Lord_Howe", "Europe/Berlin", "America/St_Johns",
         "XYZ-14", "ABC12", "EST5EDT,M3.2.0,M11.1.0"]
CLOCKS = [0, 1, 86399 * 10**9, 946684799 * 10**9, 1_230_768_000_000_000_000, 1_483_228_799_999_999_999, 1_654_041_600_000_000_000,
          1_700_000_000_000_000_000, 2_147_483_647_999_999_999, 4_102_444_800_000_000_000, 7_000_000_000_000_000_000]
OFFSETS = [0, 0, -12, -9.5, -3.5, 1, 5.75, 9, 14, "America/New_York", "Europe/Berlin", "Australia/Lord_Howe"]
# windows of missions that contain changes to or from daylight saving time
BASES = [("2022-11-06T06:00", "America/New_York"), ("2022-03-13T07:00", "America/New_York"), ("2022-10-30T01:00", "Europe/Berlin"),
         ("2022-03-27T01:00", "Europe/Berlin"), ("2022-04-02T15:00", "Australia/Lord_Howe"), ("2022-10-01T15:30", "Australia/Lord_Howe")]
KINDS = [k for k in ops.ALL if k not in ("reduce_lat", "grid_lat", "conv", "split", "buffer")]


# ------------------------------------------------------------------ generator
def g_clock(rng):
    return rng.choice(CLOCKS) if rng.random() < 0.5 else rng.randrange(0, 4 * 10**18)


def generate(rng, i, tier):
    own = i % 5 == 0
    dst = rng.choice(BASES) if rng.random() < 0.4 else None
    change = dst and parse(dst[0] + ":00+00:00")
    base = change and change - dt.timedelta(hours=14)
    w = gen.g_world(rng, sats=(2, 3) if rng.random() < 0.2 else (1, 2), cons=(0, 1), points=(1, 2), stations=(1, 2), masks=1,
                    kinds=["circular", "sso", "keplerian", "tle", "multitle", "repeat"] + (["repeat"] * 6 if dst else []), base=base, spread=60 * 9 if dst else 60 * 24 * 20)
    ops.g_frames(rng, w)
    polar = dst and rng.random() < 0.6  # places that are passed on every revolution
    if polar:
        for p in w["points"] + w["stations"]:
            p["latitude"] = round(rng.choice([-1, 1]) * rng.uniform(68, 80), 3)
    n = rng.randint(8, 16) if own else rng.randint(2, 6)
    acts = []
    for _ in range(n):
        short = dst and rng.random() < 0.3
        op = ops.g_op(rng, w, ["observe", "observe", "multi", "downlinks", "events"] if short else KINDS, tmax=6,
                      day=rng.choice([0.15, 0.6, 1.1] if dst else [0.15, 0.15, 0.6]))
        if dst and "start" in op and (short or rng.random() < 0.3):  # a short window around the change of the offset
            d = rng.choice([600, 1800, 3600])
            op.update(start=gen.iso(change - dt.timedelta(seconds=rng.randrange(5, d))),
                      end=gen.iso(change + dt.timedelta(seconds=rng.randrange(5, d))))
        acts.append(dict(op=op, offset=rng.choice(OFFSETS + [dst[1]] * 12 if dst else OFFSETS), jump=g_clock(rng) if rng.random() < 0.7 else None,
                         step=rng.choice([0, 1, 10**9, -10**9, 3600 * 10**9, -86400 * 10**9, 31 * 86400 * 10**9]),
                         tz=rng.choice(ZONES) if rng.random() < 0.4 else None,
                         entropy=rng.randrange(1 << 32) if rng.random() < 0.5 else None))
    env = dict(tz=rng.choice(ZONES), clock=g_clock(rng), entropy=rng.randrange(1 << 32))
    if own:
        env.update(hashseed=rng.randrange(1, 1 << 32), locale=rng.choice(["C", "POSIX", "C.UTF-8"]), cwd=rng.random() < 0.5,
                   load_step=rng.choice([0, 0, 1000, 10**9]))
    return dict(world=w, acts=acts, env=env, own=own, where=rng.choice(OFFSETS), config=g_config(rng), naive=rng.random() < 0.15,
                defaults=[round(rng.random(), 4) for _ in range(rng.choice([0, 2, 4]))])


# --------------------------------------------------------------- other offsets
INSTANT = re.compile(r"^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\d(\.\d+)?\+00:00$")


def moved(x, zone):
    """The same description with every instant written in another zone."""
    if zone == 0:
        return x
    if isinstance(x, dict):
        return {k: moved(v, zone) for k, v in x.items()}
    if isinstance(x, list):
        return [moved(v, zone) for v in x]
    if isinstance(x, str) and INSTANT.match(x):
        return gen.elsewhere(x, zone)
    return x


def bare(x):
    """The same description with every instant written without an offset."""
    if isinstance(x, dict):
        return {k: bare(v) for k, v in x.items()}
    if isinstance(x, list):
        return [bare(v) for v in x]
    if isinstance(x, str) and INSTANT.match(x):
        return x[:-6]
    return x


def plain(c):
    """Canonical result without the unit and zone in which pandas stores instants."""
    if isinstance(c, tuple) and c and c[0] == "df":
        return c[:2] + (tuple(re.sub(r"datetime64\[(\w+), .*\]", "instant", d) for d in c[2]),) + c[3:]
    return c


# ------------------------------------------------------------------- execution
def set_tz(tz):
    import time

    os.environ["TZ"] = tz
    time.tzset()


def default_orbits(which):
    from tatc import schemas

    out = []
    for f in which:
        k = int(f * 5)
        out.append([schemas.CircularOrbit, schemas.SunSynchronousOrbit, schemas.KeplerianOrbit, schemas.MolniyaOrbit,
                    schemas.TundraOrbit][k](**dict(dict(altitude=700e3), **({"equator_crossing_time": "10:30:00"} if k == 1 else {}))))
    return out


def process(sc, loaded=None):
    """Execute the calls under the scenario's environment."""
    shim = boot.Shim()
    set_config(sc["config"])
    env = sc["env"]
    if loaded is None:
        set_tz(env["tz"])
        shim.clock(env["clock"])
        shim.entropy(env["entropy"])
    W = ops.FWorld(moved(sc["world"], sc["where"]))
    out = dict(results=[], epochs=[], loaded=loaded, jumps=0, reads=0)
    n = max(1, len(sc["acts"]))

    def defaults(lo, hi):
        out["epochs"] += [(o.epoch.utcoffset() is not None, fp.canon(o.epoch), attempt(lambda: list(o.to_tle().tle)))
                          for f in sc["defaults"] if lo <= f < hi for o in default_orbits([f])]

    for k, a in enumerate(sc["acts"]):
        if a["tz"]:
            set_tz(a["tz"])
        if a["jump"] is not None:
            out["jumps"] += 1
        shim.clock(env["clock"] if a["jump"] is None else a["jump"], a["step"])
        if a["entropy"] is not None:
            shim.entropy(a["entropy"])
        r0 = shim.clock_reads()
        defaults(k / n, (k + 1) / n)
        op = moved(a["op"], a["offset"])
        out["results"].append(plain(attempt(lambda: ops.run_op(W, op))))
        if sc["naive"]:
            out["results"].append(plain(attempt(lambda: ops.run_op(W, bare(a["op"])))))
        out["reads"] += shim.clock_reads() - r0
        if not 0 <= (env["clock"] if a["jump"] is None else a["jump"]) < 2**62:
            shim.clock(0)
    return out


def reference(sc):
    """The same calls, each on its own, with UTC instants, a constant clock and no changes of zone."""
    set_config(sc["config"])
    W = ops.FWorld(sc["world"])
    out = []
    for a in sc["acts"]:
        out.append(plain(attempt(lambda: ops.run_op(W, a["op"]))))
        if sc["naive"]:
            out.append(plain(attempt(lambda: ops.run_op(W, bare(a["op"])))))
    return out


DECOYS = ("defaults.yml", "resources/defaults.yml", "tatc.yml", "config.yml", ".tatc.yml", ".tatcrc", ".config/tatc.yml",
          ".config/tatc/defaults.yml", ".config/tatc/config.yml", ".tatc/defaults.yml", ".tatc/config.yml")


def other_process(sc):
    e = sc["env"]
    d = tempfile.mkdtemp(prefix="proc-", dir=os.environ["SIMTATC_SCRATCH"])
    try:
        f = os.path.join(d, "sc.json")
        with open(f, "w") as fh:
            json.dump(sc, fh)
        env = boot.sim_env(os.environ["SIMTATC_SCRATCH"], os.environ["SIMTATC_SHIM"], hashseed=e["hashseed"], tz=e["tz"],
                           clock=e["clock"], entropy=e["entropy"])
        env.update(LANG=e["locale"], LC_ALL=e["locale"], SIM_CLOCK_STEP=str(e["load_step"]))
        env.pop("SIMTATC_OWNER", None)
        if e["cwd"]:
            env["HOME"] = d
            for n in DECOYS:  # files of other programs, or of another installation: none of the library's business
                n = os.path.join(d, n)
                os.makedirs(os.path.dirname(n), exist_ok=True)
                with open(n, "w") as fh:
                    fh.write("footprint_points_elliptical: 7\nfootprint_points_rectangular_side: 2\nrepeat_cycle_for_orbit_track: true\n"
                             "repeat_cycle_delta_position_m: 20000.0\n")
        p = subprocess.run([boot.PYTHON, "-m", "simtatc", "probe", f], cwd=d if e["cwd"] else "/", env=env,
                           stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=200)
        if p.returncode != 0 or not os.path.exists(f + ".out"):
            return ("died", p.stderr[-600:])
        with open(f + ".out", "rb") as fh:
            return pickle.load(fh)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def execute(sc):
    st, v = Stats(), None
    want = runner.pristine(lambda: reference(sc))
    e = sc["env"]
    where = "time zone %s, clock %d" % (e["tz"], e["clock"])
    if sc["own"]:
        s, got = other_process(sc)
        where = "another process (hash seed %d, locale %s, %s)" % (e["hashseed"], e["locale"], where)
        if s != "ok":
            return dict(violation=viol("process-failed", "loading the library or making the calls failed in %s: %s" % (where, got)),
                        stats=dict(st), digest="failed", sig="failed", nontrivial=True)
        st["fault.new_process"] += 1
        st["fault.hash_seed"] += 1
    else:
        got = runner.pristine(lambda: process(sc))
    per = 2 if sc["naive"] else 1
    for k, (a, b) in enumerate(zip(got["results"], want)):
        act = sc["acts"][k // per]
        d = fp.diff(a, b)
        if d:
            v = viol("environment", "%s in %s, clock jump %s step %s, local zone %s, %s: %s (here != reference)" % (
                describe(act["op"]), where, act["jump"], act["step"], act["tz"],
                "instants without offset" if k % per else "instants at offset %s" % act["offset"], d))
            break
    ep = got["epochs"]
    if v is None and ep:
        if not all(x[0] for x in ep):
            v = viol("default-epoch", "an orbit created without an epoch has an epoch without time zone in %s" % where)
        elif any(x[1] != ep[0][1] for x in ep):
            v = viol("default-epoch", "orbits created without an epoch in one process have different epochs %s in %s" % (
                sorted({str(x[1]) for x in ep}), where))
        elif got["loaded"] and not got["loaded"][0] - 1000 <= ep[0][1][1] <= got["loaded"][1]:
            v = viol("default-epoch", "the default epoch %s is not the time %s at which the library was loaded in %s" % (
                ep[0][1], got["loaded"], where))
    st.ops([a["op"] for a in sc["acts"]])
    st["fault.clock_jump"] += got["jumps"]
    st["fault.clock_step_per_read"] += sum(1 for a in sc["acts"] if a["step"])
    st["fault.zone_change"] += sum(1 for a in sc["acts"] if a["tz"])
    st["fault.entropy_change"] += sum(1 for a in sc["acts"] if a["entropy"] is not None)
    st["probe.other_offset"] += sum(1 for a in sc["acts"] if a["offset"] != 0)
    st["probe.zone_names"] += sum(1 for a in sc["acts"] if isinstance(a["offset"], str))
    st["probe.default_epochs"] += len(ep)
    st["probe.clock_reads_in_calls"] += got["reads"]
    st["steps"] += len(sc["acts"])
    return dict(violation=v, stats=dict(st), digest=h([fp.digest(r) for r in want], v and v["msg"]), sig=h(sc["acts"], e),
                nontrivial=True, trace=[dict(env=e, jumps=[(a["jump"], a["step"], a["tz"]) for a in sc["acts"]])])


def shrink(sc):
    for x in without(sc["acts"]):
        yield with_key(sc, "acts", x)
    if sc["own"]:
        yield dict(sc, own=False)
    if sc["naive"]:
        yield dict(sc, naive=False)
    if sc["where"]:
        yield dict(sc, where=0)
    for k, val in (("tz", "UTC"), ("clock", boot.CLOCK0), ("hashseed", 1), ("locale", "C"), ("cwd", False), ("load_step", 0)):
        if k in sc["env"] and sc["env"][k] != val:
            yield dict(sc, env=dict(sc["env"], **{k: val}))
    for i, a in enumerate(sc["acts"]):
        for k, val in (("offset", 0), ("jump", None), ("step", 0), ("tz", None), ("entropy", None)):
            if a[k] != val:
                yield with_key(sc, "acts", sc["acts"][:i] + [dict(a, **{k: val})] + sc["acts"][i + 1:])
    for x in without(sc["defaults"]):
        yield with_key(sc, "defaults", x)
