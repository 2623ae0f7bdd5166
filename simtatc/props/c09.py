"""C09: loading a configuration file is all or nothing, whatever the storage does."""
import errno
import json
import math
import os
import shutil
import sys
import tempfile

from .. import boot
from ..common import Stats, h, viol, with_key, without

ID = "C09"
LEVEL = "exploration"
RULE = ("a run is one history of writing, damaging and loading configuration files, and of importing the library over a "
        "damaged defaults file, under seeded storage faults; non-trivial when a load succeeded and a load was rejected or "
        "a fault fired; distinct by the sequence of contents and faults")
RUNS = {"quick": 5600, "thorough": 60000}
BUDGET = {"quick": 240, "thorough": 2400}
ASSUME = ["YAML text is decoded by PyYAML itself in the reference loader", "documented defaults are those of the shipped release"]

# field: (type, validity, documented default)
FIELDS = {
    "footprint_points_elliptical": (int, lambda v: v >= 4, 32),
    "footprint_points_rectangular_side": (int, lambda v: v >= 1, 8),
    "repeat_cycle_delta_position_m": (float, lambda v: v > 0, 10000.0),
    "repeat_cycle_delta_velocity_m_per_s": (float, lambda v: v > 0, 10.0),
    "repeat_cycle_search_elevation_deg": (float, lambda v: v > 0, 88.0),
    "repeat_cycle_search_duration_days": (float, lambda v: True, 30.0),
    "repeat_cycle_lazy_load": (bool, lambda v: True, True),
    "repeat_cycle_for_orbit_track": (bool, lambda v: True, True),
    "repeat_cycle_for_observation_events": (bool, lambda v: True, True),
    "orbit_tle_lazy_load": (bool, lambda v: True, True),
}
DEFAULTS = {k: v[2] for k, v in FIELDS.items()}


# ------------------------------------------------------------------ generator
def g_value(rng, k):
    t = FIELDS[k][0]
    if t is int:
        return str(rng.choice([4, 5, 12, 32, 64, 8, 3, 1, 100, 1024]))
    if t is bool:
        return rng.choice(["True", "False", "true", "no", "yes", "off"])
    return rng.choice(["1", "2.5", "1.0e+3", "500", "0.25", "100000", "45", ".inf", "12_000", "1e3"])


ODD = ["abc", "[1, 2]", "{a: 1}", "null", "~", "-1", "0", "'32'", "\"8\"", "2020-01-01", "2020-99-99", "!!python/object:os.system x",
       "!!int abc", "!!bool abc", "!!float x", "!!timestamp x", ".nan", "1e400", "3.7", "32.0", "0x10", "1:30", "&a 4", "*b",
       "!!binary aGk=", "|\n  text", "9" * 30, "!!set {a}", "1 # c", "!!int ''", "=", "<<",
       "$SIM_N", "${SIM_N}", "~", "%(SIM_N)s", "{{ SIM_N }}", "!ENV ${SIM_N}", "@8", "8;", "8 m", "2^3", "4*2", "١٢", "８", "+8", "8e0", "8.", "0o10", "010", "1_0", "Infinity", "inf", "NaN", "on", "Y", "t", "f", "none", "None"]
WHOLE = ["", "\n", "# only a comment\n", "---\n", "...\n", "null\n", "5\n", "hello\n", "- a\n- b\n", "[]", "{}", "{}\n", "\ufeff",
         "1: 2\n", "? [a]\n: 1\n", "? {a: 1}\n: 2\n", "null: 3\n", "true: 1\n", "self: 1\n", "a: 1\n---\nb: 2\n", "\t- x\n", "@x: 1\n", "`",
         "%YAML 1.1\n---\n{}\n", "%YAML 9.9\n", "\x00", "a: \x01\n", "'unterminated", "\"\\q\"", "{", "}", "a: b: c\n", "!!python/name:os.x", "!x y\n",
         "[" * 3000, "&a [*a]\n", "<<: 5\n", "<<: {footprint_points_elliptical: 12}\n", "{footprint_points_elliptical: 12, footprint_points_elliptical: 16}\n"]


def g_content(rng):
    r = rng.random()
    if r < 0.16:
        return rng.choice(WHOLE)
    keys = list(FIELDS)
    rng.shuffle(keys)
    keys = keys[:rng.choice([1, 2, 4, 7, 10])]
    lines = []
    for k in keys:
        if rng.random() < 0.15:
            lines.append("# note on %s" % k)
        lines.append("%s:%s%s" % (k, " " * rng.choice([1, 1, 1, 3]), g_value(rng, k)))
    if r < 0.5:  # one odd value or key
        i = rng.randrange(len(lines) + 1)
        k = rng.choice(list(FIELDS) * 3 + ["unknown_setting", "7", "null", "[a]", "'quoted'", "caf\u00e9", "model_config", "rc"])
        lines.insert(i, "%s: %s" % (k, rng.choice(ODD)))
    txt = rng.choice(["\n", "\n", "\n", "\r\n"]).join(lines)
    return rng.choice(["", "---\n", "# head\n"]) + txt + rng.choice(["\n", "", "\n\n"])


def g_damage(rng, n):
    k = rng.choice(["none"] * 5 + ["truncate"] * 4 + ["flip"] * 3 + ["zero", "tail", "encode", "garbage", "dupe", "mix", "mix"])
    d = dict(kind=k, at=rng.random(), bit=rng.randrange(8), len=rng.choice([1, 4, 16, 512]))
    if k == "garbage":
        d["seed"] = rng.randrange(1 << 30)
    if k == "encode":
        d["codec"] = rng.choice(["utf-16", "utf-16-le", "utf-32", "latin-1", "cp1252"])
    if k == "mix":
        d["old"] = g_content(rng)
    return d


def damage(txt, d):
    import random

    b = txt.encode("utf-8", "surrogatepass")
    k, n = d["kind"], len(b)
    p = int(d["at"] * (n + 1))
    if k == "truncate":
        return b[:p]
    if k == "flip" and n:
        p = min(p, n - 1)
        return b[:p] + bytes([b[p] ^ (1 << d["bit"])]) + b[p + 1:]
    if k == "zero":  # a hole where a block was lost
        return b[:p] + b"\0" * min(d["len"], n - p) + b[p + d["len"]:]
    if k == "tail":  # a length that was extended before the data arrived
        return b + b"\0" * d["len"]
    if k == "encode":
        return txt.encode(d["codec"], "replace")
    if k == "garbage":
        return random.Random(d["seed"]).randbytes(d["len"])
    if k == "dupe":
        return b[:p] + b[max(0, p - d["len"]):]
    if k == "mix":  # rewritten in place up to here
        o = d["old"].encode("utf-8", "surrogatepass")
        return b[:p] + o[p:]
    return b


def g_fault(rng):
    k = rng.choice(["none"] * 6 + ["open", "open", "stat", "read", "read", "read", "short", "short", "eintr", "dir", "missing", "loop", "swap", "swap", "unlink"])
    f = dict(kind=k)
    if k == "open":
        f["err"] = rng.choice(["EACCES", "EIO", "EMFILE", "ENFILE", "ENOENT", "EPERM", "ELOOP", "ENOMEM", "ESTALE", "ETXTBSY", "EINTR_HARD"])
        if f["err"] == "EINTR_HARD":
            f["err"] = "ENXIO"
    if k == "stat":
        f["err"] = rng.choice(["EACCES", "EIO", "ENOENT", "ENAMETOOLONG", "ELOOP"])
    if k == "read":
        f["err"] = rng.choice(["EIO", "EIO", "ENOMEM", "ESTALE", "EISDIR", "EBADF"])
        f["after"] = rng.choice([0, 0, 1, 7, 40, 200])
    if k == "short":
        f["n"] = rng.choice([1, 2, 7, 64])
    if k == "eintr":
        f["n"] = rng.choice([1, 2, 5])
    if k in ("swap", "unlink"):
        f["at"] = rng.randrange(6)
        if k == "swap":
            f["new"] = g_content(rng)
            f["damage"] = g_damage(rng, 0)
    return f


def generate(rng, i, tier):
    steps = []
    for _ in range(rng.choice([2, 4, 6, 9])):
        steps.append(dict(text=g_content(rng), damage=g_damage(rng, 0), fault=g_fault(rng), path=rng.choice(["str", "path"]),
                          use=rng.random() < 0.6, name=rng.choice([0, 0, 0, 1, len(steps)]), stamp=rng.random() < 0.5))
        if len(steps) > 1 and rng.random() < 0.2:  # the same file once more, after the settings it gave were edited
            steps[-1].update({k: steps[-2][k] for k in ("text", "damage", "name")}, stamp=True)
            steps[-2].update(stamp=True, edit=True)
    imp = None
    if rng.random() < 0.30:
        imp = dict(text=rng.choice([None, None, g_content(rng)]), damage=g_damage(rng, 0), fault=g_fault(rng))
    return dict(steps=steps, imp=imp)


# ------------------------------------------------------------------ reference
def exact(t, v):
    """(acceptable values, may be rejected) for a stored value of a field of type t."""
    if t is bool:
        if isinstance(v, bool):
            return [v], False
        if isinstance(v, (int, float, str)):
            return ([True] if str(v).lower() in ("1", "1.0", "true", "t", "yes", "y", "on") else
                    [False] if str(v).lower() in ("0", "0.0", "-0.0", "false", "f", "no", "n", "off") else []), True
        return [], True
    if isinstance(v, bool):
        return [t(v)], True
    if t is int:
        if isinstance(v, int):
            return [v], abs(v) >= 2**63
        if isinstance(v, float):
            return ([int(v)] if math.isfinite(v) and v == int(v) else []), True
        if isinstance(v, str):
            try:
                return [int(float(v)) if float(v) == int(float(v)) else None], True
            except (ValueError, OverflowError):
                return [], True
        return [], True
    if isinstance(v, float):
        return [v], not math.isfinite(v)
    if isinstance(v, int):
        try:
            return [float(v)], abs(v) > 2**53
        except OverflowError:
            return [], True
    if isinstance(v, str):
        try:
            return [float(v)], True
        except ValueError:
            return [], True
    return [], True


def reference(data):
    """(settings allowed or None, may be rejected, must be rejected) for the stored bytes."""
    import yaml

    try:
        text = data.decode("utf-8")
        # the text layer translates line ends before the parser sees them
        doc = yaml.safe_load(text.replace("\r\n", "\n").replace("\r", "\n"))
    except RecursionError:
        return None, True, True
    except Exception:  # noqa
        return None, True, True
    if doc is None:
        return {k: [v] for k, v in DEFAULTS.items()}, True, False
    if not isinstance(doc, dict):
        return None, True, True
    out, may = {k: [v] for k, v in DEFAULTS.items()}, False
    for k, v in doc.items():
        if not isinstance(k, str):
            return None, True, True
        if k not in FIELDS:
            may = True
            continue
        t, ok, _ = FIELDS[k]
        acc, m = exact(t, v)
        acc = [a for a in acc if a is not None and (t is bool or ok(a))]
        if not acc:
            return None, True, True
        out[k], may = acc, may or m
    return out, may, False


def agrees(rc, want):
    for k, acc in want.items():
        v = getattr(rc, k)
        t = FIELDS[k][0]
        if (isinstance(v, bool) != (t is bool)) or not isinstance(v, (int, float) if t is float else t) or not any(v == a or (v != v and a != a) for a in acc):
            return "%s is %r, stored %s" % (k, v, acc)
    return None


# ------------------------------------------------------------------- execution
class Disk:
    def __init__(self, shim):
        self.shim = shim
        base = os.environ.get("SIMTATC_SCRATCH") or tempfile.gettempdir()
        self.dir = tempfile.mkdtemp(prefix="c09-", dir=base)
        self.n = 0

    def put(self, data, name, stamp=False):
        """Write a file, possibly over an earlier one and within the resolution of its time stamps."""
        p = os.path.join(self.dir, name)
        if os.path.islink(p):
            os.unlink(p)
        elif os.path.isdir(p):
            os.rmdir(p)
        with open(p, "wb") as f:
            f.write(data)
        if stamp:
            os.utime(p, ns=(1_700_000_000 * 10**9,) * 2)
        return p

    def arm(self, path, fault, st):
        k = fault["kind"]
        e = lambda: getattr(errno, fault["err"])  # noqa
        kw = {}
        if k == "open":
            kw["open_err"] = e()
        elif k == "stat":
            kw["stat_err"] = e()
        elif k == "read":
            kw.update(read_err=e(), read_after=fault["after"])
        elif k == "short":
            kw["short"] = fault["n"]
        elif k == "eintr":
            kw["eintr"] = fault["n"]
        elif k == "missing":
            os.unlink(path)
        elif k == "dir":
            os.unlink(path)
            os.mkdir(path)
        elif k == "loop":
            os.unlink(path)
            os.symlink(path, path)
        self.shim.fs(path, **kw)
        if k == "swap":
            self.shim.fs_swap(self.put(damage(fault["new"], fault["damage"]), "next%d" % self.n), path, fault["at"])
        elif k == "unlink":
            self.shim.fs_swap("", path, fault["at"])
        self.n += 1

    def disarm(self, fault, st):
        c = self.shim.fs_counts()
        sw = self.shim.fs_swapped()
        self.shim.fs_swap()
        self.shim.fs("")
        for k in ("open_errors", "stat_errors", "read_errors", "short_reads", "eintr"):
            st["fault." + k] += c[k]
        st["fault.replaced_in_flight"] += sw and fault["kind"] == "swap"
        st["fault.removed_in_flight"] += sw and fault["kind"] == "unlink"
        for k in ("missing", "dir", "loop"):
            st["fault.path_" + k] += fault["kind"] == k
        return c, sw


def verdicts(data, fault, counts, swapped):
    """Acceptable outcomes: list of settings, and whether an error is acceptable."""
    k = fault["kind"]
    if k in ("missing", "dir", "loop") or counts["open_errors"] or counts["read_errors"]:
        return [], True
    wants = []
    want, may, _ = reference(data)
    if want is not None:
        wants.append(want)
    may = may or want is None
    if counts["stat_errors"]:
        may = True
    if swapped:
        if k == "unlink":
            may = True
        else:
            w2, m2, _ = reference(damage(fault["new"], fault["damage"]))
            if w2 is not None:
                wants.append(w2)
            may = may or m2 or w2 is None
    return wants, may


def nfds():
    return len(os.listdir("/proc/self/fd"))


def execute(sc):
    from tatc import config

    os.environ["SIM_N"] = "8"  # an environment that must not matter
    shim = boot.Shim()
    disk = Disk(shim)
    st, v, trace = Stats(), None, []
    good = bad = 0
    try:
        why = agrees(config.rc, {k: [x] for k, x in DEFAULTS.items()})
        if why:
            v = viol("import-defaults", "after import from the shipped defaults file: %s" % why)
        for n, s in enumerate(sc["steps"] if v is None else []):
            data = damage(s["text"], s["damage"])
            st["fault.file_" + s["damage"]["kind"]] += s["damage"]["kind"] != "none"
            path = disk.put(data, "c%d.yml" % s.get("name", n), s.get("stamp"))
            disk.arm(path, s["fault"], st)
            fds = nfds()
            before = (config.rc, config.rc.model_dump())
            rc = exc = None
            try:
                import pathlib
                rc = config.load_yaml_config(path if s["path"] == "str" else pathlib.Path(path))
            except BaseException as e:  # noqa
                exc = e
            counts, swapped = disk.disarm(s["fault"], st)
            what = "load %d (damage %s, fault %s, %d bytes %r)" % (n, s["damage"]["kind"], json.dumps(s["fault"])[:120], len(data), data[:160])
            wants, may = verdicts(data, s["fault"], counts, swapped)
            leaked = nfds() - fds
            if exc is not None:
                bad += 1
                trace.append("error")
                if not isinstance(exc, config.ConfigError):
                    v = viol("foreign-exception", "%s raised %s: %s" % (what, type(exc).__name__, str(exc)[:200]))
                elif not may:
                    v = viol("rejected", "%s rejected a readable file: %s" % (what, str(exc)[:300]))
                exc = None
            else:
                good += 1
                trace.append("ok")
                if not isinstance(rc, config.RuntimeConfiguration):
                    v = viol("no-settings", "%s returned %r" % (what, rc))
                elif not wants:
                    v = viol("accepted", "%s returned settings for a file that has none" % what)
                else:
                    whys = [agrees(rc, w) for w in wants]
                    if all(whys):
                        v = viol("other-settings", "%s: %s" % (what, whys[0]))
            if v is None and (config.rc is not before[0] or config.rc.model_dump() != before[1]):
                v = viol("changed", "%s changed the configuration in force" % what)
            if v is None and leaked > 0:
                v = viol("leak", "%s left %d file descriptor(s) open" % (what, leaked))
            if v is not None:
                break
            if rc is not None and s["use"]:
                config.rc = rc
            if rc is not None and s.get("edit"):
                rc.footprint_points_elliptical, rc.repeat_cycle_search_elevation_deg = 77, 12.5
                rc.orbit_tle_lazy_load = not rc.orbit_tle_lazy_load
        if v is None and sc["imp"]:
            v, ok = imports(sc["imp"], disk, st)
            trace.append("import-ok" if ok else "import-other")
    finally:
        shim.fs_swap()
        shim.fs("")
        shutil.rmtree(disk.dir, ignore_errors=True)
    st["op.load"] += len(trace)
    st["op.import"] += bool(sc["imp"])
    st["probe.loads_accepted"] += good
    st["probe.loads_rejected"] += bad
    if v is not None:
        v["msg"] = v["msg"].replace(disk.dir, "DIR")
    return dict(violation=v, stats=dict(st), digest=h(trace, v and v["msg"], sorted(st.items())), sig=h(sc),
                nontrivial=bool(good and bad) or bool(sc["imp"]), trace=trace)


def imports(imp, disk, st):
    """Import a copy of the library whose defaults file is damaged or cannot be read."""
    src = os.path.join(boot.REPO, "src", "tatc")
    root = os.path.join(disk.dir, "lib")
    shutil.copytree(src, os.path.join(root, "tatc"), ignore=shutil.ignore_patterns("__pycache__"), symlinks=True)
    path = os.path.join(root, "tatc", "resources", "defaults.yml")
    if not os.path.exists(path):
        return None, False
    with open(path, "r", encoding="utf-8") as f:
        text = f.read()
    text = imp["text"] if imp["text"] is not None else text
    data = damage(text, imp["damage"])
    with open(path, "wb") as f:
        f.write(data)
    for k in [k for k in sys.modules if k == "tatc" or k.startswith("tatc.")]:
        del sys.modules[k]
    src_dir = os.path.join(boot.REPO, "src")
    sys.path[:] = [root] + [p for p in sys.path if os.path.realpath(p or ".") != os.path.realpath(src_dir)]
    disk.arm(path, imp["fault"], st)
    what = "import with defaults file (damage %s, fault %s, %d bytes %r)" % (
        imp["damage"]["kind"], json.dumps(imp["fault"])[:120], len(data), data[:160])
    exc = None
    try:
        import tatc.config as config
        if not os.path.realpath(config.__file__).startswith(os.path.realpath(root)):
            raise RuntimeError("imported %s" % config.__file__)
    except BaseException as e:  # noqa
        exc = e
    counts, swapped = disk.disarm(imp["fault"], st)
    if exc is not None:
        return viol("import-failed", "%s failed with %s: %s" % (what, type(exc).__name__, str(exc)[:300])), False
    wants, may = verdicts(data, imp["fault"], counts, swapped)
    if may:
        wants = wants + [{k: [x] for k, x in DEFAULTS.items()}]
    whys = [agrees(config.rc, w) for w in wants]
    if all(whys):
        return viol("import-settings", "%s: %s" % (what, whys[0])), False
    return None, True


def shrink(sc):
    if sc["imp"] and sc["steps"]:
        yield with_key(sc, "steps", [])
    if sc["imp"]:
        yield with_key(sc, "imp", None)
    for c in without(sc["steps"]):
        yield with_key(sc, "steps", c)
    for i, s in enumerate(sc["steps"]):
        for k, none in (("damage", dict(s["damage"], kind="none")), ("fault", dict(kind="none"))):
            if s[k]["kind"] != "none":
                yield with_key(sc, "steps", sc["steps"][:i] + [dict(s, **{k: none})] + sc["steps"][i + 1:])
        ls = s["text"].split("\n")
        for j in range(len(ls)):
            if len(ls) > 1:
                yield with_key(sc, "steps", sc["steps"][:i] + [dict(s, text="\n".join(ls[:j] + ls[j + 1:]))] + sc["steps"][i + 1:])
