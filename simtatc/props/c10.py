"""C10: a mission saved and restored at any point continues identically."""
import copy
import datetime as dt
import json
import pickle
import re

from .. import fp, gen, mutate, ops, runner
from ..common import Stats, attempt, describe, g_config, h, set_config, viol, with_key, without
from ..gen import parse
from .c04 import Watcher

ID = "C10"
LEVEL = "exploration"
RULE = ("a run is one campaign of calls and field changes that is saved at seeded points (also inside a call, after which "
        "the process is killed) and continued in a new process from the save; every result and field is compared with the "
        "uninterrupted campaign; non-trivial when calls ran on restored objects; distinct by (mission, actions, save points and forms)")
RUNS = {"quick": 1280, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2400}

FORMS = ["json", "json", "json_text", "dict", "pickle", "deepcopy", "copy", "model_copy", "pickle"]
EXACT = fp.Tol(0, 0, 0, 0)


# ------------------------------------------------------------------ generator
def g_extra(rng, ep):
    k = rng.choice(["molniya", "tundra", "soc", "offset", "default", "overs"])
    e = gen.iso(ep)
    if k in ("molniya", "tundra"):
        d = dict(k=k, altitude=rng.choice([500e3, 900e3]) if k == "molniya" else 24000e3, epoch=e,
                 true_anomaly=round(rng.uniform(0, 359), 3), right_ascension_ascending_node=round(rng.uniform(0, 359), 3),
                 inclination=63.4, perigee_argument=rng.choice([270.0, 90.0]))
        if rng.random() < 0.5:
            d["orbital_period"] = rng.choice([43000.0, 80000.0])
        return d
    if k == "soc":
        return dict(k=k, spec=gen.g_constellation(rng, 7, ep, ["soc"]))
    if k == "offset":  # epochs as callers write them: another UTC offset, microseconds
        return dict(k=k, spec=gen.g_orbit(rng, [rng.choice(["circular", "sso", "keplerian"])], ep), hours=rng.choice([-11, -3.5, 5.75, 14]),
                    us=rng.choice([0, 1, 123456, 999999]))
    if k == "default":
        return dict(k=k, spec=gen.g_orbit(rng, [rng.choice(["circular", "sso", "keplerian"])], ep))
    q = gen.g_instrument(rng, 3, pointed=True)
    q.update(cross_track_oversampling=rng.choice([0.0, 0.1, 0.5]), along_track_oversampling=rng.choice([0.0, 0.25]),
             min_access_time=rng.choice([0.5, 12.000001, 7200]))
    return dict(k=k, spec=q)


def generate(rng, i, tier):
    w = gen.g_world(rng, sats=(1, 2), cons=(0, 2), points=(1, 2), stations=(1, 2), masks=1,
                    kinds=["circular", "sso", "keplerian", "tle", "multitle", "multitle", "repeat"])
    ep = parse(w["epoch"])
    for s in w["sats"] + w["cons"]:  # identical twins are two things all the same
        if rng.random() < 0.15:
            s["instruments"].append(copy.deepcopy(rng.choice(s["instruments"])))
    if rng.random() < 0.1:
        w["sats"].append(copy.deepcopy(rng.choice(w["sats"])))
    if rng.random() < 0.1:
        w["stations"].append(copy.deepcopy(rng.choice(w["stations"])))
    acts, cur = [], copy.deepcopy(w)
    n = rng.randint(3, 7 if tier == "quick" else 12)
    kinds = [k for k in ops.ALL if k not in ("aggregate", "reduce", "grid", "latency", "reduce_lat", "grid_lat", "points", "cells",
                                              "normalize", "split", "buffer", "conv")]
    for _ in range(n):
        if rng.random() < 0.18:
            for _ in range(9):
                a = mutate.g_update(rng, cur)
                if a["what"] != "frame" and a["how"] != "rebuild":
                    break
            else:
                continue
            cur = mutate.spec_update(cur, a)
            acts.append(a)
        else:
            acts.append(dict(do="op", op=ops.g_op(rng, cur, kinds, tmax=4)))
    gens = []
    for k in sorted(rng.sample(range(0, n + 1), min(n + 1, rng.choice([1, 1, 2, 3])))):
        gens.append(dict(at=min(k, len(acts)), form=rng.choice(FORMS), box=rng.choice(["each", "each", "arch", "parts"]),
                         mid=round(rng.random(), 4) if rng.random() < 0.35 else None, torn=[round(rng.random(), 4) for _ in range(3)],
                         tag=rng.randrange(1 << 16)))
    return dict(world=w, acts=acts, gens=gens, config=g_config(rng), extras=[g_extra(rng, ep) for _ in range(rng.choice([0, 1, 2]))])


# ------------------------------------------------------------------ saving
def b_extra(e):
    from tatc import schemas

    d = {k: v for k, v in e.items() if k != "k"}
    if e["k"] in ("molniya", "tundra"):
        d["epoch"] = parse(d["epoch"])
        return (schemas.MolniyaOrbit if e["k"] == "molniya" else schemas.TundraOrbit)(**d)
    if e["k"] == "soc":
        return gen.b_satellite(e["spec"])
    if e["k"] == "offset":
        tz = dt.timezone(dt.timedelta(hours=e["hours"]))
        return gen.b_orbit(dict(e["spec"], epoch=parse(e["spec"]["epoch"]).astimezone(tz) + dt.timedelta(microseconds=e["us"])))
    if e["k"] == "default":
        return gen.b_orbit({k: v for k, v in e["spec"].items() if k != "epoch"})
    return gen.b_instrument(e["spec"])


def dump(o, form):
    cls = type(o).__name__
    if form == "json":
        return cls, form, o.model_dump_json()
    if form == "json_text":
        return cls, form, json.dumps(o.model_dump(mode="json"))
    if form == "dict":
        return cls, form, pickle.dumps(o.model_dump())
    if form == "pickle":
        return cls, form, pickle.dumps(o)
    if form == "deepcopy":
        return cls, form, pickle.dumps(copy.deepcopy(o))
    if form == "copy":
        return cls, form, pickle.dumps(copy.copy(o))
    return cls, form, pickle.dumps(o.model_copy(deep=True))


def load(s):
    from tatc import schemas

    cls, form, data = s
    c = getattr(schemas, cls)
    if form == "json":
        return c.model_validate_json(data)
    if form == "json_text":
        return c.model_validate(json.loads(data))
    if form == "dict":
        return c.model_validate(pickle.loads(data))
    return pickle.loads(data)


def build_parts(o):
    """Take a satellite apart into pieces that are saved on their own."""
    return [o.orbit] + list(o.instruments)


def save(W, extras, form, box):
    from tatc import schemas

    space = [x for x in extras if box == "arch" and hasattr(x, "generate_members")]  # space systems live in the architecture
    out = dict(points=[dump(p, form) for p in W.points], box=box,
               extras=[None if any(x is y for y in space) else dump(x, form) for x in extras])
    if box == "arch":
        a = schemas.Architecture(name="A", satellites=W.sats + W.cons + space, stations=W.stations)
        out["arch"] = dump(a, form)
    else:
        out["stations"] = [dump(s, form) for s in W.stations]
        out["sats"] = [dump(s, form) for s in W.sats + W.cons]
        if box == "parts":
            out["parts"] = [[dump(p, form) for p in build_parts(o)] for o in W.sats + W.cons]
    return out


def restore(W, s):
    """Replace the live objects of W by the saved ones; returns the extras."""
    n, m = len(W.sats), len(W.sats) + len(W.cons)
    if s["box"] == "arch":
        a = load(s["arch"])
        both, W.stations = list(a.satellites), list(a.stations)
    else:
        both = [load(x) for x in s["sats"]]
        W.stations = [load(x) for x in s["stations"]]
        if s["box"] == "parts":
            for k, p in enumerate(s["parts"]):
                q = [load(x) for x in p]
                both[k] = both[k].model_copy(update=dict(orbit=q[0], instruments=q[1:]))
    W.sats, W.cons, space = both[:n], both[n:m], both[m:]
    W.points = [load(x) for x in s["points"]]
    W.lists = {}
    return [space.pop(0) if x is None else load(x) for x in s["extras"]]


def everything(W, extras):
    return W.sats + W.cons + W.points + W.stations + list(extras)


def wreck(o):
    """Change every list of an object in place, as its owner may after the save."""
    from pydantic import BaseModel

    for k, x in list(getattr(o, "__dict__", {}).items()):
        if k not in type(o).model_fields:
            continue
        if isinstance(x, list):
            for y in x:
                if isinstance(y, BaseModel):
                    wreck(y)
            del x[len(x) // 2:]
        elif isinstance(x, BaseModel):
            wreck(x)
        elif isinstance(x, str):
            if k != "type":
                o.__dict__[k] = x + "~"


def independent(objs, form):
    """A save held in memory is not changed by what happens to the original afterwards."""
    def hold(o):
        return o.model_dump() if form == "dict" else copy.deepcopy(o) if form == "deepcopy" else o.model_copy(deep=True)

    def look(s, o):
        return fp.canon(type(o).model_validate(s) if form == "dict" else s)

    held = [hold(o) for o in objs]
    before = [look(s, o) for s, o in zip(held, objs)]
    for o in objs:
        wreck(o)
    for s, o, b in zip(held, objs, before):
        d = fp.diff(look(s, o), b, EXACT)
        if d:
            return ("shared", "%s saved as %s changed when the original was changed: %s" % (type(o).__name__, form, d))
    return None


def probe_extra(x):
    from tatc import schemas

    if isinstance(x, schemas.Instrument):
        return [x.get_swath_width(500e3), x.get_min_elevation_angle(500e3)] + (
            [x.get_cross_track_instantaneous_field_of_view(), x.get_along_track_instantaneous_field_of_view()] if hasattr(x, "roll_angle") else [])
    if hasattr(x, "generate_members"):
        return x.generate_members()
    t = x.to_tle()
    return [list(t.tle), x.get_derived_orbit(10.0, 5.0), t.get_orbit_track(t.get_epoch())]


# ------------------------------------------------------------------- execution
def run_acts(W, cur, acts, lo, hi, out):
    for n in range(lo, hi):
        a = acts[n]
        if a["do"] == "update":
            cur = mutate.spec_update(cur, a)
            mutate.live_update(W, cur, a)
            out.append((n, "update"))
        else:
            out.append((n, attempt(lambda: ops.run_op(W, a["op"]))))
    return cur


def spec_at(w, acts, n):
    for a in acts[:n]:
        if a["do"] == "update":
            w = mutate.spec_update(w, a)
    return w


def process(sc, snap, lo, g, hi, want_steps=None):
    """One process of the campaign: restore, continue, save at its crash point. Runs in a fresh fork."""
    w, acts = sc["world"], sc["acts"]
    set_config(sc["config"])
    cur = spec_at(w, acts, lo)
    W = ops.FWorld(cur)
    extras = [b_extra(e) for e in sc["extras"]]
    got = dict(results=[], restored=None, saved=None, save=None, mid=None, bad=None, warm=None)
    if snap is not None:
        try:
            extras = restore(W, snap)
        except Exception as e:  # noqa
            got["bad"] = ("not-restored", "%s: %s" % (type(e).__name__, str(e)[:400]))
            return got
        W.spec = cur
        got["restored"] = [fp.canon(o) for o in everything(W, extras)]
    cur = run_acts(W, cur, acts, lo, hi, got["results"])
    if g is None:
        got["extras"] = [attempt(lambda x=x: probe_extra(x)) for x in extras]
        got["final"] = [fp.canon(o) for o in everything(W, extras)]
        return got

    def take(where=None):
        got["saved"] = [fp.canon(o) for o in everything(W, extras)]
        try:
            got["save"] = save(W, extras, g["form"], g["box"])
        except Exception as e:  # noqa
            got["bad"] = ("not-saved", "%s save as %s raised %s: %s" % (g["form"], g["box"], type(e).__name__, str(e)[:300]))
        got["mid"] = where

    if g["mid"] is not None and hi < len(acts) and acts[hi]["do"] == "op" and want_steps:
        W.prepare(acts[hi]["op"])
        at = 1 + int(g["mid"] * want_steps)
        with Watcher({at}, take, at, "interrupt"):
            try:
                ops.run_op(W, acts[hi]["op"])
            except BaseException:  # noqa  the process is killed here
                pass
    if got["save"] is None and got["bad"] is None:
        take()
    if got["bad"] is None:
        # the same process can also read its own save, and sees equal objects
        try:
            V = ops.FWorld(cur)
            ex2 = restore(V, got["save"])
            for a, b in zip(everything(W, extras), everything(V, ex2)):
                if not (a == b) or not (b == a):
                    got["bad"] = ("unequal", "%s restored from %s does not compare equal to the original" % (type(a).__name__, g["form"]))
        except Exception as e:  # noqa
            got["bad"] = ("not-restored", "%s: %s" % (type(e).__name__, str(e)[:400]))
    if got["bad"] is None and g["form"] in ("dict", "deepcopy", "model_copy"):
        got["bad"] = independent(everything(W, extras), g["form"])  # the last thing this process does
    return got


def torn(sc, g, sv, st):
    """Damaged JSON saves must be rejected."""
    items = [sv["arch"]] if sv["box"] == "arch" else sv["sats"] + sv["points"]
    items = [s for s in items if s[1] in ("json", "json_text")]

    def go():
        out = []
        for s in items:
            cuts = sorted({int(f * (len(s[2]) - 1)) for f in g["torn"]} | {0, len(s[2]) - 1})
            bad = [("truncated to %d of %d characters" % (c, len(s[2])), s[2][:c]) for c in cuts]
            t = s[2].replace('"type":"', '"type":"x').replace('"type": "', '"type": "x')
            if t != s[2]:
                bad.append(("with damaged type tags", t))
            tags = [m for m in re.finditer(r'"type": ?"([a-z_]+)', s[2])]
            for m in tags if len(tags) < 9 else [tags[(g["tag"] + 7 * k) % len(tags)] for k in range(8)]:
                bad.append(("with its type tag %r at %d damaged" % (m[1], m.start(1)), s[2][:m.start(1)] + "x" + s[2][m.start(1):]))
            for what, d in bad:
                try:
                    o = load((s[0], s[1], d))
                except Exception:  # noqa
                    out.append(None)
                else:
                    out.append("%s saved as %s and %s was restored as %s" % (s[0], s[1], what, repr(o)[:200]))
        return out

    res = runner.pristine(go) if items else []
    st["fault.torn_save"] += len(res)
    for r in res:
        if r:
            return viol("torn-accepted", r)
    return None


def execute(sc):
    w, acts = sc["world"], sc["acts"]
    st, v = Stats(), None
    from ..common import probe_faults

    ref = runner.pristine(lambda: process(sc, None, 0, None, len(acts)))
    want = dict(ref["results"])
    st.ops([a["op"] for a in acts if a["do"] == "op"])
    snap, lo, late, trace = None, 0, 0, []
    for g in sc["gens"] + [None]:
        hi = len(acts) if g is None else max(lo, g["at"])
        steps = None
        if g is not None and g["mid"] is not None and hi < len(acts) and acts[hi]["do"] == "op":
            steps = probe_faults(spec_at(w, acts, hi), acts[hi]["op"], sc["config"])["eligible"]
        prev = snap
        got = runner.pristine(lambda: process(sc, prev, lo, g, hi, steps))
        how = "" if g is None else "saved as %s (%s)%s after action %d" % (g["form"], g["box"], " inside a call" if got["mid"] else "", hi)
        if got["restored"] is not None:
            st["fault.restart"] += 1
            for k, (a, b) in enumerate(zip(got["restored"], saved)):
                d = fp.diff(a, b, EXACT)
                if d:
                    v = viol("fields", "object %d (%s) restored from a %s save differs: %s (restored != saved)" % (k, b[1], prev_form, d))
                    break
        if v is None and got["bad"]:
            v = viol(got["bad"][0], "%s %s" % (got["bad"][1], how))
        for n, r in got["results"] if v is None else []:
            late += prev is not None and r != "update"
            d = fp.diff(r, want[n])
            if d:
                v = viol("continued", "action %d %s after a restart from a %s save: %s (continued != uninterrupted)" % (
                    n, describe(acts[n]["op"]), prev_form if prev is not None else "no", d))
                break
        if v is None and g is None:
            for k, (a, b) in enumerate(zip(got["extras"], ref["extras"])):
                d = fp.diff(a, b)
                if d:
                    v = viol("continued", "extra object %d (%s) after restarts: %s (continued != uninterrupted)" % (k, sc["extras"][k]["k"], d))
                    break
            for k, (a, b) in enumerate(zip(got["final"], ref["final"]) if v is None else []):
                d = fp.diff(a, b, EXACT)
                if d:
                    v = viol("fields", "object %d at the end: %s (continued != uninterrupted)" % (k, d))
                    break
        if v is not None:
            break
        if g is not None:
            v = torn(sc, g, got["save"], st)
            if v is not None:
                break
            st["probe.form_" + g["form"]] += 1
            st["probe.box_" + g["box"]] += 1
            st["fault.killed_inside_call"] += got["mid"] is not None
            snap, saved, prev_form, lo = got["save"], got["saved"], g["form"], hi
            trace.append(dict(action=hi, form=g["form"], box=g["box"], inside=got["mid"]))
    st["probe.calls_on_restored"] += late
    st["steps"] += len(acts)
    return dict(violation=v, stats=dict(st), digest=h(sorted((n, fp.digest(r)) for n, r in want.items()), trace, v and v["msg"]),
                sig=h(sc["acts"], sc["gens"]), nontrivial=late > 0, trace=trace)


def shrink(sc):
    for x in without(sc["gens"]):
        yield with_key(sc, "gens", x)
    n = len(sc["acts"])
    size = n
    while size >= 1:
        for i in range(0, n, size):
            acts = sc["acts"][:i] + sc["acts"][i + size:]
            gens = [dict(g, at=g["at"] - min(size, max(0, g["at"] - i))) for g in sc["gens"]]
            yield dict(sc, acts=acts, gens=gens)
        size //= 2
    for x in without(sc["extras"]):
        yield with_key(sc, "extras", x)
    for i, g in enumerate(sc["gens"]):
        for k, val in (("mid", None), ("box", "each")):
            if g[k] != val:
                yield with_key(sc, "gens", sc["gens"][:i] + [dict(g, **{k: val})] + sc["gens"][i + 1:])
