"""C22: every instant is propagated with the closest element set, however the sets accumulate."""
import datetime as dt
import json
import math

from .. import campaign, fp, gen, ops, runner
from ..common import Stats, describe, h, set_config, viol, with_key, without
from ..gen import iso, parse
from .c12 import BWorld, VECTORS, arcs, call, compare, compare_ro, g_batches
from . import c12

ID = "C22"
LEVEL = "exploration"
RULE = ("a run is one campaign during which element sets of the satellites arrive, are replaced and are retired while worker "
        "threads (preempted, killed, retried) compute tracks, footprints, pixels, dilution of precision and occultations; "
        "every sample is compared with a satellite that carries only the element set closest to that instant, in a fresh "
        "process; non-trivial when samples of one call belong to different sets; distinct by (sets, history, jobs, campaigns)")
RUNS = {"quick": 1120, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2000}
TWIN = True
CONFIG = dict(repeat_cycle_for_orbit_track=False, repeat_cycle_for_observation_events=False)
KINDS = ["orbit_track", "orbit_track", "ground_track", "pixels", "dop", "ro", "ro", "index", "index", "derived", "visible", "visible", "visible"] + VECTORS


# ------------------------------------------------------------------ generator
def g_series(rng, ep, high):
    rpd = rng.uniform(2.0, 4.0) if high else rng.uniform(13.8, 15.6)
    n = rng.choice([2, 3, 4, 6])
    if rng.random() < 0.3 and not high:
        ep = ep - dt.timedelta(hours=rng.randrange(0, 300))
    t = gen.tle_series(rng, ep, n, rng.choice([51.6, 97.8, 35.0]), rng.uniform(0, 359), 0.001, 30.0, rng.uniform(0, 359), rpd,
                       rng.choice([0.5, 3, 12, 40]), rng.choice([2.0, 20.0]), () if high else gen.DRAG)
    return [t[2 * i:2 * i + 2] for i in range(n)]


def epoch_of(s):
    y, d = int(s[0][18:20]), float(s[0][20:32])
    return dt.datetime(2000 + y, 1, 1, tzinfo=dt.timezone.utc) + dt.timedelta(days=d - 1)


def g_times(rng, eps, n):
    """Instants around the epochs, the midpoints between them, and far outside."""
    out = []
    for _ in range(n):
        k = rng.random()
        if k < 0.5 and len(eps) > 1:
            i = rng.randrange(len(eps) - 1)
            mid = eps[i] + (eps[i + 1] - eps[i]) / 2
            t = mid + dt.timedelta(seconds=rng.choice([-1, 1]) * rng.choice([0.05, 1, 30, 600]))
        elif k < 0.85:
            t = eps[0] + (eps[-1] - eps[0]) * rng.uniform(-0.1, 1.1)
        else:
            t = rng.choice([eps[0] - dt.timedelta(hours=rng.choice([1, 30])), eps[-1] + dt.timedelta(hours=rng.choice([1, 30]))])
        out.append(t)
    return sorted(out)


def generate(rng, i, tier):
    w = gen.g_world(rng, sats=(1, 2), cons=(0, 0), points=(1, 1), stations=(0, 0), masks=0, kinds=["tle"])
    ep = parse(w["epoch"])
    for j in range(rng.choice([0, 1, 1])):
        w["sats"].append(gen.g_satellite(rng, 10 + j, ["meo"], ep, n_instr=1))
    series = [g_series(rng, ep, s["orbit"]["type"] != "tle") for s in w["sats"]]
    steps = []
    for k in range(rng.randint(1, 3 if tier == "quick" else 6)):
        have = []
        for s in series:
            m = len(s) if rng.random() < 0.5 else rng.randint(1, len(s))
            have.append(sorted(rng.sample(range(len(s)), m)))
        kind = rng.choice(KINDS)
        if kind == "visible":
            if not any(s["orbit"]["type"] == "tle" for s in w["sats"]):
                kind = "index"
            else:
                op, ts = g_visible(rng, w, series, have)
                steps.append(dict(have=have, how=rng.choice(["assign", "copy", "replace", "inplace"]), kind=kind, op=op,
                                  ts=[iso(t) for t in ts], batches=[[i] for i in range(len(op["cuts"]) - 1)],
                                  campaign=campaign.g_campaign(rng, 600)))
                continue
        op = ops.g_op(rng, w, [kind if kind != "index" else "track"])
        kind = op["op"] if kind != "index" else "index"
        if "times" not in op and kind != "derived":
            op, kind = ops.g_op(rng, w, ["orbit_track"]), "orbit_track"
        which = op.get("sat", op.get("rx", 0))
        eps = [epoch_of(series[which][q]) for q in have[which]]
        n = rng.choice([1, 2, 4, 7]) if kind != "ro" else rng.choice([12, 24])
        ts = g_times(rng, eps, n)
        if kind == "ro":
            q = rng.choice(ts)
            ts = [q + dt.timedelta(seconds=30 * j) for j in range(-n // 2, n // 2)]
        if op.get("crs") == "utm":
            op["crs"] = "EPSG:4087"
        op.pop("times", None)
        if "mask" in op:
            op["mask"] = None
        steps.append(dict(have=have, how=rng.choice(["assign", "copy", "replace", "inplace"]), kind=kind, op=op, ts=[iso(t) for t in ts],
                          batches=g_batches(rng, n), campaign=campaign.g_campaign(rng, 600)))
    for s in w["sats"]:
        s["orbit"] = dict(type="tle", tle=series[w["sats"].index(s)][0])
    return dict(world=w, series=series, steps=steps, config=dict(CONFIG, orbit_tle_lazy_load=rng.random() < 0.7))


def below(s, t):
    """Latitude and longitude roughly below a satellite."""
    from sgp4.api import Satrec

    d = (t - dt.datetime(2000, 1, 1, 12, tzinfo=dt.timezone.utc)) / dt.timedelta(days=1)
    _, r, _ = Satrec.twoline2rv(*s).sgp4(2451545.0, d)
    return math.degrees(math.asin(r[2] / math.dist(r, (0, 0, 0)))), math.degrees(math.atan2(r[1], r[0])) - (280.46062 + 360.98564737 * d)


def g_visible(rng, w, series, have):
    """Visibility around a change of the closest set, from a place that one of the two sets brings the satellite over."""
    si = rng.choice([i for i in range(len(w["sats"])) if w["sats"][i]["orbit"]["type"] == "tle"])
    mine = [series[si][q] for q in have[si]]
    eps = [epoch_of(s) for s in mine]
    j = rng.randrange(len(eps))
    k = min(j + 1, len(eps) - 1)
    mid = eps[j] + (eps[k] - eps[j]) / 2
    lat, lon = below(mine[rng.choice([j, k])], mid + dt.timedelta(seconds=rng.choice([0, 0, -200, 200])))
    lat = max(-89.0, min(89.0, lat + rng.uniform(-8, 8)))
    lon = (lon + rng.uniform(-12, 12) + 180) % 360 - 180
    half = rng.choice([120, 600, 3000, 20000])
    a, b = (mid + dt.timedelta(seconds=x * half * rng.uniform(0.3, 1)) for x in (-1, 1))
    ts = [mid + dt.timedelta(seconds=x * y) for x in (-1, 1) for y in (1.5, 5, 20, 60, 120, 300, 600)]
    ts += [a + (b - a) * rng.random() for _ in range(20)]
    cuts = sorted([a + (b - a) * rng.random() for _ in range(rng.choice([0, 0, 1, 2]))] + ([mid] if rng.random() < 0.2 else []))
    op = dict(op="visible", sat=si, lat=round(lat, 4), lon=round(lon, 4), min_el=rng.choice([0.0, 5.0, 10.0, 30.0]),
              cuts=[iso(x) for x in [a] + cuts + [b]])
    return op, sorted(t for t in ts if a < t < b)


# ------------------------------------------------------------------- reference
def closest(sets, t):
    """Indices of the sets that may be the closest one (several when too close to call)."""
    d = sorted((abs(epoch_of(s) - t), k) for k, s in enumerate(sets))
    return [k for x, k in d if x - d[0][0] < dt.timedelta(milliseconds=5)]


def alone(sc, step, pick):
    """World in which every satellite carries only one of its sets."""
    w = json.loads(json.dumps(sc["world"]))
    for s, sets, have, k in zip(w["sats"], sc["series"], step["have"], pick):
        s["orbit"] = dict(type="tle", tle=sets[have[k]])
    return w


def _single(sc, step, picks):
    set_config(sc["config"])
    ts = [parse(t) for t in step["ts"]]
    out = []
    for i, p in enumerate(picks):
        try:
            r = call(BWorld(alone(sc, step, p), ts, None), dict(op=step["op"], mask=None), [i], masked=False, scalar=step["kind"] in VECTORS)
        except Exception as e:  # noqa
            r = ("raised", "%s: %s" % (type(e).__name__, str(e)[:200]))
        out.append(r)
    return out


def _station(op):
    from tatc import schemas

    return schemas.GroundStation(name="G", latitude=op["lat"], longitude=op["lon"], min_elevation_angle=op["min_el"])


def _elevations(sc, step, picks):
    from skyfield.api import wgs84
    from tatc import constants

    set_config(sc["config"])
    o = step["op"]
    out = []
    for t, p in zip(step["ts"], picks):
        t = parse(t)
        s = alone(sc, step, p)["sats"][o["sat"]]
        x = gen.b_satellite(s).orbit.get_orbit_track(t)
        out.append(float((x - wgs84.latlon(o["lat"], o["lon"]).at(constants.timescale.from_datetime(t))).altaz()[0].degrees))
    return out


def _derived(sc, step):
    o = step["op"]
    w = sc["world"]
    out = []
    for k in range(len(step["have"][o["sat"]])):
        p = [0] * len(w["sats"])
        p[o["sat"]] = k
        W = ops.FWorld(alone(sc, step, p))
        out.append(list(W.sats[o["sat"]].orbit.get_derived_orbit(o["dm"], o["dr"]).tle))
    return out


# ------------------------------------------------------------------- execution
class LWorld(BWorld):
    """Live world: the lists of times change from step to step."""


def install(W, sc, step):
    from tatc import schemas

    for k, (sets, have) in enumerate(zip(sc["series"], step["have"])):
        tle = [l for q in have for l in sets[q]]
        s = W.sats[k]
        if step["how"] == "assign":
            s.orbit.tle = tle
        elif step["how"] == "inplace":
            old = s.orbit.tle
            n = 0
            while n < min(len(old), len(tle)) and old[n] == tle[n]:
                n += 1
            del old[n:]
            old.extend(tle[n:])
        elif step["how"] == "copy":
            W.sats[k] = s.model_copy(update=dict(orbit=s.orbit.model_copy(update=dict(tle=tle))))
        else:
            W.sats[k] = type(s)(name=s.name, orbit=schemas.TwoLineElements(tle=tle), instruments=s.instruments)


def index_checks(t, sets, ts, idx):
    """get_closest_tle_index (list and single) and partition_by_tle_index of a live orbit."""
    part = [ts[i] for i in idx]
    ones = [t.get_closest_tle_index(x) for x in part]
    many = t.get_closest_tle_index(list(part))
    lo, hi = min(part) - dt.timedelta(seconds=7), max(part) + dt.timedelta(hours=1, seconds=3)
    cuts, ks = t.partition_by_tle_index(lo, hi)
    return [int(x) for x in ones], [int(x) for x in many], lo, hi, list(cuts), [int(x) for x in ks]


def judge_index(sets, ts, idx, got):
    ones, many, lo, hi, cuts, ks = got
    for i, a, b in zip(idx, ones, many):
        ok = closest(sets, ts[i])
        if a not in ok or b not in ok:
            return "closest element set to %s is %s, get_closest_tle_index gives %s alone and %s in a list" % (ts[i], ok, a, b)
    if len(ones) != len(idx) or len(many) != len(idx):
        return "%d indices for %d times" % (len(many), len(idx))
    if cuts[0] != lo or cuts[-1] != hi or any(b < a for a, b in zip(cuts, cuts[1:])) or len(ks) < len(cuts) - 1:
        return "partition %s of %s..%s" % (cuts, lo, hi)
    for a, b, k in zip(cuts, cuts[1:], ks):
        for f in (0.001, 0.5, 0.999):
            x = a + (b - a) * f
            if b - a > dt.timedelta(seconds=1) and k not in closest(sets, x):
                return "partition uses set %d for %s..%s, at %s the closest is %s" % (k, a, b, x, closest(sets, x))
    return None


def execute(sc):
    st, v = Stats(), None
    set_config(sc["config"])
    W = LWorld(sc["world"], [], None)
    mixed, orders, dig = 0, [], []
    try:
        for n, step in enumerate(sc["steps"]):
            ts = [parse(t) for t in step["ts"]]
            W._ts = ts
            install(W, sc, step)
            kind, op, job = step["kind"], step["op"], dict(op=step["op"], mask=None)
            what = "step %d, %s with %s element sets" % (n, describe(op), [len(x) for x in step["have"]])
            st["op." + kind] += 1
            st["fault.sets_changed_" + step["how"]] += 1
            if kind == "derived":
                want = runner.reference(_derived, sc, step)
                got = list(W.sats[op["sat"]].orbit.get_derived_orbit(op["dm"], op["dr"]).tle)
                if got != [l for x in want for l in x]:
                    v = viol("derived", "%s: derived sets %s differ from the sets derived one by one %s" % (what, got, want))
                continue
            batches = [b for b in step["batches"] if b]
            sets = [[s[q] for q in have] for s, have in zip(sc["series"], step["have"])]
            amb = [[closest(s, t) for s in sets] for t in ts]
            if kind == "visible":
                picks = [[x[0] for x in a] for a in amb]
                at = runner.reference(_elevations, sc, step, picks)
                cuts = [parse(c) for c in op["cuts"]]
                sat, g = W.sats[op["sat"]], _station(op)
                if len(cuts) < 2:
                    continue
                from tatc import analysis

                tasks = [lambda a=a, b=b: analysis.collect_downlinks(g, sat, a, b) for a, b in zip(cuts, cuts[1:])]
                res = campaign.run(step["campaign"], tasks, st)
                orders.append([k for k, _ in res])
                got = [(r.start.to_pydatetime(), r.end.to_pydatetime()) for _, f in res for r in f.itertuples()]
                dig.append(h(repr(sorted(got))))
                ep = sorted(epoch_of(s) for s in sets[op["sat"]])
                turns = [a + (b - a) / 2 for a, b in zip(ep, ep[1:])]
                for t, e, a in zip(ts, at, amb):
                    seen = any(x <= t <= y for x, y in got)
                    if len(a[op["sat"]]) > 1 or abs(e - op["min_el"]) < 0.2 or not cuts[0] < t < cuts[-1] or any(
                            abs(t - x) < dt.timedelta(seconds=1) for x in cuts + turns):
                        continue
                    st["probe.visible"] += seen
                    if seen != (e > op["min_el"]):
                        v = viol("visible", "%s: by the set closest to %s the satellite is at %.2f degrees, but it is %s (intervals %s)" % (
                            what, t, e, "reported" if seen else "not reported", [(str(x), str(y)) for x, y in sorted(got)]))
                        break
                mixed += len({tuple(a[op["sat"]]) for a in amb}) > 1
                if v:
                    break
                continue
            if kind == "index":
                o, mine = W.sats[op["sat"]].orbit.to_tle(), sets[op["sat"]]
                tasks = [lambda b=b: index_checks(o, mine, ts, b) for b in batches]
                res = campaign.run(step["campaign"], tasks, st)
                orders.append([k for k, _ in res])
                for k, r in res:
                    d = judge_index(mine, ts, batches[k], r)
                    if d:
                        v = viol("index", "%s: %s" % (what, d))
                        break
                mixed += len({tuple(a[op["sat"]]) for a in amb}) > 1
                if v:
                    break
                continue
            sure = [all(len(x) == 1 for x in a) for a in amb]
            picks = [[x[0] for x in a] for a in amb]
            refs = runner.reference(_single, sc, step, picks)
            failed = [isinstance(r, tuple) and len(r) == 2 and r[0] == "raised" for r in refs]
            if kind == "ro":
                if any(failed) or not all(sure):
                    continue
            else:  # samples too close to call, or that raise on their own, are left out
                keep = [i for i in range(len(ts)) if sure[i] and not failed[i]]
                batches = [c for c in ([i for i in b if i in keep] for b in batches) if c]
            if not batches:
                continue
            mixed += len({tuple(p) for i, p in enumerate(picks) if any(i in b for b in batches)}) > 1
            res = campaign.run(step["campaign"], [lambda b=b: call(W, job, b, masked=False) for b in batches], st)
            orders.append([k for k, _ in res])
            for k, rows in res:
                b = batches[k]
                if kind in VECTORS:
                    d = None
                    for i, r in zip(b, rows):
                        d = fp.diff(r, refs[i][0], c12.TOL)
                        if d:
                            d = "at %s: %s (all sets != closest set only)" % (ts[i], d)
                            break
                elif kind == "ro":
                    d = compare_ro(rows, arcs(b, refs), "batch")
                else:
                    d = compare(rows, [(r, True, None) for i in b for r in refs[i]], "batch")
                if d:
                    v = viol("propagation", "%s: %s" % (what, d))
                    break
                dig.append(h(repr(rows)))
                st["probe.samples"] += len(b)
            st["sim_s"] += abs((ts[-1] - ts[0]).total_seconds())
            if v:
                break
    except campaign.Failed as e:
        v = viol(e.kind, e)
    except Exception as e:  # noqa
        v = viol("raise", "step raised %s: %s" % (type(e).__name__, e))
    return dict(violation=v, stats=dict(st), digest=h(orders, dig, v and v["msg"]), sig=h(sc["series"], sc["steps"]),
                nontrivial=mixed > 0, trace=orders)


def shrink(sc):
    for s in without(sc["steps"]):
        if s:
            yield with_key(sc, "steps", s)
    for n, step in enumerate(sc["steps"]):
        def put(x):
            return with_key(sc, "steps", sc["steps"][:n] + [x] + sc["steps"][n + 1:])

        if step["kind"] == "visible":
            for x in without(step["ts"]):
                if x:
                    yield put(dict(step, ts=x))
            for x in without(step["op"]["cuts"]):
                if len(x) > 1:
                    yield put(dict(step, op=dict(step["op"], cuts=x), batches=[[i] for i in range(len(x) - 1)]))
            for k, have in enumerate(step["have"]):
                for x in without(have):
                    if x:
                        yield put(dict(step, have=step["have"][:k] + [x] + step["have"][k + 1:]))
            for c in campaign.shrink_campaign(step["campaign"]):
                yield put(dict(step, campaign=c))
            continue
        for i in range(len(step["ts"])):
            if len(step["ts"]) > 1:
                b = [[x - (x > i) for x in y if x != i] for y in step["batches"]]
                yield put(dict(step, ts=step["ts"][:i] + step["ts"][i + 1:], batches=[x for x in b if x]))
        if len(step["batches"]) > 1:
            yield put(dict(step, batches=[[i for b in step["batches"] for i in b]]))
        for k, have in enumerate(step["have"]):
            for x in without(have):
                if x:
                    yield put(dict(step, have=step["have"][:k] + [x] + step["have"][k + 1:]))
        for c in campaign.shrink_campaign(step["campaign"]):
            yield put(dict(step, campaign=c))
