"""C12: results of batches of times equal the per-sample results, masked or not."""
import datetime as dt
import math
import random

from .. import campaign, fp, gen, ops, runner
from ..common import Stats, describe, g_config, h, set_config, viol, with_key, without
from ..gen import iso, parse

ID = "C12"
LEVEL = "exploration"
RULE = ("a run collects tracks, footprints, pixels, dilution of precision or radio occultations for one list of times divided "
        "into seeded batches over simulated workers that are preempted and killed and whose results are lost, duplicated, "
        "delayed and reordered; every delivered batch and the undivided call are compared sample by sample with single-time "
        "calls in a fresh process (clipped to the mask by an independent computation); non-trivial when the times were divided "
        "or a mask was used; distinct by (job, batches, campaign)")
RUNS = {"quick": 1350, "thorough": 14000}
BUDGET = {"quick": 240, "thorough": 2400}

FRAMES = ["orbit_track", "ground_track", "ground_track", "pixels", "dop", "ro", "compute_gt"]
VECTORS = ["track", "footprint", "limb", "center", "pixel_array", "valid"]
TOL = fp.Tol(rel=1e-8, abs_=1e-6, t_ns=1_000_000, geom=1e-7, area=1e-8)


# ------------------------------------------------------------------ generator
def g_masks(rng, sat, ep):
    """Masks as callers give them; some cross the anti-meridian (written in two parts), some are near the poles."""
    k = rng.choice(["poly", "multi", "gdf", "gs", "gs"])
    boxes = []
    for _ in range(1 if k == "poly" else rng.choice([1, 2, 3])):
        lat, lon = rng.choice([rng.uniform(-58, 45), rng.uniform(-80, 70)]), rng.uniform(-179, 150)
        w, hh = rng.choice([(3, 3), (15, 10), (40, 20), (90, 30)])
        b = [round(lon, 3), round(lat, 3), round(min(lon + w, 180), 3), round(min(lat + hh, 89), 3)]
        if all(b[0] > q[2] or b[2] < q[0] or b[1] > q[3] or b[3] < q[1] for q in boxes):
            boxes.append(b)
    return dict(kind=k, boxes=boxes)


def g_batches(rng, n):
    k = rng.choice(["one", "single", "halves", "runs", "stripes", "any"])
    if k == "one":
        return [list(range(n))]
    if k == "single":
        return [[i] for i in range(n)]
    if k == "stripes":
        m = rng.randint(2, 3)
        return [b for b in ([i for i in range(n) if i % m == j] for j in range(m)) if b]
    cuts = sorted(rng.sample(range(1, n), min(n - 1, 1 if k == "halves" else rng.randint(1, 3)))) if n > 1 else []
    idx = list(range(n))
    if k == "any":
        rng.shuffle(idx)
    return [idx[a:b] for a, b in zip([0] + cuts, cuts + [n])]


def g_job(rng, w):
    k = rng.choice(FRAMES + [FRAMES[-1]] * (rng.random() < 0.3) + ["compute_gt"] * (rng.random() < 0.5)) if rng.random() < 0.75 else rng.choice(VECTORS)
    ep = parse(w["epoch"])
    n = rng.choice([1, 2, 3, 4, 6, 9])
    op = ops.g_op(rng, w, [k])
    for _ in range(6):  # operations that need a particular instrument may fall back to another kind
        if op["op"] == k:
            break
        op = ops.g_op(rng, w, [k])
    k = op["op"]
    if "times" not in op:
        op = ops.g_op(rng, w, ["orbit_track"])
        k = "orbit_track"
    step = rng.choice([1, 10, 20, 60, 300, 1500])
    if gen.repeats(w["sats"][op.get("sat", op.get("rx", 0))]["orbit"]) and rng.random() < 0.6:
        step = rng.choice([7200, 20000, 40000, 90000])  # over several cycles
    t0 = ep + dt.timedelta(seconds=rng.randrange(-3000, 60000))
    if k == "ro":
        n, step = rng.choice([12, 30]), rng.choice([10, 20, 45])
    if k == "compute_gt":
        op.update(method=rng.choice(["point", "line"]), mask=None)
        if op["method"] == "line":
            op["crs"], n, step = "EPSG:4087", rng.choice([1, 2, 4, 9, 20, 40]), rng.choice([30, 60, 120, 240])
            if rng.random() < 0.4:  # most of an orbit, with daylight and night in it
                n, step = rng.choice([45, 60, 75, 88]), rng.choice([60, 80])
                w["sats"] = [gen.g_satellite(rng, j, ["circular", "keplerian", "tle"], ep, n_instr=len(s["instruments"]))
                             for j, s in enumerate(w["sats"])]
                for s in w["sats"]:
                    if "inclination" in s["orbit"] and rng.random() < 0.8:  # away from the poles
                        s["orbit"]["inclination"] = rng.choice([20.0, 35.0, 51.6, 60.0])
                    for x in s["instruments"]:
                        x.update(req_target_sunlit=True) if rng.random() < 0.8 else x.update(req_self_sunlit=rng.random() < 0.5)
    if op.get("crs") == "utm":
        n = min(n, 3)
    ts = [t0 + dt.timedelta(seconds=step * i) for i in range(n)]
    if rng.random() < 0.25 and n > 2 and op.get("method") != "line":  # irregular: gaps, sub-second offsets
        ts = [t + dt.timedelta(seconds=rng.randrange(0, 7200), microseconds=rng.choice([0, 0, 1, 333333])) for t in ts]
        ts.sort()
    if rng.random() < 0.1 and k not in ("ro", "compute_gt"):
        rng.shuffle(ts)
    if rng.random() < 0.1 and n > 1 and k not in ("ro", "compute_gt"):
        ts[-1] = ts[0]
    mask = None
    if k in ("orbit_track", "ground_track", "pixels", "compute_gt") and rng.random() < 0.6:
        mask = g_masks(rng, None, ep)
    op.pop("times")
    if "mask" in op:
        op["mask"] = None
    if k == "ro":
        op["yaw"] = rng.choice([45, 65, 80])
    batches = g_batches(rng, n)
    if op.get("method") == "line":
        batches = [sorted(b) for b in batches]
    if k in ("orbit_track", "ground_track", "pixels", "compute_gt") and rng.random() < 0.08:
        batches.insert(rng.randint(0, len(batches)), [])  # a worker with nothing to do
    return dict(op=op, ts=[iso(t) for t in ts], mask=mask, near=rng.random() if mask and rng.random() < 0.8 else None,
                batches=batches)


def generate(rng, i, tier):
    w = gen.g_world(rng, sats=(1, 2), cons=(0, 0), points=(1, 1), stations=(0, 0), masks=0,
                    kinds=["circular", "sso", "keplerian", "tle", "multitle", "multitle", "repeat"])
    ep = parse(w["epoch"])
    for j in range(rng.choice([0, 1, 2])):  # transmitters of navigation signals
        w["sats"].append(gen.g_satellite(rng, 10 + j, ["meo"], ep, n_instr=1))
    job = g_job(rng, w)
    if job["op"]["op"] == "dop" and rng.random() < 0.6:  # a navigation constellation, its satellites rising and setting
        w["sats"] = [gen.g_satellite(rng, j, ["meo"], ep, n_instr=1) for j in range(rng.choice([2, 3]))]
        job["op"].update(n=rng.choice([12, 16, 20]), min_el=rng.choice([0.0, 5.0, 10.0]))
        if rng.random() < 0.7:
            t0 = parse(job["ts"][0])
            job["ts"] = [iso(t0 + dt.timedelta(seconds=rng.choice([600, 1800]) * k)) for k in range(len(job["ts"]))]
    return dict(world=w, job=job, config=g_config(rng), campaign=campaign.g_campaign(rng, 600))


# ------------------------------------------------------------------- one call
class BWorld(ops.FWorld):
    def __init__(self, w, ts, mask):
        super().__init__(w)
        self._ts = ts
        self.masks = [mask]

    def times(self, t):
        return [self._ts[i] for i in t]


def call(W, job, idx, masked=True, scalar=False, **over):
    """The job's call for the samples idx; returns rows (list of dicts) or a list with one value per sample."""
    op = dict(job["op"], times=idx, **over)
    k = op["op"]
    if masked and job["mask"] is not None:
        op["mask"] = 0
    if k in VECTORS:
        return vector(W, op, idx, scalar)
    r = ops.run_op(W, op)
    if k == "dop":
        return [dict(time=fp.canon(t), dop=fp.canon(float(v)), geometry=fp.canon(g)) for t, v, g in zip(r.index, r["dop"], r["geometry"])]
    return [dict(zip(r.columns, (fp.canon(x) for x in rec))) for rec in r.itertuples(index=False, name=None)]


def vector(W, op, idx, scalar):
    from tatc import utils

    sat = W.sats[op["sat"]]
    ts = W.times(idx)
    tr = sat.orbit.to_tle().get_orbit_track(ts[0] if scalar else ts)
    k = op["op"]
    n = len(idx)
    if k == "track":
        p, v, t = tr.xyz.m.reshape(3, -1), tr.velocity.m_per_s.reshape(3, -1), tr.t.tt
        t = [t] if scalar else t
        return [(fp.canon(p[:, i]), fp.canon(v[:, i]), fp.canon(float(t[i]))) for i in range(n)]
    ins = sat.instruments[op["instr"]] if "instr" in op else None
    if k == "footprint":
        r = ins.compute_footprint(tr, op["n"], op["elev"])
    elif k == "limb":
        r = utils.compute_limb(tr, op["n"], op["elev"])
    elif k == "pixel_array":
        r = ins.compute_footprint_pixel_array(tr, op["elev"])
    elif k == "valid":
        r = ins.is_valid_observation(tr)
    else:
        g = ins.compute_footprint_center(tr, op["elev"])
        import numpy as np

        a = np.array([g.latitude.degrees, g.longitude.degrees, g.elevation.m]).reshape(3, -1)
        r = [list(map(float, a[:, i])) for i in range(n)]
    if n == 1 and not isinstance(r, list) and not hasattr(r, "shape"):
        r = [r]
    if len(r) != n:
        raise AssertionError("%d results for %d times" % (len(r), n))
    return [fp.canon(x) for x in r]


# ------------------------------------------------------------- reference model
def union_of(mask):
    import shapely

    return shapely.unary_union([shapely.box(*b) for b in mask["boxes"]])


def tiny(g):
    return 1e-9 + 1e-7 * g.area


def clipped(row, u, at):
    """(row clipped to the mask, must it be kept?) or None when it cannot be in the result."""
    import shapely

    g = shapely.from_wkb(row["geometry"].wkb)
    if at is not None:  # positions in other coordinates are selected by the point below the satellite
        p = shapely.from_wkb(at.wkb)
        d = u.distance(p)
        edge = u.boundary.distance(p) < 1e-9
        return (row, not edge, None) if d < 1e-9 else None
    if g.geom_type == "Point":
        edge = u.boundary.distance(g) < 1e-9
        return (row, not edge, None) if u.distance(g) < 1e-9 else None
    g = shapely.force_2d(g)
    c = g.intersection(u)
    if c.is_empty:
        return None
    return row, c.area > tiny(g), c


def same(a, b, c):
    """Does result row b equal reference row a (its geometry clipped to c)?"""
    import shapely

    for k in sorted(set(a) | set(b)):
        if k not in a or k not in b:
            return "column %s is missing" % k
        if k == "geometry" and c is not None:
            g = shapely.force_2d(shapely.from_wkb(b[k].wkb))
            if not g.is_valid:
                g = shapely.make_valid(g)
            if g.symmetric_difference(c).area > 10 * tiny(c):
                return "geometry differs from the clipped footprint by %g of %g square degrees" % (g.symmetric_difference(c).area, c.area)
        elif k in ("sat_az", "solar_az") and isinstance(a[k], float) and isinstance(b[k], float):
            alt = a.get(k[:-2] + "alt", 0.0)  # the azimuth of the zenith is arbitrary
            if abs((a[k] - b[k] + 180) % 360 - 180) > 1e-6 / max(1e-9, math.cos(math.radians(alt))):
                return "%s: %s != %s" % (k, b[k], a[k])
        elif k == "dop":
            # nearly singular geometry amplifies rounding: the matrix is inverted with an error of about eps * dop^2
            x, y = (float("inf") if z == fp.NULL else z for z in (a[k], b[k]))
            if min(x, y) < 900 and abs(x - y) > 1e-6 * max(1.0, min(x, y)) ** 2:
                return "dop: %s != %s" % (b[k], a[k])
        else:
            d = fp.diff(b[k], a[k], TOL, k)
            if d:
                return d
    return None


def compare(rows, want, what):
    """rows: result of a call; want: [(reference row, must, clipped geometry)]."""
    left = list(want)
    for r in rows:
        near = [j for j, (a, _, _) in enumerate(left) if abs(a["time"][1] - r["time"][1]) <= TOL.t_ns]
        why = None
        for j in near:
            why = same(left[j][0], r, left[j][2])
            if why is None:
                del left[j]
                break
        else:
            return "%s has a row for %s that no single-time call returns%s" % (
                what, dt.datetime.fromtimestamp(r["time"][1] / 1e9, dt.timezone.utc), ": " + why if why else " (or more often)")
    for a, must, c in left:
        if must:
            return "%s lacks the row for %s (geometry %s%s)" % (
                what, dt.datetime.fromtimestamp(a["time"][1] / 1e9, dt.timezone.utc), fp.short(a["geometry"]),
                "" if c is None else ", %g square degrees in the mask" % c.area)
    return None


def arcs(idx, refs):
    """Occultation arcs of the samples idx from the single-time observations."""
    out = []
    for tx in sorted({r["transmitter"] for i in idx for r in refs[i]}):
        run = []
        for i in list(idx) + [None]:
            r = [x for x in refs[i] if x["transmitter"] == tx] if i is not None else []
            if r:
                run.append(r[0])
            elif run:
                out.append(run)
                run = []
    return out


def compare_ro(rows, want, what):
    import shapely

    left = list(want)
    for r in rows:
        for j, run in enumerate(left):
            if run[0]["transmitter"] == r["transmitter"] and abs(run[0]["time"][1] - r["start"][1]) <= TOL.t_ns:
                break
        else:
            return "%s has an arc of %s from %s that single-time calls do not give" % (what, r["transmitter"], r["start"])
        run = left.pop(j)
        pts = shapely.get_coordinates(shapely.from_wkb(r["geometry"].wkb), include_z=True)
        ref = [shapely.get_coordinates(shapely.from_wkb(x["geometry"].wkb), include_z=True)[0] for x in run]
        if len(pts) != len(ref):
            return "%s has an arc of %s with %d samples, single-time calls give %d" % (what, r["transmitter"], len(pts), len(ref))
        for a, b in zip(pts, ref):
            if abs(a - b).max() > 1e-3 or abs(a - b)[:2].max() > 1e-7:
                return "%s: tangent point %s != %s" % (what, a, b)
        if abs(r["end"][1] - run[-1]["time"][1]) > TOL.t_ns:
            return "%s: arc ends at %s, its last sample is at %s" % (what, r["end"], run[-1]["time"])
        best = min(range(len(ref)), key=lambda i: abs(ref[i][2]))
        ties = [x for x, p in zip(run, ref) if abs(abs(p[2]) - abs(ref[best][2])) < 1.0]
        why = None
        for x in ties:
            why = None
            for k in ("time", "position", "rx_tx_pitch", "rx_tx_yaw", "tp_tx_azimuth", "receiver", "transmitter"):
                if k.startswith("rx_tx_") or k.endswith("azimuth"):
                    if abs((r[k] - x[k] + 180) % 360 - 180) > 1e-6:
                        why = why or "%s: %s != %s" % (k, r[k], x[k])
                else:
                    why = why or fp.diff(r[k], x[k], TOL, k)
            if why is None:
                break
        if why:
            return "%s: arc attributes %s" % (what, why)
        if r["is_rising"] != run[0]["is_rising"]:
            return "%s: arc is_rising %s, its first sample %s" % (what, r["is_rising"], run[0]["is_rising"])
    if left:
        return "%s lacks an arc of %s from %s" % (what, left[0][0]["transmitter"], left[0][0]["time"])
    return None


def merged(rows):
    """Union of the polygons of a result."""
    import shapely

    gs = []
    for r in rows:
        if isinstance(r["geometry"], fp.Geom):
            g = shapely.force_2d(shapely.from_wkb(r["geometry"].wkb))
            gs.append(g if g.is_valid else shapely.make_valid(g))
    return shapely.unary_union(gs) if gs else shapely.Polygon()


def swept(rows, period, crs):
    """Area swept along runs of valid samples: (runs, union) or None where the projection is ambiguous (poles, long steps)."""
    import pyproj
    import shapely
    from shapely.affinity import translate

    fwd = pyproj.Transformer.from_crs("EPSG:4326", crs, always_xy=True)
    x180, _ = fwd.transform(180.0, 0.0)
    runs, last = [], None
    for r in rows:
        t, valid = r["time"], r["valid_obs"] is True
        orbit = int((t - rows[0]["time"]) / period)
        if valid and last == (True, orbit):
            runs[-1].append(r)
        elif valid:
            runs.append([r])
        last = (valid, orbit)
    shapes = []
    for run in runs:
        pts, shift = [], 0.0
        for i, r in enumerate(run):
            x, y = r["xy"]
            if abs(y) > 80:
                return None
            if i:
                d = x + shift - pts[-1][0]
                if 150 < abs(x - run[i - 1]["xy"][0]) < 210:
                    return None
                shift -= 360.0 * round(d / 360.0)
            pts.append((x + shift, y))
        width = sum(r["swath_width"] for r in run) / len(run)
        top = fwd.transform(0.0, 88.0)[1]
        xy = [(x / 180.0 * x180, fwd.transform(0.0, y)[1]) for x, y in pts]
        if max(abs(y) for _, y in xy) + width / 2 > top:
            return None
        g = (shapely.LineString(xy) if len(xy) > 1 else shapely.Point(xy[0])).buffer(width / 2)
        def back(a):
            a = a.copy()
            a[:, 1] = fwd.transform(0 * a[:, 0], a[:, 1], direction="INVERSE")[1]
            a[:, 0] = a[:, 0] / x180 * 180.0
            return a
        g = shapely.transform(g, back)
        world = shapely.box(-180, -90, 180, 90)
        shapes += [translate(g, 360.0 * k, 0).intersection(world) for k in (-2, -1, 0, 1, 2)]
    return len(runs), shapely.unary_union(shapes) if shapes else shapely.Polygon()


# ------------------------------------------------------------------- execution
def near_mask(job, path, f):
    """Move the mask so that the ground track passes it."""
    m = job["mask"]
    lon, lat = path[int(f * 997) % len(path)]
    b0 = m["boxes"][int(f * 9973) % len(m["boxes"])]
    fx, fy = (f * 31) % 1, (f * 57) % 1
    dx = lon - (b0[0] + fx * (b0[2] - b0[0]))
    dy = lat - (b0[1] + fy * (b0[3] - b0[1]))
    out = []
    for b in m["boxes"]:
        x = ((b[0] + dx + 180) % 360) - 180
        n = [round(x, 3), round(max(-89, b[1] + dy), 3), round(min(180, x + b[2] - b[0]), 3), round(min(89, b[3] + dy), 3)]
        if n[2] - n[0] > 0.5 and n[3] - n[1] > 0.5 and all(
                n[0] > q[2] or n[2] < q[0] or n[1] > q[3] or n[3] < q[1] for q in out):
            out.append(n)
    return dict(m, boxes=out or [[-30, -20, 20, 25]])


def execute(sc):
    st, v = Stats(), None
    w, job = sc["world"], dict(sc["job"])
    ts = [parse(t) for t in job["ts"]]
    k = job["op"]["op"]
    n = len(ts)
    whole = list(range(n))

    def fresh(fn):
        def go():
            set_config(sc["config"])
            return fn(BWorld(w, ts, gen.b_mask(job["mask"])))

        return runner.pristine(go)

    if job["mask"] is not None and job["near"] is not None:
        def path(W):
            tr = W.sats[job["op"]["sat"]].orbit.to_tle().get_orbit_track(ts)
            from skyfield.api import wgs84

            g = wgs84.geographic_position_of(tr)
            return [(float(x), float(y)) for x, y in zip(g.longitude.degrees, g.latitude.degrees)]

        job["mask"] = near_mask(job, fresh(path), job["near"])
    line = k == "compute_gt" and job["op"]["method"] == "line"
    over = {}
    if line:
        refjob = dict(job, op=dict(op="orbit_track", sat=job["op"]["sat"], instr=job["op"]["instr"], elev=job["op"]["elev"],
                                   mask=None, coords="wgs84", out="position", sunlit=False, solar=False, beta=False))
    elif k == "compute_gt":
        refjob = dict(job, op=dict(op="ground_track", sat=job["op"]["sat"], instr=job["op"]["instr"], elev=job["op"]["elev"],
                                   mask=None, crs=job["op"]["crs"], altaz=False, solar=False))
    else:
        refjob = job
    at = None
    try:
        refs = fresh(lambda W: [call(W, refjob, [i], masked=False, scalar=k in VECTORS) for i in whole])
        if k in VECTORS:
            refs = [r[0] for r in refs]
        if line:
            period = fresh(lambda W: W.sats[job["op"]["sat"]].orbit.to_tle().get_orbit_period().total_seconds())
        if job["mask"] is not None and k == "orbit_track":
            at = fresh(lambda W: [call(W, job, [i], masked=False, coords="wgs84")[0]["geometry"] for i in whole])
    except RuntimeError as e:
        # the single-time call itself raises: nothing to compare with (reported by its own checks if it should not)
        refs = None
        err = str(e)

    u = union_of(job["mask"]) if job["mask"] is not None else None
    bad = False
    if refs is not None and not line and k in ("ground_track", "pixels", "compute_gt"):
        import shapely

        bad = any(not shapely.from_wkb(r["geometry"].wkb).is_valid for i in whole for r in refs[i])

    def line_model(idx):
        import shapely

        return swept([dict(r, time=(ts[i] - ts[0]).total_seconds(), xy=shapely.from_wkb(r["geometry"].wkb).coords[0][:2])
                      for i in idx for r in refs[i]], period, job["op"]["crs"])

    def judge(rows, idx, what):
        if k in VECTORS:
            for i, r in zip(idx, rows):
                d = fp.diff(r, refs[i], TOL)
                if d:
                    return "%s, time %s: %s (batch != single)" % (what, job["ts"][i], d)
            return None
        if k == "ro":
            return compare_ro(rows, arcs(idx, refs), what)
        if line:
            m = line_model(idx)
            st["probe.lines"] += 1
            want, got = m[1], merged(rows)
            if u is not None:
                want = want.intersection(u)
            d = got.symmetric_difference(want).area
            if d > 1e-6 + 0.01 * want.area:
                return "%s covers %g square degrees, the area swept along its valid samples is %g (difference %g)" % (what, got.area, want.area, d)
            return None
        if k == "compute_gt":
            want = merged([r for i in idx for r in refs[i] if r["valid_obs"] is True])
            if u is not None:
                want = want.intersection(u)
            got = merged(rows)
            if got.symmetric_difference(want).area > 1e-6 + 1e-6 * want.area:
                return "%s covers %g square degrees, the valid single-time footprints cover %g (difference %g)" % (
                    what, got.area, want.area, got.symmetric_difference(want).area)
            return None
        if u is None:
            return compare(rows, [(r, True, None) for i in idx for r in refs[i]], what)
        want = [c for i in idx for r in refs[i] for c in [clipped(r, u, at[i] if at else None)] if c]
        return compare(rows, want, what)

    trace = dict(job=describe(job["op"]), mask=job["mask"], batches=job["batches"], raised=refs is None)
    rows = []
    done = 0
    if refs is None:
        st["probe.single_call_raises"] += 1
        trace["error"] = err[:300]

        def larger(W):
            try:
                call(W, job, whole if n > 1 else [0, 0], masked=False)
            except Exception:  # noqa
                return False
            return True

        if fresh(larger):
            v = viol("raises", "%s for a single time raises (%s) although the call for several times returns" % (
                describe(job["op"]), err[:300]))
    elif line and line_model(whole) is None:
        st["probe.line_not_judged"] += 1  # across a pole or with steps of half a revolution: no defined result
    elif bad and u is not None:
        st["probe.invalid_footprint"] += 1
    else:
        def all_at_once(W):
            try:
                return ("ok", call(W, job, whole))
            except Exception as e:  # noqa
                return ("exc", "%s: %s" % (type(e).__name__, str(e)[:300]))

        s, rows = fresh(all_at_once)
        what = "%s of %d times%s" % (describe(job["op"]), n, "" if u is None else " with mask %s" % job["mask"])
        if s == "exc":
            v = viol("raises", "%s raises %s although every single-time call returns" % (what, rows))
        else:
            d = judge(rows, whole, what)
            if d:
                v = viol("masked" if u is not None else "batch", d)
        done += n
    if v is None and refs is not None and not (bad and u is not None):
        batches = [b for b in job["batches"] if not line or line_model(b) is not None]

        def go():
            set_config(sc["config"])
            W = BWorld(w, ts, gen.b_mask(job["mask"]))
            s2 = Stats()
            try:
                out = campaign.run(sc["campaign"], [lambda b=b: call(W, job, b) for b in batches], s2)
            except campaign.Failed as e:
                return ("failed", (e.kind, str(e)), dict(s2))
            return ("ok", out, dict(s2))

        s, out, s2 = runner.pristine(go)
        st.update(s2)
        if s == "failed":
            v = viol("raises", "batches of %s%s: %s" % (describe(job["op"]), "" if u is None else " with mask %s" % job["mask"], out))
        else:
            for b, rows in out:
                d = judge(rows, batches[b], "batch %s of %s%s" % (batches[b], describe(job["op"]), "" if u is None else " with mask %s" % job["mask"]))
                if d:
                    v = viol("masked" if u is not None else "batch", d)
                    break
            done += len(out)
            st["probe.batches"] += len(out)
    st["op." + k] += 1
    st["probe.masked"] += u is not None
    st["sim_s"] += abs((ts[-1] - ts[0]).total_seconds())
    st["probe.samples_kept_by_mask"] += 0 if u is None or refs is None or v or (bad and u is not None) else len(rows)
    return dict(violation=v, stats=dict(st), digest=h(repr(refs), v and v["msg"]), sig=h(sc["job"], sc["campaign"]),
                nontrivial=done > 0 and (u is not None or len(job["batches"]) > 1 or k in VECTORS), trace=trace)


def shrink(sc):
    job = sc["job"]
    for i in range(len(job["ts"])):
        if len(job["ts"]) > 1:
            b = [[x - (x > i) for x in y if x != i] for y in job["batches"]]
            yield with_key(sc, "job", dict(job, ts=job["ts"][:i] + job["ts"][i + 1:], batches=[x for x in b if x]))
    if len(job["batches"]) > 1:
        yield with_key(sc, "job", dict(job, batches=[[i for b in job["batches"] for i in b]]))
    if job["mask"] is not None:
        yield with_key(sc, "job", dict(job, mask=None))
        for x in without(job["mask"]["boxes"]):
            if x:
                yield with_key(sc, "job", dict(job, mask=dict(job["mask"], boxes=x)))
    for c in campaign.shrink_campaign(sc["campaign"]):
        yield with_key(sc, "campaign", c)
    for key, val in (("altaz", False), ("solar", False), ("sunlit", False), ("beta", False), ("elev", 0), ("coords", "wgs84"), ("out", "position")):
        if key in job["op"] and job["op"][key] != val:
            yield with_key(sc, "job", dict(job, op=dict(job["op"], **{key: val})))
