"""C08: visibility intervals are complete and true for any window split."""
import datetime as dt
import math

from .. import campaign, fp, gen, ops, runner
from ..common import Stats, h, set_config, viol, with_key, without
from ..gen import UTC, iso, parse

ID = "C08"
LEVEL = "exploration"
RULE = ("a run is one campaign collecting downlinks and observations over a window split at seeded instants (also inside "
        "passes, at rises, sets and element-set boundaries) by worker threads that are killed and retried, every piece "
        "compared with an independently sampled elevation history; non-trivial when some piece reported an interval; "
        "distinct by (mission, cuts, arrival order)")
RUNS = {"quick": 430, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2400}
ASSUME = ["elevation truth comes from skyfield/sgp4 sampled independently of the library's event search"]

NOREPEAT = dict(repeat_cycle_for_orbit_track=False, repeat_cycle_for_observation_events=False)
REPEAT = dict(repeat_cycle_search_duration_days=3)


def generate(rng, i, tier):
    kinds = rng.choice([["circular", "sso", "keplerian", "tle"]] * 4 + [["multitle"]] * 3 + [["meo"], ["geo"], ["geo"], ["heo"], ["heo"], ["repeat"], ["repeat"]])
    kind = rng.choice(kinds)
    ep = gen.EPOCH0 + dt.timedelta(minutes=rng.randrange(0, 60 * 24 * 20))
    sat = gen.g_satellite(rng, 0, [kind], ep, n_instr=rng.choice([1, 2]))
    if kind in ("geo", "heo", "meo"):
        for q in sat["instruments"]:
            if rng.random() < 0.7:
                q["field_of_regard"] = 180.0
            # a tilted view may miss the Earth from up there; the middle of a pass is uncertain (dips, see check_piece)
            for key in ("pointed", "req_self_sunlit", "req_target_sunlit", "access_time_fixed"):
                q.pop(key, None)
    n = rng.choice([1, 2])
    pts = [gen.g_point(rng, k) for k in range(n)]
    sts = [gen.g_station(rng, k) for k in range(n)]
    for s in sts:
        s["min_elevation_angle"] = rng.choice([0.0, 5.0, 10.0, 25.0, 60.0, 80.0])
        s["min_access_time"] = rng.choice([0, 0, 0, 10, 120, 600] if kind not in ("geo", "meo", "heo") else [0, 0, 10, 600, 7200, 14400])
    under = rng.random()  # place the first point/station under the track
    hours = {"meo": 24, "geo": rng.choice([12, 12, 25, 49]), "heo": 36, "multitle": rng.choice([12, 30]), "repeat": 52}.get(kind, rng.choice([3, 8, 20]))
    st = ep + dt.timedelta(seconds=rng.randrange(-7200, 40000))
    cuts = [[rng.choice(["any", "any", "edge", "inside", "inside", "epoch"]), round(rng.random(), 6), rng.choice([-1, 0, 0, 1]) * rng.choice([0.3, 2, 20])]
            for _ in range(rng.choice([0, 1, 2, 4, 6]))]
    return dict(kind=kind, sat=sat, points=pts, stations=sts, under=round(under, 6), start=iso(st),
                end=iso(st + dt.timedelta(hours=hours)), cuts=cuts, camp=campaign.g_campaign(rng, 300),
                config=dict(REPEAT if kind == "repeat" else NOREPEAT), what=rng.choice(["down", "down", "obs"]),
                whole=rng.random() < 0.7, solar=rng.random() < 0.4,
                under_b=[rng.randrange(4), rng.randrange(-450, 450)] if kind == "multitle" and rng.random() < 0.8 else None,
                jump=round(rng.random(), 6) if kind == "multitle" and rng.random() < 0.5 else None)


# --------------------------------------------------------------------- truth
class Truth:
    """Elevation of one satellite seen from one place, sampled independently of the code under test."""

    def __init__(self, tle, place):
        from skyfield.api import EarthSatellite, load, wgs84

        self.ts = load.timescale()
        self.sats = [EarthSatellite(tle[i], tle[i + 1], "", self.ts) for i in range(0, len(tle), 2)]
        self.ep = [s.epoch.tt for s in self.sats]
        self.topos = wgs84.latlon(place["latitude"], place["longitude"], place.get("elevation", 0))

    def time(self, secs, t0):
        return self.ts.from_datetimes([t0 + dt.timedelta(seconds=float(s)) for s in secs])

    def jd(self, t0, secs):
        import numpy as np

        a = self.ts.from_datetime(t0)
        return self.ts.tt_jd(a.whole, a.tt_fraction + np.asarray(secs, float) / 86400.0)

    def el(self, t0, secs):
        """Elevations (deg) at t0 + secs, each with the element set whose epoch is closest."""
        import numpy as np

        secs = np.atleast_1d(np.asarray(secs, float))
        t = self.jd(t0, secs)
        if len(self.sats) == 1:
            return (self.sats[0] - self.topos).at(t).altaz()[0].degrees
        d = np.abs(np.subtract.outer(np.asarray(self.ep), t.tt))
        k = d.argmin(axis=0)
        out = np.empty(len(secs))
        for j in range(len(self.sats)):
            m = k == j
            if m.any():
                out[m] = (self.sats[j] - self.topos).at(self.jd(t0, secs[m])).altaz()[0].degrees
        return out

    def seen(self, t0, s):
        """Elevation and azimuth at t0 + s, and those of the Sun; is the satellite lit (None near the shadow's edge)?"""
        from tatc.constants import de421

        t = self.jd(t0, [s])[0]
        k = min(range(len(self.sats)), key=lambda j: abs(self.ep[j] - t.tt))
        a, z, _ = (self.sats[k] - self.topos).at(t).altaz()
        sa, sz, _ = (de421["earth"] + self.topos).at(t).observe(de421["sun"]).apparent().altaz()
        lit = {bool(self.sats[k].at(self.jd(t0, [s + d])[0]).is_sunlit(de421)) for d in (-3, 0, 3)}
        return a.degrees, z.degrees, sa.degrees, sz.degrees, lit.pop() if len(lit) == 1 else None

    def altitude(self, t0):
        from skyfield.api import wgs84

        k = min(range(len(self.sats)), key=lambda j: abs(self.ep[j] - self.ts.from_datetime(t0).tt))
        return wgs84.geographic_position_of(self.sats[k].at(self.ts.from_datetime(t0))).elevation.m

    def boundaries(self, t0, t1):
        """Seconds after t0 at which the closest element set changes."""
        a, b = self.ts.from_datetime(t0).tt, self.ts.from_datetime(t1).tt
        e = sorted(self.ep)
        return [((x + y) / 2 - a) * 86400 for x, y in zip(e, e[1:]) if a < (x + y) / 2 < b]


def grid(span, step):
    import numpy as np

    n = max(8, int(span / step))
    return np.linspace(0, span, n + 1)


def components(t, el, th):
    """Runs with el >= th as [left, right, peak], edges linearly interpolated."""
    up = el >= th
    out, i, n = [], 0, len(t)
    while i < n:
        if not up[i]:
            i += 1
            continue
        j = i
        while j + 1 < n and up[j + 1]:
            j += 1
        a = t[i] if i == 0 else t[i - 1] + (t[i] - t[i - 1]) * (th - el[i - 1]) / (el[i] - el[i - 1])
        b = t[j] if j == n - 1 else t[j] + (t[j + 1] - t[j]) * (el[j] - th) / (el[j] - el[j + 1])
        out.append([float(a), float(b), float(el[i:j + 1].max())])
        i = j + 1
    return out


class Bad(Exception):
    def __init__(self, kind, msg):
        self.v = viol(kind, msg)


EDGE_S = 1.3  # the event search stops at half a second; allow twice that and rounding
DEG = 0.03


def check_piece(rows, th, t0, t1, truth, min_access, what, valid=None, fixed=None, slow=False):
    """rows: reported (left, right) seconds after t0, in reported order (or mids for fixed access)."""
    import numpy as np

    span = (t1 - t0).total_seconds()
    step = 10.0 if span < 130000 else 20.0
    jumps = [b for b in truth.boundaries(t0, t1)]
    t = grid(span, step)
    if jumps:  # resolve what happens around a change of element sets
        near = np.concatenate([j + np.arange(-21, 22) + 0.01 for j in jumps])
        t = np.unique(np.concatenate((t, near[(near > 0) & (near < span)])))
    el = truth.el(t0, t)
    last = -1e18
    for a, b in rows if fixed is None else []:
        if a < -0.005 or b > span + 0.005 or b < a:
            raise Bad("outside-window", "%s: interval %.3f..%.3f of a window of %.3f s" % (what, a, b, span))
        if a < last - 0.005:
            raise Bad("overlap", "%s: intervals overlap or are out of order at %.3f s" % (what, a))
        last = b
        for edge, name in ((a, "start"), (b, "end")):
            bound = 0.0 if name == "start" else span
            if abs(edge - bound) <= 0.01:
                continue
            if any(abs(edge - j) < EDGE_S for j in jumps):
                continue
            e = truth.el(t0, [edge - EDGE_S, edge, edge + EDGE_S]) - th
            if min(abs(e)) > DEG and not (min(e) < 0 < max(e)):
                raise Bad("false-edge", "%s: reported %s at %.3f s where the elevation is %.3f (required %.3f)" % (
                    what, name, edge, e[1] + th, th))
        m = (t > a) & (t < b)
        if slow and m.any():  # a dip between two culminations may be overlooked by the event search of skyfield
            ends = truth.el(t0, [a, a + EDGE_S, b - EDGE_S, b]) >= th - DEG
            x = np.flatnonzero(m)
            up = np.concatenate((x[:1] if ends[:2].any() else x[:0], np.flatnonzero(m & (el >= th - DEG)), x[-1:] if ends[2:].any() else x[:0]))
            if len(up):
                m[up[0]:up[-1] + 1] = False
        for x, y in zip(t[m], el[m]):
            if y < th - DEG and min(abs(x - a), abs(x - b)) > EDGE_S and not any(abs(x - j) < EDGE_S for j in jumps):
                raise Bad("below-horizon", "%s: reported visible at %.1f s where the elevation is %.3f (required %.3f)" % (what, x, y, th))
        if b - a < min_access - 0.002:
            raise Bad("short", "%s: reported an interval of %.3f s, minimum %.1f s" % (what, b - a, min_access))
    comps = components(t, el, th)
    n_must = 0
    for a, b, peak in comps:
        hard = b - a >= min_access + 3.0 and b - a > 3.0 and peak > th + DEG
        soft = b - a >= min_access - 3.0
        ok = True if valid is None else valid(t0, (a + b) / 2)
        if fixed is not None:
            mid = (a + b) / 2
            hit = [x for x in fixed if abs(x - mid) < 6.0 or (peak < th + 2 and abs(x - mid) < 60)]
            if hard and ok is True and not hit:
                raise Bad("missed", "%s: nothing reported for the pass %.1f..%.1f s (peak %.2f, required %.2f)" % (what, a, b, peak, th))
            n_must += 1
            continue
        cover = [(x, y) for x, y in rows if y > a + 1 and x < b - 1]
        if hard and ok is True:
            n_must += 1
            m = (t > a + EDGE_S) & (t < b - EDGE_S) & (el > th + DEG)
            for x, y in zip(t[m], el[m]):
                if not any(p - EDGE_S <= x <= q + EDGE_S for p, q in rows) and not any(abs(x - j) < EDGE_S for j in jumps):
                    raise Bad("missed", "%s: elevation %.3f (required %.3f) at %.1f s of a pass %.1f..%.1f s is not reported; reported %s" % (
                        what, y, th, x, a, b, [(round(p, 1), round(q, 1)) for p, q in rows]))
            if b - a > 6 and len(cover) > 1 and peak > th + DEG:
                raise Bad("split", "%s: the pass %.1f..%.1f s is reported as %d intervals" % (what, a, b, len(cover)))
        elif ok is False and cover and b - a > 3:
            raise Bad("invalid", "%s: pass %.1f..%.1f s does not meet the instrument's conditions but is reported" % (what, a, b))
    if fixed is not None:
        for x in fixed:
            if not any(a - 5 <= x <= b + 5 for a, b, _ in comps):
                e = truth.el(t0, [x])[0]
                if e < th - DEG:
                    raise Bad("below-horizon", "%s: observation centred at %.1f s where the elevation is %.3f (required %.3f)" % (what, x, e, th))
    return n_must


def check_piece_repeat(rows, th, t0, t1, models, what, tol=1.5):
    """Repeat cycle propagation: wrong only where every acceptable model disagrees by far."""
    import numpy as np

    span = (t1 - t0).total_seconds()
    t = grid(span, 30.0)
    els = np.array([m(t0, t) for m in models])
    lo, hi = els.min(axis=0), els.max(axis=0)
    last = -1e18
    for a, b in rows:
        if a < -0.005 or b > span + 0.005 or b < a:
            raise Bad("outside-window", "%s: interval %.3f..%.3f of a window of %.3f s" % (what, a, b, span))
        if a < last - 0.005:
            raise Bad("overlap", "%s: intervals overlap or are out of order at %.3f s" % (what, a))
        last = b
    for x, u, v in zip(t, lo, hi):
        inside = any(a <= x <= b for a, b in rows)
        if u > th + tol and not inside:
            raise Bad("missed", "%s (repeat cycle): elevation %.2f (required %.2f) at %.0f s is not reported" % (what, u, th, x))
        if v < th - tol and inside:
            raise Bad("below-horizon", "%s (repeat cycle): reported visible at %.0f s where the elevation is %.2f (required %.2f)" % (what, x, v, th))
    return int((lo > th + tol).any())


# ------------------------------------------------------------------ execution
def place_under(sc, tle):
    """Put the first point and station under the track."""
    from skyfield.api import wgs84

    tr = Truth(tle, dict(latitude=0, longitude=0))
    t0, t1 = parse(sc["start"]), parse(sc["end"])
    at = t0 + dt.timedelta(seconds=round(sc["under"] * (t1 - t0).total_seconds()))
    bs = tr.boundaries(t0, t1)
    if sc.get("under_b") and bs:  # a pass across the change of element sets
        at = t0 + dt.timedelta(seconds=bs[sc["under_b"][0] % len(bs)] + sc["under_b"][1])
    k = min(range(len(tr.sats)), key=lambda j: abs(tr.ep[j] - tr.ts.from_datetime(at).tt))
    g = wgs84.geographic_position_of(tr.sats[k].at(tr.ts.from_datetime(at)))
    off = (sc["under"] * 1e4) % 4 - 2
    lat = max(-85.0, min(85.0, round(float(g.latitude.degrees) + off, 4)))
    lon = round(float(g.longitude.degrees), 4)
    if sc.get("jump") is not None and sc.get("under_b") and bs:
        # a place that is in view with one element set and not with the next at the moment of the change
        lat, lon = jump_place(sc, tr, t0, bs[sc["under_b"][0] % len(bs)]) or (lat, lon)
    pts = [dict(p) for p in sc["points"]]
    sts = [dict(s) for s in sc["stations"]]
    pts[0].update(latitude=lat, longitude=lon)
    sts[0].update(latitude=lat, longitude=lon)
    return pts, sts


def jump_place(sc, tr, t0, b):
    from skyfield.api import wgs84
    from tatc import utils

    now = tr.jd(t0, [b])[0]
    i, j = sorted(range(len(tr.sats)), key=lambda j: abs(tr.ep[j] - now.tt))[:2]
    i, j = (i, j) if tr.ep[i] < tr.ep[j] else (j, i)
    if sc["what"] == "down":
        th = sc["stations"][0]["min_elevation_angle"]
    else:
        th = utils.compute_min_elevation_angle(tr.altitude(t0), sc["sat"]["instruments"][0]["field_of_regard"])
    want = sc["jump"] < 0.7  # appears rather than vanishes
    found = []
    for k in (i, j):
        g = wgs84.geographic_position_of(tr.sats[k].at(now))
        for r in (0.5, 1, 2, 4, 7, 10, 14, 18):
            for az in range(0, 360, 30):
                la = float(g.latitude.degrees) + r * math.cos(math.radians(az))
                if abs(la) > 80:
                    continue
                lo = float(g.longitude.degrees) + r * math.sin(math.radians(az)) / math.cos(math.radians(la))
                p = wgs84.latlon(la, lo)
                a, c = ((tr.sats[n] - p).at(now).altaz()[0].degrees - th for n in (i, j))
                if (c > 0.2 and a < -0.2) if want else (a > 0.2 and c < -0.2):
                    found.append((round(la, 4), round((lo + 180) % 360 - 180, 4)))
    return found[int(sc["jump"] * 1e5) % len(found)] if found else None


def make_cuts(sc, truth, th, t0, t1):
    span = (t1 - t0).total_seconds()
    t = grid(span, 20.0)
    comps = components(t, truth.el(t0, t), th)
    out = []
    for how, f, d in sc["cuts"]:
        x = f * span
        if how in ("edge", "inside") and comps:
            a, b, _ = comps[int(f * 997) % len(comps)]
            x = (a if int(f * 1e5) % 2 else b) + d if how == "edge" else a + (b - a) * ((f * 31) % 1)
        elif how == "epoch":
            bs = truth.boundaries(t0, t1)
            if bs:
                x = bs[int(f * 997) % len(bs)] + d
        out.append(round(x, 3))
        if how == "inside":  # a window that lies inside the pass
            out.append(round(x + 5 + 20 * ((f * 57) % 1), 3))
    out = sorted(x for x in set(out) if 1 < x < span - 1)
    good = []
    for x in out:
        if not good or x - good[-1] > 1:
            good.append(x)
    return [t0] + [t0 + dt.timedelta(seconds=x) for x in good] + [t1]


def rows_secs(frame, t0, cols=("start", "end")):
    b = fp.canon(t0)[1]
    return [tuple((r[c][1] - b) / 1e9 for c in cols) for r in fp.frame(fp.canon(frame))] if len(frame) else []


def validity(sc_instr, truth, sat, instr, point):
    """True/False/None(ambiguous): documented conditions at the middle of the pass."""
    if not any(k in sc_instr for k in ("req_self_sunlit", "req_target_sunlit", "pointed")):
        return None
    from skyfield.api import wgs84
    from shapely.geometry import Point as P
    from tatc.constants import de421

    def one(t0, s):
        t = truth.jd(t0, [s])[0]
        k = min(range(len(truth.sats)), key=lambda j: abs(truth.ep[j] - t.tt))
        pos = truth.sats[k].at(t)
        if sc_instr.get("req_self_sunlit") is not None and bool(pos.is_sunlit(de421)) != sc_instr["req_self_sunlit"]:
            return False
        if sc_instr.get("req_target_sunlit") is not None:
            alt = (de421["earth"] + truth.topos).at(t).observe(de421["sun"]).apparent().altaz()[0].degrees
            if (alt > 0) != sc_instr["req_target_sunlit"]:
                return False
        if sc_instr.get("pointed"):
            f = instr.compute_footprint(pos, elevation=point["elevation"])
            return bool(f.contains(P(point["longitude"], point["latitude"])))
        return True

    def check(t0, s):
        r = {one(t0, s + d) for d in (-6, -2, 0, 2, 6)}
        return r.pop() if len(r) == 1 else None

    return check


def execute(sc):
    import numpy as np
    from tatc import analysis, utils

    st, v = Stats(), None
    orders, seen, missed = [], 0, 0
    set_config(sc["config"])
    try:
        sat0 = gen.b_satellite(sc["sat"])
        tle = list(runner.pristine(lambda: list(gen.b_satellite(sc["sat"]).orbit.to_tle().tle)))
        rc = None
        if sc["kind"] == "repeat":
            def cyc():
                set_config(sc["config"])
                r = gen.b_satellite(sc["sat"]).orbit.to_tle().get_repeat_cycle()
                return None if r is None else r.total_seconds()
            rc = runner.pristine(cyc)
            st["probe.repeat_cycles"] += int(rc is not None)
        pts, sts = place_under(sc, tle)
        t0, t1 = parse(sc["start"]), parse(sc["end"])
        st["sim_s"] += (t1 - t0).total_seconds() * 2
        jobs = []  # (place spec, instrument index or None, from, to)
        if sc["what"] == "down":
            for s in sts:
                e = make_cuts(sc, Truth(tle, s), s["min_elevation_angle"], t0, t1)
                jobs += [(s, None, a, b) for a, b in zip(e, e[1:])]
            if sc["whole"]:
                jobs.insert(0, (sts, None, t0, t1))
        else:
            for p in pts:
                for k in range(len(sc["sat"]["instruments"])):
                    tr = Truth(tle, p)
                    th = utils.compute_min_elevation_angle(tr.altitude(t0), sc["sat"]["instruments"][k]["field_of_regard"])
                    e = make_cuts(sc, tr, th, t0, t1)
                    jobs += [(p, k, a, b) for a, b in zip(e, e[1:])]
                    if sc["whole"]:
                        jobs.append((p, k, t0, t1))
        jobs = jobs[:24]

        def task(j):
            place, k, a, b = j
            if k is None:
                return lambda: analysis.collect_downlinks([gen.b_station(x) for x in place] if isinstance(place, list) else gen.b_station(place), sat0, a, b)
            return lambda: analysis.collect_observations(gen.b_point(place), sat0, a, b, k, not sc.get("solar"))

        got = campaign.run(dict(sc["camp"], dedup=True), [task(j) for j in jobs], st)
        orders = [k for k, _ in got]
        res = dict(got)
        pieces = []
        for n, (place, k, a, b) in enumerate(jobs):
            if isinstance(place, list):  # all stations in one call
                other = set(res[n]["station"]) - {x["name"] for x in place}
                if other:
                    raise Bad("names", "downlinks to %s name the stations %s" % ([x["name"] for x in place], sorted(other)))
                if list(res[n]["start"]) != sorted(res[n]["start"]):
                    raise Bad("order", "downlinks to several stations are not in the order of their starts")
                pieces += [(x, k, a, b, res[n][res[n]["station"] == x["name"]]) for x in place]
            else:
                pieces.append((place, k, a, b, res[n]))
        for place, k, a, b, f in pieces:
            truth = Truth(tle, place)
            what = "%s %s..%s" % ("downlinks to %s" % place.get("name") if k is None else "observations of point %s" % place["id"], iso(a), iso(b))
            rows = rows_secs(f, a)
            seen += len(rows)
            ins = None if k is None else sc["sat"]["instruments"][k]
            if k is None:
                th, acc = place["min_elevation_angle"], place["min_access_time"]
                names = {r["station"] for r in fp.frame(fp.canon(f))} if len(f) else set()
                if names - {place["name"]}:
                    raise Bad("names", "%s: stations %s" % (what, names))
            said = dict(satellite=sc["sat"]["name"])
            if k is not None:
                said.update(instrument=ins["name"], point_id=place["id"])
            for r, (p, q, x) in zip(fp.frame(fp.canon(f)), rows_secs(f, a, ("start", "end", "epoch"))):
                if any(r[y] != said[y] for y in said):
                    raise Bad("names", "%s: a row says %s, expected %s" % (what, {y: r[y] for y in said}, said))
                if abs((p + q) / 2 - x) > 0.002:
                    raise Bad("epoch", "%s: the interval %.3f..%.3f s is dated %.3f s" % (what, p, q, x))
            for g in f.geometry:
                if max(abs(g.x - place["longitude"]), abs(g.y - place["latitude"]), abs(g.z - place.get("elevation", 0))) > 1e-9:
                    raise Bad("place", "%s: located at %s" % (what, g))
            if k is not None:
                th, acc = float(utils.compute_min_elevation_angle(truth.altitude(a), ins["field_of_regard"])), ins.get("min_access_time", 0)
            if math.isnan(th):
                continue
            if rc is not None:
                ep = truth.sats[0].epoch.utc_datetime()

                def fold(origin):
                    def m(base, t):
                        off = np.asarray(t, float) + (base - origin).total_seconds()
                        return truth.el(origin, np.sign(off) * np.mod(np.abs(off), rc))
                    return m

                models = [truth.el, fold(ep), fold(a)]
                if k is None or not (ins.get("access_time_fixed") or ins.get("pointed") or "req_self_sunlit" in ins or "req_target_sunlit" in ins or acc):
                    if acc == 0:
                        missed += check_piece_repeat(rows, th, a, b, models, what)
                if k is not None and len(f):
                    for r, (c,) in zip(fp.frame(fp.canon(f)), rows_secs(f, a, ("epoch",))):
                        es = [float(m(a, [c])[0]) for m in models]
                        if min(abs(r["sat_alt"] - x) for x in es) > 2.0:
                            raise Bad("sat-alt", "%s (repeat cycle): observation at %.0f s reports elevation %.2f, expected %s" % (
                                what, c, r["sat_alt"], [round(x, 2) for x in es]))
                continue
            fixed = None
            if ins is not None and ins.get("access_time_fixed"):
                fixed = [x for (x,) in rows_secs(f, a, ("epoch",))]
                for (p, q), x in zip(rows, fixed):
                    if abs((q - p) - acc) > 0.002 or abs((p + q) / 2 - x) > 0.002:
                        raise Bad("fixed", "%s: fixed access of %.3f s around %.3f s reported as %.3f..%.3f" % (what, acc, x, p, q))
            val = None if ins is None else validity(ins, truth, sat0, sat0.instruments[k], place)
            missed += check_piece(rows, th, a, b, truth, acc, what, val, fixed, sc["kind"] in ("heo", "geo", "meo"))
            if k is not None and len(f):
                for r, (c,) in zip(fp.frame(fp.canon(f)), rows_secs(f, a, ("epoch",))):
                    if any(abs(c - j) < 0.01 for j in truth.boundaries(a, b)):
                        continue
                    e, z, sa, sz, lit = truth.seen(a, c)
                    off = lambda p, q, el: abs((p - q + 180) % 360 - 180) * math.cos(math.radians(el))
                    if abs(r["sat_alt"] - e) > 0.02 or off(r["sat_az"], z, e) > 0.02:
                        raise Bad("sat-alt", "%s: observation at %.1f s reports elevation %.3f and azimuth %.3f, expected %.3f and %.3f" % (
                            what, c, r["sat_alt"], r["sat_az"], e, z))
                    if sc.get("solar"):
                        st["probe.solar_angles"] += 1
                        if abs(r["solar_alt"] - sa) > 0.02 or off(r["solar_az"], sz, sa) > 0.02 or lit is not None and bool(r["sat_sunlit"]) != lit:
                            raise Bad("solar", "%s: observation at %.1f s reports the Sun at %.3f, %.3f (satellite lit: %s), expected %.3f, %.3f (%s)" % (
                                what, c, r["solar_alt"], r["solar_az"], r["sat_sunlit"], sa, sz, lit))
    except Bad as e:
        v = e.v
    except campaign.Failed as e:
        v = viol(e.kind, e)
    st["probe.reported_intervals"] += seen
    st["probe.required_passes"] += missed
    st["probe.kind_" + sc["kind"]] += 1
    return dict(violation=v, stats=dict(st), digest=h(orders, seen, missed, v and v["msg"], sorted(st.items())),
                sig=h(sc["sat"], sc["start"], sc["cuts"], orders), nontrivial=seen > 0, trace=dict(arrivals=orders))


def shrink(sc):
    for c in without(sc["cuts"]):
        yield with_key(sc, "cuts", c)
    if sc["whole"] and sc["cuts"]:
        yield with_key(sc, "whole", False)
    for k in ("points", "stations"):
        if len(sc[k]) > 1:
            yield with_key(sc, k, sc[k][:1])
    if len(sc["sat"]["instruments"]) > 1:
        for q in sc["sat"]["instruments"]:
            yield with_key(sc, "sat", dict(sc["sat"], instruments=[q]))
    for c in campaign.shrink_campaign(sc["camp"]):
        yield with_key(sc, "camp", c)
    a, b = parse(sc["start"]), parse(sc["end"])
    if b - a > dt.timedelta(hours=2):
        yield with_key(sc, "end", iso(a + (b - a) / 2))
