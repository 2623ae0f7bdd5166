"""Catalogue of public operations, as JSON descriptions that can be generated, replayed and shrunk."""
import datetime as dt

from . import gen
from .gen import parse, iso

COST = {  # rough milliseconds, used to keep scenarios small
    "observe": 30, "multi": 60, "downlinks": 30, "orbit_track": 20, "ground_track": 40, "compute_gt": 60,
    "pixels": 60, "dop": 10, "ro": 40, "to_tle": 2, "repeat": 50, "members": 5, "closest": 2, "partition": 2,
    "track": 5, "events": 20, "footprint": 40, "limb": 10, "instr": 1, "aggregate": 15, "reduce": 10,
    "grid": 15, "latency": 10, "reduce_lat": 8, "grid_lat": 15, "points": 10, "cells": 10, "normalize": 5,
    "derived": 3, "elements": 2, "valid": 5, "center": 10, "pixel_array": 20, "split": 3, "buffer": 5, "conv": 2,
    "con_info": 2, "fields": 2,
}


# -------------------------------------------------------------- plain frames
def t_ns(s):
    import pandas as pd

    return pd.Timestamp(s)


def nothing(down):
    """What a worker delivers that saw no pass: an equatorial satellite and a place near the pole."""
    from tatc import analysis, schemas

    s = schemas.Satellite(name="S0", orbit=schemas.CircularOrbit(altitude=500e3, inclination=0.0, epoch=parse("2023-01-01T00:00:00+00:00")),
                          instruments=[schemas.Instrument(name="I", field_of_regard=60.0)])
    a, b = parse("2023-01-01T00:00:00+00:00"), parse("2023-01-01T00:01:00+00:00")
    if down:
        return analysis.collect_downlinks(schemas.GroundStation(name="G0", latitude=85.0, longitude=0.0), s, a, b)
    return analysis.collect_observations(schemas.Point(id=0, latitude=85.0, longitude=0.0), s, a, b)


def obs_frame(rows, base):
    """Observation frame exactly as collect_observations lays it out (rows: id,sat,instr,start_s,end_s)."""
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import Point

    b = pd.Timestamp(parse(base) if isinstance(base, str) else base)
    recs = []
    for r in rows:
        s, e = b + pd.Timedelta(seconds=r[3]), b + pd.Timedelta(seconds=r[4])
        recs.append(dict(point_id=r[0], geometry=Point(r[0] * 7.0 % 170, r[0] * 5.0 % 80, 0), satellite=r[1],
                         instrument=r[2], start=s, end=e, epoch=s + (e - s) / 2, sat_alt=45.0, sat_az=90.0))
    if not recs:
        return nothing(False)
    return gpd.GeoDataFrame(recs, crs="EPSG:4326")


def down_frame(rows, base):
    """Downlink frame as collect_downlinks lays it out (rows: station,sat,start_s,end_s)."""
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import Point

    b = pd.Timestamp(parse(base) if isinstance(base, str) else base)
    recs = []
    for r in rows:
        s, e = b + pd.Timedelta(seconds=r[2]), b + pd.Timedelta(seconds=r[3])
        recs.append(dict(station=r[0], geometry=Point(10, 20, 0), satellite=r[1], start=s, end=e,
                         epoch=s + (e - s) / 2))
    if not recs:
        return nothing(True)
    return gpd.GeoDataFrame(recs, crs="EPSG:4326").sort_values("start").reset_index(drop=True)


def cells_frame(boxes):
    import geopandas as gpd
    from shapely.geometry import box

    return gpd.GeoDataFrame({"cell_id": [b[0] for b in boxes]}, geometry=[box(*b[1:]) for b in boxes], crs="EPSG:4326")


def g_obs_rows(rng, n, npts=3, nsats=2):
    rows = []
    for _ in range(n):
        s = rng.randrange(0, 5000)
        rows.append([rng.randrange(npts), "S%d" % rng.randrange(nsats), "I%d" % rng.randrange(2), s,
                     s + rng.choice([0, 1, 30, 300, 900])])
    return rows


def g_down_rows(rng, n, nsats=2):
    rows = []
    for _ in range(n):
        s = rng.randrange(0, 7000)
        rows.append(["G%d" % rng.randrange(3), "S%d" % rng.randrange(nsats), s, s + rng.choice([10, 300])])
    return rows


def g_frames(rng, w):
    w["base"] = w["epoch"]
    w["obs"] = g_obs_rows(rng, rng.randrange(3, 12))
    w["down"] = g_down_rows(rng, rng.randrange(2, 6))
    w["labels"] = rng.choice([0, 0, 1, 2, 3])
    w["cells"] = [[0, -1, -1, 4, 4], [1, 4, -1, 30, 30], [2, -170, -80, -1, 80]]
    ids = rng.choice([[0, 1, 2], [5, 2, 9], [2, 1, 0], [7, -1, 3]])
    w["cells"] = [[j] + c[1:] for j, c in zip(ids, rng.sample(w["cells"], 3))]
    w["rows"] = rng.choice([0, 0, rng.randrange(1, 1000)])


FRAME_OF = dict(aggregate="obs", reduce="agg", grid="red", latency="obs", reduce_lat="lat", grid_lat="redlat")


class FWorld(gen.World):
    """World whose data frames and time lists are shared caller-owned objects."""

    def __init__(self, w):
        super().__init__(w)
        if "obs" in w:
            self.frames["obs"] = obs_frame(w["obs"], w["base"])
            self.frames["down"] = down_frame(w["down"], w["base"])
            self.frames["cells"] = cells_frame(w["cells"])
            self.frames["agg"] = self._agg()
            self.frames["red"] = self._red()
            self.frames["lat"] = self._lat()
            self.frames["redlat"] = self._redlat()
            self.relabel()

    def times(self, t):
        key = tuple(t)
        if key not in self.lists:
            self.lists[key] = gen.times(t[0], t[1], t[2])
        return self.lists[key]

    def frame(self, name, op):
        """The caller's frame, or one with part of its records."""
        part = op.get("part")
        if part is None:
            return self.frames[name]
        k = "%s part %s" % (name, part)
        if k not in self.frames:
            f = self.frames[name]
            self.frames[k] = (f.iloc[0:0] if part == "none" else f[f["point_id"] % 2 == part]).copy()
        return self.frames[k]

    def listof(self, objs):
        """The caller's list holding exactly these objects (kept, so that changes to it are seen)."""
        k = ("objs",) + tuple(id(o) for o in objs)
        if k not in self.lists or len(self.lists[k]) != len(objs) or any(a is not b for a, b in zip(self.lists[k], objs)):
            self.lists[k] = list(objs)
        return self.lists[k]

    def fleet(self, n, same=False):
        """n satellites in different directions: those of the world and ones derived from them."""
        from tatc import schemas

        if same:  # all in one place: no position can be determined
            return [self.sats[0]] * n
        out = list(self.sats[:n])
        while len(out) < n:
            k = len(out)
            s = self.sats[k % len(self.sats)]
            out.append(schemas.Satellite(name="F%d" % k, orbit=s.orbit.get_derived_orbit(37.0 * k, 61.0 * k), instruments=s.instruments))
        return out

    def relabel(self):
        """Row labels as callers have them: default, reversed, offset, or repeated after a concat."""
        k = self.spec.get("labels", 0)
        for name, f in list(self.frames.items()):
            n = len(f)
            if self.spec.get("rows") and name != "cells":  # rows in no particular order
                f = self.frames[name] = f.sample(frac=1, random_state=self.spec["rows"])
            if k and n:
                f.index = {1: list(range(n))[::-1], 2: [100 + 3 * i for i in range(n)], 3: [i // 2 for i in range(n)]}[k]

    def prepare(self, op):
        """Create the caller-owned lists this call will be given."""
        if "times" in op:
            self.times(op["times"])
        k = op["op"]
        if k in FRAME_OF:
            self.frame(FRAME_OF[k], op)
        if k == "multi":
            self.listof([self.sats[i] for i in op["sats"]] + [self.cons[i] for i in op["cons"]])
        elif k == "downlinks":
            self.listof([self.stations[i] for i in op["stations"]])
        elif k == "ro":
            self.listof([self.sats[i] for i in op["txs"]])

    def snapshot(self):
        """Canonical value of everything the caller owns."""
        from . import fp

        s = {"sats": fp.canon(self.sats), "cons": fp.canon(self.cons), "points": fp.canon(self.points),
             "stations": fp.canon(self.stations), "masks": fp.canon(self.masks), "wide": fp.canon(self.wide)}
        for k, v in self.frames.items():
            s["frame " + k] = fp.canon(v)
        for n, (k, v) in enumerate(self.lists.items()):
            s["list %d of %s" % (n, "objects" if k[0] == "objs" else "times")] = fp.canon(v)
        return s

    # inputs of the later stages, laid out like the library's own outputs but built here
    def _agg(self):
        import pandas as pd
        import geopandas as gpd

        o = obs_frame(self.spec["obs"], self.spec["base"]).sort_values(["point_id", "start"]).reset_index(drop=True)
        o = o[["geometry", "point_id", "satellite", "instrument", "start", "epoch", "end"]].copy()
        o["access"] = o["end"] - o["start"]
        o["revisit"] = o["start"] - o.groupby("point_id")["end"].shift()
        return gpd.GeoDataFrame(o, crs="EPSG:4326")

    def _red(self):
        import geopandas as gpd
        import pandas as pd
        from shapely.geometry import Point

        ids = sorted({r[0] for r in self.spec["obs"]}) or [0]
        return gpd.GeoDataFrame(
            dict(point_id=ids, geometry=[Point(i * 7.0 % 170, i * 5.0 % 80, 0) for i in ids],
                 access=[pd.Timedelta(seconds=60 + i) for i in ids],
                 revisit=[pd.Timedelta(seconds=900 + 10 * i) for i in ids], samples=[i + 1 for i in ids]),
            crs="EPSG:4326")

    def _lat(self):
        import geopandas as gpd

        b = obs_frame(self.spec["obs"], self.spec["base"])
        o = b[["point_id", "geometry", "satellite", "instrument", "sat_alt", "sat_az"]].copy()
        o["station"] = "G0"
        o["downlinked"] = b["end"]
        o["latency"] = b["end"] - b["epoch"]
        o["observed"] = b["epoch"]
        return gpd.GeoDataFrame(o, crs="EPSG:4326")

    def _redlat(self):
        return self._red()[["point_id", "geometry", "access", "samples"]].rename(columns={"access": "latency"})


def gpos(g):
    import numpy as np

    return [np.asarray(g.latitude.degrees), np.asarray(g.longitude.degrees), np.asarray(g.elevation.m)]


# ------------------------------------------------------------------ execution
def run_op(W, op):
    """Execute one operation on the live objects of world W; returns the raw result."""
    import numpy as np
    import tatc
    from tatc import analysis, schemas, generation, utils
    from tatc.analysis import coverage, latency, track, dop, ro_coverage

    k = op["op"]
    sat = W.sats[op["sat"]] if op.get("sat") is not None else None
    if k == "observe":
        return analysis.collect_observations(W.points[op["point"]], sat, parse(op["start"]), parse(op["end"]),
                                             op["instr"], op["omit_solar"])
    if k == "multi":
        sats = [W.sats[i] for i in op["sats"]] + [W.cons[i] for i in op["cons"]]
        return analysis.collect_multi_observations(W.points[op["point"]], W.listof(sats) if len(sats) > 1 else sats[0],
                                                   parse(op["start"]), parse(op["end"]), op["omit_solar"])
    if k == "downlinks":
        st = [W.stations[i] for i in op["stations"]]
        return analysis.collect_downlinks(W.listof(st) if len(st) > 1 else st[0], sat, parse(op["start"]), parse(op["end"]))
    if k == "orbit_track":
        return analysis.collect_orbit_track(
            sat, W.times(op["times"]), op["instr"], op["elev"],
            None if op["mask"] is None else W.masks[op["mask"]],
            track.OrbitCoordinate(op["coords"]), track.OrbitOutput(op["out"]),
            op["sunlit"], op["solar"], op["beta"])
    if k == "ground_track":
        return analysis.collect_ground_track(
            sat, W.times(op["times"]), op["instr"], op["elev"],
            None if op["mask"] is None else W.masks[op["mask"]], op["crs"], op["altaz"], op["solar"])
    if k == "compute_gt":
        return analysis.compute_ground_track(
            sat, W.times(op["times"]), op["instr"], op["elev"],
            None if op["mask"] is None else W.masks[op["mask"]], op["crs"], op["method"], op["dissolve"])
    if k == "pixels":
        return analysis.collect_ground_pixels(
            sat, W.times(op["times"]), op["instr"], op["elev"],
            None if op["mask"] is None else W.masks[op["mask"]], op["altaz"], op["solar"])
    if k == "dop":
        r = analysis.compute_dop(W.times(op["times"]), W.points[op["point"]], W.fleet(op["n"], op.get("same")), op["min_el"], dop.DopMethod(op["method"]), op["min_count"])
        r["dop"] = [float("nan") if v > 1e3 else v for v in r["dop"]]  # near-singular geometry: the value is rounding noise
        return r
    if k == "ro":
        return analysis.collect_ro_observations(W.sats[op["rx"]], W.listof([W.sats[i] for i in op["txs"]]),
                                                W.times(op["times"]), 0, op["yaw"], (-200e3, 60e3))
    if k == "to_tle":
        o = sat.orbit
        return list((o.to_tle() if op.get("lazy") is None or o.type == "tle" else o.to_tle(op["lazy"])).tle)
    if k == "repeat":
        return sat.orbit.to_tle().get_repeat_cycle(lazy_load=op.get("lazy"))
    if k == "members":
        return W.cons[op["con"]].generate_members()
    if k == "derived":
        return sat.orbit.get_derived_orbit(op["dm"], op["dr"])
    if k == "closest":
        ts = W.times(op["times"])
        t = sat.orbit.to_tle()
        return [t.get_closest_tle_index(list(ts)), t.get_closest_tle_index(ts[0])]
    if k == "partition":
        return sat.orbit.to_tle().partition_by_tle_index(parse(op["start"]), parse(op["end"]))
    if k == "elements":
        t = sat.orbit.to_tle()
        return [[t.get_epoch(i), t.get_inclination(i), t.get_mean_motion(i), t.get_altitude(i),
                 t.get_orbit_period(i), t.get_true_anomaly(i)] for i in range(t.get_tle_count())]
    if k == "track":
        ts = W.times(op["times"])
        return sat.orbit.to_tle().get_orbit_track(ts if op["vector"] else ts[0])
    if k == "events":
        t, e = sat.orbit.to_tle().get_observation_events(W.points[op["point"]], parse(op["start"]), parse(op["end"]),
                                                         op["min_el"])
        return [t, np.asarray(e)]
    if k == "footprint":
        tr = sat.orbit.to_tle().get_orbit_track(W.times(op["times"]))
        return sat.instruments[op["instr"]].compute_footprint(tr, op["n"], op["elev"])
    if k == "limb":
        tr = sat.orbit.to_tle().get_orbit_track(W.times(op["times"]))
        return utils.compute_limb(tr, op["n"], op["elev"])
    if k == "valid":
        tr = sat.orbit.to_tle().get_orbit_track(W.times(op["times"]))
        return sat.instruments[op["instr"]].is_valid_observation(tr)
    if k == "instr":
        i = sat.instruments[op["instr"]]
        return [i.get_swath_width(op["h"]), i.get_min_elevation_angle(op["h"])]
    if k == "aggregate":
        return analysis.aggregate_observations(W.frame("obs", op))
    if k == "reduce":
        return analysis.reduce_observations(W.frame("agg", op))
    if k == "grid":
        return analysis.grid_observations(W.frame("red", op), W.frames["cells"])
    if k == "latency":
        return analysis.compute_latencies(W.frame("obs", op), W.frames["down"])
    if k == "reduce_lat":
        return analysis.reduce_latencies(W.frame("lat", op))
    if k == "grid_lat":
        return analysis.grid_latencies(W.frame("redlat", op), W.frames["cells"])
    if k == "points":
        m = None if op["mask"] is None else W.masks[op["mask"]]
        m = m if m is None or isinstance(getattr(m, "geom_type", None), str) else None
        f = generation.generate_fibonacci_lattice_points if op["kind"] == "fib" else generation.generate_equally_spaced_points
        return f(op["d"], op["elev"], m)
    if k == "cells":
        m = None if op["mask"] is None else W.masks[op["mask"]]
        m = m if m is None or isinstance(getattr(m, "geom_type", None), str) else None
        return generation.generate_equally_spaced_cells(op["d"], op["elev"], m, op["strips"])
    if k == "normalize":
        return utils.normalize_geometry((W.masks + W.wide)[op["mask"]])
    if k == "split":
        m = (W.masks + W.wide)[op["mask"]]
        return utils.split_polygon(m if hasattr(m, "geom_type") and isinstance(m.geom_type, str) else m.geometry.iloc[0])
    if k == "buffer":
        m = (W.masks + W.wide)[op["mask"]]
        m = m if hasattr(m, "geom_type") and isinstance(m.geom_type, str) else m.geometry.iloc[0]
        return utils.buffer_target(m, op["h"], op["inc"], op["angle"], op["step"])
    if k == "conv":
        return [utils.swath_width_to_field_of_regard(op["h"], op["w"], op["elev"]),
                utils.field_of_regard_to_swath_width(op["h"], op["angle"], op["elev"]),
                utils.swath_width_to_field_of_view(op["h"], op["w"], op["look"]),
                utils.compute_field_of_regard(op["h"], op["el"]), utils.compute_min_elevation_angle(op["h"], op["angle"]),
                utils.compute_orbit_period(op["h"]), utils.compute_max_access_time(op["h"], op["el"]),
                utils.compute_number_samples(op["w"]), utils.mean_anomaly_to_true_anomaly(op["angle"], op["ecc"]),
                utils.true_anomaly_to_mean_anomaly(op["angle"], op["ecc"]), utils.zero_pad("n", op["n"], op["k"])]
    if k == "con_info":
        c = W.cons[op["con"]]
        out = [c.name, c.orbit.to_tle()]
        for m in ("get_delta_mean_anomaly", "get_delta_raan", "get_satellites_per_plane",
                  "get_delta_mean_anomaly_within_planes", "get_delta_mean_anomaly_between_planes",
                  "get_delta_raan_between_planes", "generate_walker"):
            if hasattr(c, m):
                out.append(getattr(c, m)())
        return out
    if k == "fields":
        t = sat.orbit.to_tle()
        return [[getattr(t, m)(i) for m in (
            "get_catalog_number", "get_classification", "get_international_designator", "get_b_star",
            "get_first_derivative_mean_motion", "get_second_derivative_mean_motion", "get_ephemeris_type",
            "get_element_set_number", "get_right_ascension_ascending_node", "get_eccentricity", "get_perigee_argument",
            "get_mean_anomaly", "get_revolution_number_at_epoch", "get_semimajor_axis")] for i in range(t.get_tle_count())] + [
            getattr(sat.orbit, m)() for m in ("get_mean_anomaly", "get_semimajor_axis", "get_mean_motion", "get_orbit_period")]
    if k == "center":
        tr = sat.orbit.to_tle().get_orbit_track(W.times(op["times"]))
        return gpos(sat.instruments[op["instr"]].compute_footprint_center(tr, op["elev"]))
    if k == "pixel_array":
        tr = sat.orbit.to_tle().get_orbit_track(W.times(op["times"]))
        return sat.instruments[op["instr"]].compute_footprint_pixel_array(tr, op["elev"])
    raise ValueError("unknown operation %r" % k)


# ------------------------------------------------------------------ generation
ALL = list(COST)
# every kind of call, with the variants that take different paths through the library
VARIANTS = [(k, {}) for k in ALL] + [
    ("ground_track", dict(crs="utm")), ("ground_track", dict(crs="spice")), ("ground_track", dict(crs="EPSG:4087", altaz=True, solar=True)),
    ("compute_gt", dict(method="line", crs="EPSG:4087")), ("compute_gt", dict(method="point", crs="spice")),
    ("orbit_track", dict(sunlit=True, solar=True, beta=True)), ("orbit_track", dict(coords="eci", out="velocity")),
    ("pixels", dict(altaz=True, solar=True)), ("points", dict(kind="eq")), ("points", dict(kind="fib")),
    ("cells", dict(strips=None)), ("dop", dict(min_el=-90.0)), ("dop", dict(min_el=-90.0, min_count=0, same=True)),
    ("observe", dict(omit_solar=False)), ("grid", dict(part="none")), ("grid_lat", dict(part="none")), ("latency", dict(part=0)),
]


def variant(rng, w, n, catalogue=VARIANTS, **kw):
    """The n-th kind of call of the catalogue on world w."""
    k, fixed = catalogue[n % len(catalogue)]
    op = g_op(rng, w, [k], **kw)
    if op["op"] == k:
        op.update(fixed)
        if op.get("crs") == "utm":
            op["times"] = op["times"][:2] + [min(op["times"][2], 2)]
    return op


def g_op(rng, w, kinds=None, tmax=12, day=0.15):
    """One operation on world w; windows start near the mission epoch."""
    k = rng.choice(kinds or ALL)
    ep = parse(w["epoch"])
    si = rng.randrange(len(w["sats"]))
    s = w["sats"][si]
    ii = rng.randrange(len(s["instruments"]))
    late = dt.timedelta(days=rng.choice([0, 0, 0, 1, 2, 3, -2]))  # also beyond a repeat cycle
    st = ep + late + dt.timedelta(seconds=rng.randrange(-7200, 36000))
    en = st + dt.timedelta(seconds=rng.choice([1800, 7200, int(86400 * day), int(86400 * day * 2)]))
    if gen.repeats(s["orbit"]) and rng.random() < 0.4:
        en = st + dt.timedelta(hours=rng.choice([25, 30, 50]))
    tl = [iso(ep + late + dt.timedelta(seconds=rng.randrange(0, 40000))), rng.choice([20, 60, 300]), rng.randint(1, tmax)]
    if rng.random() < 0.12:
        tl[1] = -tl[1]  # latest first
    mask = rng.randrange(len(w["masks"])) if w["masks"] and rng.random() < 0.35 else None
    pt = rng.randrange(len(w["points"])) if w["points"] else None
    elev = rng.choice([0, 0, 500])
    if k == "observe":
        return dict(op=k, sat=si, point=pt, start=iso(st), end=iso(en), instr=ii, omit_solar=rng.random() < 0.5)
    if k == "multi":
        cons = [0] if w["cons"] and rng.random() < 0.5 else []
        more = [i for i in range(len(w["sats"])) if i != si and rng.random() < 0.4]
        return dict(op=k, point=pt, sats=rng.sample([si] + more, 1 + len(more)), cons=cons, start=iso(st), end=iso(min(en, st + dt.timedelta(hours=2))),
                    omit_solar=rng.random() < 0.7)
    if k == "downlinks":
        n = rng.randint(1, len(w["stations"]))
        return dict(op=k, sat=si, stations=rng.sample(range(len(w["stations"])), n), start=iso(st), end=iso(en))
    if k == "orbit_track":
        return dict(op=k, sat=si, times=tl, instr=ii, elev=elev, mask=mask,
                    coords=rng.choice(["wgs84", "ecef", "eci"]), out=rng.choice(["position", "velocity"]),
                    sunlit=rng.random() < 0.3, solar=rng.random() < 0.3, beta=rng.random() < 0.3)
    if k == "ground_track":
        c = rng.choice(["EPSG:4087", "spice", "spice", "utm"])
        if c == "utm":
            tl[2] = min(tl[2], 2)
        return dict(op=k, sat=si, times=tl, instr=ii, elev=elev, mask=mask, crs=c, altaz=rng.random() < 0.3,
                    solar=rng.random() < 0.3)
    if k == "compute_gt":
        m = rng.choice(["point", "line"])
        c = rng.choice(["EPSG:4087", "spice"]) if m == "point" else "EPSG:4087"
        return dict(op=k, sat=si, times=[tl[0], 30 if m == "point" else rng.choice([30, 120, 240]), tl[2]], instr=ii, elev=elev, mask=mask,
                    crs=c, method=m, dissolve=rng.random() < 0.5)
    if k == "pixels":
        c = [(a, b) for a, x in enumerate(w["sats"]) for b, y in enumerate(x["instruments"])
             if y.get("pointed") and y.get("is_rectangular")]
        if not c:
            return g_op(rng, w, ["ground_track"], tmax, day)
        a, b = rng.choice(c)
        return dict(op=k, sat=a, times=tl, instr=b, elev=elev, mask=mask, altaz=rng.random() < 0.3,
                    solar=rng.random() < 0.2)
    if k == "dop":
        return dict(op=k, times=tl, point=pt, n=rng.choice([5, 6, 8]),
                    min_el=rng.choice([-90.0, -90.0, -20.0, 0.0, 5.0]), method=rng.choice(["gdop", "pdop", "hdop", "vdop", "tdop"]),
                    min_count=rng.choice([4, 4, 5]))
    if k == "ro":
        rx = si
        txs = [i for i in range(len(w["sats"])) if i != rx] or [rx]
        txs = rng.sample(txs, len(txs))
        if txs == [rx]:
            return g_op(rng, w, ["track"], tmax, day)
        return dict(op=k, rx=rx, txs=txs, times=[tl[0], 30, 12], yaw=rng.choice([45, 65, 80]))
    if k == "to_tle":
        return dict(op=k, sat=si, lazy=rng.choice([None, None, True, False]))
    if k == "repeat":
        return dict(op=k, sat=si, lazy=rng.choice([None, None, True, False]))
    if k == "members":
        if not w["cons"]:
            return g_op(rng, w, ["derived"], tmax, day)
        return dict(op=k, con=rng.randrange(len(w["cons"])))
    if k == "derived":
        return dict(op=k, sat=si, dm=round(rng.uniform(-180, 180), 3), dr=round(rng.uniform(-180, 180), 3))
    if k in ("closest",):
        return dict(op=k, sat=si, times=[tl[0], 7200, 6])
    if k == "partition":
        return dict(op=k, sat=si, start=iso(st), end=iso(st + dt.timedelta(days=2)))
    if k == "elements":
        return dict(op=k, sat=si)
    if k == "track":
        return dict(op=k, sat=si, times=tl, vector=rng.random() < 0.7)
    if k == "events":
        return dict(op=k, sat=si, point=pt, start=iso(st), end=iso(en), min_el=rng.choice([0.0, 10.0, 30.0]))
    if k == "footprint":
        return dict(op=k, sat=si, instr=ii, times=[tl[0], tl[1], min(tl[2], 4)], n=rng.choice([None, None, 6]), elev=elev)
    if k == "limb":
        return dict(op=k, sat=si, times=[tl[0], tl[1], min(tl[2], 4)], n=8, elev=elev)
    if k == "valid":
        return dict(op=k, sat=si, instr=ii, times=tl)
    if k == "instr":
        return dict(op=k, sat=si, instr=ii, h=rng.choice([400e3, 700e3]))
    if k in ("aggregate", "reduce", "grid", "latency", "reduce_lat", "grid_lat"):
        return dict(op=k, part=rng.choice([None, None, None, 0, 1, "none"]))
    if k == "points":
        return dict(op=k, kind=rng.choice(["fib", "eq"]), d=rng.choice([3e6, 4e6]), elev=elev, mask=mask)
    if k == "cells":
        return dict(op=k, d=rng.choice([3e6, 4e6]), elev=elev, mask=mask, strips=rng.choice([None, "lat", "lon"]))
    if k in ("normalize", "split", "buffer"):
        n = len(w["masks"]) + len(w.get("wide", []))
        if not n:
            return g_op(rng, w, ["to_tle"], tmax, day)
        if k == "buffer":
            return dict(op=k, mask=rng.randrange(len(w["masks"])) if w["masks"] else 0, h=rng.choice([400e3, 700e3]),
                        inc=rng.choice([51.6, 98.0]), angle=rng.choice([30.0, 60.0]), step=rng.choice([10.0, 60.0]))
        return dict(op=k, mask=rng.randrange(n))
    if k == "conv":
        return dict(op=k, h=rng.choice([400e3, 700e3, 1200e3]), w=rng.choice([100e3, 500e3]), elev=elev,
                    angle=rng.choice([20.0, 60.0, 90.0]), look=rng.choice([0.0, 10.0]), el=rng.choice([5.0, 30.0]),
                    ecc=rng.choice([0.0, 0.01, 0.2]), n=rng.choice([5, 20, 100]), k=rng.randrange(1, 6))
    if k == "con_info":
        if not w["cons"]:
            return g_op(rng, w, ["derived"], tmax, day)
        return dict(op=k, con=rng.randrange(len(w["cons"])))
    if k == "fields":
        return dict(op=k, sat=si)
    if k == "center":
        return dict(op=k, sat=si, instr=ii, times=[tl[0], tl[1], max(2, min(tl[2], 6))], elev=elev)
    if k == "pixel_array":
        c = [(a, b) for a, x in enumerate(w["sats"]) for b, y in enumerate(x["instruments"]) if y.get("pointed")]
        if not c:
            return g_op(rng, w, ["center"], tmax, day)
        a, b = rng.choice(c)
        return dict(op=k, sat=a, instr=b, times=[tl[0], tl[1], max(2, min(tl[2], 4))], elev=elev)
    raise ValueError(k)


def tweak(rng, op, w, tmax=12, day=0.15):
    """A call of the same kind that differs in some arguments only (near miss for a wrongly keyed cache)."""
    for _ in range(4):
        new = g_op(rng, w, [op["op"]], tmax, day)
        if new["op"] == op["op"]:
            break
    else:
        return dict(op)
    if set(new) != set(op):
        return new
    groups = [g for g in ([k for k in op if k in ("sat", "instr", "sats", "cons", "rx", "txs")],
                          [k for k in op if k in ("start", "end")],
                          [k for k in op if k in ("method", "crs", "mask", "dissolve")]) if g]
    used = {k for g in groups for k in g} | {"op"}
    groups += [[k] for k in op if k not in used]
    out = dict(op)
    diff = [g for g in groups if any(op[k] != new[k] for k in g)]
    if not diff:
        return out
    for g in rng.sample(diff, min(len(diff), rng.choice([1, 1, 2]))):
        for k in g:
            out[k] = new[k]
    return out
