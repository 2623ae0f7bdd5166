"""Seeded generation of mission worlds (plain JSON) and their construction."""
import datetime as dt
import math

UTC = dt.timezone.utc

TLES = {
    "iss": ["1 25544U 98067A   21156.30527927  .00003432  00000-0  70541-4 0  9993",
            "2 25544  51.6455  41.4969 0003508  68.0432  78.3395 15.48957534286754"],
}


def iso(t):
    return t.astimezone(UTC).isoformat()


def parse(s):
    """ISO text; a trailing [Zone/Name] gives the instant in that zone (with its daylight saving rules)."""
    if s.endswith("]"):
        import zoneinfo

        s, z = s[:-1].split("[")
        return dt.datetime.fromisoformat(s).astimezone(zoneinfo.ZoneInfo(z))
    return dt.datetime.fromisoformat(s)


def elsewhere(s, zone):
    """The same instant as text with another UTC offset (hours) or zone name."""
    t = parse(s)
    if isinstance(zone, str):
        return iso(t) + "[" + zone + "]"
    return t.astimezone(dt.timezone(dt.timedelta(hours=zone))).isoformat()


DRAG = (0.0, 0.0, 2e-5, 1e-4)  # B* terms of generated element sets
EPOCH0 = dt.datetime(2022, 6, 1, tzinfo=UTC)


# ------------------------------------------------------------------ raw tles
def raw_tle(rng, epoch, incl, raan, ecc, argp, ma, rev_per_day, satnum=0, drag=0.0):
    """A two line element set written by the sgp4 library itself."""
    from sgp4.api import Satrec, WGS72
    from sgp4 import exporter

    s = Satrec()
    s.sgp4init(
        WGS72, "i", satnum,
        (epoch - dt.datetime(1949, 12, 31, tzinfo=UTC)) / dt.timedelta(days=1),
        drag, 0.0, 0.0, ecc, math.radians(argp % 360), math.radians(incl), math.radians(ma % 360),
        rev_per_day * 2 * math.pi / 1440, math.radians(raan % 360),
    )
    a, b = exporter.export_tle(s)
    return [a.replace("\x00", "U"), b]


def raw_tle_like(rng, tle):
    """An element set of the same epoch and orbit with the satellite elsewhere on it."""
    a, b = tle
    y = int(a[18:20])
    ep = dt.datetime(2000 + y if y < 57 else 1900 + y, 1, 1, tzinfo=UTC) + dt.timedelta(days=float(a[20:32]) - 1)
    return raw_tle(rng, ep, float(b[8:16]), float(b[17:25]) + rng.choice([0, 0, 40]), float("0." + b[26:33]), float(b[34:42]),
                   float(b[43:51]) + rng.choice([0.5, 30, 90, 180]), float(b[52:63]))


def rev_per_day(alt_m):
    a = 6371008.7714 + alt_m
    return 86400 / (2 * math.pi * math.sqrt(a**3 / 3.986004418e14))


# inclination (deg) and mean motion (rev/day) of circular orbits whose ground track repeats after 1, 2 or 3 days to
# within a kilometre (solved numerically with sgp4)
REPEAT_TRACKS = [
    (45.0, 14.204058), (45.0, 14.727093), (51.6, 15.229312), (51.6, 14.186741), (51.6, 14.707265), (66.0, 15.171793),
    (66.0, 14.141656), (66.0, 14.656085), (66.0, 14.484534), (97.8, 15.008554), (97.8, 14.013061), (97.8, 14.511065),
    (97.8, 15.505859), (98.4, 15.005276), (98.4, 14.010253), (98.4, 14.508069),
]


def tle_series(rng, epoch, n, incl, raan, ecc, argp, ma, rpd, gap_h, jitter=0.0, drag=()):
    """n element sets of one satellite at successive epochs; `jitter` (deg) makes the sets disagree."""
    out = []
    ep, m, om, w = epoch, ma, raan, argp
    # secular J2 rates
    a = (398600.4418 / (rpd * 2 * math.pi / 86400) ** 2) ** (1 / 3)
    k = 1.5 * 1.08263e-3 * (6378.137 / (a * (1 - ecc**2))) ** 2 * rpd * 360
    ci = math.cos(math.radians(incl))
    for i in range(n):
        out += raw_tle(rng, ep, incl, om, ecc, w, m + (jitter * rng.uniform(-1, 1) if i else 0), rpd,
                       drag=rng.choice(drag) if drag else 0.0)
        h = gap_h * rng.uniform(0.6, 1.4)
        d = h / 24
        ep = ep + dt.timedelta(seconds=round(h * 3600))
        om -= k * ci * d
        w += k * (2 - 2.5 * (1 - ci**2)) * d
        m += rpd * 360 * d + k * math.sqrt(1 - ecc**2) * (1 - 1.5 * (1 - ci**2)) * d
    return out


def g_orbit(rng, kinds=None, epoch=None):
    kinds = kinds or ["circular", "sso", "keplerian", "tle", "multitle"]
    k = rng.choice(kinds)
    ep = epoch or (EPOCH0 + dt.timedelta(minutes=rng.randrange(0, 60 * 24 * 20)))
    alt = g_digits(rng, rng.uniform(350e3, 1200e3))
    incl = g_digits(rng, rng.choice([rng.uniform(20, 70), rng.uniform(70, 110), 51.6, 97.8]))
    raan, ta = g_digits(rng, rng.uniform(0, 359)), g_digits(rng, rng.uniform(0, 359))
    if k == "circular":
        return dict(type=k, altitude=alt, true_anomaly=ta, epoch=iso(ep), inclination=incl,
                    right_ascension_ascending_node=raan)
    if k == "sso":
        return dict(type=k, altitude=alt, true_anomaly=ta, epoch=iso(ep),
                    equator_crossing_time="%02d:%02d:%s" % (rng.randrange(24), rng.randrange(60),
                                                            rng.choice(["00", "00", "17", "30.5", "59.999999", "08.000250"])),
                    equator_crossing_ascending=rng.random() < 0.5)
    if k == "keplerian":
        return dict(type=k, altitude=alt, true_anomaly=ta, epoch=iso(ep), inclination=incl,
                    right_ascension_ascending_node=raan, eccentricity=round(rng.uniform(0, 0.01), 5),
                    perigee_argument=round(rng.uniform(0, 359), 3))
    if k == "tle":
        return dict(type="tle", tle=raw_tle(rng, ep, incl, raan, round(rng.uniform(0, 0.005), 6),
                                            round(rng.uniform(0, 359), 3), ta, rev_per_day(alt), drag=rng.choice(DRAG)))
    if k == "multitle":
        return dict(type="tle", tle=tle_series(rng, ep, rng.randrange(2, 5), incl, raan, 0.001, 30.0, ta,
                                               rev_per_day(alt), rng.choice([6, 12, 24]), 0.3, DRAG))
    if k == "repeat":  # close to an exact 1-3 day repeat ground track
        incl, rpd = rng.choice(REPEAT_TRACKS)
        return dict(type="tle", tle=raw_tle(rng, ep, incl, raan, 0.0, 0.0, ta, rpd))
    if k == "meo":
        return dict(type="circular", altitude=round(rng.uniform(8000e3, 20200e3), 1), true_anomaly=ta,
                    epoch=iso(ep), inclination=55.0, right_ascension_ascending_node=raan)
    if k == "geo":
        return dict(type="circular", altitude=35786e3, true_anomaly=ta, epoch=iso(ep), inclination=0.05,
                    right_ascension_ascending_node=raan)
    if k == "heo":
        return dict(type="keplerian", altitude=round(rng.uniform(15000e3, 20000e3), 1), true_anomaly=ta,
                    epoch=iso(ep), inclination=63.4, right_ascension_ascending_node=raan,
                    eccentricity=round(rng.uniform(0.4, 0.7), 4), perigee_argument=270.0)
    raise ValueError(k)


def repeats(o):
    """Does this orbit specification come from REPEAT_TRACKS?"""
    return len(o.get("tle", [])) == 2 and any(abs(float(o["tle"][1][52:63]) - r) < 1e-7 for _, r in REPEAT_TRACKS)


def orbit_epoch(o):
    if o["type"] == "tle":
        y, d = int(o["tle"][0][18:20]), float(o["tle"][0][20:32])
        return dt.datetime(2000 + y, 1, 1, tzinfo=UTC) + dt.timedelta(days=d - 1)
    return parse(o["epoch"])


def g_instrument(rng, i=0, pointed=None, rect=None, solar=True):
    d = dict(name="I%d" % i, field_of_regard=rng.choice([40.0, 60.0, 90.0, 120.0, 150.0, 180.0]))
    if rng.random() < 0.3:
        d["min_access_time"] = rng.choice([5, 30, 120])
    if rng.random() < 0.15:
        d["access_time_fixed"] = True
    if solar and rng.random() < 0.25:
        d["req_self_sunlit"] = rng.random() < 0.7
    if solar and rng.random() < 0.25:
        d["req_target_sunlit"] = rng.random() < 0.7
    if pointed if pointed is not None else rng.random() < 0.3:
        d["pointed"] = True
        d["field_of_regard"] = rng.choice([90.0, 120.0, 150.0])
        d["cross_track_field_of_view"] = rng.choice([10.0, 30.0, 60.0])
        d["along_track_field_of_view"] = rng.choice([5.0, 20.0, 60.0])
        d["roll_angle"] = rng.choice([0.0, 0.0, 10.0, -20.0, rng.uniform(-20, 20)])
        d["pitch_angle"] = rng.choice([0.0, 0.0, 8.0, rng.uniform(-8, 8)])
        d["is_rectangular"] = rect if rect is not None else rng.random() < 0.6
        d["cross_track_pixels"] = rng.choice([1, 2, 3])
        d["along_track_pixels"] = rng.choice([1, 2])
    return d


def g_satellite(rng, i=0, kinds=None, epoch=None, n_instr=None, **kw):
    return dict(kind="satellite", name="S%d" % i, orbit=g_orbit(rng, kinds, epoch),
                instruments=[g_instrument(rng, j, **kw) for j in range(n_instr or rng.choice([1, 1, 2]))])


def g_constellation(rng, i=0, epoch=None, kinds=None):
    k = rng.choice(kinds or ["train", "walker", "mog", "soc"])
    base = dict(kind=k, name="K%d" % i, instruments=[g_instrument(rng, j) for j in range(rng.choice([1, 2]))])
    if k == "train":
        base.update(orbit=g_orbit(rng, None, epoch), number_satellites=rng.randrange(1, 5),
                    interval=rng.choice([300, 600, 1800, 90.25, 0.5]), repeat_ground_track=rng.random() < 0.5)
    elif k == "walker":
        n = rng.choice([2, 3, 4, 6])
        p = rng.choice([x for x in (1, 2, 3) if x <= n])
        base.update(orbit=g_orbit(rng, None, epoch), number_satellites=n, number_planes=p,
                    relative_spacing=rng.randrange(0, p), configuration=rng.choice(["delta", "star"]))
    elif k == "mog":
        base.update(orbit=g_orbit(rng, ["circular"], epoch), parallel_axis=rng.choice([50e3, 200e3]),
                    transverse_axis=rng.choice([50e3, 150e3]), clockwise=rng.random() < 0.5,
                    number_satellites=rng.randrange(2, 5))
    else:
        o = g_orbit(rng, ["circular"], epoch)
        o["altitude"] = round(rng.uniform(900e3, 1200e3), 1)
        base.update(orbit=o, swath_width=rng.choice([4500e3, 5000e3]), packing_distance=1.0)
    return base


def g_digits(rng, x):
    """Values as callers have them: rounded, or with all the digits of a computation."""
    return x if rng.random() < 0.15 else round(x, rng.choice([1, 4, 4, 6]))


def g_point(rng, i=0, near=None):
    lat, lon = g_digits(rng, rng.uniform(-60, 60)), g_digits(rng, rng.uniform(-179, 179))
    return dict(id=i, latitude=lat, longitude=lon, elevation=rng.choice([0.0, 0.0, 250.0, 1500.0, 5200.0]))


def g_station(rng, i=0):
    return dict(name="G%d" % i, latitude=g_digits(rng, rng.uniform(-80, 80)), longitude=g_digits(rng, rng.uniform(-179, 179)),
                elevation=rng.choice([0.0, 0.0, 100.0, 4800.0]), min_elevation_angle=rng.choice([0.0, 5.0, 10.0, 25.0]),
                min_access_time=rng.choice([0, 0, 10, 60]))


def g_mask(rng):
    k = rng.choice(["poly", "multi", "gdf", "gs"])
    polys = []
    for _ in range(1 if k == "poly" else rng.choice([1, 2, 3])):
        lon, lat = rng.uniform(-150, 130), rng.uniform(-55, 40)
        w, h = rng.uniform(15, 50), rng.uniform(8, 25)
        polys.append([round(lon, 3), round(lat, 3), round(min(lon + w, 178), 3), round(lat + h, 3)])
    if k != "poly":
        # keep parts disjoint so that the multi polygon is valid
        out = []
        for p in polys:
            if all(p[0] > q[2] or p[2] < q[0] or p[1] > q[3] or p[3] < q[1] for q in out):
                out.append(p)
        polys = out
    return dict(kind=k, boxes=polys)


def g_wide(rng):
    """Areas that cross the anti-meridian or a pole (coordinates as callers write them)."""
    boxes = []
    for _ in range(rng.choice([1, 2])):
        lat, lon = rng.uniform(-60, 40), rng.uniform(-150, 120)
        boxes.append(rng.choice([
            [-round(rng.uniform(160, 179), 3), round(lat, 3), round(rng.uniform(160, 179), 3), round(lat + 10, 3)],
            [round(lon, 3), 80.0, round(lon + 25, 3), 94.0],
            [round(lon, 3), -95.0, round(lon + 25, 3), -81.0],
            [round(lon, 3), round(lat, 3), round(lon + 20, 3), round(lat + 10, 3)],
        ]))
    return dict(kind=rng.choice(["poly", "gdf", "gdf", "gs"]), boxes=boxes)


# ------------------------------------------------------------------- building
def b_orbit(o):
    from tatc import schemas

    o = dict(o)
    t = o.pop("type")
    if "epoch" in o and isinstance(o["epoch"], str):
        o["epoch"] = parse(o["epoch"])
    if t == "tle":
        return schemas.TwoLineElements(tle=list(o["tle"]))
    if t == "sso":
        o["equator_crossing_time"] = dt.time.fromisoformat(o["equator_crossing_time"])
        return schemas.SunSynchronousOrbit(**o)
    return {"circular": schemas.CircularOrbit, "keplerian": schemas.KeplerianOrbit}[t](**o)


def b_instrument(d):
    from tatc import schemas

    d = dict(d)
    p = d.pop("pointed", False)
    if "min_access_time" in d:
        d["min_access_time"] = dt.timedelta(seconds=d["min_access_time"])
    return (schemas.PointedInstrument if p else schemas.Instrument)(**d)


def b_satellite(s):
    from tatc import schemas
    from tatc.schemas import satellite as sm

    s = dict(s)
    k = s.pop("kind")
    s["orbit"] = b_orbit(s["orbit"])
    s["instruments"] = [b_instrument(d) for d in s["instruments"]]
    if "interval" in s:
        s["interval"] = dt.timedelta(seconds=s["interval"])
    cls = {"satellite": sm.Satellite, "train": sm.TrainConstellation, "walker": sm.WalkerConstellation,
           "mog": sm.MOGConstellation, "soc": sm.SOCConstellation}[k]
    return cls(**s)


def b_point(p):
    from tatc import schemas

    return schemas.Point(**p)


def b_station(s):
    from tatc import schemas

    s = dict(s)
    s["min_access_time"] = dt.timedelta(seconds=s["min_access_time"])
    return schemas.GroundStation(**s)


def b_mask(m):
    if m is None:
        return None
    import geopandas as gpd
    from shapely.geometry import box, MultiPolygon

    ps = [box(*b) for b in m["boxes"]]
    if m["kind"] == "poly":
        return ps[0]
    if m["kind"] == "multi":
        return MultiPolygon(ps)
    if m["kind"] == "gs":
        return gpd.GeoSeries(ps, crs="EPSG:4326")
    return gpd.GeoDataFrame({"id": list(range(len(ps)))}, geometry=ps, crs="EPSG:4326")


def times(start, step_s, n):
    s = parse(start) if isinstance(start, str) else start
    if s.tzinfo is None:
        return [s + dt.timedelta(seconds=step_s * i) for i in range(n)]
    u = s.astimezone(UTC)
    return [(u + dt.timedelta(seconds=step_s * i)).astimezone(s.tzinfo) for i in range(n)]


# ----------------------------------------------------------------- worlds
def g_world(rng, sats=(1, 3), cons=(0, 1), points=(1, 2), stations=(1, 2), masks=1, kinds=None, base=None, spread=60 * 24 * 20, **kw):
    """A mission: satellites, constellations, points, stations; one shared epoch region."""
    ep = (base or EPOCH0) + dt.timedelta(minutes=rng.randrange(0, spread))
    w = dict(
        epoch=iso(ep),
        sats=[g_satellite(rng, i, kinds, ep, **kw) for i in range(rng.randint(*sats))],
        cons=[g_constellation(rng, i, ep, ["train", "walker", "mog"]) for i in range(rng.randint(*cons))],
        points=[g_point(rng, i) for i in range(rng.randint(*points))],
        stations=[g_station(rng, i) for i in range(rng.randint(*stations))],
        masks=[g_mask(rng) for _ in range(masks)],
        wide=[g_wide(rng) for _ in range(2 if masks else 0)],
    )
    return w


class World:
    """Live objects built from a world specification."""

    def __init__(self, w):
        self.spec = w
        self.sats = [b_satellite(s) for s in w.get("sats", [])]
        self.cons = [b_satellite(s) for s in w.get("cons", [])]
        self.points = [b_point(p) for p in w.get("points", [])]
        self.stations = [b_station(s) for s in w.get("stations", [])]
        self.masks = [b_mask(m) for m in w.get("masks", [])]
        self.wide = [b_mask(m) for m in w.get("wide", [])]
        self.frames = {}
        self.lists = {}
