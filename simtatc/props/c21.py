"""C21: sampling grids generated region by region agree with the whole grid."""
from .. import campaign, fp, runner
from ..common import Stats, h, viol, with_key, without

ID = "C21"
LEVEL = "exploration"
RULE = ("a run is one simulated campaign: an area of interest is cut into regions, worker threads generate the sampling "
        "points or cells of their regions, pieces are lost, delayed, reordered, redelivered and generated again, and the "
        "gathered set is compared with the grid generated once for the whole Earth in another process; non-trivial when "
        "the area holds at least one point or cell; distinct by (grid, area, cuts, arrival order)")
RUNS = {"quick": 1440, "thorough": 16000}
BUDGET = {"quick": 240, "thorough": 1800}
TWIN = True
KINDS = ["fib", "fib", "eq", "eq", "cells", "cells", "lat", "lon"]
EDGE = 1e-7  # degrees: places this close to the border of a region may be on either side


# ------------------------------------------------------------------ generator
def g_area(rng, wide):
    """A ring of coordinates (a box, or a convex or star shaped polygon)."""
    k = rng.choice(["globe", "box", "box", "poly", "poly", "poly", "sliver", "two"])
    if k == "globe":
        return [[[-180, -90], [180, -90], [180, 90], [-180, 90]]]
    if k == "sliver":
        x, y = rng.uniform(-170, 160), rng.uniform(-80, 70)
        a, b = rng.choice([(0.5, 9.0), (9.0, 0.5), (0.1, 0.1)])
        return [[[x, y], [x + a, y], [x + a, y + b], [x, y + b]]]
    w, d = rng.choice([5, 30, 90, 300]), rng.choice([5, 30, 80, 170])
    hi = 200 if wide else 180
    x = rng.uniform(-180, hi - w)
    y = rng.uniform(-90, 90 - d)
    if k == "box":
        if rng.random() < 0.5:
            x, y, w, d = round(x), round(y), int(w), int(d)
        return [[[x, y], [x + w, y], [x + w, y + d], [x, y + d]]]
    if k == "poly":
        import math

        n = rng.randint(3, 9)
        a = sorted(rng.random() for _ in range(n))
        r = [rng.uniform(0.4, 1.0) for _ in range(n)]
        return [[[x + w / 2 + w / 2 * q * math.cos(2 * math.pi * t), y + d / 2 + d / 2 * q * math.sin(2 * math.pi * t)] for t, q in zip(a, r)]]
    return [[[x, y], [x + w / 3, y], [x + w / 3, y + d], [x, y + d]], [[x + w / 2, y], [x + w, y], [x + w, y + d / 2], [x + w / 2, y + d / 2]]]


def generate(rng, i, tier):
    kind = rng.choice(KINDS)
    across = rng.choice([rng.uniform(5.1, 12), rng.uniform(5.1, 30), float(rng.randint(6, 24))])  # columns around the equator
    wide = kind == "fib" and rng.random() < 0.3
    area = g_area(rng, wide)
    xs, ys = [p[0] for r in area for p in r], [p[1] for r in area for p in r]
    cuts = dict(x=sorted(rng.uniform(min(xs), max(xs)) for _ in range(rng.choice([0, 1, 2, 4]))),
                y=sorted(rng.uniform(min(ys), max(ys)) for _ in range(rng.choice([0, 0, 1, 2]))))
    if rng.random() < 0.3:
        cuts = {k: sorted({float(round(v)) for v in c}) for k, c in cuts.items()}
    # regions that end just before or behind a point (or centre of a cell) of the grid
    snap = [[rng.choice("xy"), rng.random(), rng.choice([-1, 1]) * rng.choice([1e-6, 1e-5, 1e-4, 1e-3])] for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return dict(kind=kind, snap=snap, across=across, area=area, cuts=cuts, elev=rng.choice([0, 0, 500, -3.5]), camp=campaign.g_campaign(rng, 300),
                whole_last=rng.random() < 0.5)


# -------------------------------------------------------------------- execution
def call(kind, d, elev, mask):
    from tatc import generation

    if kind == "fib":
        return generation.generate_fibonacci_lattice_points(d, elev, mask)
    if kind == "eq":
        return generation.generate_equally_spaced_points(d, elev, mask)
    return generation.generate_equally_spaced_cells(d, elev, mask, None if kind == "cells" else kind)


def spacing(sc):
    from tatc import constants
    import math

    return 2 * math.pi * constants.EARTH_MEAN_RADIUS / sc["across"]


def whole(kind, d, elev):
    f = call(kind, d, elev, None)
    c = "point_id" if kind in ("fib", "eq") else "cell_id"
    return [(int(k), g.wkb) for k, g in zip(f[c], f.geometry)], str(f.crs)


def regions(sc):
    from shapely.geometry import MultiPolygon, Polygon, box

    ps = [Polygon(r) for r in sc["area"]]
    area = ps[0] if len(ps) == 1 else MultiPolygon(ps)
    if not area.is_valid:
        area = area.buffer(0)
    x0, y0, x1, y1 = area.bounds
    xs = [x0] + [c for c in sc["cuts"]["x"] if x0 < c < x1] + [x1]
    ys = [y0] + [c for c in sc["cuts"]["y"] if y0 < c < y1] + [y1]
    out = []
    for a, b in zip(xs, xs[1:]):
        for c, e in zip(ys, ys[1:]):
            q = area if len(xs) == 2 == len(ys) else area.intersection(box(a, c, b, e))
            ps = [p for p in getattr(q, "geoms", [q]) if p.geom_type in ("Polygon", "MultiPolygon") and p.area > 0]
            if ps:
                q = ps[0] if len(ps) == 1 else MultiPolygon(ps)
                if q.is_valid:
                    out.append(q)
    return area, out


def near(region, p):
    return region.boundary.distance(p) <= EDGE


def shift(g):
    import shapely

    return shapely.transform(g, lambda c: c + [360.0, 0.0])


def expect(kind, ref, region):
    """id -> (geometry in the region, certain)"""
    import shapely
    from shapely.geometry import box

    out = {}
    b = region.bounds
    frame = box(*b)
    shapely.prepare(region)
    for k, g in ref.items():
        if kind in ("fib", "eq"):
            for q in [g] + ([shift(g)] if b[2] > 180 else []):
                p = shapely.force_2d(q)
                if near(region, p):
                    out[k] = (p, False)
                elif region.contains(p):
                    out[k] = (p, True)
            continue
        q = shapely.force_2d(g)
        c = q.centroid
        if kind == "lat":  # strips span the region
            q = box(b[0], q.bounds[1], b[2], q.bounds[3])
            t = [c.y - b[1], b[3] - c.y]
        elif kind == "lon":
            q = box(q.bounds[0], b[1], q.bounds[2], b[3])
            t = [c.x - b[0], b[2] - c.x]
        else:
            t = [c.x - b[0], b[2] - c.x, c.y - b[1], b[3] - c.y]
        if min(t) < -EDGE:
            continue
        cut = q.intersection(region)
        if cut.is_empty:
            if q.distance(region) <= EDGE:
                out[k] = (cut, False)
            continue
        out[k] = (cut.convex_hull, min(t) > EDGE and cut.area > 1e-7)
    return out


def check_part(kind, got, ref, region, elev, what):
    import shapely

    exp = expect(kind, ref, region)
    seen = set()
    for k, g in got:
        if k in seen:
            return viol("duplicate", "%s generates identifier %d twice" % (what, k))
        seen.add(k)
        if k not in ref:
            return viol("unknown", "%s generates identifier %d, which the whole grid does not have" % (what, k))
        if k not in exp:
            return viol("outside", "%s generates %d at %s, whose place in the whole grid is %s, outside the region" % (
                what, k, g.centroid.wkt, ref[k].centroid.wkt))
        q = exp[k][0]
        if kind in ("fib", "eq"):
            if abs(g.x - q.x) > 1e-9 or abs(g.y - q.y) > 1e-9:
                return viol("place", "%s has %d at %s, the whole grid at %s" % (what, k, g.wkt, q.wkt))
            zs = [g.z] if g.has_z else [None]
        else:
            f = shapely.force_2d(g)
            if f.area > 1e-7 and not exp[k][0].is_empty and f.symmetric_difference(q).area > 1e-6 * max(1.0, q.area):
                return viol("place", "%s has cell %d of bounds %s, expected %s" % (what, k, f.bounds, q.bounds))
            zs = list(shapely.get_coordinates(g, include_z=True)[:, 2]) if g.has_z and not g.is_empty else []
        for z in zs:
            if z is None or abs(z - elev) > 1e-6:
                return viol("elevation", "%s has %d at elevation %s, requested %s" % (what, k, z, elev))
    for k, (_, sure) in exp.items():
        if sure and k not in seen:
            return viol("lost", "%s does not generate %d (%s of the whole grid)" % (what, k, ref[k].centroid.wkt))
    return None


def execute(sc):
    import shapely

    st, v = Stats(), None
    order, total, parts = [], 0, []
    kind, d = sc["kind"], spacing(sc)
    try:
        got = runner.reference(whole, kind, d, sc["elev"])
        items, crs = got
        ref = {k: shapely.from_wkb(w) for k, w in items}
        if len(ref) != len(items):
            dup = sorted(k for k in ref if sum(1 for x, _ in items if x == k) > 1)[:5]
            v = viol("duplicate", "the whole grid has %d places but %d identifiers; shared by several: %s" % (len(items), len(ref), dup))
        if sc["snap"]:
            at = [shapely.force_2d(g).centroid for g in ref.values()]
            cuts = {k: list(c) for k, c in sc["cuts"].items()}
            for axis, f, delta in sc["snap"]:
                cuts[axis].append(getattr(at[int(f * len(at))], axis) + delta)
            sc = dict(sc, cuts={k: sorted(c) for k, c in cuts.items()})
        area, parts = regions(sc)
        if v is None:
            tasks = [lambda m=m: call(kind, d, sc["elev"], m) for m in parts]
            if sc["whole_last"] or not parts:
                tasks.append(lambda: call(kind, d, sc["elev"], None))
            col = "point_id" if kind in ("fib", "eq") else "cell_id"
            owner = {}
            for n, f in campaign.run(sc["camp"], tasks, st):
                order.append(n)
                rows = [(int(k), g) for k, g in zip(f[col], f.geometry)]
                if str(f.crs) != crs:
                    v = viol("crs", "coordinate system %s, expected %s" % (f.crs, crs))
                elif n == len(parts):
                    if [(k, g.wkb) for k, g in rows] != items:
                        v = viol("whole", "the whole grid generated among other calls differs from one generated alone")
                else:
                    v = check_part(kind, rows, ref, parts[n], sc["elev"], "region %d of %d (%s)" % (n, len(parts), parts[n].bounds))
                    for k, g in rows:
                        owner.setdefault(k, set()).add(n)
                if v:
                    break
            total = len(owner)
            if v is None and kind in ("fib", "eq"):
                for k, g in ref.items():
                    p = [q for q in (shapely.force_2d(g), shift(shapely.force_2d(g))) if area.contains(q)]
                    if p and k not in owner and not any(near(q, p[0]) for q in parts) and any(q.contains(p[0]) for q in parts):
                        v = viol("lost", "point %d at %s lies in the area but no region generates it" % (k, p[0].wkt))
                        break
            st["probe.in_area"] += total
            st["probe.regions"] += len(parts)
    except campaign.Failed as e:
        v = viol(e.kind, e)
    except Exception as e:  # noqa
        v = viol("raise", "generation raised %s: %s" % (type(e).__name__, e))
    return dict(violation=v, stats=dict(st), digest=h(order, total, v and v["msg"], sorted(st.items())),
                sig=h(kind, sc["across"], sc["area"], sc["cuts"], sc["snap"], order), nontrivial=total > 0, trace=order)


def shrink(sc):
    for k in ("x", "y"):
        for c in without(sc["cuts"][k]):
            yield with_key(sc, "cuts", dict(sc["cuts"], **{k: c}))
    for c in without(sc["snap"]):
        yield with_key(sc, "snap", c)
    if len(sc["area"]) > 1:
        for a in without(sc["area"]):
            if a:
                yield with_key(sc, "area", a)
    if sc["whole_last"]:
        yield with_key(sc, "whole_last", False)
    if sc["elev"]:
        yield with_key(sc, "elev", 0)
    for c in campaign.shrink_campaign(sc["camp"]):
        yield with_key(sc, "camp", c)
