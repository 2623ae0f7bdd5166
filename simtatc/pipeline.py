"""Reference reducer/gridder and generators shared by C06 and C07."""
from . import fp
from .common import viol


# ---------------------------------------------------------------- generators
def g_places(rng, ids):
    """Locations of points: clustered so that cells hold several, some outside every cell."""
    out = {}
    cen = [(rng.uniform(-150, 150), rng.uniform(-60, 60)) for _ in range(3)]
    for p in ids:
        if rng.random() < 0.8:
            c = rng.choice(cen)
            x, y = c[0] + rng.uniform(-6, 6), c[1] + rng.uniform(-6, 6)
        else:
            x, y = rng.uniform(-170, 170), rng.uniform(-75, 75)
        out[str(p)] = [round(x, 2) + 0.0037, round(y, 2) + 0.0037]
        if rng.random() < 0.12:  # on the lines where cells meet: inside none of them
            k = rng.randrange(3)
            if k != 1:
                out[str(p)][0] = float(30 * round(x / 30))
            if k != 0:
                out[str(p)][1] = float(30 * round(y / 30))
    return out


def g_cells(rng, places):
    """Boxes [id, xmin, ymin, xmax, ymax] on a coarse grid; some points lie on the lines where boxes meet."""
    step = rng.choice([3, 5, 10, 30])
    boxes, seen = [], set()
    for x, y in places.values():
        ks = [(int(x // step), int(y // step))]
        ks += [(ks[0][0] - 1, ks[0][1])] if x % step == 0 else []
        ks += [(k[0], k[1] - 1) for k in ks] if y % step == 0 else []
        for k in ks:
            if k not in seen and rng.random() < 0.9:
                seen.add(k)
                boxes.append([0, k[0] * step, k[1] * step, (k[0] + 1) * step, (k[1] + 1) * step])
    for _ in range(rng.choice([0, 1, 3])):  # cells nobody observes
        k = (rng.randrange(-5, 5), rng.randrange(-3, 3))
        if k not in seen:
            seen.add(k)
            boxes.append([0, k[0] * step, k[1] * step, (k[0] + 1) * step, (k[1] + 1) * step])
    if rng.random() < 0.2:
        boxes.append([0, -180, -90, 180, 90])  # everything
    if not boxes:
        boxes.append([0, -180, -90, 180, 90])
    rng.shuffle(boxes)
    ids = rng.sample(range(0, 4 * len(boxes) + 5), len(boxes))
    if rng.random() < 0.4:
        ids = sorted(ids)
    if rng.random() < 0.3:
        ids = list(range(len(boxes)))
    for b, k in zip(boxes, ids):
        b[0] = k
        if rng.random() < 0.3:
            b.append(rng.choice(["triangle", "parts", "hole"]))
    return boxes


CELL_LABELS = ["default", "default", "reversed", "offset", "repeated", "text", "cell_id"]


def cell_shape(b):
    """The cell of one box: the box itself, or a part of it (cells at the rim of a mask have any shape)."""
    from shapely.geometry import MultiPolygon, Polygon, box

    _, x0, y0, x1, y1 = b[:5]
    w, hgt = x1 - x0, y1 - y0
    kind = b[5] if len(b) > 5 else None
    if kind == "triangle":
        return Polygon([(x0, y0), (x1, y0), (x0, y1)])
    if kind == "parts":
        return MultiPolygon([box(x0, y0, x0 + 0.3 * w, y1), box(x0 + 0.6 * w, y0, x1, y1)])
    if kind == "hole":
        return Polygon([(x0, y0), (x1, y0), (x1, y1), (x0, y1)],
                       [[(x0 + 0.3 * w, y0 + 0.3 * hgt), (x0 + 0.3 * w, y0 + 0.8 * hgt), (x0 + 0.8 * w, y0 + 0.8 * hgt), (x0 + 0.8 * w, y0 + 0.3 * hgt)]])
    return box(x0, y0, x1, y1)


def cells_frame(boxes, labels):
    import geopandas as gpd

    f = gpd.GeoDataFrame({"cell_id": [b[0] for b in boxes]}, geometry=[cell_shape(b) for b in boxes], crs="EPSG:4326")
    n = len(boxes)
    if labels == "reversed":
        f.index = list(range(n))[::-1]
    elif labels == "offset":
        f.index = [900 + 2 * i for i in range(n)]
    elif labels == "repeated":
        f.index = [i // 2 for i in range(n)]
    elif labels == "text":
        f.index = ["c%d" % i for i in range(n)]
    elif labels == "cell_id":
        f.index = [b[0] for b in boxes]
    return f


# -------------------------------------------------------------------- oracles
def td(c):
    return None if c == fp.NULL or c is None else c[1]


def close(a, b, tol=2500):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= tol + 1e-9 * max(abs(a), abs(b))


def mean(xs):
    xs = [x for x in xs if x is not None]
    return sum(xs) / len(xs) if xs else None


def check_reduced(frame, want, cols, places):
    """want: point -> (samples, {column: mean ns or None})"""
    rows = fp.frame(fp.canon(frame)) if len(frame) else []
    got = {}
    for r in rows:
        if r["point_id"] in got:
            return viol("reduce-duplicate", "point %s has two reduced rows" % r["point_id"])
        got[r["point_id"]] = r
    if set(got) != set(want):
        return viol("reduce-points", "reduced points %s, expected %s" % (sorted(got), sorted(want)))
    for p, (n, m) in want.items():
        r = got[p]
        if r["samples"] != n:
            return viol("reduce-samples", "point %s has %s samples, expected %d" % (p, r["samples"], n))
        for c in cols:
            if not close(td(r[c]), m[c]):
                return viol("reduce-mean", "point %s has mean %s %s, expected %s ns" % (p, c, r[c], m[c]))
        v = check_place(r, places[str(p)], "point %s" % p)
        if v:
            return v
    return None


def check_place(r, xy, what):
    import shapely

    g = shapely.from_wkb(r["geometry"].wkb)
    c = g.centroid
    if abs(c.x - xy[0]) > 1e-6 or abs(c.y - xy[1]) > 1e-6:
        return viol("place", "%s lies at %s, expected %s" % (what, (c.x, c.y), xy))
    return None


def check_grid(frame, red, boxes, places, cols):
    """red: point -> (samples, {column: mean}); every cell against the points inside it."""
    import shapely

    rows = fp.frame(fp.canon(frame)) if len(frame) else []
    got = {}
    for r in rows:
        if r["cell_id"] in got:
            return viol("grid-duplicate", "cell %s appears twice" % r["cell_id"])
        got[r["cell_id"]] = r
    known = {b[0]: b for b in boxes}
    for k in got:
        if k not in known:
            return viol("grid-cells", "cell %s does not exist" % k)
    for k, b in known.items():
        cell = cell_shape(b)
        inside = [p for p in red if cell.contains(shapely.Point(places[str(p)]))]
        n = sum(red[p][0] for p in inside)
        if k not in got:
            if n:
                return viol("grid-lost", "cell %s with %d samples is missing" % (k, n))
            continue
        r = got[k]
        if r["samples"] != n:
            return viol("grid-samples", "cell %s has %s samples, expected %d" % (k, r["samples"], n))
        for c in cols:
            val = td(r[c])
            pairs = [(red[p][1][c], red[p][0]) for p in inside]
            some = [(x, w) for x, w in pairs if x is not None]
            if not some:
                ok, e = val is None, None
            else:
                e = sum(x * w for x, w in some) / sum(w for _, w in some)
                ok = close(val, e) or (len(some) < len(pairs) and val is None)
            if not ok:
                return viol("grid-mean", "cell %s has %s %s, expected %s ns from (mean, samples) %s" % (k, c, r[c], e, pairs))
        g = shapely.from_wkb(r["geometry"].wkb)
        if abs(g.area - cell.area) > 1e-6 or any(abs(x - y) > 1e-9 for x, y in zip(g.bounds, cell.bounds)):
            return viol("grid-geometry", "cell %s has the geometry of another cell" % k)
    return None
