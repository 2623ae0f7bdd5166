"""Canonical, picklable form of results, and tolerant comparison of two of them."""
import datetime as dt
import enum
import hashlib
import math
import types

import numpy as np
import pandas as pd
import geopandas as gpd
import shapely
from pydantic import BaseModel


class Geom:
    """Geometry by value (kept as WKB so that equality is cheap and exact)."""

    __slots__ = ("wkb",)

    def __init__(self, g):
        self.wkb = shapely.to_wkb(g, output_dimension=3)

    def __repr__(self):
        return shapely.to_wkt(shapely.from_wkb(self.wkb), rounding_precision=9)[:160]

    def __getstate__(self):
        return self.wkb

    def __setstate__(self, s):
        self.wkb = s


NULL = "\0null"


def _is_null(x):
    try:
        return x is None or x is pd.NaT or x is pd.NA or (isinstance(x, float) and math.isnan(x))
    except TypeError:
        return False


def canon(x, dtypes=True):
    """Nested tuples of plain values."""
    if x is None or x is pd.NaT or x is pd.NA:
        return NULL
    if isinstance(x, (bool, np.bool_)):
        return bool(x)
    if isinstance(x, enum.Enum):
        return ("enum", type(x).__name__, canon(x.value))
    if isinstance(x, (str, bytes)):
        return x
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, (float, np.floating)):
        x = float(x)
        return NULL if math.isnan(x) else x
    if isinstance(x, pd.Timestamp):
        if x.tzinfo is None:
            return ("naive", x.value)
        return ("t", int(x.as_unit("ns").value))
    if isinstance(x, dt.datetime):
        if x.tzinfo is None:
            return ("naive", x.isoformat())
        d = x - dt.datetime(1970, 1, 1, tzinfo=dt.timezone.utc)
        return ("t", (d.days * 86400 + d.seconds) * 10**9 + d.microseconds * 1000)
    if isinstance(x, pd.Timedelta):
        return ("dt", int(x.as_unit("ns").value))
    if isinstance(x, dt.timedelta):
        return ("dt", ((x.days * 86400 + x.seconds) * 10**6 + x.microseconds) * 1000)
    if isinstance(x, np.datetime64):
        return canon(pd.Timestamp(x))
    if isinstance(x, np.timedelta64):
        return canon(pd.Timedelta(x))
    if isinstance(x, (dt.time, dt.date, dt.tzinfo)):
        return str(x)
    if isinstance(x, shapely.Geometry):
        return Geom(x)
    if isinstance(x, pd.DataFrame):
        return (
            "df",
            tuple(str(c) for c in x.columns),
            tuple(str(d) for d in x.dtypes) if dtypes else (),
            tuple(canon(v) for v in x.index),
            tuple(tuple(canon(v) for v in list(x[c])) for c in x.columns),
            str(x.crs) if isinstance(x, gpd.GeoDataFrame) and x._geometry_column_name in x.columns else "",
        )
    if isinstance(x, pd.Series):
        return ("ser", tuple(canon(v) for v in x.index), tuple(canon(v) for v in list(x)))
    if isinstance(x, pd.Index):
        return tuple(canon(v) for v in x)
    if isinstance(x, pd.Interval):
        return ("iv", canon(x.left), canon(x.right))
    if isinstance(x, np.ndarray):
        return ("arr", x.shape, tuple(canon(v) for v in x.ravel().tolist()) if x.dtype != object
                else tuple(canon(v) for v in x.ravel()))
    if isinstance(x, BaseModel):
        return (
            "model",
            type(x).__name__,
            tuple((k, canon(getattr(x, k))) for k in sorted(type(x).model_fields)),
        )
    if isinstance(x, dict):
        return ("dict", tuple(sorted(((str(k), canon(v)) for k, v in x.items()), key=lambda kv: kv[0])))
    if isinstance(x, (list, tuple, range)):
        return ("list",) + tuple(canon(v) for v in x)
    if isinstance(x, (set, frozenset)):
        return ("set",) + tuple(sorted((canon(v) for v in x), key=repr))
    if isinstance(x, BaseException):
        return ("exc", type(x).__name__)
    if hasattr(x, "xyz") and hasattr(x, "t"):  # skyfield position
        return ("pos", canon(np.asarray(x.xyz.m)), canon(np.asarray(x.velocity.m_per_s)),
                canon(np.asarray(x.t.tt)))
    if hasattr(x, "tt"):  # skyfield Time
        return ("time", canon(np.asarray(x.tt)))
    if isinstance(x, types.GeneratorType):
        return canon(list(x))
    return ("repr", type(x).__name__, repr(x))


class Tol:
    def __init__(self, rel=1e-9, abs_=1e-9, t_ns=2000, geom=1e-9, area=None):
        self.rel, self.abs, self.t_ns, self.geom, self.area = rel, abs_, t_ns, geom, area


EXACTISH = Tol()


def diff(a, b, tol=EXACTISH, path=""):
    """First difference between two canonical values, or None."""
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) and not isinstance(b, bool):
            a, b = float(a), float(b)
        else:
            return "%s: %s != %s" % (path, short(a), short(b))
    if isinstance(a, tuple):
        if len(a) != len(b):
            return "%s: %d items != %d items (%s | %s)" % (path, len(a), len(b), short(a), short(b))
        if len(a) == 2 and a and a[0] in ("t", "dt") and b[0] == a[0] and isinstance(a[1], int) and isinstance(b[1], int):
            return None if abs(a[1] - b[1]) <= tol.t_ns else "%s: %s != %s" % (path, short(a), short(b))
        if a and a[0] == "df" and b[0] == "df":
            if a[1] != b[1]:
                return "%s: columns %s != %s" % (path, a[1], b[1])
            if a[2] != b[2]:
                return "%s: dtypes %s != %s" % (path, a[2], b[2])
            d = diff(a[3], b[3], tol, path + ".index")
            if d:
                return d
            for c, ca, cb in zip(a[1], a[4], b[4]):
                d = diff(ca, cb, tol, "%s[%s]" % (path, c))
                if d:
                    return d
            return None if a[5] == b[5] else "%s: crs %s != %s" % (path, a[5], b[5])
        for i, (x, y) in enumerate(zip(a, b)):
            if x is y:
                continue
            d = diff(x, y, tol, "%s/%d" % (path, i))
            if d:
                return d
        return None
    if isinstance(a, float):
        if a == b or abs(a - b) <= tol.abs + tol.rel * max(abs(a), abs(b)):
            return None
        return "%s: %r != %r" % (path, a, b)
    if isinstance(a, Geom):
        if a.wkb == b.wkb:
            return None
        return geom_diff(a, b, tol, path)
    return None if a == b else "%s: %s != %s" % (path, short(a), short(b))


def geom_diff(a, b, tol, path):
    ga, gb = shapely.from_wkb(a.wkb), shapely.from_wkb(b.wkb)
    if ga.geom_type == gb.geom_type:
        ca = shapely.get_coordinates(ga, include_z=True)
        cb = shapely.get_coordinates(gb, include_z=True)
        if ca.shape == cb.shape and np.allclose(ca, cb, rtol=0, atol=tol.geom, equal_nan=True):
            return None
    if tol.area is not None:
        try:
            ga2, gb2 = shapely.force_2d(ga).buffer(0), shapely.force_2d(gb).buffer(0)
            if ga2.symmetric_difference(gb2).area <= tol.area * max(1e-6, ga2.area, gb2.area):
                return None
        except Exception:
            pass
    return "%s: geometry %r != %r" % (path, a, b)


def short(x):
    s = repr(x)
    return s if len(s) < 200 else s[:200] + "..."


def digest(c):
    h = hashlib.sha256()

    def feed(x):
        if isinstance(x, tuple):
            h.update(b"(")
            for v in x:
                feed(v)
            h.update(b")")
        elif isinstance(x, Geom):
            h.update(x.wkb)
        else:
            h.update(repr(x).encode())
            h.update(b",")

    feed(c)
    return h.hexdigest()[:16]


def frame(c):
    """Rows of a canonical data frame as dicts."""
    assert c[0] == "df", c[0]
    cols = c[1]
    n = len(c[3])
    return [{k: c[4][j][i] for j, k in enumerate(cols)} for i in range(n)]
