"""Caller-side changes of live mission objects, mirrored on their specification."""
import copy
import datetime as dt

from . import gen, ops
from .gen import iso, parse

ORBIT_FIELDS = {
    "circular": ["altitude", "true_anomaly", "inclination", "right_ascension_ascending_node", "epoch"],
    "sso": ["altitude", "true_anomaly", "equator_crossing_time", "equator_crossing_ascending", "epoch"],
    "keplerian": ["altitude", "true_anomaly", "inclination", "right_ascension_ascending_node", "eccentricity",
                  "perigee_argument", "epoch"],
    "tle": ["tle"],
}


def g_update(rng, w):
    """A random change of one mission object; returns an action."""
    what = rng.choice(["orbit"] * 5 + ["instr", "instr", "point", "station", "sat", "con", "con", "frame"])
    if what == "con" and not w["cons"]:
        what = "orbit"
    if what == "frame" and "obs" not in w:
        what = "orbit"
    ep = parse(w["epoch"])
    if what == "orbit":
        onc = w["cons"] and rng.random() < 0.2
        coll = "cons" if onc else "sats"
        i = rng.randrange(len(w[coll]))
        o = w[coll][i]["orbit"]
        t = o["type"]
        kind = "multitle" if t == "tle" and len(o["tle"]) > 2 else t
        if t == "tle" and rng.random() < 0.3:
            kind = rng.choice(["tle", "multitle", "repeat"])
        new = gen.g_orbit(rng, [kind], ep)
        if t == "tle" and kind == "multitle" and len(o["tle"]) > 2 and rng.random() < 0.5:  # one of the sets is replaced
            j = 2 * rng.randrange(len(o["tle"]) // 2)
            new["tle"] = o["tle"][:j] + gen.raw_tle_like(rng, o["tle"][j:j + 2]) + o["tle"][j + 2:]
        fields = ORBIT_FIELDS[t]
        n = rng.choice([1, 1, len(fields)])
        f = rng.sample(fields, min(n, len(fields)))
        spec = {k: new[k] for k in f}
        if "epoch" in spec:
            spec["epoch"] = iso(ep + dt.timedelta(hours=rng.randrange(-20, 20)))
        how = ["assign", "assign", "copy", "copy", "deepcopy", "replace", "rebuild"] + ["inplace"] * (3 if t == "tle" else 0)
        return dict(do="update", what="orbit", coll=coll, i=i, spec=spec, how=rng.choice(how))
    if what == "instr":
        coll = "cons" if w["cons"] and rng.random() < 0.2 else "sats"
        i = rng.randrange(len(w[coll]))
        j = rng.randrange(len(w[coll][i]["instruments"]))
        d = w[coll][i]["instruments"][j]
        new = gen.g_instrument(rng, 0, pointed=bool(d.get("pointed")), rect=d.get("is_rectangular"))
        keys = [k for k in new if k not in ("pointed", "name", "is_rectangular")]
        spec = {k: new[k] for k in rng.sample(keys, min(len(keys), rng.choice([1, 1, 2])))}
        return dict(do="update", what="instr", coll=coll, i=i, j=j, spec=spec, how=rng.choice(["assign", "copy", "rebuild"]))
    if what == "point":
        i = rng.randrange(len(w["points"]))
        new = gen.g_point(rng, i)
        spec = {k: new[k] for k in rng.sample(["latitude", "longitude", "elevation"], rng.choice([1, 2]))}
        return dict(do="update", what="point", i=i, spec=spec, how=rng.choice(["assign", "copy", "rebuild"]))
    if what == "station":
        i = rng.randrange(len(w["stations"]))
        new = gen.g_station(rng, i)
        keys = ["latitude", "longitude", "elevation", "min_elevation_angle", "min_access_time"]
        spec = {k: new[k] for k in rng.sample(keys, rng.choice([1, 2]))}
        return dict(do="update", what="station", i=i, spec=spec, how=rng.choice(["assign", "copy", "rebuild"]))
    if what == "sat":
        i = rng.randrange(len(w["sats"]))
        return dict(do="update", what="sat", i=i, spec=dict(name="N%d" % rng.randrange(9)),
                    how=rng.choice(["assign", "copy", "rebuild"]))
    if what == "con":
        i = rng.randrange(len(w["cons"]))
        c = w["cons"][i]
        new = gen.g_constellation(rng, i, ep, [c["kind"]])
        keys = {"train": ["number_satellites", "interval", "repeat_ground_track"], "walker": ["configuration", "number_satellites"],
                "mog": ["parallel_axis", "transverse_axis", "clockwise", "number_satellites"],
                "soc": ["swath_width"]}[c["kind"]]
        k = rng.choice(keys)
        if c["kind"] == "walker" and k == "number_satellites":
            new[k] = c["number_planes"] * rng.randint(1, 3) + rng.randint(0, 1)
        return dict(do="update", what="con", i=i, spec={k: new[k]}, how=rng.choice(["assign", "copy", "rebuild"]))
    return dict(do="update", what="frame", shift=rng.choice([60, 3600]), npts=rng.choice([0, 1]), how="inplace")


def spec_update(w, a):
    """The world specification after the action."""
    w = copy.deepcopy(w)
    what = a["what"]
    if what == "orbit":
        w[a["coll"]][a["i"]]["orbit"].update(a["spec"])
    elif what == "instr":
        w[a["coll"]][a["i"]]["instruments"][a["j"]].update(a["spec"])
    elif what == "point":
        w["points"][a["i"]].update(a["spec"])
    elif what == "station":
        w["stations"][a["i"]].update(a["spec"])
    elif what == "sat":
        w["sats"][a["i"]].update(a["spec"])
    elif what == "con":
        w["cons"][a["i"]].update(a["spec"])
    elif what == "frame":
        w["obs"] = [[r[0] + a["npts"], r[1], r[2], r[3] + a["shift"], r[4] + a["shift"]] for r in w["obs"]]
    return w


def _change(obj, fresh, fields, how):
    """Object after the change: `fresh` is an equal object built from the new specification."""
    vals = {k: getattr(fresh, k) for k in fields}
    if how == "assign":
        for k, v in vals.items():
            setattr(obj, k, v)
        return obj
    if how == "copy":
        return obj.model_copy(update=vals)
    if how == "deepcopy":
        return obj.model_copy(update=vals, deep=True)
    return fresh


def live_update(W, w2, a):
    """Apply the action to the live world W (w2: the specification after it)."""
    what, how, f = a["what"], a["how"], list(a.get("spec", {}))
    if what in ("orbit", "instr", "sat", "con"):
        coll = a.get("coll", "cons" if what == "con" else "sats")
        objs = W.sats if coll == "sats" else W.cons
        i = a["i"]
        fresh = gen.b_satellite(w2[coll][i])
        if how == "rebuild":
            objs[i] = None  # let the old object go before its successor is used
            objs[i] = gen.b_satellite(w2[coll][i])
        elif what == "orbit":
            if how == "replace":
                objs[i].orbit = fresh.orbit
            elif how == "inplace":
                objs[i].orbit.tle[:] = fresh.orbit.tle
            elif how == "assign":
                _change(objs[i].orbit, fresh.orbit, f, how)
            else:
                new = _change(objs[i].orbit, fresh.orbit, f, how)
                objs[i] = objs[i].model_copy(update=dict(orbit=new))
        elif what == "instr":
            old = objs[i].instruments
            if how == "assign":
                _change(old[a["j"]], fresh.instruments[a["j"]], f, how)
            else:
                new = list(old)
                new[a["j"]] = _change(old[a["j"]], fresh.instruments[a["j"]], f, how)
                objs[i] = objs[i].model_copy(update=dict(instruments=new))
        else:
            objs[i] = _change(objs[i], fresh, f, how)
    elif what == "point":
        W.points[a["i"]] = _change(W.points[a["i"]], gen.b_point(w2["points"][a["i"]]), f, how)
    elif what == "station":
        W.stations[a["i"]] = _change(W.stations[a["i"]], gen.b_station(w2["stations"][a["i"]]), f, how)
    elif what == "frame":
        import pandas as pd
        from shapely.geometry import Point

        o = W.frames["obs"]
        if len(o):
            o["point_id"] = o["point_id"] + a["npts"]
            o["geometry"] = [Point(p * 7.0 % 170, p * 5.0 % 80, 0) for p in o["point_id"]]
            for c in ("start", "end", "epoch"):
                o[c] = o[c] + pd.Timedelta(seconds=a["shift"])
        W.spec = w2
        for k in [k for k in W.frames if " part " in k]:
            del W.frames[k]
        W.frames["agg"], W.frames["red"] = W._agg(), W._red()
        W.frames["lat"], W.frames["redlat"] = W._lat(), W._redlat()
        W.relabel()
    W.spec = w2
