"""C07: latency pairs each observation with its earliest later downlink."""
import datetime as dt

from .. import campaign, fp, gen, ops, pipeline
from ..common import Stats, h, set_config, viol, with_key, without
from ..gen import iso, parse
from .c05 import BASE, frame_of, g_rows
from .c06 import place_obs

ID = "C07"
LEVEL = "exploration"
RULE = ("a run is one simulated campaign: observation and downlink shards gathered from worker threads over a lossy, "
        "duplicating, reordering network, paired by worker threads, reduced and gridded; non-trivial when at least one "
        "observation has a downlink; distinct by (rows, labels, arrival orders)")
RUNS = {"quick": 1440, "thorough": 20000}
BUDGET = {"quick": 240, "thorough": 2400}


def g_down(rng, rows, nsats):
    """Downlinks [station, satellite, start us, end us] around the ends of observations."""
    out = []
    for _ in range(rng.choice([1, 1, 2, 4, 9])):
        s = "S%d" % rng.randrange(nsats + 1)
        if rows and rng.random() < 0.7:
            r = rng.choice(rows)
            a = r[4] + rng.choice([0, 0, -1, 1, 1000, 10**6, 60 * 10**6, 3600 * 10**6, 100_000 * 10**6, 700_000 * 10**6, r[3] - r[4], -(10**6)])
            if rng.random() < 0.5:
                s = r[1]
        else:
            a = rng.randrange(0, 12 * 10**9)
        out.append(["G%d" % rng.randrange(3), s, a, a + rng.choice([0, 10**6, 10 * 10**6, 400 * 10**6])])
    return out


def generate(rng, i, tier):
    if rng.random() < 0.08:
        w = gen.g_world(rng, sats=(1, 2), cons=(0, 0), points=(1, 2), stations=(1, 3), masks=0, solar=False,
                        kinds=["circular", "sso", "tle"])
        for s in w["sats"]:
            for q in s["instruments"]:
                q["field_of_regard"] = 180.0
                q.pop("pointed", None)
        st = parse(w["epoch"]) + dt.timedelta(seconds=rng.randrange(0, 7200))
        sc = dict(kind="real", world=w, start=iso(st), end=iso(st + dt.timedelta(hours=rng.choice([6, 12]))))
    else:
        ns = rng.choice([1, 2, 3])
        rows = g_rows(rng, rng.choice([1, 3, 8, 16]), rng.choice([1, 2, 4]), ns)
        sc = dict(kind="rows", rows=rows, down=g_down(rng, rows, ns), idle=rng.choice(["", "", "", "o", "d", "od"]))
        if rng.random() < 0.05:
            sc["rows" if rng.random() < 0.4 else "down"] = []
        pl = pipeline.g_places(rng, sorted({r[0] for r in rows}))
        sc.update(places=pl, boxes=pipeline.g_cells(rng, pl))
    sc.update(seed=rng.randrange(2**31), camp=campaign.g_campaign(rng, 60), camp2=campaign.g_campaign(rng, 60),
              camp3=campaign.g_campaign(rng, 60), obs_labels=rng.choice(campaign.LABELS),
              down_labels=rng.choice(campaign.LABELS), lat_labels=rng.choice(campaign.LABELS),
              cell_labels=rng.choice(pipeline.CELL_LABELS), obs_shards=rng.choice([1, 2, 3]), split=rng.choice(["no", "obs", "sat"]))
    return sc


def down_of(rows):
    import pandas as pd

    f = ops.down_frame([[r[0], r[1], 0, 0] for r in rows], BASE)
    b = pd.Timestamp(BASE)
    f["satellite"] = [r[1] for r in rows]
    f["station"] = [r[0] for r in rows]
    f["start"] = [b + pd.Timedelta(microseconds=r[2]) for r in rows]
    f["end"] = [b + pd.Timedelta(microseconds=r[3]) for r in rows]
    f["epoch"] = f["start"] + (f["end"] - f["start"]) / 2
    return f


def t(c):
    return None if c == fp.NULL else c[1]


def expected(obs, down):
    """key of observation -> (list of acceptable (station, downlinked), or None)"""
    out = []
    for o in obs:
        later = [d for d in down if d["satellite"] == o["satellite"] and t(d["start"]) >= t(o["end"])]
        best = min((t(d["start"]) for d in later), default=None)
        ok = {(d["station"], t(d["epoch"])) for d in later if t(d["start"]) == best}
        out.append(((o["point_id"], o["satellite"], o["instrument"], t(o["epoch"])), ok, t(o["end"])))
    return out


def check_latency(frame, exp, obs):
    rows = fp.frame(fp.canon(frame)) if len(frame) else []
    if len(rows) != len(exp):
        return viol("lost-observation", "%d observations, %d latency rows" % (len(exp), len(rows)))
    want = {}
    for k, ok, end in exp:
        want.setdefault(k, []).append((ok, end))
    seen = {}
    last = None
    for r in rows:
        k = (r["point_id"], r["satellite"], r["instrument"], t(r["observed"]))
        if k not in want:
            return viol("foreign-observation", "latency row for %s, which was not observed" % (k,))
        got = (None if r["station"] == fp.NULL else r["station"], t(r["downlinked"]))
        seen.setdefault(k, []).append(got)
        if got[1] is not None:
            if t(r["latency"]) is None or abs(t(r["latency"]) - (got[1] - k[3])) > 500:
                return viol("latency", "observation %s downlinked at %s has latency %s" % (k, got[1], r["latency"]))
        elif t(r["latency"]) is not None or got[0] is not None:
            return viol("latency", "observation %s without downlink has station %s, latency %s" % (k, got[0], r["latency"]))
        if last is not None and k[3] < last:
            return viol("order", "latency rows are not in order of observation")
        last = k[3]
    for k, lst in want.items():
        g = list(seen.get(k, []))
        for ok, end in sorted(lst, key=lambda x: len(x[0])):
            hit = [x for x in g if (x in ok if ok else x == (None, None))]
            if not hit:
                return viol("pairing", "observation %s ending %s is paired with %s, expected %s" % (k, end, g, sorted(ok) or "none"))
            g.remove(hit[0])
        if g:
            return viol("pairing", "observation %s appears too often" % (k,))
    return None


def execute(sc):
    import pandas as pd
    from tatc import analysis

    st, v = Stats(), None
    orders, paired = [], 0
    try:
        if sc["kind"] == "rows":
            n = sc["obs_shards"]
            parts = [sc["rows"][k::n] for k in range(n) if sc["rows"][k::n]]
            otasks = [lambda p=p: place_obs(sc, frame_of(p, False)) for p in parts]
            dparts = [sc["down"][k::2] for k in range(2) if sc["down"][k::2]]
            dtasks = [lambda p=p: down_of(p) for p in dparts]
            idle = sc.get("idle", "")  # workers that saw no pass
            if "o" in idle or not otasks:
                otasks.insert(len(otasks) // 2, lambda: ops.nothing(False))
            if "d" in idle or not dtasks:
                dtasks.insert(len(dtasks) // 2, lambda: ops.nothing(True))
            places, boxes = sc["places"], sc["boxes"]
        else:
            set_config(dict(repeat_cycle_for_orbit_track=False, repeat_cycle_for_observation_events=False))
            W = ops.FWorld(sc["world"])
            s, e = parse(sc["start"]), parse(sc["end"])
            otasks = [lambda p=p, q=q: analysis.collect_observations(p, q, s, e) for p in W.points for q in W.sats]
            dtasks = [lambda q=q: analysis.collect_downlinks(W.stations, q, s, e) for q in W.sats]
            st["sim_s"] += (e - s).total_seconds() * (len(otasks) + len(dtasks))
            places = {str(p["id"]): [p["longitude"], p["latitude"]] for p in sc["world"]["points"]}
            boxes = [[3, -180, -90, 180, 90]]
        go = campaign.run(dict(sc["camp"], dedup=True), otasks, st)
        gd = campaign.run(sc["camp2"], dtasks, st)
        orders += [[k for k, _ in go], [k for k, _ in gd]]
        obs = campaign.gather([f for _, f in go], sc["obs_labels"], sc["seed"])
        down = campaign.gather([f for _, f in gd], sc["down_labels"], sc["seed"] + 1)
        if len(obs) and len(down):
            ro, rd = fp.frame(fp.canon(obs)), fp.frame(fp.canon(down))
            exp = expected(ro, rd)
            if sc["split"] == "obs":
                pieces = [(obs.iloc[k::2], down) for k in range(2) if len(obs.iloc[k::2])]
            elif sc["split"] == "sat":  # only satellites that have some downlink go to a worker of their own
                names = sorted(set(obs["satellite"]))
                pieces = [(obs[obs["satellite"] == q], down) for q in names]
            else:
                pieces = [(obs, down)]
            tasks = [lambda a=a, b=b: analysis.compute_latencies(a, b) for a, b in pieces]
            gl = campaign.run(dict(sc["camp3"], dedup=True), tasks, st)
            orders.append([k for k, _ in gl])
            for _, f in gl:
                ks = list(f["observed"])
                if ks != sorted(ks):
                    v = viol("order", "latency rows are not in order of observation")
            lat = pd.concat([f for _, f in gl]).sort_values("observed")
            v = v or check_latency(lat, exp, ro)
            paired = int(lat["downlinked"].notna().sum())
            st["probe.paired"] += paired
            st["probe.unpaired"] += len(lat) - paired
            if v is None:
                lat2 = campaign.gather([lat], sc["lat_labels"], sc["seed"] + 2)
                rows = fp.frame(fp.canon(lat))
                want = {}
                for p in sorted({r["point_id"] for r in rows}):
                    ls = [t(r["latency"]) for r in rows if r["point_id"] == p]
                    want[p] = (len(ls), dict(latency=pipeline.mean(ls)))
                ids = sorted(want)
                tasks = [lambda q=q: analysis.reduce_latencies(lat2[lat2["point_id"].isin(q)]) for q in (ids[::2], ids[1::2]) if q]
                gr = campaign.run(dict(sc["camp3"], dedup=True), tasks, st)
                red = campaign.gather([f for _, f in gr], sc["lat_labels"], sc["seed"] + 3)
                v = pipeline.check_reduced(red, want, ["latency"], places)
                if v is None:
                    cells = pipeline.cells_frame(boxes, sc["cell_labels"])
                    grid = analysis.grid_latencies(red, cells)
                    v = pipeline.check_grid(grid, want, boxes, places, ["latency"])
        else:
            lat = analysis.compute_latencies(obs, down)
            red = analysis.reduce_latencies(lat)
            grid = analysis.grid_latencies(red, pipeline.cells_frame(boxes, sc["cell_labels"]))
            st["probe.nothing_to_pair"] += 1
            if len(lat) or len(red) or (len(grid) and grid["samples"].sum()):
                v = viol("from-nothing", "%d observations and %d downlinks give %d latencies, %d reduced points, %s samples" % (
                    len(obs), len(down), len(lat), len(red), grid["samples"].sum()))
    except campaign.Failed as e:
        v = viol(e.kind, e)
    except Exception as e:  # noqa
        v = viol("raise", "latency analysis raised %s: %s" % (type(e).__name__, e))
    return dict(violation=v, stats=dict(st), digest=h(orders, paired, v and v["msg"], sorted(st.items())),
                sig=h(sc.get("rows"), sc.get("down"), sc.get("world"), orders, sc["obs_labels"], sc["down_labels"]),
                nontrivial=paired > 0, trace=orders)


def shrink(sc):
    if sc["kind"] == "rows":
        for k in ("rows", "down", "boxes"):
            for r in without(sc[k]):
                if r:
                    yield with_key(sc, k, r)
    for k, d in (("obs_shards", 1), ("split", "no"), ("obs_labels", "reset"), ("down_labels", "reset"),
                 ("lat_labels", "reset"), ("cell_labels", "default")):
        if sc[k] != d:
            yield with_key(sc, k, d)
    for k in ("camp", "camp2", "camp3"):
        for c in campaign.shrink_campaign(sc[k]):
            yield with_key(sc, k, c)
