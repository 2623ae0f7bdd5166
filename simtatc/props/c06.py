"""C06: coverage reduction and gridding conserve samples and weigh every point."""
import datetime as dt

from .. import campaign, fp, ops, pipeline
from ..common import Stats, h, viol, with_key, without
from .c05 import BASE, frame_of, g_rows, model

ID = "C06"
LEVEL = "exploration"
RULE = ("a run is one simulated campaign: aggregated observations are reduced by worker threads per set of points, the "
        "pieces lost, delayed, reordered, redelivered and retried, gathered with varied row labels and gridded over cells "
        "sharded in the same way; non-trivial when some cell holds a sample; distinct by (rows, labels, arrival orders)")
RUNS = {"quick": 1440, "thorough": 20000}
BUDGET = {"quick": 240, "thorough": 2400}
COLS = ["access", "revisit"]


def generate(rng, i, tier):
    rows = g_rows(rng, rng.choice([1, 3, 8, 16, 30]), rng.choice([1, 2, 4, 7]), 2)
    if rng.random() < 0.05:
        rows = []
    places = pipeline.g_places(rng, sorted({r[0] for r in rows}) or [0])
    return dict(rows=rows, places=places, boxes=pipeline.g_cells(rng, places), cell_labels=rng.choice(pipeline.CELL_LABELS),
                source=rng.choice(["model", "model", "library"]), shards=rng.choice([1, 2, 3, 5]),
                agg_labels=rng.choice(campaign.LABELS), red_labels=rng.choice(campaign.LABELS), seed=rng.randrange(2**31),
                camp=campaign.g_campaign(rng, 60), camp2=campaign.g_campaign(rng, 60), cell_shards=rng.choice([1, 1, 2, 3]),
                # a long campaign: reduced observations of very many samples are gridded too
                long={str(p): [rng.choice([1, 7, 300, 40000, 70000, 3 * 10**9]), round(rng.uniform(0.1, 1500), 6), rng.choice([None, round(rng.uniform(1, 4e6), 6)])]
                      for p in places} if rng.random() < 0.25 else None)


def agg_frame(sc, mod):
    """Aggregated observations laid out as the library lays them out."""
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import Point

    recs = []
    for p, runs in mod.items():
        for k, (s, e, names) in enumerate(runs):
            s_, e_ = pd.Timestamp(s, unit="ns", tz="UTC"), pd.Timestamp(e, unit="ns", tz="UTC")
            recs.append(dict(geometry=Point(*sc["places"][str(p)], 0), point_id=p, satellite=", ".join(n[0] for n in names),
                             instrument=", ".join(n[1] for n in names), start=s_, epoch=s_ + (e_ - s_) / 2, end=e_,
                             access=e_ - s_, revisit=pd.NaT if k == 0 else pd.Timedelta(s - runs[k - 1][1], unit="ns")))
    f = gpd.GeoDataFrame(recs, crs="EPSG:4326")
    f["revisit"] = pd.Series([r["revisit"] for r in recs], dtype="timedelta64[ns]")
    return f


def place_obs(sc, f):
    from shapely.geometry import Point

    f["geometry"] = [Point(*sc["places"][str(p)], 0) for p in f["point_id"]]
    return f


def long_frame(sc):
    """Reduced observations of a long campaign, laid out as the library lays them out, with the exact totals expected."""
    import geopandas as gpd
    import pandas as pd
    from shapely.geometry import Point

    f = gpd.GeoDataFrame(dict(point_id=[int(p) for p in sc["long"]], samples=[x[0] for x in sc["long"].values()]),
                         geometry=[Point(*sc["places"][p], 0) for p in sc["long"]], crs="EPSG:4326")
    f["access"] = pd.to_timedelta([x[1] for x in sc["long"].values()], unit="s")
    f["revisit"] = pd.to_timedelta([x[2] for x in sc["long"].values()], unit="s")
    want = {int(p): (x[0], dict(access=x[1] * 1e9, revisit=None if x[2] is None else x[2] * 1e9)) for p, x in sc["long"].items()}
    return f[["point_id", "geometry", "access", "revisit", "samples"]], want


def execute(sc):
    from tatc import analysis

    st, v = Stats(), None
    order1 = order2 = []
    held = 0
    try:
        b = int(dt.datetime.fromisoformat(BASE).timestamp()) * 10**9
        mod = model([[r[0], r[1], r[2], b + r[3] * 1000, b + r[4] * 1000] for r in sc["rows"]])
        want = {p: (len(runs), dict(access=pipeline.mean([r[1] - r[0] for r in runs]),
                                    revisit=pipeline.mean([None] + [y[0] - x[1] for x, y in zip(runs, runs[1:])])))
                for p, runs in mod.items()}
        cells = pipeline.cells_frame(sc["boxes"], sc["cell_labels"])
        if sc["rows"]:
            if sc["source"] == "library":
                agg = analysis.aggregate_observations(place_obs(sc, frame_of(sc["rows"], False)))
            else:
                agg = agg_frame(sc, mod)
            agg = campaign.gather([agg], sc["agg_labels"], sc["seed"])
            ids = sorted(want)
            parts = [ids[k::sc["shards"]] for k in range(sc["shards"]) if ids[k::sc["shards"]]]
            tasks = [lambda q=q: analysis.reduce_observations(agg[agg["point_id"].isin(q)]) for q in parts]
        else:
            tasks = [lambda: analysis.reduce_observations(analysis.aggregate_observations(ops.obs_frame([], BASE)))]
        got = campaign.run(dict(sc["camp"], dedup=True), tasks, st)
        order1 = [k for k, _ in got]
        red = campaign.gather([f for _, f in got], sc["red_labels"], sc["seed"] + 1)
        v = pipeline.check_reduced(red, want, COLS, sc["places"])
        if v is None:
            m = sc["cell_shards"]
            tasks = [lambda k=k: analysis.grid_observations(red, cells.iloc[k::m]) for k in range(m) if len(cells.iloc[k::m])]
            got = campaign.run(dict(sc["camp2"], dedup=True), tasks, st)
            order2 = [k for k, _ in got]
            grid = campaign.gather([f for _, f in got], "keep")
            v = pipeline.check_grid(grid, want, sc["boxes"], sc["places"], COLS)
            held = int(grid["samples"].sum()) if len(grid) else 0
            st["probe.cells_with_samples"] += int((grid["samples"] > 0).sum()) if len(grid) else 0
        if v is None and sc.get("long"):
            f, many = long_frame(sc)
            f = campaign.gather([f], sc["red_labels"], sc["seed"] + 2)
            m = sc["cell_shards"]
            parts = [analysis.grid_observations(f, cells.iloc[k::m]) for k in range(m) if len(cells.iloc[k::m])]
            v = pipeline.check_grid(campaign.gather(parts, "keep"), many, sc["boxes"], sc["places"], COLS)
            st["probe.long_campaigns_gridded"] += 1
    except campaign.Failed as e:
        v = viol(e.kind, e)
    except Exception as e:  # noqa
        v = viol("raise", "reduction or gridding raised %s: %s" % (type(e).__name__, e))
    return dict(violation=v, stats=dict(st), digest=h(order1, order2, held, v and v["msg"], sorted(st.items())),
                sig=h(sc["rows"], sc["agg_labels"], sc["red_labels"], sc["cell_labels"], order1, order2),
                nontrivial=held > 0, trace=dict(reduced=order1, gridded=order2))


def shrink(sc):
    for r in without(sc["rows"]):
        if r:
            yield with_key(sc, "rows", r)
    for b in without(sc["boxes"]):
        if b:
            yield with_key(sc, "boxes", b)
    if sc.get("long"):
        yield with_key(sc, "long", None)
    for k, d in (("shards", 1), ("cell_shards", 1), ("agg_labels", "reset"), ("red_labels", "reset"),
                 ("cell_labels", "default"), ("source", "model")):
        if sc[k] != d:
            yield with_key(sc, k, d)
    for k in ("camp", "camp2"):
        for c in campaign.shrink_campaign(sc[k]):
            yield with_key(sc, k, c)
