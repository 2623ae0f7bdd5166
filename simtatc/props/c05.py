"""C05: coverage aggregation is independent of sharding, order and retries."""
import datetime as dt

from .. import campaign, fp, gen, kernel, ops, runner
from ..common import Stats, h, set_config, viol, with_key, without
from ..gen import iso, parse

ID = "C05"
LEVEL = "exploration"
RULE = ("a run is one simulated campaign: observations sharded over worker threads, partial results lost, duplicated, "
        "delayed and reordered, workers killed and their tasks retried, then gathered and aggregated; non-trivial when "
        "at least two pieces were gathered; distinct by (rows, shards, arrival order)")
RUNS = {"quick": 1440, "thorough": 20000}
BUDGET = {"quick": 240, "thorough": 2400}
BASE = "2022-06-01T00:00:00+00:00"
GAPS = [0, 0, 1, 7, 1000, 1_000_000, 60_000_000, 3_600_000_000, 250_000_000_000]
LENS = [0, 1, 1000, 2_000_000, 300_000_000, 1_200_000_000, 123_456_789_012]


def g_rows(rng, n, npts, nsats):
    """Observation rows (point, satellite, instrument, start us, end us) with many ties and near misses."""
    ids = rng.sample(range(0, 5000), npts)
    rows = []
    cur = {p: rng.randrange(0, 10**9) for p in ids}
    prev = {p: [] for p in ids}
    for _ in range(n):
        p = rng.choice(ids)
        m = rng.random()
        if prev[p] and m < 0.15:  # inside or equal to an earlier one
            a, b = rng.choice(prev[p])
            s = a if rng.random() < 0.5 else a + (b - a) // 2
            e = b if rng.random() < 0.5 else max(s, b - (b - s) // 3)
        elif prev[p] and m < 0.3:  # long, covers several later ones
            s = cur[p] + rng.choice(GAPS)
            e = s + 4_000_000_000
        elif prev[p] and m < 0.45:  # starts exactly where another one ends
            s = rng.choice(prev[p])[1]
            e = s + rng.choice(LENS)
        else:
            s = cur[p] + rng.choice(GAPS)
            e = s + rng.choice(LENS)
        prev[p].append((s, e))
        cur[p] = max(cur[p], e) if rng.random() < 0.7 else cur[p]
        rows.append([p, "S%d" % rng.randrange(nsats), "I%d" % rng.randrange(2), s, e])
    if rng.random() < 0.3:
        rng.shuffle(rows)
    # one worker never reports the same thing twice by itself
    out, seen = [], set()
    for r in rows:
        if tuple(r) not in seen:
            seen.add(tuple(r))
            out.append(r)
    return out


def generate(rng, i, tier):
    kind = rng.choice(["rows"] * 7 + ["real"])
    sc = dict(kind=kind, camp=campaign.g_campaign(rng), labels=rng.choice(campaign.LABELS), seed=rng.randrange(2**31),
              stage2=rng.random() < 0.5, camp2=campaign.g_campaign(rng, 150))
    if kind == "rows":
        sc["rows"] = g_rows(rng, rng.choice([1, 2, 4, 8, 16, 24]), rng.choice([1, 1, 2, 4]), rng.choice([1, 2, 3]))
        sc["shard"] = rng.choice(["row", "point", "satellite", "instrument", "time", "random", "one"])
        sc["cuts"] = sorted(rng.choice([r[3], r[4], (r[3] + r[4]) // 2]) for r in rng.sample(sc["rows"], min(3, len(sc["rows"]))))
        sc["empty"] = rng.choice([0, 0, 1, 3])
        sc["solar"] = rng.random() < 0.3
    else:
        w = gen.g_world(rng, sats=(1, 2), cons=(0, 1), points=(1, 2), stations=(0, 0), masks=0, solar=rng.random() < 0.3)
        if rng.random() < 0.35:  # names are labels, not identities
            for s in w["sats"] + w["cons"]:
                s["name"] = "S"
                if rng.random() < 0.5:
                    for x in s["instruments"]:
                        x["name"] = "I"
        if rng.random() < 0.6:
            for s in w["sats"] + w["cons"]:
                for x in s["instruments"]:
                    x["field_of_regard"] = 180.0
        st = parse(w["epoch"]) + dt.timedelta(seconds=rng.randrange(-3600, 7200))
        sc.update(world=w, start=iso(st), end=iso(st + dt.timedelta(hours=rng.choice([1, 3, 6]))),
                  omit_solar=rng.random() < 0.7, config=dict(repeat_cycle_for_orbit_track=False,
                                                             repeat_cycle_for_observation_events=False))
    return sc


# -------------------------------------------------------------------- model
def model(rows):
    """point -> list of [start, end, set of (satellite, instrument), number of rows]"""
    out = {}
    for p in sorted({r[0] for r in rows}):
        runs = []
        for r in sorted((r for r in rows if r[0] == p), key=lambda r: (r[3], r[4])):
            if runs and r[3] <= runs[-1][1]:
                runs[-1][1] = max(runs[-1][1], r[4])
                runs[-1][2].append((r[1], r[2]))
            else:
                runs.append([r[3], r[4], [(r[1], r[2])]])
        out[p] = runs
    return out


def ns(c):
    return c[1] if isinstance(c, tuple) else None


def rows_of(frame):
    """Rows (ns) of a real observation frame."""
    return [[r["point_id"], r["satellite"], r["instrument"], ns(r["start"]), ns(r["end"])]
            for r in fp.frame(fp.canon(frame))]


def split_names(s):
    return s.split(", ")


def compare(frame, want, multiset, locs=None):
    """Violation of the aggregation property, or None."""
    got = {}
    if len(frame):
        for r in fp.frame(fp.canon(frame)):
            got.setdefault(r["point_id"], []).append(r)
    for p in sorted(set(got) | set(want)):
        g, w = got.get(p, []), want.get(p, [])
        desc = "point %s: reported %s, expected %s" % (
            p, [(ns(r["start"]), ns(r["end"])) for r in g], [(r[0], r[1]) for r in w])
        if len(g) != len(w):
            return viol("periods", "%d access periods instead of %d; %s" % (len(g), len(w), desc))
        for k, (r, m) in enumerate(zip(g, w)):
            if abs(ns(r["start"]) - m[0]) > 500 or abs(ns(r["end"]) - m[1]) > 500:
                return viol("periods", "period %d differs; %s" % (k, desc))
            if r["access"] == fp.NULL or abs(ns(r["access"]) - (m[1] - m[0])) > 500:
                return viol("access", "access of period %d is %s; %s" % (k, r["access"], desc))
            if k == 0:
                if r["revisit"] != fp.NULL:
                    return viol("revisit", "first period has revisit %s; %s" % (r["revisit"], desc))
            elif r["revisit"] == fp.NULL or abs(ns(r["revisit"]) - (m[0] - w[k - 1][1])) > 500:
                return viol("revisit", "revisit of period %d is %s; %s" % (k, r["revisit"], desc))
            pairs = list(zip(split_names(r["satellite"]), split_names(r["instrument"])))
            ok = sorted(pairs) == sorted(m[2]) if multiset else set(pairs) == set(m[2])
            if not ok:
                return viol("names", "period %d lists %s, contributed by %s; %s" % (k, pairs, m[2], desc))
            if r["epoch"] == fp.NULL:
                return viol("epoch", "period %d has no epoch; %s" % (k, desc))
    return None


# ------------------------------------------------------------------ execution
def frame_of(rows, solar):
    f = ops.obs_frame([[r[0], r[1], r[2], 0, 0] for r in rows], BASE)
    if len(rows):
        import pandas as pd

        b = pd.Timestamp(BASE)
        f["start"] = [b + pd.Timedelta(microseconds=r[3]) for r in rows]
        f["end"] = [b + pd.Timedelta(microseconds=r[4]) for r in rows]
        f["epoch"] = f["start"] + (f["end"] - f["start"]) / 2
        if solar:
            f["sat_sunlit"] = True
            f["solar_alt"] = 1.5
    return f


def shards(sc):
    rows, k = sc["rows"], sc["shard"]
    if k == "one":
        out = [rows]
    elif k == "row":
        out = [[r] for r in rows]
    elif k in ("point", "satellite", "instrument"):
        j = {"point": 0, "satellite": 1, "instrument": 2}[k]
        out = [[r for r in rows if r[j] == v] for v in sorted({r[j] for r in rows})]
    elif k == "random":
        out = [[r for n, r in enumerate(rows) if (n * 7919 + sc["seed"]) % 3 == v] for v in range(3)]
    else:  # time windows: an observation crossing a cut is reported in two parts
        edges = [-(10**18)] + sc["cuts"] + [10**18]
        out = []
        for a, b in zip(edges, edges[1:]):
            part = []
            for r in rows:
                s, e = max(r[3], a), min(r[4], b)
                if s < e or (s == e and r[3] == r[4] and a <= s < b):
                    part.append([r[0], r[1], r[2], s, e])
            out.append(part)
    return [o for o in out if o] + [[]] * sc["empty"]


def execute(sc):
    from tatc import analysis

    st, v, v2 = Stats(), None, None
    arrivals = []
    try:
        if sc["kind"] == "rows":
            sh = shards(sc)
            tasks = [lambda p=p: frame_of(p, sc["solar"]) for p in sh]
            got = campaign.run(sc["camp"], tasks, st)
            obs = campaign.gather([f for _, f in got], sc["labels"], sc["seed"])
            base = dt.datetime.fromisoformat(BASE)
            b = int(base.timestamp()) * 10**9
            want = model([[r[0], r[1], r[2], b + r[3] * 1000, b + r[4] * 1000] for r in sc["rows"]])
            multi = sc["shard"] != "time" and len(got) == len(tasks)
        else:
            set_config(sc["config"])
            W = ops.FWorld(sc["world"])
            s, e = parse(sc["start"]), parse(sc["end"])
            span = (e - s).total_seconds()
            members = [m for c in W.sats + W.cons for m in c.generate_members()]
            tasks = [lambda p=p, m=m, k=k: analysis.collect_observations(p, m, s, e, k, sc["omit_solar"])
                     for p in W.points for m in members for k in range(len(m.instruments))]
            st["sim_s"] += span * len(tasks)

            def reference():
                set_config(sc["config"])
                R = ops.FWorld(sc["world"])
                return [analysis.collect_multi_observations(p, R.sats + R.cons, s, e, sc["omit_solar"]) for p in R.points]

            ref = runner.pristine(reference)
            got = campaign.run(sc["camp"], tasks, st)
            obs = campaign.gather([f for _, f in got], sc["labels"], sc["seed"])
            multi = len(got) == len(tasks)
            if multi:
                v = same_rows(ref, obs)
            want = model([r for f in ref for r in rows_of(f)])
            st["probe.real_observations"] += sum(len(f) for f in ref)
        arrivals = [k for k, _ in got]
        st["probe.rows"] += len(obs)
        if v is None:
            agg = analysis.aggregate_observations(obs)
            v = compare(agg, want, multi)
        if v is None and sc["stage2"] and len(obs):
            ids = sorted(set(obs["point_id"]))
            parts = [ids[k::2] for k in range(2) if ids[k::2]]
            tasks = [lambda q=q: analysis.aggregate_observations(obs[obs["point_id"].isin(q)]) for q in parts]
            got2 = campaign.run(dict(sc["camp2"], dedup=True), tasks, st)
            agg2 = campaign.gather([f for _, f in got2], sc["labels"] if sc["labels"] != "shuffle" else "keep")
            v = compare(agg2, want, multi)
            if v:
                v["msg"] = "aggregated by workers per point: " + v["msg"]
    except campaign.Failed as e:
        v = viol(e.kind, e)
    except Exception as e:  # noqa
        v = viol("raise", "aggregation raised %s: %s" % (type(e).__name__, e))
    st["probe.gathered_pieces"] += len(arrivals)
    return dict(violation=v, stats=dict(st), digest=h(arrivals, v and v["msg"], sorted(st.items())),
                sig=h(sc.get("rows"), sc.get("world"), sc.get("shard"), arrivals), nontrivial=len(arrivals) > 1,
                trace=dict(arrivals=arrivals))


def same_rows(ref, obs):
    """Observations collected at once equal those collected one by one (as a multiset of rows)."""
    import pandas as pd

    a = [r for f in ref for r in fp.frame(fp.canon(f))]
    b = fp.frame(fp.canon(obs))

    def k(r):
        return (r["point_id"], ns(r["start"]) // 1000, str(r["satellite"]), str(r["instrument"]), ns(r["end"]))

    a, b = sorted(a, key=k), sorted(b, key=k)
    if len(a) != len(b):
        return viol("collect", "%d observations collected at once, %d one by one" % (len(a), len(b)))
    for x, y in zip(a, b):
        for c in sorted(set(x) | set(y)):
            d = fp.diff(y.get(c), x.get(c))
            if d:
                return viol("collect", "observation of point %s by %s/%s: %s%s" % (x["point_id"], x["satellite"], x["instrument"], c, d))
    for f in ref:
        s = [ns(r["start"]) for r in fp.frame(fp.canon(f))]
        if s != sorted(s):
            return viol("collect", "observations collected at once are not in time order")
    return None


def shrink(sc):
    if sc["stage2"]:
        yield with_key(sc, "stage2", False)
    if sc["kind"] == "rows":
        for r in without(sc["rows"]):
            if r:
                yield with_key(sc, "rows", r)
        if sc["empty"]:
            yield with_key(sc, "empty", 0)
        if sc["shard"] != "one":
            yield with_key(sc, "shard", "one")
        if sc["solar"]:
            yield with_key(sc, "solar", False)
    else:
        w = sc["world"]
        for k in ("sats", "cons", "points"):
            c = dict(w, **{k: w[k][:-1]})
            if len(w[k]) and c["points"] and c["sats"]:
                yield with_key(sc, "world", c)
    if sc["labels"] != "reset":
        yield with_key(sc, "labels", "reset")
    for c in campaign.shrink_campaign(sc["camp"]):
        yield with_key(sc, "camp", c)
    for c in campaign.shrink_campaign(sc["camp2"]):
        yield with_key(sc, "camp2", c)
