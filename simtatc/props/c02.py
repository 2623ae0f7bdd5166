"""C02: results do not depend on what was called or configured before."""
import copy
import datetime as dt
import gc

from .. import fp, gen, kernel, mutate, ops, runner
from ..common import CONFIGS, Stats, attempt, baseline, describe, h, key, set_config, viol, with_key, without

ID = "C02"
LEVEL = "exploration"
RULE = ("a run is one seeded history of calls, field changes, copies with updates, rebuilt objects and configuration "
        "changes; every call is compared with the same call on freshly built equal objects in a fresh process; "
        "non-trivial when a call follows a change of an object or of the configuration; distinct by the history")
RUNS = {"quick": 650, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2400}
TWIN = True

CFG = {
    "orbit_tle_lazy_load": [True, False],
    "repeat_cycle_lazy_load": [True, False],
    "repeat_cycle_for_orbit_track": [True, False],
    "repeat_cycle_for_observation_events": [True, False],
    "footprint_points_elliptical": [8, 16, 32],
    "footprint_points_rectangular_side": [1, 3, 8],
}
THR = {
    "repeat_cycle_delta_position_m": [10.0, 10000.0, 1e6],
    "repeat_cycle_delta_velocity_m_per_s": [0.01, 10.0, 1000.0],
    "repeat_cycle_search_elevation_deg": [60.0, 88.0],
    "repeat_cycle_search_duration_days": [0.5, 1.5, 2.0, 3.5],
}


# calls on objects that keep results are the ones most at risk
CATALOGUE = ops.VARIANTS + [(k, {}) for k in ("members", "members", "members", "con_info", "to_tle", "instr", "repeat", "downlinks", "events", "track", "closest", "repeat", "repeat")] + [
    ("track", dict(vector=False)), ("track", dict(vector=False))]


def generate(rng, i, tier):
    if i % 6 == 1:
        return inplace(rng, i)
    about = CATALOGUE[i // 2 % len(CATALOGUE)][0] if i % 2 == 0 else None
    w = gen.g_world(rng, sats=(1, 3), cons=(1, 1) if about in ("members", "con_info") else (0, 1), points=(1, 3), stations=(1, 2), masks=2,
                    kinds=["repeat", "repeat", "multitle"] if about == "repeat" else ["multitle", "multitle", "tle", "repeat"]
                    if about in ("track", "closest") and rng.random() < 0.6 else ["circular", "sso", "keplerian", "tle", "multitle", "repeat", "repeat"])
    ops.g_frames(rng, w)
    if rng.random() < 0.4:  # identities collide: nothing may be remembered by name or id
        for s in w["sats"]:
            s["name"] = "S"
            for x in s["instruments"]:
                x["name"] = "I"
        for p in w["points"]:
            p["id"] = 0
        for s in w["stations"]:
            s["name"] = "G"
    thresholds = rng.random() < (0.7 if about == "repeat" else 0.3)
    cfg = dict(repeat_cycle_search_duration_days=2.0)
    if thresholds:
        cfg["repeat_cycle_lazy_load"] = False
    cur = copy.deepcopy(w)
    acts, seen = [], []
    n = rng.randint(5, 14 if tier == "thorough" else 9)
    focus = rng.sample(ops.ALL, rng.choice([2, 3, 5]))
    family = i % 2 == 0  # variations of one call and of the objects it is given
    for _ in range(n):
        r = rng.random()
        if r < 0.55 or not seen:
            if family:
                op = ops.tweak(rng, rng.choice(seen), cur, tmax=6) if seen else ops.variant(rng, cur, i // 2, tmax=6, catalogue=CATALOGUE)
            elif seen and rng.random() < 0.55:
                op = ops.tweak(rng, rng.choice(seen), cur, tmax=6) if rng.random() < 0.6 else dict(rng.choice(seen))
            else:
                op = ops.g_op(rng, cur, focus if rng.random() < 0.6 else None, tmax=6)
            if thresholds and op.get("op") == "repeat":
                op["lazy"] = None
            seen.append(op)
            acts.append(dict(do="op", op=op))
        elif r < (0.65 if thresholds and about == "repeat" else 0.8):
            a = mutate.g_update(rng, cur)
            if family:  # preferably a change of something the calls are given
                cand = {}
                for _ in range(14):
                    b = mutate.g_update(rng, cur)
                    if any(concerns(b, x) for x in seen):
                        cand.setdefault((b["what"], b.get("coll")), b)
                if cand:
                    a = cand[rng.choice(sorted(cand, key=str))]
            cur = mutate.spec_update(cur, a)
            acts.append(a)
            use = [x for x in seen if concerns(a, x)] or seen
            if use:
                acts.append(dict(do="op", op=dict(rng.choice(use))))
        elif r < 0.97:
            pool = dict(CFG)
            if thresholds:
                pool.pop("repeat_cycle_lazy_load")
                pool.update(THR)
            k = rng.choice(list(pool))
            if thresholds and about == "repeat":
                k = rng.choice(list(THR) + ["repeat_cycle_search_duration_days"])
            acts.append(dict(do="config", key=k, value=rng.choice(pool[k]), how=rng.choice(["set", "set", "replace"])))
            if seen:
                acts.append(dict(do="op", op=dict(rng.choice(seen))))
        else:
            acts.append(dict(do="gc"))
    # which results are remembered is no part of the result: some references are computed with lazy loading inverted
    return dict(world=w, config=cfg, acts=acts, inverted=not thresholds and rng.random() < 0.3)


def inplace(rng, i):
    """Short histories around changes of what one orbit holds, with the same calls before and after."""
    w = gen.g_world(rng, sats=(1, 2), cons=(0, 0), points=(1, 1), stations=(1, 1), masks=0,
                    kinds=["multitle", "multitle", "multitle", "tle", "repeat", "circular", "sso"])
    cur, acts = copy.deepcopy(w), []
    use = [ops.g_op(rng, cur, [k], tmax=4) for k in rng.sample(
        ["track", "closest", "events", "elements", "fields", "repeat", "derived", "observe", "downlinks", "orbit_track", "partition", "valid"], 2)]
    if rng.random() < 0.5:
        use.append(dict(ops.g_op(rng, cur, ["track"], tmax=1), vector=False))
    t = w["sats"][0]["orbit"].get("tle", [])
    if len(t) > 2 and rng.random() < 0.6:  # instants on both sides of the change of the closest set
        from .c22 import epoch_of

        j = 2 * rng.randrange(len(t) // 2 - 1)
        a, b = epoch_of(t[j:j + 2]), epoch_of(t[j + 2:j + 4])
        for _ in range(3):
            at = a + (b - a) / 2 + dt.timedelta(seconds=rng.choice([-1, 1]) * rng.choice([1, 20, 100, 400]))
            use.append(dict(op=rng.choice(["track", "closest"]), sat=0, times=[gen.iso(at), 7200, 1]))
            if use[-1]["op"] == "track":
                use[-1]["vector"] = False
    for _ in range(rng.randint(2, 4)):
        acts += [dict(do="op", op=dict(o)) for o in rng.sample(use, len(use))]
        for _ in range(20):
            a = mutate.g_update(rng, cur)
            if a["what"] == "orbit" and any(concerns(a, o) for o in use):
                if a["how"] not in ("inplace", "assign") and rng.random() < 0.6:
                    continue
                break
        else:
            continue
        cur = mutate.spec_update(cur, a)
        acts.append(a)
    acts += [dict(do="op", op=dict(o)) for o in rng.sample(use, len(use))]
    return dict(world=w, config=dict(repeat_cycle_search_duration_days=2.0), acts=acts, inverted=False)


def concerns(a, op):
    """The changed object is one of those the call is given."""
    if a["what"] in ("orbit", "instr", "sat"):
        i = a["i"]
        if a.get("coll", "sats") == "cons":
            return op.get("con") == i or i in op.get("cons", ())
        if a["what"] == "instr" and "instr" in op and op["instr"] != a["j"]:
            return False
        return op.get("sat") == i or op.get("rx") == i or i in op.get("sats", ()) or i in op.get("txs", ()) or op["op"] == "dop"
    if a["what"] == "con":
        return op.get("con") == a["i"] or a["i"] in op.get("cons", ())
    if a["what"] == "point":
        return op.get("point") == a["i"]
    if a["what"] == "station":
        return a["i"] in op.get("stations", ())
    return op["op"] in ("aggregate", "reduce", "grid", "latency", "reduce_lat", "grid_lat")


def execute(sc):
    w, cfg = sc["world"], dict(sc["config"])
    set_config(cfg)
    W = ops.FWorld(w)
    cur = w
    st = Stats()
    v, changed, late = None, False, 0
    hist = []
    for n, a in enumerate(sc["acts"]):
        if a["do"] == "config":
            cfg[a["key"]] = a["value"]
            if a.get("how") == "replace":  # as with the result of loading a configuration file
                from tatc import config

                config.rc = config.RuntimeConfiguration(**dict(config.rc.model_dump(), **{a["key"]: a["value"]}))
                st["fault.config_replaced"] += 1
            else:
                set_config({a["key"]: a["value"]})
                st["fault.config_change"] += 1
            changed = True
        elif a["do"] == "gc":
            gc.collect()
            st["fault.gc"] += 1
        elif a["do"] == "update":
            cur = mutate.spec_update(cur, a)
            mutate.live_update(W, cur, a)
            changed = True
            st["fault.%s_%s" % (a["how"], a["what"])] += 1
        else:
            op = a["op"]
            if sc.get("inverted"):
                ref = dict(cfg, **{k: not cfg.get(k, True) for k in ("orbit_tle_lazy_load", "repeat_cycle_lazy_load")})
                rop = dict(op, lazy=not op["lazy"]) if op.get("lazy") is not None else op
                want = baseline(cur, rop, ref, step=False)[0]
                st["probe.reference_inverted_lazy_loading"] += 1
            else:
                want = baseline(cur, op, cfg, step=False)[0]
            got = attempt(lambda: ops.run_op(W, op))
            st.ops([op])
            late += changed
            hist.append(fp.digest(got))
            d = fp.diff(got, want)
            if d:
                prior = ", ".join(x["do"] if x["do"] != "op" else x["op"]["op"] for x in sc["acts"][:n])
                v = viol("history", "action %d %s after [%s]: %s (with history != fresh)" % (n, describe(op), prior, d))
                break
    st["steps"] = len(sc["acts"])
    st["probe.call_after_change"] = late
    st["probe.repeated_call"] = len(hist) - len({key(a["op"]) for a in sc["acts"] if a["do"] == "op"})
    return dict(violation=v, stats=dict(st), digest=h(hist, v and v["msg"]), sig=h(sc["acts"]), nontrivial=late > 0,
                trace=[a["do"] if a["do"] != "op" else a["op"]["op"] for a in sc["acts"]])


def shrink(sc):
    for a in without(sc["acts"]):
        if any(x["do"] == "op" for x in a):
            yield with_key(sc, "acts", a)
