"""C01: concurrent calls on shared objects give the isolated results."""
from .. import fp, gen, kernel, ops
from ..common import (Stats, attempt, baselines, describe, g_config, h, is_exc, key, set_config, viol, with_key, without)

ID = "C01"
LEVEL = "exploration"
RULE = ("a run is one seeded interleaving of 2-4 threads of public calls on shared objects; non-trivial when at least "
        "one thread was preempted inside a library call; distinct by the sequence of scheduling decisions")
RUNS = {"quick": 850, "thorough": 12000}
BUDGET = {"quick": 240, "thorough": 2400}
TWIN = True

HOT = ["to_tle", "track", "closest", "partition", "repeat", "members", "derived", "elements", "events", "limb",
       "footprint", "instr", "valid", "aggregate", "reduce", "grid", "latency", "reduce_lat", "grid_lat", "normalize",
       "observe", "downlinks", "orbit_track", "ground_track", "multi", "dop", "ro", "pixels", "points", "cells",
       "compute_gt"]


WATCH = ["track", "track", "track", "to_tle", "repeat", "events", "footprint", "members", "closest", "instr"]


def generate(rng, i, tier):
    big = tier == "thorough"
    kinds = ["circular", "sso", "keplerian", "tle", "multitle", "multitle", "repeat"]
    cross = i % 3 == 0  # near misses: the same kind of call on different objects or with other arguments
    mode = "cross" if cross else "watch" if i % 3 == 1 and rng.random() < 0.5 else rng.choice(["same", "pair", "mixed", "mixed"])
    if mode == "watch":
        kinds = ["repeat", "repeat", "repeat", "multitle", "sso"]
    w = gen.g_world(rng, sats=(2, 2) if cross else (1, 2), cons=(0, 1), points=(1, 2), stations=(1, 2), masks=1,
                    kinds=[rng.choice(kinds)] if cross and rng.random() < 0.6 else kinds)
    ops.g_frames(rng, w)
    nt = rng.choice([2, 2, 2, 3, 3, 4] if big else [2, 2, 3])
    threads = []
    if mode == "same":  # every thread makes the same cold call
        op = ops.g_op(rng, w, HOT, tmax=6)
        threads = [[dict(op)] for _ in range(nt)]
        for t in threads:
            for _ in range(rng.choice([0, 1])):
                t.append(ops.g_op(rng, w, HOT, tmax=5))
    elif mode == "cross":
        op = ops.variant(rng, w, i // 3, tmax=5)
        threads = [[op]]
        for _ in range(nt - 1):
            other = dict(op)
            if "sat" in op and rng.random() < 0.6:
                other = dict(op, sat=(op["sat"] + 1) % len(w["sats"]))
                if "instr" in op:
                    other["instr"] = op["instr"] % len(w["sats"][other["sat"]]["instruments"])
                if op["op"] == "pixels":
                    other = dict(op)
            threads.append([other if other != op else ops.tweak(rng, op, w, tmax=5)])
    elif mode == "watch":  # a call of the catalogue beside short calls that depend on settings and shared values
        threads = [[ops.variant(rng, w, i // 3, tmax=5)]]
        for _ in range(nt - 1):
            threads.append([ops.g_op(rng, w, WATCH, tmax=2) for _ in range(rng.choice([3, 5, 8]))])
    elif mode == "pair":  # two kinds of call racing over few objects
        kinds = rng.sample(HOT, 2)
        for k in range(nt):
            threads.append([ops.g_op(rng, w, kinds, tmax=5) for _ in range(rng.choice([1, 2]))])
    else:
        for k in range(nt):
            threads.append([ops.g_op(rng, w, HOT, tmax=5) for _ in range(rng.choice([1, 1, 2, 3]))])
    cost = sum(ops.COST[o["op"]] for t in threads for o in t)
    gran = "instr" if rng.random() < 0.3 and cost < 120 else "line"
    pk = rng.choice(["random", "random", "pct", "pct", "fresh", "rr"] if mode not in ("cross", "watch") else ["random", "pct", "fresh", "fresh", "fresh"])
    seed = rng.randrange(2**32)
    if pk == "random":
        pol = dict(kind=pk, seed=seed, p=rng.choice([0.02, 0.1, 0.3, 0.6]))
    elif pk == "pct":
        pol = dict(kind=pk, seed=seed, frac=sorted(round(rng.random() ** 1.5, 5) for _ in range(rng.choice([1, 2, 3, 5, 8]))))
    elif pk == "fresh":
        pol = dict(kind=pk, seed=seed, p=rng.choice([0.15, 0.3, 0.7, 1.0]))
    else:
        pol = dict(kind=pk, seed=seed, q=rng.choice([1, 3, 7, 17]))
    probes = [ops.g_op(rng, w, HOT[:14], tmax=4)]
    return dict(world=w, threads=threads, probes=probes, config=g_config(rng), granularity=gran, policy=pol)


def execute(sc):
    w, threads, cfg = sc["world"], sc["threads"], sc["config"]
    every = [o for t in threads for o in t]
    base = baselines(w, every + sc["probes"], cfg)
    total = sum(base[key(o)][1] for o in every)
    set_config(cfg)
    W = ops.FWorld(w)
    pol = dict(sc["policy"])
    scale = 9 if sc["granularity"] == "instr" else 1  # byte codes per line, roughly
    if pol["kind"] == "pct":
        pol["points"] = [1 + int(f * total * scale) for f in pol["frac"]]
    results = [[None] * len(t) for t in threads]
    sim = kernel.Sim(pol, sc["granularity"], max_steps=60 * (total + 2000) * scale + 200000)

    def body(t):
        def run():
            for j, op in enumerate(threads[t]):
                results[t][j] = attempt(lambda: ops.run_op(W, op))
        return run

    for t in range(len(threads)):
        sim.spawn(body(t))
    sim.run()
    v = None
    if sim.fatal is not None:
        v = viol(type(sim.fatal).__name__, sim.fatal)
    for t, ops_t in enumerate(threads):
        if v:
            break
        if sim.threads[t].exc is not None:
            v = viol("raise", "thread %d ended with %r" % (t, sim.threads[t].exc))
            break
        for j, op in enumerate(ops_t):
            want, got = base[key(op)][0], results[t][j]
            d = fp.diff(got, want)
            if d:
                kind = "raise" if is_exc(got) else "diff"
                v = viol(kind, "thread %d call %d %s: %s (concurrent != isolated)" % (t, j, describe(op), d))
                break
    if v is None:
        for op in sc["probes"] + every[:1]:
            try:
                got = attempt(lambda: ops.run_op(W, op))
            except kernel.SimDeadlock as e:
                v = viol("deadlock-after", "call after the threads ended %s: %s" % (describe(op), e))
                break
            d = fp.diff(got, base[key(op)][0])
            if d:
                v = viol("after", "call after the threads ended %s: %s" % (describe(op), d))
                break
    st = Stats(steps=sim.step, preemptions=sim.preemptions, switches=len(sim.switches),
               spice_calls=kernel.spice_calls, switch_sites=len(sim.switch_sites)).ops(every)
    st["fault.preemption"] = sim.preemptions
    st["fault.stall"] = len(pol.get("points", []))
    st["probe.preempted_runs"] = int(sim.preemptions > 0)
    st["probe.instr_runs"] = int(sc["granularity"] == "instr")
    st["probe.policy_" + pol["kind"]] = 1
    return dict(violation=v, stats=dict(st), digest=h(sim.digest(), [[fp.digest(r) for r in t] for t in results]),
                sig=h(sim.switches), nontrivial=sim.preemptions > 0,
                trace=dict(switches=[list(s) for s in sim.switches[:400]], steps=sim.step),
                explicit=[list(s) for s in sim.switches])


def concretise(sc, out):
    if sc["policy"]["kind"] == "explicit" or "explicit" not in out or len(out["explicit"]) > 4000:
        return None
    return with_key(sc, "policy", dict(kind="explicit", switches=out["explicit"]))


def shrink(sc):
    if sc["probes"]:
        yield with_key(sc, "probes", [])
    th = sc["threads"]
    if len(th) > 2:
        for i in range(len(th)):
            if sc["policy"]["kind"] == "explicit":
                sw = [[s, t - (t > i)] for s, t in sc["policy"]["switches"] if t != i]
                yield dict(sc, threads=th[:i] + th[i + 1:], policy=dict(kind="explicit", switches=sw))
            else:
                yield with_key(sc, "threads", th[:i] + th[i + 1:])
    for i, t in enumerate(th):
        if len(t) > 1:
            for j in range(len(t)):
                yield with_key(sc, "threads", th[:i] + [t[:j] + t[j + 1:]] + th[i + 1:])
    if sc["policy"]["kind"] == "explicit":
        for s in without(sc["policy"]["switches"]):
            yield with_key(sc, "policy", dict(kind="explicit", switches=s))
    elif sc["policy"]["kind"] == "pct":
        for f in without(sc["policy"]["frac"]):
            yield with_key(sc, "policy", dict(sc["policy"], frac=f))
