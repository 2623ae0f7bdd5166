"""C03: an interrupted or failed call leaves nothing behind."""
from .. import boot, fp, gen, kernel, ops
from ..common import (Stats, attempt, baseline, config_state, describe, g_config, h, is_exc, key, probe_faults, set_config,
                      snap_diff, viol, with_key, without)

ID = "C03"
LEVEL = "exploration"
RULE = ("a run ends one or several calls at seeded points (an interrupt, a failing allocation or system call at a "
        "source line, a failing ephemeris read, or the death of one of two concurrent callers), then retries and makes "
        "other calls on the same objects; non-trivial when the fault fired inside a call; distinct by (call, fault kind, "
        "source line where it fired, order of faults)")
RUNS = {"quick": 800, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2400}
TWIN = True
EXC = ["interrupt", "interrupt", "memory", "oserror"]
SOLAR = ["observe", "orbit_track", "ground_track", "pixels", "valid", "multi", "compute_gt"]


def generate(rng, i, tier):
    mode = ["seq", "sweep", "eph", "sweep", "pair"][i % 5]
    kinds = ["circular", "sso", "keplerian", "tle", "multitle", "repeat"]
    w = gen.g_world(rng, sats=(1, 2), cons=(0, 1), points=(1, 2), stations=(1, 2), masks=1,
                    kinds=["repeat"] if mode == "sweep" and rng.random() < 0.3 else kinds)
    ops.g_frames(rng, w)
    sc = dict(world=w, config=g_config(rng), mode=mode)
    if mode == "eph":
        for s in w["sats"] + w["cons"]:
            for x in s["instruments"]:
                x["req_self_sunlit"] = rng.choice([True, False, None])
                x["req_target_sunlit"] = rng.choice([True, False])
    if mode == "sweep":
        sc["op"] = ops.variant(rng, w, i // 5 * 2 + (i % 5) // 2, tmax=3, day=0.08)
        n = 32 if tier == "thorough" else 12
        sc["fracs"] = [round((k + rng.random()) / n * 0.99999, 5) for k in range(n)]
        sc["exc"] = EXC[i // 5 % len(EXC)] if rng.random() < 0.5 else rng.choice(EXC)
        return sc
    if mode == "pair":
        sc["threads"] = [[ops.g_op(rng, w, tmax=3, day=0.08)] for _ in range(2)]
        if rng.random() < 0.4:
            sc["threads"][1] = [dict(sc["threads"][0][0])]
        sc["kill"] = [round(rng.random(), 4), rng.choice(EXC)]
        sc["policy"] = dict(kind="random", seed=rng.randrange(2**32), p=rng.choice([0.05, 0.3]))
        return sc
    acts = []
    focus = rng.sample(ops.ALL, 3)
    for _ in range(rng.choice([1, 2, 3])):
        op = ops.g_op(rng, w, SOLAR if mode == "eph" else (focus if rng.random() < 0.6 else None), tmax=5)
        if mode == "eph":
            for k in ("solar", "sunlit", "beta"):
                if k in op:
                    op[k] = True
            if "omit_solar" in op:
                op["omit_solar"] = False
        f = dict(kind="eph" if mode == "eph" and rng.random() < 0.8 else "kill", by=rng.choice(["line", "step"]),
                 frac=round(rng.random(), 5), exc=rng.choice(EXC))
        acts.append(dict(op=op, fault=f, retry=rng.random() < 0.8))
        if rng.random() < 0.5:
            acts.append(dict(op=ops.g_op(rng, w, focus, tmax=5), fault=None, retry=False))
    sc["acts"] = acts
    return sc


class Bad(Exception):
    def __init__(self, kind, msg):
        self.v = viol(kind, msg)


def faulty(W, op, info, f, st, trace):
    """Run one call with a fault; raises Bad when the call breaks the rules."""
    W.prepare(op)
    before, cfg0 = W.snapshot(), config_state()
    fired = None
    want = info["result"]
    try:
        if f["kind"] == "kill":
            n = info["eligible"]
            if not n:
                return
            k = info["firsts"][int(f["frac"] * len(info["firsts"]))] if f["by"] == "line" else 1 + int(f["frac"] * n)
            with kernel.Stepper(kill_at=k, exc=f["exc"]) as s:
                try:
                    got = fp.canon(ops.run_op(W, op))
                finally:
                    fired = s.fired
        else:
            boot.EPH.reads, boot.EPH.fired = 0, 0
            boot.EPH.fail_at = int(f["frac"] * info["reads"])
            try:
                got = fp.canon(ops.run_op(W, op))
            finally:
                fired = ("ephemeris read %d" % boot.EPH.fail_at) if boot.EPH.fired else None
                boot.EPH.fail_at = None
        if fired is not None or f["kind"] == "kill":
            d = fp.diff(got, want)
            if d:
                raise Bad("degraded", "%s returned normally after an injected %s at %s, but with a different result: %s"
                          % (describe(op), f["exc"] if f["kind"] == "kill" else "read error", fired, d))
            st["probe.survived"] += 1
    except Bad:
        raise
    except (kernel.SimDeadlock, kernel.SimNoProgress) as e:
        raise Bad("stuck", "%s: %s" % (describe(op), e))
    except BaseException as e:  # noqa  the call may raise
        if not is_exc(want):
            st["probe.raised"] += 1
        trace.append("%s ended by %s at %s" % (op["op"], type(e).__name__, fired))
    if fired is not None:
        st["fault.%s" % (f["exc"] if f["kind"] == "kill" else "ephemeris_read")] += 1
    held = kernel.locks_held()
    if held:
        raise Bad("lock-held", "%s ended by %s at %s left a lock held" % (describe(op), f["exc"], fired))
    d = snap_diff(before, W.snapshot())
    if d:
        raise Bad("input-changed", "%s ended at %s changed its caller's data: %s" % (describe(op), fired, d))
    d = fp.diff(config_state(), cfg0)
    if d:
        raise Bad("config-changed", "%s ended at %s changed the configuration: %s" % (describe(op), fired, d))
    return fired


def clean(W, op, want, why):
    try:
        got = attempt(lambda: ops.run_op(W, op))
    except kernel.SimDeadlock as e:
        raise Bad("stuck", "%s %s: %s" % (describe(op), why, e))
    d = fp.diff(got, want)
    if d:
        raise Bad("after-fault", "%s %s: %s (after the fault != fresh process)" % (describe(op), why, d))


def execute(sc):
    w, cfg = sc["world"], sc["config"]
    st, trace, v, sig, nontrivial = Stats(), [], None, [], False
    infos = {}

    def info(op):
        k = key(op)
        if k not in infos:
            infos[k] = probe_faults(w, op, cfg)
        return infos[k]

    try:
        if sc["mode"] == "sweep":
            inf = info(sc["op"])
            set_config(cfg)
            st.ops([sc["op"]])
            for fr in sc["fracs"]:
                W = ops.FWorld(w)
                f = dict(kind="kill", by="line", frac=fr, exc=sc["exc"])
                fired = faulty(W, sc["op"], inf, f, st, trace)
                sig.append(fired)
                nontrivial |= fired is not None
                clean(W, sc["op"], inf["result"], "retried after it was ended at %s" % (fired,))
                st["steps"] += inf["steps"]
        elif sc["mode"] == "pair":
            every = [o for t in sc["threads"] for o in t]
            infs = [info(o) for o in every]
            set_config(cfg)
            W = ops.FWorld(w)
            for o in every:
                W.prepare(o)
            before = W.snapshot()
            res = [None] * 2
            total = sum(x["steps"] for x in infs)
            el = infs[0]["firsts"]
            sim = kernel.Sim(sc["policy"], "line", max_steps=60 * (total + 2000),
                             kills={0: [el[int(sc["kill"][0] * len(el))] if el else 1, sc["kill"][1]]})

            def body(t):
                def run():
                    try:
                        res[t] = attempt(lambda: ops.run_op(W, sc["threads"][t][0]))
                    except KeyboardInterrupt:
                        res[t] = ("exc", "InjectedInterrupt")
                return run

            for t in range(2):
                sim.spawn(body(t))
            sim.run()
            st.ops(every)
            st["steps"] += sim.step
            st["fault.preemption"] += sim.preemptions
            if sim.fatal is not None:
                raise Bad("concurrent-" + type(sim.fatal).__name__, sim.fatal)
            fired = sim.killed.get(0)
            sig.append((fired, sim.digest()))
            if fired:
                st["fault.caller_death"] += 1
                nontrivial = True
            for t in range(2):
                if sim.threads[t].exc is not None:
                    raise Bad("concurrent", "thread %d ended with %r" % (t, sim.threads[t].exc))
                if t == 0 and fired and is_exc(res[0]):
                    continue
                d = fp.diff(res[t], infs[t]["result"])
                if d:
                    raise Bad("concurrent", "thread %d %s while another caller died at %s: %s"
                              % (t, describe(every[t]), fired, d))
            if kernel.locks_held():
                raise Bad("lock-held", "a caller that died at %s left a lock held" % (fired,))
            d = snap_diff({k: x for k, x in before.items()}, {**W.snapshot()})
            if d:
                raise Bad("input-changed", "a caller that died at %s changed its data: %s" % (fired, d))
            for o, x in zip(every, infs):
                clean(W, o, x["result"], "after a concurrent caller died at %s" % (fired,))
        else:
            for a in sc["acts"]:
                info(a["op"])
            set_config(cfg)
            W = ops.FWorld(w)
            for a in sc["acts"]:
                inf = info(a["op"])
                st.ops([a["op"]])
                st["steps"] += inf["steps"]
                if a["fault"] and not (a["fault"]["kind"] == "eph" and inf["reads"] == 0):
                    fired = faulty(W, a["op"], inf, a["fault"], st, trace)
                    sig.append(fired)
                    nontrivial |= fired is not None
                    if a["retry"]:
                        clean(W, a["op"], inf["result"], "retried")
                else:
                    clean(W, a["op"], inf["result"], "after earlier faults")
            for a in sc["acts"]:
                clean(W, a["op"], info(a["op"])["result"], "at the end")
    except Bad as b:
        v = b.v
    return dict(violation=v, stats=dict(st), digest=h(trace, sig, v and v["msg"]),
                sig=h(sc["mode"], [a["op"]["op"] for a in sc.get("acts", [])], sig), nontrivial=nontrivial,
                trace=trace)


def shrink(sc):
    if sc["mode"] == "sweep":
        for f in without(sc["fracs"]):
            if f:
                yield with_key(sc, "fracs", f)
    elif sc["mode"] != "pair":
        for a in without(sc["acts"]):
            if a:
                yield with_key(sc, "acts", a)
        for i, a in enumerate(sc["acts"]):
            if a["fault"] and len(sc["acts"]) > 1:
                yield with_key(sc, "acts", sc["acts"][:i] + [dict(a, fault=None)] + sc["acts"][i + 1:])
