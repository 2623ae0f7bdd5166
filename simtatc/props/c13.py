"""C13: constellation members are regenerated identically and are isolated."""
import copy
import datetime as dt
import gc

from .. import boot, fp, gen, kernel, mutate, ops, runner
from ..common import Stats, attempt, describe, g_config, h, is_exc, key, set_config, viol, with_key, without
from ..gen import iso, parse
from .c11 import g_clock

ID = "C13"
LEVEL = "exploration"
RULE = ("a run is one history of generating, using, changing and dropping members of shared constellations, partly by threads under a "
        "seeded scheduler, with interrupted generations, clock jumps, configuration changes and collections in between; every generation, "
        "every use and the fields of all live members are compared with a model computed in fresh processes; non-trivial when members "
        "were generated again after a use, a change or a fault; distinct by (history, scheduling decisions)")
RUNS = {"quick": 830, "thorough": 9000}
BUDGET = {"quick": 240, "thorough": 2400}
TWIN = True
EXACT = fp.Tol(0, 0, 0, 0)

USES = ["to_tle", "track", "elements", "observe", "events", "footprint", "instr", "derived", "ground_track", "orbit_track",
        "closest", "repeat", "fields", "downlinks", "to_tle", "track"]
FLAGS = ["orbit_tle_lazy_load", "repeat_cycle_lazy_load", "repeat_cycle_for_orbit_track", "repeat_cycle_for_observation_events"]


# ------------------------------------------------------------------ generator
def pseudo(w, con):
    """The world of a caller that holds one member."""
    return dict(w, sats=[dict(kind="satellite", name="M", orbit=con["orbit"], instruments=con["instruments"])], cons=[])


def g_change(rng, w, con):
    ep = parse(w["epoch"])
    k = rng.choice(["orbit", "orbit", "orbit", "instr", "instr", "list", "name", "inplace", "cached"])
    tle = con["orbit"]["type"] == "tle"
    if k == "orbit" and tle:
        return dict(k="tle", tle=gen.g_orbit(rng, ["tle", "multitle"], ep)["tle"])
    if k == "orbit":
        f = rng.choice(["altitude", "true_anomaly", "inclination", "right_ascension_ascending_node", "epoch"])
        v = dict(altitude=round(rng.uniform(400e3, 1100e3), 1), true_anomaly=round(rng.uniform(0, 359), 3),
                 inclination=round(rng.uniform(20, 110), 3), right_ascension_ascending_node=round(rng.uniform(0, 359), 3),
                 epoch=iso(ep + dt.timedelta(hours=rng.randrange(-20, 20))))[f]
        return dict(k="orbit", f=f, v=v)
    j = rng.randrange(len(con["instruments"]))
    if k == "instr":
        f = rng.choice(["field_of_regard", "field_of_regard", "min_access_time", "req_self_sunlit", "req_target_sunlit", "name"])
        v = dict(field_of_regard=rng.choice([33.0, 77.0, 111.0]), min_access_time=rng.choice([1, 45, 200]), req_self_sunlit=rng.random() < 0.5,
                 req_target_sunlit=rng.random() < 0.5, name="J%d" % rng.randrange(9))[f]
        return dict(k="instr", j=j, f=f, v=v)
    if k == "list":
        return dict(k="list", how=rng.choice(["append", "pop", "replace"]), j=j, spec=gen.g_instrument(rng, 8))
    if k == "name":
        return dict(k="name", v="N%d" % rng.randrange(9))
    # changes of what the member holds inside; the member itself is not used afterwards
    if tle:
        return dict(k="inplace", tle=gen.g_orbit(rng, ["tle"], ep)["tle"])
    return dict(k="cached", tle=gen.g_orbit(rng, ["tle"], ep)["tle"])


def g_con_update(rng, w):
    for _ in range(40):
        a = mutate.g_update(rng, dict(w, sats=w["cons"]))
        if a["what"] == "con" or (a.get("coll") == "cons" and a["what"] in ("orbit", "instr")):
            if not (a["what"] == "con" and w["cons"][a["i"]]["kind"] == "soc"):
                return a
    return None


def size(con):
    return con.get("number_satellites", 40)


def g_act(rng, w, cur, gens, mine, serial):
    """One action; `gens` are all generations so far, `mine` those this thread may change."""
    r = rng.random()
    ci = rng.randrange(len(cur["cons"]))
    if r < 0.36 or not gens:
        a = dict(do="gen", con=ci, id=len(gens))
        gens.append(dict(con=cur["cons"][ci], dead=set(), gone=False))
        if serial and rng.random() < 0.15:
            a["kill"] = [round(rng.random(), 4), rng.choice(["interrupt", "memory", "oserror"])]
        mine.append(a["id"])
        return a
    live = [g for g in range(len(gens)) if not gens[g]["gone"] and (g in mine or r < 0.6)]
    own = [g for g in mine if not gens[g]["gone"]]
    if r < 0.66 and live:
        g = rng.choice(live)
        k = rng.randrange(min(size(gens[g]["con"]), 12))
        if k in gens[g]["dead"]:
            return None
        return dict(do="use", gen=g, k=k, op=ops.g_op(rng, pseudo(w, gens[g]["con"]), USES, tmax=4))
    if r < 0.88 and own:
        g = rng.choice(own)
        k = rng.randrange(min(size(gens[g]["con"]), 12))
        c = g_change(rng, w, gens[g]["con"])
        if c["k"] in ("inplace", "cached"):
            gens[g]["dead"].add(k)
        return dict(do="change", gen=g, k=k, change=c)
    if r < 0.93 and own:
        g = rng.choice(own)
        gens[g]["gone"] = True
        return dict(do="drop", gen=g)
    if not serial:
        return dict(do="con_op", op=dict(op="con_info", con=ci))
    return dict(do="fault", **rng.choice([dict(k="clock", ns=g_clock(rng)), dict(k="gc"), dict(k="config", key=rng.choice(FLAGS), value=rng.random() < 0.5)]))


def generate(rng, i, tier):
    w = gen.g_world(rng, sats=(0, 0), cons=(0, 0), points=(1, 2), stations=(1, 1), masks=1)
    ep = parse(w["epoch"])
    kinds = ["train", "train", "walker", "walker", "mog", "mog", "soc"]
    w["cons"] = [gen.g_constellation(rng, n, ep, kinds) for n in range(rng.choice([1, 1, 2, 3]))]
    for c in w["cons"]:
        if c["kind"] in ("train", "mog") and rng.random() < 0.15:
            c["number_satellites"] = rng.choice([1, 9, 10, 11, 12])
        if c["kind"] == "walker" and rng.random() < 0.3:
            c["number_satellites"], c["number_planes"] = rng.choice([(5, 2), (7, 3), (10, 3), (12, 4), (11, 11), (1, 1), (10, 7), (5, 4)])
            c["relative_spacing"] = rng.randrange(c["number_planes"])
    if len(w["cons"]) > 1 and rng.random() < 0.3:
        for c in w["cons"]:
            c["name"] = "K"
    cur, gens = copy.deepcopy(w), []
    phases = []
    for _ in range(rng.choice([1, 2, 3] if tier == "quick" else [2, 3, 4, 5])):
        if rng.random() < 0.4:
            nt = rng.choice([2, 2, 3])
            threads = []
            before = [g for g in range(len(gens))]
            for _ in range(nt):
                mine = []
                t = [g_act(rng, w, cur, gens, mine, False) for _ in range(rng.randint(1, 4))]
                threads.append([a for a in t if a and (a["do"] not in ("use",) or a["gen"] in mine or a["gen"] in before)])
            seed = rng.randrange(2**32)
            pol = rng.choice([dict(kind="random", seed=seed, p=rng.choice([0.05, 0.3, 0.6])), dict(kind="fresh", seed=seed, p=rng.choice([0.4, 1.0])),
                              dict(kind="rr", seed=seed, q=rng.choice([1, 3, 7])),
                              dict(kind="pct", seed=seed, points=sorted(rng.randrange(1, 1500) for _ in range(rng.choice([1, 3, 6]))))])
            phases.append(dict(threads=threads, policy=pol))
        else:
            acts, mine = [], list(range(len(gens)))
            for _ in range(rng.randint(3, 8)):
                if rng.random() < 0.15:
                    a = g_con_update(rng, cur)
                    if a:
                        cur = mutate.spec_update(cur, a)
                        acts.append(dict(do="con_update", a=a))
                    continue
                a = g_act(rng, w, cur, gens, mine, True)
                if a:
                    acts.append(a)
            for _ in range(rng.choice([1, 1, 2])):
                acts.append(g_act(rng, w, cur, [], [], True) | dict(id=len(gens)))
                gens.append(dict(con=cur["cons"][acts[-1]["con"]], dead=set(), gone=False))
            phases.append(dict(acts=acts))
    return dict(world=w, phases=phases, config=g_config(rng))


# ------------------------------------------------------------------- execution
def apply(m, c):
    """The change, made by the caller on the live member."""
    k = c["k"]
    if k == "tle":
        m.orbit.tle = list(c["tle"])
    elif k == "orbit":
        setattr(m.orbit, c["f"], parse(c["v"]) if c["f"] == "epoch" else c["v"])
    elif k == "instr":
        if c["j"] < len(m.instruments):
            setattr(m.instruments[c["j"]], c["f"], dt.timedelta(seconds=c["v"]) if c["f"] == "min_access_time" else c["v"])
    elif k == "list":
        new = gen.b_instrument(c["spec"])
        if c["how"] == "append":
            m.instruments.append(new)
        elif c["how"] == "replace":
            m.instruments[0] = new
        elif len(m.instruments) > 1:
            m.instruments.pop(c["j"] % len(m.instruments))
    elif k == "name":
        m.name = c["v"]
    elif k == "inplace":
        m.orbit.tle[0], m.orbit.tle[1] = c["tle"][:2]
    else:
        t = m.orbit.to_tle()
        t.tle[0], t.tle[1] = c["tle"][:2]


def parts(x, path, out):
    """Changeable objects reachable through the public fields."""
    from pydantic import BaseModel

    if isinstance(x, BaseModel):
        out.append((id(x), path))
        for f in type(x).model_fields:
            parts(getattr(x, f), path + "." + f, out)
    elif isinstance(x, (list, set, bytearray)):
        out.append((id(x), path))
        for n, y in enumerate(x):
            parts(y, "%s[%d]" % (path, n), out)
    elif isinstance(x, dict):
        out.append((id(x), path))
        for n, y in x.items():
            parts(y, "%s[%r]" % (path, n), out)


def _members(con):
    c = gen.b_satellite(con)
    r = attempt(c.generate_members)
    n = con.get("number_satellites") if con["kind"] != "soc" else attempt(lambda: c.generate_walker().number_satellites)
    ms = gen.b_satellite(con)
    base = ms.orbit.to_tle().get_epoch()
    late = [] if is_exc(r) else [(k, m.orbit.to_tle().get_epoch() - base) for k, m in enumerate(ms.generate_members())]
    return r, n, fp.canon(gen.b_satellite(con)), [(k, x.total_seconds()) for k, x in late if abs(x.total_seconds()) > 0.001]


def _member(con, k, changes):
    m = gen.b_satellite(con).generate_members()[k]
    for c in changes:
        apply(m, c)
    return m


def _member_state(con, k, changes):
    return fp.canon(_member(con, k, changes))


def _use(w, con, k, changes, op, cfg):
    set_config(cfg)
    W = ops.FWorld(pseudo(w, con))
    W.sats = [_member(con, k, changes)]
    return attempt(lambda: ops.run_op(W, op))


def _con_op(w, op, cfg):
    set_config(cfg)
    return attempt(lambda: ops.run_op(ops.FWorld(w), op))


class Model:
    """What every member and use must be, computed in fresh processes from the specification alone."""

    def __init__(self, w):
        self.w, self.cache = w, {}

    def ask(self, fn, *args):
        q = (fn.__name__, key(args))
        if q not in self.cache:
            self.cache[q] = runner.reference(fn, *args)
        return self.cache[q]

    def members(self, con):
        return self.ask(_members, con)

    def member(self, con, k, changes):
        return self.ask(_member_state, con, k, changes) if changes else self.members(con)[0][1 + k]

    def use(self, con, k, changes, op, cfg):
        return self.ask(_use, self.w, con, k, changes, op, cfg)

    def con_op(self, w, op, cfg):
        return self.ask(_con_op, w, op, cfg)


def execute(sc):
    w, cfg = sc["world"], dict(sc["config"])
    set_config(cfg)
    M, st = Model(w), Stats()
    W = ops.FWorld(w)
    cur = [w]
    gens = {}  # id -> dict(con, live members, changes)
    log, again, sigs, trace = [], [0], [], []
    eventful = [False]
    bad = []

    def fail(kind, msg):
        if not bad:
            bad.append(viol(kind, msg))

    def do(a, serial, t=""):
        if a["do"] == "gen":
            con, c = cur[0]["cons"][a["con"]], W.cons[a["con"]]
            if a.get("kill"):
                with kernel.Stepper() as s0:
                    n = len(c.generate_members())
                with kernel.Stepper(kill_at=1 + int(a["kill"][0] * s0.eligible), exc=a["kill"][1]) as s1:
                    try:
                        c.generate_members()
                    except BaseException as e:  # noqa
                        if s1.fired is None:
                            raise
                st["fault.generation_" + a["kill"][1]] += s1.fired is not None
                eventful[0] = True
            try:
                ms = c.generate_members()
            except Exception as e:  # noqa
                ms = e
            log.append(("gen", a["id"], ms, con, t))
            if isinstance(ms, list):
                gens[a["id"]] = dict(con=con, live=ms, changes={}, label="generation %d of constellation %d (%s)" % (a["id"], a["con"], con["kind"]))
        elif a["do"] == "use" and a["gen"] in gens and a["k"] < len(gens[a["gen"]]["live"]):
            g = gens[a["gen"]]
            V = ops.FWorld(pseudo(w, g["con"]))
            V.sats = [g["live"][a["k"]]]
            got = attempt(lambda: ops.run_op(V, a["op"]))
            log.append(("use", g, a["k"], list(g["changes"].get(a["k"], [])), a["op"], got, dict(cfg), t))
        elif a["do"] == "change" and a["gen"] in gens and a["k"] < len(gens[a["gen"]]["live"]):
            g = gens[a["gen"]]
            apply(g["live"][a["k"]], a["change"])
            if a["change"]["k"] == "cached":
                g["changes"].setdefault(a["k"], [])
            else:
                g["changes"].setdefault(a["k"], []).append(a["change"])
            eventful[0] = True
            st["fault.change_" + a["change"]["k"]] += 1
        elif a["do"] == "drop":
            gens.pop(a["gen"], None)
            st["fault.drop"] += 1
        elif a["do"] == "con_op":
            log.append(("con_op", a["op"], attempt(lambda: ops.run_op(W, a["op"])), cur[0], dict(cfg)))
        elif a["do"] == "con_update":
            cur[0] = mutate.spec_update(cur[0], a["a"])
            mutate.live_update(W, cur[0], a["a"])
            eventful[0] = True
            st["fault.constellation_" + a["a"]["how"]] += 1
        elif a["do"] == "fault":
            if a["k"] == "clock":
                boot.Shim().clock(a["ns"])
                st["fault.clock_jump"] += 1
            elif a["k"] == "gc":
                gc.collect()
                st["fault.gc"] += 1
            else:
                cfg[a["key"]] = a["value"]
                set_config({a["key"]: a["value"]})
                st["fault.config_change"] += 1
            eventful[0] = True

    def judge():
        """Compare the calls made since the last time, and the state of everything alive."""
        for x in log:
            if x[0] == "gen":
                _, gid, ms, con, t = x
                want, n, _, late = M.members(con)
                what = "%sgeneration %d (%s)" % (t, gid, con["kind"])
                st["probe.generations"] += 1
                again[0] += eventful[0]
                if isinstance(ms, Exception):
                    if not is_exc(want):
                        return fail("raise", "%s raised %r" % (what, ms))
                    continue
                if is_exc(want):
                    return fail("generation", "%s gave members although a fresh process raises %s" % (what, want[1]))
                if len(ms) != n:
                    return fail("count", "%s has %d members, declared are %s" % (what, len(ms), n))
                if gid in gens and not gens[gid]["changes"]:
                    d = fp.diff(fp.canon(ms), want)
                    if d:
                        return fail("generation", "%s: %s (here != fresh process)" % (what, d))
                names = [m[2] for m in want[1:]]
                names = [dict(q)["name"] for q in names]
                if len(set(names)) != len(names):
                    return fail("names", "%s: names are not unique: %s" % (what, names))
                if late:
                    return fail("epoch", "%s: the orbit of member %d is declared %s s off the epoch of the constellation" % (what, *late[0]))
                inst = dict(M.members(con)[2][2])["instruments"]
                for q in want[1:]:
                    d = fp.diff(dict(q[2])["instruments"], inst, EXACT)
                    if d:
                        return fail("instruments", "%s: %s (member != constellation)" % (what, d))
            elif x[0] == "use":
                _, g, k, ch, op, got, cf, t = x
                d = fp.diff(got, M.use(g["con"], k, ch, op, cf))
                if d:
                    return fail("use", "%s%s of member %d of %s: %s (here != same member alone in a fresh process)" % (t, describe(op), k, g["label"], d))
                st.ops([op])
            else:
                d = fp.diff(x[2], M.con_op(x[3], x[1], x[4]))
                if d:
                    return fail("constellation", "%s: %s (here != fresh process)" % (describe(x[1]), d))
        log.clear()
        for i, c in enumerate(W.cons):
            d = fp.diff(fp.canon(c), M.members(cur[0]["cons"][i])[2])
            if d:
                return fail("constellation", "constellation %d changed: %s (now != declared)" % (i, d))
        for gid, g in sorted(gens.items()):
            for k, m in enumerate(g["live"]):
                d = fp.diff(fp.canon(m), M.member(g["con"], k, g["changes"].get(k, [])))
                if d:
                    return fail("isolation", "member %d of %s: %s (now != its own changes alone)" % (k, g["label"], d))
        seen = {}
        for label, o in [("constellation %d" % i, c) for i, c in enumerate(W.cons)] + [
                ("member %d of %s" % (k, g["label"]), m) for gid, g in sorted(gens.items()) for k, m in enumerate(g["live"])]:
            out = []
            parts(o, "", out)
            for oid, path in out:
                if oid in seen and seen[oid][0] != label:
                    return fail("shared", "%s%s is the same object as %s%s" % (label, path, seen[oid][0], seen[oid][1]))
                seen[oid] = (label, path)
        st["probe.states_checked"] += 1

    try:
        for pn, ph in enumerate(sc["phases"]):
            if "acts" in ph:
                for a in ph["acts"]:
                    do(a, True)
                    judge()
                    trace.append(a["do"])
                    st["steps"] += 1
                    if bad:
                        break
            else:
                sim = kernel.Sim(ph["policy"], "line", max_steps=4_000_000)
                for n, acts in enumerate(ph["threads"]):
                    def body(acts=acts, n=n):
                        for a in acts:
                            do(a, False, "thread %d " % n)
                    sim.spawn(body)
                sim.run()
                st["steps"] += sim.step
                st["preemptions"] += sim.preemptions
                st["switches"] += len(sim.switches)
                st["fault.preemption"] += sim.preemptions
                eventful[0] = eventful[0] or sim.preemptions > 0
                sigs.append(sim.digest())
                trace.append(dict(threads=len(ph["threads"]), switches=[list(s) for s in sim.switches[:200]]))
                if sim.fatal is not None:
                    fail(type(sim.fatal).__name__, sim.fatal)
                for n, t in enumerate(sim.threads):
                    if t.exc is not None:
                        fail("raise", "thread %d ended with %r" % (n, t.exc))
                if not bad:
                    judge()
            if bad:
                break
    finally:
        boot.Shim().clock(boot.CLOCK0)
    v = bad[0] if bad else None
    st["probe.generated_again"] = again[0]
    return dict(violation=v, stats=dict(st), digest=h(sigs, sorted((g, fp.digest(fp.canon(x["live"]))) for g, x in gens.items()), v and v["msg"]),
                sig=h(sc["phases"], sigs), nontrivial=again[0] > 0, trace=trace)


def shrink(sc):
    for x in without(sc["phases"]):
        yield with_key(sc, "phases", x)
    for i, ph in enumerate(sc["phases"]):
        rest = lambda q: with_key(sc, "phases", sc["phases"][:i] + [q] + sc["phases"][i + 1:])
        if "acts" in ph:
            for a in without(ph["acts"]):
                if not any(x["do"] == "con_update" for x in ph["acts"]) or all(x in a for x in ph["acts"] if x["do"] == "con_update"):
                    yield rest(dict(acts=a))
        else:
            for n in range(len(ph["threads"])):
                if len(ph["threads"]) > 1:
                    yield rest(dict(ph, threads=ph["threads"][:n] + ph["threads"][n + 1:]))
                for a in without(ph["threads"][n]):
                    yield rest(dict(ph, threads=ph["threads"][:n] + [a] + ph["threads"][n + 1:]))
            if ph["policy"]["kind"] != "rr" or ph["policy"]["q"] < 1000:
                yield rest(dict(ph, policy=dict(kind="rr", seed=0, q=1000000)))
