"""A simulated batch campaign: a coordinator, worker threads and an unreliable network between them.

Tasks are handed to worker threads that run under the simulator's scheduler (kernel.Sim). A worker may be
killed inside a task (its task is lost and done again later by another worker); a finished result may be
delayed, reordered, lost (and the task re-executed) or delivered more than once, possibly much later.
Faults stop after `fault_rounds` rounds; the campaign must then finish in one more round.
"""
import pickle
import random

from . import kernel


def g_policy(rng):
    k = rng.choice(["random", "random", "fresh", "rr", "serial"])
    seed = rng.randrange(2**32)
    if k == "random":
        return dict(kind=k, seed=seed, p=rng.choice([0.01, 0.05, 0.2, 0.5]))
    if k == "fresh":
        return dict(kind=k, seed=seed, p=rng.choice([0.3, 0.8]))
    if k == "rr":
        return dict(kind=k, seed=seed, q=rng.choice([5, 29, 113]))
    return dict(kind="random", seed=seed, p=0.0)


def g_campaign(rng, kill_max=400):
    fr = rng.choice([0, 1, 1, 2, 3])
    c = dict(workers=rng.choice([1, 2, 3, 4]), policy=g_policy(rng), net=rng.randrange(2**32),
             loss=rng.choice([0.0, 0.1, 0.4]) if fr else 0.0, dup=rng.choice([0.0, 0.2, 0.5]) if fr else 0.0,
             delay=rng.choice([0, 50, 5000]), fault_rounds=fr, dedup=rng.random() < 0.6, wire=rng.choice(["pickle", "ref"]),
             shuffle=rng.random() < 0.5, kills=[])
    for r in range(fr):
        ks = {}
        for t in range(c["workers"]):
            if rng.random() < 0.35:
                ks[str(t)] = [1 + int(kill_max * rng.random() ** 2), rng.choice(["interrupt", "memory", "oserror"])]
        c["kills"].append(ks)
    return c


def shrink_campaign(c):
    if c["fault_rounds"]:
        yield dict(c, fault_rounds=0, kills=[], loss=0.0, dup=0.0)
        yield dict(c, kills=[{} for _ in c["kills"]])
        yield dict(c, fault_rounds=c["fault_rounds"] - 1, kills=c["kills"][:-1])
    if c["loss"]:
        yield dict(c, loss=0.0)
    if c["dup"]:
        yield dict(c, dup=0.0)
    if c["delay"]:
        yield dict(c, delay=0)
    if c["workers"] > 1:
        yield dict(c, workers=1)
    if c["shuffle"]:
        yield dict(c, shuffle=False)
    if c["policy"].get("p") != 0.0:
        yield dict(c, policy=dict(kind="random", seed=0, p=0.0))


class Failed(Exception):
    """A task raised although no fault was injected into it, or the campaign never ended."""

    def __init__(self, kind, msg):
        super().__init__(msg)
        self.kind = kind


def run(c, tasks, st):
    """Execute `tasks` (functions); returns deliveries [(task number, result)] in order of arrival."""
    net = random.Random(c["net"])
    pending = list(range(len(tasks)))
    clock, seq, box, have = 0, 0, [], set()
    for rnd in range(c["fault_rounds"] + 1):
        last = rnd == c["fault_rounds"]
        if c["shuffle"]:
            net.shuffle(pending)
        queue, sent, errors = list(pending), [], []
        pol = dict(c["policy"])
        pol["seed"] = pol.get("seed", 0) + rnd
        kills = {} if last or rnd >= len(c["kills"]) else c["kills"][rnd]
        sim = kernel.Sim(pol, "line", max_steps=30_000_000, kills=kills)

        def worker():
            while queue:
                k = queue.pop(0)
                try:
                    r = tasks[k]()
                except kernel.SimAbort:
                    raise
                except (kernel.InjectedInterrupt, kernel.InjectedMemoryError, kernel.InjectedOSError):
                    return  # this worker is gone, its task with it
                except Exception as e:  # noqa
                    errors.append((k, e))
                    return
                sent.append((sim.step, k, pickle.dumps(r) if c["wire"] == "pickle" else r))

        for _ in range(c["workers"]):
            sim.spawn(worker)
        sim.run()
        st["steps"] += sim.step
        st["fault.preemption"] += sim.preemptions
        st["fault.worker_killed"] += len(sim.killed)
        if sim.fatal is not None:
            raise Failed(type(sim.fatal).__name__, sim.fatal)
        if errors:
            raise Failed("raise", "task %d raised %s: %s" % (errors[0][0], type(errors[0][1]).__name__, errors[0][1]))
        for step, k, r in sent:
            if not last and net.random() < c["loss"]:
                st["fault.lost"] += 1
                continue
            n = 1
            if not last and net.random() < c["dup"]:
                n += 1
                st["fault.duplicated"] += 1
            for _ in range(n):
                seq += 1
                d = net.randrange(c["delay"] + 1)
                st["fault.delayed"] += int(d > 0)
                box.append((clock + step + d, seq, k, r))
            have.add(k)
        clock += sim.step + 10
        pending = [k for k in range(len(tasks)) if k not in have]
        if not last and pending:
            st["fault.retried_task"] += len(pending)
        if not pending:
            break
    if pending:
        raise Failed("no-progress", "tasks %s were not finished although faults had stopped" % pending)
    out, seen = [], set()
    order = sorted(box, key=lambda m: (m[0], m[1]))
    st["fault.reordered"] += sum(1 for a, b in zip(order, order[1:]) if a[1] > b[1])
    for _, _, k, r in order:
        if c["dedup"] and k in seen:
            continue
        seen.add(k)
        out.append((k, pickle.loads(r) if c["wire"] == "pickle" else r))
    st["probe.duplicates_reached_gather"] += int(len(out) > len(tasks))
    return out


def gather(frames, labels, seed=0):
    """Concatenate delivered frames the way callers do; `labels` says which row labels result."""
    import pandas as pd

    f = pd.concat(frames) if labels != "ignore" else pd.concat(frames, ignore_index=True)
    n = len(f)
    if labels == "shuffle":
        order = list(range(n))
        random.Random(seed).shuffle(order)
        f = f.iloc[order]
    elif labels == "reset":
        f = f.reset_index(drop=True)
    elif labels == "offset":
        f = f.reset_index(drop=True)
        f.index = [1000 - 7 * i for i in range(n)]
    elif labels == "text":
        f = f.reset_index(drop=True)
        f.index = ["r%d" % (i % 3) for i in range(n)]
    return f


LABELS = ["keep", "keep", "ignore", "shuffle", "reset", "offset", "text"]
