"""The simulator kernel: who runs next, where a call dies, what a lock does.

Real threads are parked on a baton and released one at a time. A thread can
lose the baton only at a *step*: a LINE (or INSTRUCTION) event of code under
test delivered by sys.monitoring, an acquire of a lock the code under test
created, or an entry/exit of the CSPICE library. Which thread gets the baton
is decided by a seeded policy, or by an explicit list of switches on replay.
"""
import ast
import gc
import hashlib
import os
import random
import sys
import threading
import types
import weakref
import _thread

MON = sys.monitoring
TOOL = 4
_real_lock = _thread.allocate_lock


class SimDeadlock(BaseException):
    """Nothing can run: a lock is held by a thread (or call) that will never release it."""


class SimNoProgress(BaseException):
    """A run exceeded its step budget."""


class SimAbort(BaseException):
    """Ends the remaining simulated threads once a violation is known."""


class SpiceOverlap(RuntimeError):
    """Two threads were inside the non-reentrant CSPICE library: the process aborts."""


class InjectedInterrupt(KeyboardInterrupt):
    """The user interrupts the call here."""


class InjectedMemoryError(MemoryError):
    """An allocation fails here."""


class InjectedOSError(OSError):
    """A system call fails here."""


INTERRUPTS = {
    "interrupt": InjectedInterrupt,
    "memory": InjectedMemoryError,
    "oserror": InjectedOSError,
}

# --------------------------------------------------------------- code objects
_codes = None
_skip = {}


def _walk_code(code, out):
    if code in out:
        return
    out.add(code)
    for c in code.co_consts:
        if isinstance(c, types.CodeType):
            _walk_code(c, out)


def tatc_codes():
    """Every code object of a live function that comes from the source files under test."""
    global _codes
    if _codes is None:
        root = os.path.dirname(os.path.realpath(sys.modules["tatc"].__file__)) + os.sep
        allc = set()
        for o in gc.get_objects():
            if isinstance(o, types.FunctionType):
                if os.path.realpath(o.__code__.co_filename).startswith(root):
                    _walk_code(o.__code__, allc)
        # deterministic order
        _codes = sorted(allc, key=lambda c: (c.co_filename, c.co_firstlineno, c.co_qualname, c.co_code))
    return _codes


def skip_lines(filename):
    """Lines where no asynchronous fault is injected: `with`/`try` headers, handlers, finally."""
    s = _skip.get(filename)
    if s is None:
        s = set()
        try:
            with open(filename, encoding="utf-8") as f:
                tree = ast.parse(f.read())
        except (OSError, SyntaxError):
            tree = ast.Module(body=[], type_ignores=[])

        def rng(a, b):
            s.update(range(a, b + 1))

        for n in ast.walk(tree):
            if isinstance(n, (ast.With, ast.AsyncWith)):
                rng(n.lineno, n.items[-1].context_expr.end_lineno)
            elif isinstance(n, ast.Try):
                s.add(n.lineno)
                for h in n.handlers:
                    rng(h.lineno, h.end_lineno)
                for b in n.finalbody:
                    rng(b.lineno - 1, b.end_lineno)
        _skip[filename] = s
    return s


# -------------------------------------------------------------------- policies
class Policy:
    def __init__(self, spec):
        self.spec = spec
        self.kind = spec["kind"]
        self.rng = random.Random(spec.get("seed", 0))
        if self.kind == "random":
            self.p = spec["p"]
        elif self.kind == "pct":
            self.points = sorted(spec["points"])
            self.prio = None
        elif self.kind == "fresh":
            self.seen = set()
            self.p = spec["p"]
        elif self.kind == "explicit":
            self.switches = {int(s): int(t) for s, t in spec["switches"]}

    def start(self, n):
        self.n = n
        if self.kind == "pct":
            self.prio = list(range(n, 0, -1))
            self.rng.shuffle(self.prio)
            self.low = 0

    def choose(self, step, cur, runnable, where):
        """Thread to run after this step; `cur` may be blocked (not in runnable)."""
        k = self.kind
        if k == "explicit":
            t = self.switches.get(step)
            if t is not None and t in runnable:
                return t
            return cur if cur in runnable else runnable[0]
        if k == "pct":
            while self.points and self.points[0] <= step:
                self.points.pop(0)
                self.low -= 1
                self.prio[cur] = self.low
            return max(runnable, key=lambda t: self.prio[t])
        if cur not in runnable:
            return self.rng.choice(runnable)
        if k == "rr":
            return runnable[(runnable.index(cur) + 1) % len(runnable)] if step % self.spec["q"] == 0 else cur
        if k == "fresh":
            key = (cur, where)
            if key in self.seen:
                return cur
            self.seen.add(key)
        if len(runnable) > 1 and self.rng.random() < self.p:
            return self.rng.choice(runnable)
        return cur


# ------------------------------------------------------------------ simulation
CURRENT = None  # active Sim, if any


class SimThread:
    __slots__ = ("tid", "fn", "baton", "state", "blocked_on", "exc", "thread")

    def __init__(self, tid, fn):
        self.tid, self.fn = tid, fn
        self.baton = _real_lock()
        self.baton.acquire()
        self.state = "ready"
        self.blocked_on = None
        self.exc = None
        self.thread = None


class Sim:
    """One simulated execution of several caller threads."""

    def __init__(self, policy, granularity="line", max_steps=3_000_000, on_step=None, on_step_every=0, kills=None):
        self.policy = Policy(policy)
        self.kills = {int(k): v for k, v in (kills or {}).items()}  # tid -> [n-th eligible line, exception]
        self.killed = {}
        self.eligible = {}
        self.granularity = granularity
        self.max_steps = max_steps
        self.threads = []
        self.by_ident = {}
        self.step = 0
        self.switches = []
        self.preemptions = 0
        self.cur = None
        self.done = _real_lock()
        self.done.acquire()
        self.fatal = None
        self.on_step = on_step
        self.on_step_every = on_step_every
        self.hash = hashlib.sha256()
        self.lines = set()
        self.switch_sites = set()

    def spawn(self, fn):
        t = SimThread(len(self.threads), fn)
        self.threads.append(t)
        return t

    # called with the baton held
    def _runnable(self):
        return [
            t.tid
            for t in self.threads
            if t.state == "ready" and (t.blocked_on is None or t.blocked_on._free_for(t.tid))
        ]

    def _handoff(self, me, nxt, where):
        self.switches.append((self.step, nxt))
        self.hash.update(b"%d:%d;" % (self.step, nxt))
        self.cur = nxt
        if where is not None:
            self.switch_sites.add(where)
        self.threads[nxt].baton.release()

    def at_step(self, where):
        """A preemption point reached by the running thread."""
        me = self.by_ident.get(_thread.get_ident())
        if me is None or self.cur != me.tid:
            return
        if self.fatal is not None:
            raise SimAbort()
        self.step += 1
        if self.step > self.max_steps:
            self.fatal = SimNoProgress("no completion within %d steps" % self.max_steps)
            raise SimAbort()
        if self.on_step_every and self.step % self.on_step_every == 0:
            self.on_step(self)
        if len(self.threads) == 1:
            return
        nxt = self.policy.choose(self.step, me.tid, self._runnable(), where)
        if nxt != me.tid:
            self.preemptions += 1
            self._handoff(me, nxt, where)
            me.baton.acquire()
            if self.fatal is not None:
                raise SimAbort()

    def block_on(self, lock):
        me = self.by_ident[_thread.get_ident()]
        me.blocked_on = lock
        while not lock._free_for(me.tid):
            self.step += 1
            run = self._runnable()
            if not run:
                self.fatal = SimDeadlock(
                    "deadlock: "
                    + ", ".join("thread %d waits for a lock held by %s" % (t.tid, t.blocked_on._owner_name())
                                for t in self.threads if t.state == "ready")
                )
                me.blocked_on = None
                raise SimAbort()
            self._handoff(me, self.policy.choose(self.step, me.tid, run, None), None)
            me.baton.acquire()
            if self.fatal is not None:
                me.blocked_on = None
                raise SimAbort()
        me.blocked_on = None

    def _main(self, t):
        t.baton.acquire()
        self.by_ident[_thread.get_ident()] = t
        try:
            if self.fatal is None:
                t.fn()
        except SimAbort:
            pass
        except BaseException as e:  # noqa
            t.exc = e
        t.state = "done"
        # pass the baton on
        if self.fatal is not None:
            rest = [u.tid for u in self.threads if u.state == "ready"]
        else:
            rest = self._runnable()
            if not rest and any(u.state == "ready" for u in self.threads):
                self.fatal = SimDeadlock("a finished thread left a lock held: the remaining threads can never run")
                rest = [u.tid for u in self.threads if u.state == "ready"]
        if rest:
            if self.fatal is not None:
                nxt = rest[0]
            else:
                self.step += 1
                nxt = self.policy.choose(self.step, t.tid, rest, None)
            self._handoff(t, nxt, None)
        else:
            self.done.release()

    def run(self):
        global CURRENT
        assert CURRENT is None
        self.policy.start(len(self.threads))
        CURRENT = self
        monitor_on(self._event_line, self._event_instr if self.granularity == "instr" else None)
        try:
            for t in self.threads:
                t.thread = threading.Thread(target=self._main, args=(t,), daemon=True)
                t.thread.start()
            first = self.policy.choose(0, 0, [t.tid for t in self.threads], None)
            self.cur = first
            self.switches.append((0, first))
            self.threads[first].baton.release()
            self.done.acquire()
            for t in self.threads:
                t.thread.join()
        finally:
            monitor_off()
            CURRENT = None
        return self

    def _event_line(self, code, line):
        self.at_step((code.co_qualname, line))
        if self.kills:
            t = self.by_ident.get(_thread.get_ident())
            if t is None or t.tid not in self.kills or t.tid in self.killed or line in skip_lines(code.co_filename):
                return
            n = self.eligible[t.tid] = self.eligible.get(t.tid, 0) + 1
            at, exc = self.kills[t.tid]
            if n == at:
                self.killed[t.tid] = (os.path.basename(code.co_filename), code.co_qualname, line)
                raise INTERRUPTS[exc]("injected at step %d" % self.step)

    def _event_instr(self, code, off):
        self.at_step((code.co_qualname, -off))

    def digest(self):
        return self.hash.hexdigest()[:16]


def monitor_on(line_cb, instr_cb=None):
    MON.use_tool_id(TOOL, "simtatc")
    ev = MON.events.LINE
    MON.register_callback(TOOL, MON.events.LINE, line_cb)
    if instr_cb is not None:
        MON.register_callback(TOOL, MON.events.INSTRUCTION, instr_cb)
        ev = MON.events.INSTRUCTION
    for c in tatc_codes():
        MON.set_local_events(TOOL, c, ev)


def monitor_off():
    for c in tatc_codes():
        MON.set_local_events(TOOL, c, 0)
    MON.register_callback(TOOL, MON.events.LINE, None)
    MON.register_callback(TOOL, MON.events.INSTRUCTION, None)
    MON.free_tool_id(TOOL)


class Stepper:
    """Runs one call on the calling thread, counting steps; optionally kills it at step k."""

    def __init__(self, kill_at=None, exc="interrupt", max_steps=5_000_000, record=False):
        self.firsts = {} if record else None  # line -> index of its first eligible step
        self.kill_at = kill_at
        self.exc = exc
        self.n = 0
        self.eligible = 0
        self.fired = None
        self.max_steps = max_steps

    def _line(self, code, line):
        self.n += 1
        if self.n > self.max_steps:
            raise SimNoProgress("no completion within %d steps" % self.max_steps)
        if line in skip_lines(code.co_filename):
            return
        self.eligible += 1
        if self.firsts is not None:
            self.firsts.setdefault((code.co_filename, line), self.eligible)
        if self.kill_at is not None and self.fired is None and self.eligible == self.kill_at:
            self.fired = (os.path.basename(code.co_filename), code.co_qualname, line)
            raise INTERRUPTS[self.exc]("injected at step %d" % self.n)

    def __enter__(self):
        monitor_on(self._line)
        return self

    def __exit__(self, *a):
        monitor_off()
        return False


# ----------------------------------------------------------------------- locks
class SimLock:
    """Lock owned by the simulator: blocking is a scheduling decision."""

    _reentrant = False
    everyone = weakref.WeakSet()

    def __init__(self):
        SimLock.everyone.add(self)
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        s = CURRENT
        if s is not None:
            t = s.by_ident.get(_thread.get_ident())
            if t is not None:
                return t.tid
        return "main"

    def _owner_name(self):
        return "thread %s" % self._owner

    def _free_for(self, tid):
        return self._owner is None or (self._reentrant and self._owner == tid)

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        s = CURRENT
        if s is not None and me != "main":
            s.at_step(("lock", 0))
        if not self._free_for(me):
            if not blocking or (timeout is not None and timeout >= 0):
                return False
            if s is None or me == "main":
                raise SimDeadlock("a lock was left held by an earlier call")
            s.block_on(self)
        self._owner = me
        self._count += 1
        return True

    def release(self):
        if self._owner is None:
            raise RuntimeError("release unlocked lock")
        if self._reentrant and self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if self._count == 0:
            self._owner = None
        s = CURRENT
        if s is not None and self._me() != "main" and s.fatal is None:
            s.at_step(("unlock", 0))

    def locked(self):
        return self._owner is not None

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *a):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    # locks travel with objects only as fresh, unlocked locks would: not at all
    def __reduce__(self):
        raise TypeError("cannot pickle '_thread.lock' object")


class SimRLock(SimLock):
    _reentrant = True


def locks_held():
    """Locks of the code under test that are still held."""
    return [k for k in SimLock.everyone if k.locked()]


def patch_threading():
    """Locks created by the code under test become simulator locks."""
    if getattr(threading, "_sim_patched", False):
        return
    threading._sim_patched = True
    src = os.path.realpath(os.path.join(os.environ.get("SIM_REPO", "/repo"), "src", "tatc")) + os.sep

    def from_tatc():
        f = sys._getframe(2)
        for _ in range(3):
            if f is None:
                return False
            if os.path.realpath(f.f_code.co_filename).startswith(src):
                return True
            f = f.f_back
        return False

    real_lock, real_rlock = threading.Lock, threading.RLock

    def Lock():
        return SimLock() if from_tatc() else real_lock()

    def RLock():
        return SimRLock() if from_tatc() else real_rlock()

    threading.Lock, threading.RLock = Lock, RLock
    _t_alloc = _thread.allocate_lock
    _thread.allocate_lock = lambda: SimLock() if from_tatc() else _t_alloc()


# ----------------------------------------------------------------------- spice
_in_spice = None  # (tid, function)
spice_calls = 0


def spice_enter(name):
    global _in_spice, spice_calls
    spice_calls += 1
    s = CURRENT
    if s is None:
        return
    t = s.by_ident.get(_thread.get_ident())
    if t is None or s.fatal is not None:
        return
    if _in_spice is not None and _in_spice[0] != t.tid:
        other = _in_spice
        s.fatal = SpiceOverlap(
            "thread %d entered CSPICE (%s) while thread %d was inside it (%s): the real library "
            "corrupts its traceback stack and aborts the process" % (t.tid, name, other[0], other[1])
        )
        raise SimAbort()
    _in_spice = (t.tid, name)
    s.at_step(("cspice", 0))


def spice_exit(name):
    global _in_spice
    s = CURRENT
    if s is None:
        return
    t = s.by_ident.get(_thread.get_ident())
    if t is not None and _in_spice is not None and _in_spice[0] == t.tid:
        _in_spice = None
