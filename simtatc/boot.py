"""Process boot: puts every source of nondeterminism behind a seam.

`reexec()` restarts the interpreter with the simulator's LD_PRELOAD seam
(virtual clock, seeded entropy, storage faults), a fixed hash seed, UTC, no
address-space randomisation and single-threaded numerics. `load_tatc()` then
imports the code under test from the repository's working tree with

* the missing DE421 ephemeris replaced by `SimEphemeris` (analytic Sun/Earth,
  reads can be made to fail),
* `threading.Lock/RLock` created by the code under test replaced by locks the
  scheduler owns (see kernel.py),
* the CSPICE library entry points wrapped so that the scheduler sees when a
  thread is inside it (CSPICE is documented as non-reentrant).
"""
import atexit
import ctypes
import errno
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
PYTHON = "/opt/venv/bin/python" if os.path.exists("/opt/venv/bin/python") else sys.executable
CLOCK0 = 1_700_000_000_000_000_000  # 2023-11-14T22:13:20Z
ADDR_NO_RANDOMIZE = 0x0040000


def build_shim(directory):
    out = os.path.join(directory, "simshim.so")
    subprocess.run(
        ["gcc", "-O2", "-shared", "-fPIC", "-w", "-o", out, os.path.join(HERE, "shim.c"), "-ldl"],
        check=True,
    )
    return out


def sim_env(scratch, shim, hashseed="0", tz="UTC", clock=CLOCK0, entropy="1"):
    env = {
        k: v
        for k, v in os.environ.items()
        if not k.startswith(("PYTHON", "NUMBA", "LC_")) and k not in ("LANG", "TZ", "LD_PRELOAD")
    }
    env.update(
        SIMTATC_BOOT="1",
        SIMTATC_SCRATCH=scratch,
        SIMTATC_SHIM=shim,
        LD_PRELOAD=shim,
        SIM_CLOCK_NS=str(clock),
        SIM_ENTROPY=str(entropy),
        PYTHONHASHSEED=str(hashseed),
        PYTHONDONTWRITEBYTECODE="1",
        PYTHONPATH=VERIF,
        TZ=tz,
        LANG="C.UTF-8",
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        NUMEXPR_NUM_THREADS="1",
        NUMBA_DISABLE_JIT="1",
        NUMBA_NUM_THREADS="1",
        PROJ_NETWORK="OFF",
    )
    return env


def reexec():
    """Restart under the seams; returns the scratch directory in the restarted process."""
    if os.environ.get("SIMTATC_BOOT") == "1":
        scratch = os.environ["SIMTATC_SCRATCH"]
        if os.environ.get("SIMTATC_OWNER") == str(os.getpid()):
            pid = os.getpid()
            atexit.register(lambda: os.getpid() == pid and shutil.rmtree(scratch, ignore_errors=True))
        return scratch
    scratch = tempfile.mkdtemp(prefix="simtatc-")
    shim = build_shim(scratch)
    env = sim_env(scratch, shim, hashseed=os.environ.get("SIM_HASHSEED", "0"))
    env["SIMTATC_OWNER"] = str(os.getpid())
    try:
        ctypes.CDLL(None).personality(ADDR_NO_RANDOMIZE)
    except Exception:  # not essential: only object ids would vary
        pass
    os.execve(PYTHON, [PYTHON, "-m", "simtatc"] + sys.argv[1:], env)


class Shim:
    """Handle on the preloaded seam."""

    def __init__(self):
        lib = ctypes.CDLL(None)
        self.lib = lib
        lib.sim_clock_set.argtypes = [ctypes.c_int64, ctypes.c_int64]
        lib.sim_clock_reads.restype = ctypes.c_int64
        lib.sim_entropy_set.argtypes = [ctypes.c_uint64]
        lib.sim_entropy_reads.restype = ctypes.c_int64
        lib.sim_fs_swap.argtypes = [ctypes.c_char_p, ctypes.c_char_p, ctypes.c_int]
        lib.sim_fs_set.argtypes = [
            ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int,
            ctypes.c_int64, ctypes.c_int, ctypes.c_int,
        ]

    def clock(self, ns, step=0):
        self.lib.sim_clock_set(int(ns), int(step))

    def clock_reads(self):
        return self.lib.sim_clock_reads()

    def entropy(self, seed):
        self.lib.sim_entropy_set(seed & (2**64 - 1))

    def entropy_reads(self):
        return self.lib.sim_entropy_reads()

    def fs(self, path="", open_err=0, stat_err=0, read_err=0, read_after=0, short=0, eintr=0):
        self.lib.sim_fs_set(path.encode(), open_err, stat_err, read_err, read_after, short, eintr)

    def fs_swap(self, src="", dst="", at=-1):
        """Rename src over dst (remove dst if src is empty) at the n-th system call on the fault path."""
        self.lib.sim_fs_swap(src.encode(), dst.encode(), at)

    def fs_swapped(self):
        return self.lib.sim_fs_swapped()

    def fs_counts(self):
        names = ["opens", "open_errors", "stat_errors", "read_errors", "short_reads", "eintr"]
        return {n: self.lib.sim_fs_count(i) for i, n in enumerate(names)}


# ---------------------------------------------------------------- ephemeris
class EphemerisFault(OSError):
    """Injected failure of an ephemeris read."""


class _EphState:
    fail_at = None  # fail the n-th read (0-based) after arming
    reads = 0
    fired = 0


EPH = _EphState()


def _eph_read():
    n = EPH.reads
    EPH.reads = n + 1
    if EPH.fail_at is not None and n == EPH.fail_at:
        EPH.fired += 1
        raise EphemerisFault(errno.EIO, "injected ephemeris read error")


def make_ephemeris():
    import numpy as np
    from skyfield.vectorlib import VectorFunction

    class SimBody(VectorFunction):
        """Analytic stand-in: Sun at the barycentre, Earth on a low-precision orbit."""

        ephemeris = None

        def __init__(self, target, name):
            self.center = 0
            self.target = target
            self._name = name

        @property
        def vector_name(self):
            return "Simulated " + self._name

        @property
        def target_name(self):
            return self._name

        def _at(self, t):
            _eph_read()
            tdb = np.asarray(t.tdb, dtype=float)
            n = tdb - 2451545.0
            if self.target in (5, 6):  # only used as gravitational deflectors
                r, w = (5.2, 0.00145) if self.target == 5 else (9.5, 0.00058)
                p = np.array([r * np.cos(w * n), r * np.sin(w * n), 0 * n])
                v = np.array([-r * w * np.sin(w * n), r * w * np.cos(w * n), 0 * n])
                return p, v, None, None
            if self.target == 10:
                z = np.zeros((3,) + tdb.shape)
                return z, z.copy(), None, None

            def pos(n):
                g = np.radians(357.528 + 0.9856003 * n)
                lam = np.radians(280.460 + 0.9856474 * n) + np.radians(
                    1.915 * np.sin(g) + 0.020 * np.sin(2 * g)
                )
                r = 1.00014 - 0.01671 * np.cos(g) - 0.00014 * np.cos(2 * g)
                eps = np.radians(23.4392911)
                return -np.array(
                    [r * np.cos(lam), r * np.cos(eps) * np.sin(lam), r * np.sin(eps) * np.sin(lam)]
                )

            h = 0.01
            return pos(n), (pos(n + h) - pos(n - h)) / (2 * h), None, None

    class SimEphemeris:
        """Stand-in for the DE421 kernel (absent from the repository copy)."""

        def __init__(self):
            self._bodies = {}
            for target, names in (
                (399, ("earth", "EARTH", 399)),
                (10, ("sun", "SUN", 10)),
                (5, ("jupiter barycenter", "JUPITER BARYCENTER", 5, 599)),
                (6, ("saturn barycenter", "SATURN BARYCENTER", 6, 699)),
            ):
                body = SimBody(target, names[1])
                body.ephemeris = self
                for n in names:
                    self._bodies[n] = body

        def __getitem__(self, key):
            _eph_read()
            if key not in self._bodies:
                raise KeyError("kernel %r is missing %r" % ("de421.bsp", key))
            return self._bodies[key]

        def __contains__(self, key):
            return key in self._bodies

    return SimEphemeris()


def patch_ephemeris():
    from skyfield.iokit import Loader

    if getattr(Loader, "_sim_patched", False):
        return
    call = Loader.__call__
    cache = {}

    def patched(self, filename, *args, **kwargs):
        if filename == "de421.bsp" and not self.exists(filename):
            if "e" not in cache:
                cache["e"] = make_ephemeris()
            return cache["e"]
        return call(self, filename, *args, **kwargs)

    Loader.__call__ = patched
    Loader._sim_patched = True


# -------------------------------------------------------------------- spice
class SpiceSeam:
    """Wraps the CSPICE shared library; `hook(name)` runs on entry and exit."""

    def __init__(self, lib):
        object.__setattr__(self, "_lib", lib)
        object.__setattr__(self, "_cache", {})

    def __getattr__(self, name):
        fn = getattr(object.__getattribute__(self, "_lib"), name)
        cache = object.__getattribute__(self, "_cache")
        w = cache.get(name)
        if w is None:
            from . import kernel

            def w(*args, _fn=fn, _name=name):
                kernel.spice_enter(_name)
                try:
                    return _fn(*args)
                finally:
                    kernel.spice_exit(_name)

            cache[name] = w
        return w


def patch_spice():
    import spiceypy.spiceypy as sp

    if not isinstance(sp.libspice, SpiceSeam):
        sp.libspice = SpiceSeam(sp.libspice)


def load_third_party():
    """Import the dependencies behind the seams (not the code under test)."""
    import numpy, pandas, geopandas, shapely, pyproj, skyfield.api, sgp4.api, pydantic, yaml, numba  # noqa
    import spiceypy  # noqa

    patch_ephemeris()
    patch_spice()


def load_tatc():
    """Import the code under test behind the seams."""
    load_third_party()
    from . import kernel

    kernel.patch_threading()
    src = os.path.join(REPO, "src")
    if sys.path[0] != src:
        sys.path.insert(0, src)
    import tatc

    got = os.path.realpath(os.path.dirname(tatc.__file__))
    want = os.path.realpath(os.path.join(src, "tatc"))
    if got != want:
        raise RuntimeError("imported tatc from %s, expected %s" % (got, want))
    return tatc
