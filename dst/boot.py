"""Puts every source of nondeterminism behind the simulator. Must be imported before postbound (and before most libraries).

All patches are made at the standard library / driver level, so they do not depend on how postbound is written or imports
things. Without an active kernel (`Kernel.current is None`) the replacements behave like the originals in a single thread.
"""
from __future__ import annotations

import atexit
import copyreg
import os
import queue
import random
import signal
import sys
import threading
import time
import _thread

from .kernel import Kernel, SEC, HarnessError, SimProcess

_real = {
    "time": time.time, "time_ns": time.time_ns, "monotonic": time.monotonic, "monotonic_ns": time.monotonic_ns,
    "perf_counter": time.perf_counter, "perf_counter_ns": time.perf_counter_ns, "sleep": time.sleep,
    "process_time": time.process_time, "process_time_ns": time.process_time_ns,
}
real_perf_counter = time.perf_counter
real_time = time.time
real_kill = os.kill
real_fork = os.fork


def K() -> Kernel | None:
    k = Kernel.current
    if k is None or not k.in_task():
        return None
    return k


# ------------------------------------------------------------------------------------------------------------------ locks
class SimLock:
    def __init__(self) -> None:
        self._locked = False

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        if not blocking and timeout != -1:
            raise ValueError("can't specify a timeout for a non-blocking call")
        k = K()
        if k is None:
            if self._locked:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("lock would block outside of the simulation")
            self._locked = True
            return True
        k.yield_point("lock")
        if self._locked:
            if not blocking:
                return False
            ns = None if timeout is None or timeout < 0 else int(timeout * SEC)
            if not k.block(lambda: not self._locked, ns, why="lock"):
                return False
        self._locked = True
        return True

    def release(self) -> None:
        if not self._locked:
            raise RuntimeError("release unlocked lock")
        self._locked = False
        k = K()
        if k is not None:
            k.yield_point("unlock")

    def locked(self) -> bool:
        return self._locked

    acquire_lock, release_lock, locked_lock = acquire, release, locked

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _at_fork_reinit(self):
        self._locked = False


class SimRLock:
    def __init__(self) -> None:
        self._owner = None
        self._count = 0

    @staticmethod
    def _me():
        k = K()
        return ("t", k.me().id) if k is not None else ("r", _thread.get_ident())

    def acquire(self, blocking: bool = True, timeout: float = -1) -> bool:
        me = self._me()
        if self._owner == me:
            self._count += 1
            return True
        k = K()
        if k is None:
            if self._owner is not None:
                if not blocking or timeout >= 0:
                    return False
                raise HarnessError("lock would block outside of the simulation")
        else:
            k.yield_point("rlock")
            if self._owner is not None:
                if not blocking:
                    return False
                ns = None if timeout is None or timeout < 0 else int(timeout * SEC)
                if not k.block(lambda: self._owner is None, ns, why="rlock"):
                    return False
        self._owner = me
        self._count = 1
        return True

    def release(self) -> None:
        if self._owner != self._me():
            raise RuntimeError("cannot release un-acquired lock")
        self._count -= 1
        if not self._count:
            self._owner = None
            k = K()
            if k is not None:
                k.yield_point("runlock")

    def __enter__(self):
        self.acquire()
        return True

    def __exit__(self, *args):
        self.release()

    def _is_owned(self):
        return self._owner == self._me()

    def _release_save(self):
        state = (self._owner, self._count)
        self._owner, self._count = None, 0
        k = K()
        if k is not None:
            k.yield_point("runlock")
        return state

    def _acquire_restore(self, state):
        k = K()
        if k is not None and self._owner is not None:
            k.block(lambda: self._owner is None, None, why="rlock-restore")
        self._owner, self._count = state

    def _recursion_count(self):
        return self._count if self._is_owned() else 0

    def _at_fork_reinit(self):
        self._owner, self._count = None, 0


def _sim_start_new_thread(function, args, kwargs=None):
    k = K()
    if k is None:
        raise HarnessError("thread started outside of the simulation")
    thread = getattr(function, "__self__", None)

    def body():
        try:
            function(*args, **(kwargs or {}))
        finally:
            lock = getattr(thread, "_tstate_lock", None)
            if lock is not None and lock.locked():
                lock._locked = False

    n = sum(1 for t in k.tasks if t.name.startswith("thread"))
    task = k.spawn(body, name=f"thread{n + 1}")
    k.event(f"start {task.name}")
    k.yield_point("thread-start")
    return 100_000 + task.id


def _sim_get_ident():
    k = K()
    if k is None:
        return _MAIN_IDENT
    t = k.me()
    return _MAIN_IDENT if t is k.main_proc.main_task else 100_000 + t.id


_MAIN_IDENT = 100_000


def _patch_threading() -> None:
    real_main = _thread.get_ident()
    threading._allocate_lock = SimLock
    threading.Lock = SimLock
    threading.RLock = SimRLock
    threading._CRLock = SimRLock
    threading._PyRLock = SimRLock
    threading._start_new_thread = _sim_start_new_thread
    threading._set_sentinel = SimLock
    threading.get_ident = _sim_get_ident
    threading._active_limbo_lock = SimRLock()
    threading._shutdown_locks_lock = SimLock()
    threading._time = lambda: time.monotonic()
    main = threading._active.pop(real_main, None) or threading._main_thread
    main._ident = _MAIN_IDENT
    main._tstate_lock = SimLock()
    main._tstate_lock._locked = True
    threading._active[_MAIN_IDENT] = main
    queue.SimpleQueue = queue._PySimpleQueue


def _patch_identity() -> None:
    """Futures and threads are kept in sets and sorted by address in the standard library: number them instead."""
    import concurrent.futures._base as base
    import itertools

    counter = itertools.count(1)

    def number(cls):
        real_init = cls.__init__

        def __init__(self, *a, **k):
            self._sim_seq = next(counter)
            real_init(self, *a, **k)

        cls.__init__ = __init__
        cls.__hash__ = lambda self: getattr(self, "_sim_seq", 0)

    number(base.Future)
    number(threading.Thread)

    def acquire_init(self, futures):
        self.futures = sorted(futures, key=lambda f: f._sim_seq)

    base._AcquireFutures.__init__ = acquire_init


# ------------------------------------------------------------------------------------------------------------------ clocks
def _patch_time() -> None:
    def mk(name, simulated):
        real = _real[name]

        def wrapper():
            k = K()
            return real() if k is None else simulated(k)

        wrapper.__name__ = name
        setattr(time, name, wrapper)

    mk("time", lambda k: k.wall_ns() / 1e9)
    mk("time_ns", lambda k: k.wall_ns())
    mk("monotonic", lambda k: k.monotonic_ns() / 1e9)
    mk("monotonic_ns", lambda k: k.monotonic_ns())
    mk("perf_counter", lambda k: k.monotonic_ns() / 1e9)
    mk("perf_counter_ns", lambda k: k.monotonic_ns())
    # CPU clocks: simulated code takes no CPU time worth mentioning
    mk("process_time", lambda k: k.steps / 1e6)
    mk("process_time_ns", lambda k: k.steps * 1000)
    if hasattr(time, "clock_gettime"):
        real_cg, real_cgn = time.clock_gettime, time.clock_gettime_ns

        def clock_gettime_ns(clk):
            k = K()
            if k is None:
                return real_cgn(clk)
            return k.wall_ns() if clk == time.CLOCK_REALTIME else k.monotonic_ns()

        time.clock_gettime_ns = clock_gettime_ns
        time.clock_gettime = lambda clk: real_cg(clk) if K() is None else clock_gettime_ns(clk) / 1e9

    def sleep(seconds):
        k = K()
        if k is None:
            return _real["sleep"](seconds)
        if seconds < 0:
            raise ValueError("sleep length must be non-negative")
        k.sleep(seconds)

    time.sleep = sleep


def _patch_datetime() -> None:
    import datetime as dt_mod

    RealDT, RealDate = dt_mod.datetime, dt_mod.date
    epoch = RealDT(1970, 1, 1)

    def sim_now(k):
        return epoch + dt_mod.timedelta(microseconds=k.wall_ns() // 1000)

    class _Meta(type):
        def __instancecheck__(cls, obj):
            return isinstance(obj, RealDT)

        def __subclasscheck__(cls, sub):
            return issubclass(sub, RealDT)

        def __eq__(cls, other):
            return other is RealDT or type.__eq__(cls, other)

        def __hash__(cls):
            return hash(RealDT)

    class datetime(RealDT, metaclass=_Meta):
        def __new__(cls, *args, **kwargs):
            return RealDT(*args, **kwargs)

        @classmethod
        def now(cls, tz=None):
            k = K()
            if k is None:
                return RealDT.now(tz)
            now = sim_now(k)
            return now if tz is None else now.replace(tzinfo=dt_mod.timezone.utc).astimezone(tz)

        @classmethod
        def utcnow(cls):
            k = K()
            return RealDT.now(dt_mod.timezone.utc).replace(tzinfo=None) if k is None else sim_now(k)

        @classmethod
        def today(cls):
            return cls.now()

        @classmethod
        def fromisoformat(cls, s):
            return RealDT.fromisoformat(s)

        @classmethod
        def fromtimestamp(cls, *a, **k):
            return RealDT.fromtimestamp(*a, **k)

        @classmethod
        def strptime(cls, *a):
            return RealDT.strptime(*a)

        @classmethod
        def combine(cls, *a, **k):
            return RealDT.combine(*a, **k)

    datetime.__qualname__ = "datetime"
    datetime.__module__ = "datetime"
    dt_mod.datetime = datetime
    copyreg.pickle(RealDT, lambda d: (_rebuild_dt, d.__reduce_ex__(4)[1]))
    global RealDatetime
    RealDatetime = RealDT


RealDatetime = None


def _rebuild_dt(*args):
    return RealDatetime(*args)


# ------------------------------------------------------------------------------------------------------------ randomness
class ChooserRandom(random.Random):
    """All of Python's `random` goes through the run's chooser. `bias` makes extreme values frequent."""

    bias = 0.0

    def _next(self) -> float:
        k = Kernel.current
        if k is None:
            return super().random()
        ch = k.chooser

        def draw(r):
            if self.bias and r.random() < self.bias:
                return 0 if r.random() < 0.5 else (1 << 53) - 1
            return r.getrandbits(53)

        return ch._decide("random", 0, draw) / (1 << 53)

    def random(self) -> float:
        return self._next()

    def getrandbits(self, n: int) -> int:
        if n <= 0:
            return 0
        out = 0
        bits = 0
        while bits < n:
            out = (out << 32) | int(self._next() * (1 << 32))
            bits += 32
        return out >> (bits - n)


def _randbelow(self, n: int) -> int:
    # no rejection loop: terminates for any source of bits (the bias of this mapping is irrelevant here)
    return min(n - 1, int(self._next() * n)) if n < (1 << 50) else self.getrandbits(n.bit_length()) % n


ChooserRandom._randbelow = _randbelow


def _patch_random() -> None:
    inst = ChooserRandom(1)
    for name in ("random", "uniform", "triangular", "randint", "choice", "randrange", "sample", "shuffle", "choices",
                 "normalvariate", "lognormvariate", "expovariate", "vonmisesvariate", "gammavariate", "gauss",
                 "betavariate", "binomialvariate", "paretovariate", "weibullvariate", "getstate", "setstate",
                 "getrandbits", "randbytes"):
        if hasattr(inst, name):
            setattr(random, name, getattr(inst, name))
    real_seed = inst.seed
    random.seed = lambda *a, **k: None if Kernel.current is not None else real_seed(*a, **k)
    random._inst = inst

    class SimRandom(random.Random):  # unseeded generators made by the code under test
        def __new__(cls, x=None):
            if x is None and Kernel.current is not None:
                r = ChooserRandom(1)
                return r
            return random_Random(x) if x is not None else random_Random()

    random_Random = random.Random
    random.SimRandom = SimRandom
    global the_random
    the_random = inst


the_random: ChooserRandom = None


def _patch_numpy_random() -> None:
    import numpy as np

    real_default_rng = np.random.default_rng

    def default_rng(seed=None):
        if seed is None and Kernel.current is not None:
            seed = the_random.getrandbits(32)
        return real_default_rng(seed)

    np.random.default_rng = default_rng


# ------------------------------------------------------------------------------------------------------------------ atexit
atexit_handlers: list = []
_real_atexit_register = atexit.register


def _patch_atexit() -> None:
    def register(fn, *args, **kwargs):
        if Kernel.current is None:
            return fn  # nothing registered while warming up may run later
        atexit_handlers.append((fn, args, kwargs))
        return fn

    def unregister(fn):
        atexit_handlers[:] = [h for h in atexit_handlers if h[0] != fn]

    atexit.register = register
    atexit.unregister = unregister


def run_atexit() -> list[BaseException]:
    """Runs the exit handlers of the simulated process, last in first out, like the interpreter does."""
    errors: list[BaseException] = []
    while atexit_handlers:
        fn, args, kwargs = atexit_handlers.pop()
        try:
            fn(*args, **kwargs)
        except Exception as e:  # the interpreter reports and goes on
            errors.append(e)
    return errors


# ------------------------------------------------------------------------------------------- things that reach outside
def _patch_outside() -> None:
    import subprocess

    real_popen = subprocess.Popen

    class GuardedPopen(real_popen):
        def __init__(self, *a, **k):
            if Kernel.current is not None:
                raise HarnessError(f"external command in simulation: {a}")
            super().__init__(*a, **k)

        def __new__(cls, *a, **k):
            if Kernel.current is not None and external_command_handler is not None:
                return external_command_handler(*a, **k)
            return super().__new__(cls)

    subprocess.Popen = GuardedPopen
    real_run = subprocess.run

    def run(*a, **k):
        if Kernel.current is None:
            return real_run(*a, **k)
        if run_handler is None and external_command_handler is not None:
            return real_run(*a, **k)
        if run_handler is None:
            raise HarnessError(f"external command in simulation: {a}")
        return run_handler(*a, **k)

    subprocess.run = run
    real_system = os.system
    os.system = lambda cmd: real_system(cmd) if Kernel.current is None else _no_system(cmd)

    def kill(pid, sig):
        k = Kernel.current
        if k is None:
            return real_kill(pid, sig)
        from . import simmp
        proc = simmp.find_process(pid)
        if proc is None:
            raise ProcessLookupError(3, "No such process")
        if sig == 0:
            return
        k.kill_process(proc, -int(sig))

    os.kill = kill


def _no_system(cmd):
    raise HarnessError(f"external command in simulation: {cmd}")


external_command_handler = None
run_handler = None

_booted = False


def boot() -> None:
    global _booted
    if _booted:
        return
    _booted = True
    _patch_threading()
    _patch_identity()
    _patch_time()
    _patch_random()
    _patch_atexit()
    _patch_outside()
    from . import simmp
    simmp.patch()
    import numpy  # noqa: F401
    import pandas  # noqa: F401
    import pyarrow
    import pyarrow.parquet  # noqa: F401
    import psycopg  # noqa: F401
    import quacklab  # noqa: F401
    import mysql.connector  # noqa: F401
    import tqdm
    pyarrow.set_cpu_count(1)
    try:
        pyarrow.set_io_thread_count(1)
    except Exception:
        pass
    tqdm.tqdm.monitor_interval = 0
    _patch_numpy_random()
    _patch_datetime()
