"""The simulation kernel: baton-passing scheduler over real threads, simulated clocks, event queue, seeded chooser.

Exactly one simulated task runs at any time. Every other task is parked on its gate (a real lock). At each synchronisation
point the running task asks the chooser which runnable task goes next. If nothing is runnable, the clock jumps to the next
event or deadline. If there is none either, the system is deadlocked and the run ends with a liveness violation.
"""
from __future__ import annotations

import _thread
import hashlib
import heapq
import random
import sys
import traceback

_real_allocate_lock = _thread.allocate_lock
_real_start_new_thread = _thread.start_new_thread
_real_get_ident = _thread.get_ident

READY, BLOCKED, DONE = "ready", "blocked", "done"
SEC = 1_000_000_000
MS = 1_000_000
US = 1_000


class Violation(Exception):
    """The property is broken. `signature` identifies the kind of failure (used for known findings and minimisation)."""

    def __init__(self, message: str, signature: str = "") -> None:
        super().__init__(message)
        self.message = message
        self.signature = signature or message


class HarnessError(Exception):
    """The machinery itself is at fault (or was used outside of what it models). Never reported as a violation."""


class SimKilled(BaseException):
    """Unwinds a task whose process was killed."""


class Chooser:
    """Source of every nondeterministic choice of a run.

    Seeded mode: each named stream has its own PRNG (so that removing a fault from the scenario does not reshuffle all other
    choices). Only choices that differ from the default are recorded. Replay mode: listed choices are taken, everything else
    is the default.
    """

    def __init__(self, seed: int | None = None, trace: dict | None = None) -> None:
        self.seed = seed
        self.replay = trace
        self.trace: dict[str, dict[str, object]] = {}
        self._rngs: dict[str, random.Random] = {}
        self._count: dict[str, int] = {}
        self.n_choices = 0
        self.prefix = ""  # keeps the streams of process lifetimes apart

    def _rng(self, stream: str) -> random.Random:
        rng = self._rngs.get(stream)
        if rng is None:
            h = hashlib.blake2b(f"{self.seed}/{stream}".encode(), digest_size=8).digest()
            rng = self._rngs[stream] = random.Random(int.from_bytes(h, "big"))
        return rng

    def _decide(self, stream: str, default, draw):
        if self.prefix:
            stream = self.prefix + stream
        i = self._count.get(stream, 0)
        self._count[stream] = i + 1
        self.n_choices += 1
        if self.replay is not None:
            return self.replay.get(stream, {}).get(str(i), default)
        value = draw(self._rng(stream))
        if value != default:
            self.trace.setdefault(stream, {})[str(i)] = value
        return value

    def choose(self, stream: str, n: int, p_default: float = 0.0) -> int:
        """Index in range(n); 0 is the default."""
        if n <= 1:
            return 0

        def draw(r):
            if p_default and r.random() < p_default:
                return 0
            return r.randrange(n)

        v = self._decide(stream, 0, draw)
        return v if 0 <= v < n else 0

    def flip(self, stream: str, p: float) -> bool:
        if p <= 0:
            return False
        return bool(self._decide(stream, 0, lambda r: int(r.random() < p)))

    def delay(self, stream: str, lo: int, hi: int) -> int:
        if hi <= lo:
            return lo
        return self._decide(stream, lo, lambda r: r.randint(lo, hi))


class Task:
    __slots__ = ("id", "name", "proc", "gate", "state", "pred", "deadline", "timed_out", "why", "ident", "killed", "thread")

    def __init__(self, id: int, name: str, proc) -> None:
        self.id = id
        self.name = name
        self.proc = proc
        self.gate = _real_allocate_lock()
        self.gate.acquire()
        self.state = READY
        self.pred = None
        self.deadline = None
        self.timed_out = False
        self.why = ""
        self.ident = None
        self.killed = False
        self.thread = None


class SimProcess:
    """A simulated operating system process: a set of tasks plus resources the OS closes when it ends."""

    def __init__(self, kernel: "Kernel", pid: int, name: str) -> None:
        self.kernel = kernel
        self.pid = pid
        self.name = name
        self.alive = True
        self.exitcode = None
        self.resources: list = []  # objects with os_close(process)
        self.killed = False
        self.main_task = None
        self.steps = 0
        self.kill_at: int | None = None  # fault injection: die at the n-th synchronisation point
        self.kill_code = -9

    def release_resources(self) -> None:
        resources, self.resources = self.resources, []
        for res in resources:
            res.os_close(self)


class Kernel:
    current: "Kernel | None" = None

    def __init__(self, chooser: Chooser, *, on_fatal=None, max_steps: int = 400_000, horizon_s: float = 100_000.0,
                 p_stay: float = 0.7, wall_epoch: float = 1_700_000_000.0, p_stall: float = 0.0,
                 stall_max: int = 2 * SEC) -> None:
        self.chooser = chooser
        self.on_fatal = on_fatal
        self.max_steps = max_steps
        self.horizon = int(horizon_s * SEC)
        self.p_stay = p_stay
        self.p_stall = p_stall
        self.stall_max = stall_max
        self.now = 0
        self.mono_base = 5_000 * SEC
        self.wall_offset = int(wall_epoch * SEC)
        self.wall_quantum = 1
        self.wall_changes = [(0, self.wall_offset)]
        self.steps = 0
        self.switches = 0
        self.events: list = []
        self._seq = 0
        self.tasks: list[Task] = []
        self._by_ident: dict[int, Task] = {}
        self._next_task = 0
        self._next_pid = 4000
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.hash = hashlib.blake2b(digest_size=16)
        self.sched_hash = hashlib.blake2b(digest_size=8)
        self.log: list[str] = []
        self.keep_log = 4000
        self.stalled_ns = 0
        self.stalls: list[tuple[int, int]] = []
        self.trace_preempt = 0.0  # probability of a switch at traced bytecodes
        self.cur: Task | None = None
        self.main_proc = self.new_process("main")

    # -- life cycle -------------------------------------------------------------------------------------------------
    def start(self) -> None:
        """Turns the calling thread into the main task."""
        main = self._new_task("main", self.main_proc)
        main.ident = _real_get_ident()
        self._by_ident[main.ident] = main
        self.main_proc.main_task = main
        self.cur = main
        Kernel.current = self

    def stop(self) -> None:
        Kernel.current = None

    def new_process(self, name: str) -> SimProcess:
        self._next_pid += 1
        return SimProcess(self, self._next_pid, name)

    def _new_task(self, name: str, proc: SimProcess) -> Task:
        self._next_task += 1
        task = Task(self._next_task, name, proc)
        self.tasks.append(task)
        return task

    # -- logging ------------------------------------------------------------------------------------------------------
    def event(self, text: str) -> None:
        line = f"{self.now} [{self.cur.name if self.cur else '-'}] {text}"
        self.hash.update(line.encode("utf-8", "replace"))
        if len(self.log) < self.keep_log:
            self.log.append(line)

    def fault(self, kind: str) -> None:
        self.faults[kind] = self.faults.get(kind, 0) + 1
        self.event(f"FAULT {kind}")

    def probe(self, name: str) -> None:
        self.probes[name] = self.probes.get(name, 0) + 1

    # -- time -----------------------------------------------------------------------------------------------------------
    def monotonic_ns(self) -> int:
        return self.mono_base + self.now

    def wall_ns(self) -> int:
        wall = self.wall_offset + self.now
        return wall - wall % self.wall_quantum

    def stalled_since(self, t0: int) -> int:
        """Stalls of any task that overlap with the time since t0."""
        return sum(min(s + d, self.now) - max(s, t0) for s, d in self.stalls if s + d > t0)

    def jump_wall(self, ns: int) -> None:
        """The wall clock is adjusted; the monotonic clock is not."""
        self.fault("clock_jump_back" if ns < 0 else "clock_jump_forward")
        self.wall_offset += ns
        self.wall_changes.append((self.now, self.wall_offset))

    def at(self, delay: int, fn) -> list:
        """Schedules fn() to run in kernel context after `delay` ns. The returned entry can be cancelled with entry[2]=None."""
        self._seq += 1
        entry = [self.now + max(0, delay), self._seq, fn]
        heapq.heappush(self.events, entry)
        return entry

    def _run_due_events(self) -> None:
        while self.events and self.events[0][0] <= self.now:
            entry = heapq.heappop(self.events)
            if entry[2] is not None:
                entry[2]()

    # -- scheduling ---------------------------------------------------------------------------------------------------
    def me(self) -> Task:
        task = self._by_ident.get(_real_get_ident())
        if task is None:
            raise HarnessError("thread unknown to the simulator")
        return task

    def in_task(self) -> bool:
        return _real_get_ident() in self._by_ident

    def spawn(self, fn, *, name: str, proc: SimProcess | None = None) -> Task:
        proc = proc or self.me().proc
        task = self._new_task(name, proc)

        def runner():
            task.gate.acquire()
            task.ident = _real_get_ident()
            self._by_ident[task.ident] = task
            try:
                fn()
            except SimKilled:
                pass
            except BaseException as e:  # noqa: BLE001
                if not task.killed:
                    self.fatal(HarnessError(f"task {name} died: {''.join(traceback.format_exception(e))}"))
            finally:
                self._finish(task)

        _real_start_new_thread(runner, ())
        return task

    def _finish(self, task: Task) -> None:
        task.state = DONE
        self._by_ident.pop(task.ident, None)
        nxt = self._pick(None)
        self.cur = nxt
        nxt.gate.release()

    def _check_alive(self, task: Task) -> None:
        if task.killed:
            raise SimKilled()

    def yield_point(self, why: str = "") -> None:
        task = self.me()
        self._check_alive(task)
        self._step()
        if self.p_stall and self.chooser.flip("stall?", self.p_stall):
            d = self.chooser.delay("stall", 1, self.stall_max)
            self.fault("stall")
            self.stalled_ns += d
            self.stalls.append((self.now, d))
            self.block(None, d, why="stalled")
            return
        nxt = self._pick(task)
        self._switch(task, nxt)

    def _step(self) -> None:
        me = self._by_ident.get(_real_get_ident())
        if me is not None:
            me.proc.steps += 1
            if me.proc.kill_at is not None and me.proc.steps >= me.proc.kill_at and me.proc.alive:
                self.fault("process_killed")
                self.kill_process(me.proc, me.proc.kill_code)
        self.steps += 1
        self.now += 1 * US
        if self.steps > self.max_steps:
            self.fatal(Violation(f"no progress: more than {self.max_steps} scheduling steps", "liveness:livelock"))

    def block(self, pred, timeout: int | None = None, why: str = "") -> bool:
        """Parks the current task until pred() holds (True) or the timeout in ns is over (False)."""
        task = self.me()
        self._check_alive(task)
        self._step()
        task.pred = pred
        task.deadline = None if timeout is None else self.now + max(0, timeout)
        task.state = BLOCKED
        task.why = why
        nxt = self._pick(task)
        self._switch(task, nxt)
        return not task.timed_out

    def _switch(self, task: Task, nxt: Task) -> None:
        if nxt is not task:
            self.switches += 1
            self.sched_hash.update(b"%d>%d@%d;" % (task.id, nxt.id, self.steps))
            self.cur = nxt
            nxt.gate.release()
            task.gate.acquire()
        self._check_alive(task)

    def _pick(self, cur: Task | None) -> Task:
        while True:
            self._run_due_events()
            ready: list[Task] = []
            for t in self.tasks:
                if t.killed or t.state == DONE:
                    continue
                if t.state == READY or (t.pred is not None and t.pred()) or (t.deadline is not None and t.deadline <= self.now):
                    ready.append(t)
            if ready:
                break
            nxt_time = None
            while self.events and self.events[0][2] is None:
                heapq.heappop(self.events)
            if self.events:
                nxt_time = self.events[0][0]
            for t in self.tasks:
                if not t.killed and t.state == BLOCKED and t.deadline is not None:
                    nxt_time = t.deadline if nxt_time is None else min(nxt_time, t.deadline)
            if nxt_time is None:
                self.fatal(Violation("deadlock: " + self.describe_tasks(), "liveness:deadlock"))
            self.now = max(self.now, nxt_time)
            if self.now > self.horizon:
                self.fatal(Violation("no progress within the simulated time horizon: " + self.describe_tasks(), "liveness:horizon"))
        ready.sort(key=lambda t: (t is not cur, t.id))
        if cur is not None and ready[0] is cur:
            idx = self.chooser.choose("sched", len(ready), self.p_stay)
        else:
            idx = self.chooser.choose("sched", len(ready))
        t = ready[idx]
        if t.state == BLOCKED:
            t.timed_out = not (t.pred is not None and t.pred())
            t.state = READY
            t.pred = None
            t.deadline = None
        return t

    def describe_tasks(self) -> str:
        return "; ".join(f"{t.name}:{t.state}({t.why})" for t in self.tasks if t.state != DONE and not t.killed)

    def sleep(self, seconds: float) -> None:
        self.block(None, int(seconds * SEC), why=f"sleep({seconds})")

    # -- processes -----------------------------------------------------------------------------------------------------
    def kill_process(self, proc: SimProcess, exitcode: int) -> None:
        if not proc.alive:
            return
        proc.alive = False
        proc.killed = True
        proc.exitcode = exitcode
        for t in self.tasks:
            if t.proc is proc and t.state != DONE:
                t.killed = True
        proc.release_resources()
        me = self._by_ident.get(_real_get_ident())
        if me is not None and me.proc is proc:
            self._park_forever(me)

    def _park_forever(self, task: Task) -> None:
        nxt = self._pick(None)
        self.cur = nxt
        nxt.gate.release()
        while True:
            task.gate.acquire()

    def exit_process(self, proc: SimProcess, exitcode: int) -> None:
        if not proc.alive:
            return
        proc.alive = False
        proc.exitcode = exitcode
        proc.release_resources()

    def fatal(self, exc: BaseException) -> None:
        """Ends the run from whatever thread we are in."""
        if self.on_fatal is None:
            raise exc
        self.on_fatal(exc)
        raise SystemError("on_fatal returned")

    # -- bytecode-level preemption ---------------------------------------------------------------------------------------
    def install_preemption(self, path_fragment: str, p: float) -> None:
        """Switches tasks between bytecodes of matching source files with probability p (per traced bytecode)."""
        self.trace_preempt = p
        kernel = self

        def local_trace(frame, event, arg):
            if event == "opcode" and kernel.in_task():
                if kernel.chooser.flip("preempt", kernel.trace_preempt):
                    sys.settrace(None)
                    try:
                        kernel.probe("preempted_mid_statement")
                        kernel.yield_point("preempt")
                    finally:
                        sys.settrace(global_trace)
            return local_trace

        def global_trace(frame, event, arg):
            if path_fragment in frame.f_code.co_filename:
                frame.f_trace_opcodes = True
                return local_trace
            return None

        sys.settrace(global_trace)
