"""Simulated multiprocessing: processes are task groups of the kernel, pipes carry pickled messages, the "OS" closes the ends
a dead process held. Default (fork) semantics: a child holds every pipe end its parent held when it was started."""
from __future__ import annotations

import collections
import io
import multiprocessing
import multiprocessing.connection
import multiprocessing.context
import pickle
from multiprocessing import ProcessError

from .kernel import Kernel, SEC, HarnessError, SimProcess

CAPACITY = 65536
_real_mp = {}


def _k() -> Kernel:
    k = Kernel.current
    if k is None:
        raise HarnessError("multiprocessing outside of the simulation")
    return k


class _World:
    """All pipe ends and processes of the current run (runs happen in a forked child each, so one global is enough)."""

    def __init__(self) -> None:
        self.ends: list["_End"] = []
        self.processes: list["Process"] = []


world = _World()


def reset() -> None:
    global world
    world = _World()


def find_process(pid: int):
    for p in world.processes:
        if p._sim is not None and p._sim.pid == pid:
            return p._sim
    return None


class _Channel:
    def __init__(self) -> None:
        self.messages: collections.deque = collections.deque()  # [payload, complete?]
        self.size = 0
        self.writer: "_End" = None
        self.reader: "_End" = None


class _End:
    def __init__(self, proc: SimProcess) -> None:
        self.holders = {id(proc): proc}
        proc.resources.append(self)
        world.ends.append(self)

    def inherit(self, parent: SimProcess, child: SimProcess) -> None:
        if id(parent) in self.holders:
            self.holders[id(child)] = child
            child.resources.append(self)

    def os_close(self, proc: SimProcess) -> None:
        self.holders.pop(id(proc), None)

    def open_somewhere(self) -> bool:
        return bool(self.holders)

    def held_by(self, proc: SimProcess) -> bool:
        return id(proc) in self.holders


class Connection:
    """One end of a pipe. The same object may be used by several simulated processes, each with its own open/closed state."""

    def __init__(self, end_r: _End | None, chan_r: _Channel | None, end_w: _End | None, chan_w: _Channel | None) -> None:
        self._end_r, self._chan_r, self._end_w, self._chan_w = end_r, chan_r, end_w, chan_w

    def _proc(self) -> SimProcess:
        return _k().me().proc

    def _ends(self):
        return [e for e in (self._end_r, self._end_w) if e is not None]

    @property
    def closed(self) -> bool:
        return not any(e.held_by(self._proc()) for e in self._ends())

    @property
    def readable(self) -> bool:
        return self._end_r is not None

    @property
    def writable(self) -> bool:
        return self._end_w is not None

    def fileno(self) -> int:
        return 1000 + world.ends.index(self._ends()[0])

    def _check(self, end, what):
        if self.closed:
            raise OSError("handle is closed")
        if end is None:
            raise OSError(f"connection is {what}")

    def close(self) -> None:
        k = _k()
        proc = self._proc()
        for e in self._ends():
            e.os_close(proc)
            if e in proc.resources:
                proc.resources.remove(e)
        k.yield_point("pipe-close")

    def send(self, obj) -> None:
        self._check(self._end_w, "read-only")
        buf = io.BytesIO()
        multiprocessing.context.reduction.ForkingPickler(buf, pickle.HIGHEST_PROTOCOL).dump(obj)
        self.send_bytes(buf.getvalue())

    def send_bytes(self, payload: bytes, *_a) -> None:
        self._check(self._end_w, "read-only")
        k = _k()
        k.yield_point("pipe-send")
        chan = self._chan_w
        reader = chan.reader

        def writable():
            return not reader.open_somewhere() or not chan.messages or chan.size + len(payload) <= CAPACITY

        if not writable():
            k.probe("pipe_full")
            k.block(writable, None, why="pipe-full")
        if not reader.open_somewhere():
            raise BrokenPipeError(32, "Broken pipe")
        big = len(payload) > CAPACITY
        msg = [payload, not big]
        chan.messages.append(msg)
        chan.size += len(payload)
        k.event(f"pipe send {len(payload)}")
        if big:
            # the message only fits if the reader drains it meanwhile
            k.probe("pipe_large_message")
            k.block(lambda: not reader.open_somewhere() or reader_wants(chan), None, why="pipe-large")
            msg[1] = True
        k.yield_point("pipe-sent")

    def _eof(self) -> bool:
        return not self._chan_r.writer.open_somewhere()

    def poll(self, timeout: float | None = 0.0) -> bool:
        self._check(self._end_r, "write-only")
        k = _k()
        chan = self._chan_r
        k.yield_point("pipe-poll")

        def avail():
            return bool(chan.messages) or self._eof()

        if avail():
            return True
        if timeout is not None and timeout <= 0:
            return False
        return k.block(avail, None if timeout is None else int(timeout * SEC), why="pipe-poll")

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def recv_bytes(self, *_a) -> bytes:
        self._check(self._end_r, "write-only")
        k = _k()
        chan = self._chan_r
        k.yield_point("pipe-recv")
        chan.readers_waiting = getattr(chan, "readers_waiting", 0) + 1
        try:
            k.block(lambda: (chan.messages and chan.messages[0][1]) or self._eof(), None, why="pipe-recv")
        finally:
            chan.readers_waiting -= 1
        if not chan.messages:
            k.probe("pipe_eof")
            raise EOFError
        payload, complete = chan.messages.popleft()
        chan.size -= len(payload)
        if not complete:
            k.probe("pipe_torn_message")
            raise OSError("got end of file during message")
        k.event(f"pipe recv {len(payload)}")
        return payload

    def __enter__(self):
        return self

    def __exit__(self, *args):
        self.close()

    def __reduce__(self):
        raise RuntimeError("Connection objects should only be shared between processes through inheritance")


def reader_wants(chan: _Channel) -> bool:
    return getattr(chan, "readers_waiting", 0) > 0


def Pipe(duplex: bool = True):
    k = _k()
    proc = k.me().proc
    c1 = _Channel()
    r1, w1 = _End(proc), _End(proc)
    c1.reader, c1.writer = r1, w1
    k.yield_point("pipe")
    if not duplex:
        return Connection(r1, c1, None, None), Connection(None, None, w1, c1)
    c2 = _Channel()
    r2, w2 = _End(proc), _End(proc)
    c2.reader, c2.writer = r2, w2
    return Connection(r1, c1, w2, c2), Connection(r2, c2, w1, c1)


def wait(object_list, timeout=None):
    k = _k()
    objs = list(object_list)

    def ready(o):
        if isinstance(o, Connection):
            return bool(o._chan_r.messages) or o._eof()
        if isinstance(o, _Sentinel):
            return not o.proc.alive
        raise HarnessError(f"wait() on {o!r}")

    k.yield_point("mp-wait")
    if not any(ready(o) for o in objs):
        k.block(lambda: any(ready(o) for o in objs), None if timeout is None else int(timeout * SEC), why="mp-wait")
    return [o for o in objs if ready(o)]


class _Sentinel(int):
    def __new__(cls, proc):
        self = super().__new__(cls, 20_000 + proc.pid)
        self.proc = proc
        return self


class Process:
    def __init__(self, group=None, target=None, name=None, args=(), kwargs=None, *, daemon=None) -> None:
        assert group is None
        self._target, self._args, self._kwargs = target, tuple(args), dict(kwargs or {})
        self._name = name or f"Process-{len(world.processes) + 1}"
        self._sim: SimProcess | None = None
        self._closed = False
        self.daemon = bool(daemon)

    def run(self) -> None:
        if self._target:
            self._target(*self._args, **self._kwargs)

    def _check_closed(self):
        if self._closed:
            raise ValueError("process object is closed")

    def start(self) -> None:
        self._check_closed()
        k = _k()
        assert self._sim is None, "cannot start a process twice"
        parent = k.me().proc
        self._sim = child = k.new_process(self._name)
        world.processes.append(self)
        for end in world.ends:
            end.inherit(parent, child)
        if on_process_start is not None:
            on_process_start(k, self, child, len(world.processes))

        def body():
            code = 0
            try:
                self.run()
            except SystemExit as e:
                code = e.code if isinstance(e.code, int) else (0 if e.code is None else 1)
            except Exception:
                code = 1
                k.probe("worker_uncaught_exception")
            k.exit_process(child, code)

        task = k.spawn(body, name=f"proc{len(world.processes)}", proc=child)
        child.main_task = task
        k.event(f"process start {self._name}")
        k.yield_point("process-start")

    def is_alive(self) -> bool:
        self._check_closed()
        return self._sim is not None and self._sim.alive

    def join(self, timeout=None) -> None:
        self._check_closed()
        assert self._sim is not None, "can only join a started process"
        k = _k()
        k.yield_point("process-join")
        sim = self._sim
        k.block(lambda: not sim.alive, None if timeout is None else int(timeout * SEC), why=f"join {self._name}")

    def _signal(self, code: int) -> None:
        self._check_closed()
        k = _k()
        k.yield_point("process-signal")
        if self._sim is not None and self._sim.alive:
            k.event(f"signal {-code} to {self._name}")
            k.kill_process(self._sim, code)

    def terminate(self) -> None:
        self._signal(-15)

    def kill(self) -> None:
        self._signal(-9)

    def close(self) -> None:
        if self._sim is not None and not self._closed:
            if self._sim.alive:
                raise ValueError("Cannot close a process while it is still running. You should first call join() or terminate().")
        self._closed = True

    @property
    def exitcode(self):
        self._check_closed()
        return None if self._sim is None or self._sim.alive else self._sim.exitcode

    @property
    def pid(self):
        self._check_closed()
        return None if self._sim is None else self._sim.pid

    ident = pid

    @property
    def name(self):
        return self._name

    @property
    def sentinel(self):
        self._check_closed()
        return _Sentinel(self._sim)

    @property
    def authkey(self):
        return b""


on_process_start = None


class SimpleQueue:
    """multiprocessing.SimpleQueue/Queue on top of a pipe."""

    def __init__(self, *_a, **_k2) -> None:
        self._reader, self._writer = Pipe(False)

    def put(self, obj, *a, **kw):
        self._writer.send(obj)

    def get(self, block=True, timeout=None):
        if not block or timeout is not None:
            if not self._reader.poll(timeout or 0):
                import queue
                raise queue.Empty
        return self._reader.recv()

    def empty(self):
        return not self._reader.poll()

    def close(self):
        self._reader.close()
        self._writer.close()

    def join_thread(self):
        pass

    cancel_join_thread = join_thread
    get_nowait = lambda self: self.get(False)  # noqa: E731
    put_nowait = put


class _Context:
    Process = Process
    Queue = SimpleQueue
    SimpleQueue = SimpleQueue

    @staticmethod
    def Pipe(duplex=True):
        return Pipe(duplex)

    @staticmethod
    def Event():
        import threading
        return threading.Event()

    @staticmethod
    def Lock():
        import threading
        return threading.Lock()

    @staticmethod
    def get_start_method(allow_none=False):
        return "fork"


def patch() -> None:
    mp = multiprocessing
    for name in ("Process", "Pipe", "Queue", "SimpleQueue", "Event", "Lock"):
        _real_mp[name] = getattr(mp, name)
    mp.Process = Process
    mp.Pipe = Pipe
    mp.Queue = mp.SimpleQueue = SimpleQueue
    mp.Event = _Context.Event
    mp.Lock = _Context.Lock
    mp.get_context = lambda method=None: _Context()
    multiprocessing.context.Process = Process
    multiprocessing.process.BaseProcess = Process
    multiprocessing.connection.wait = wait
    multiprocessing.connection.Pipe = Pipe
