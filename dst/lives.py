"""Process lifetimes of the simulated application on a real scratch directory, with crashes and disk errors injected into the
file system calls (dst/fsim.c). Each life is a forked child of the run; only what it left on disk survives."""
from __future__ import annotations

import ctypes
import errno
import os
import pickle
import signal
import traceback

from . import boot, runner
from .kernel import HarnessError, Violation

KINDS = {"none": 0, "crash_before": 1, "crash_torn": 2, "crash_after": 3, "fail_once": 4, "fail_from": 5, "short_write": 6}
_lib = None


def lib():
    global _lib
    if _lib is None:
        path = os.environ.get("FSIM_SO")
        if not path:
            raise HarnessError("the file system fault injector is not loaded")
        _lib = ctypes.CDLL(path)
        _lib.fsim_ops.restype = ctypes.c_long
        _lib.fsim_oplog.restype = ctypes.c_char_p
    return _lib


CB = ctypes.CFUNCTYPE(None)
_keep = []


def arm(prefix: str, fault: dict | None, on_crash=None) -> None:
    fault = fault or {}
    cb = CB(on_crash) if on_crash is not None else ctypes.cast(None, CB)
    _keep.append(cb)
    lib().fsim_arm(prefix.encode(), KINDS[fault.get("kind", "none")], ctypes.c_long(fault.get("op", -1)),
                   getattr(errno, fault.get("errno", "EIO")), ctypes.c_long(fault.get("permille", 500)), cb)


def disarm() -> None:
    lib().fsim_disarm()


class Life:
    """Outcome of one process lifetime."""

    def __init__(self, end: str, value, ops: int, oplog: str, injected: int, progress) -> None:
        self.end, self.value, self.ops, self.oplog, self.injected, self.progress = end, value, ops, oplog, injected, progress

    def __repr__(self) -> str:
        return f"<life {self.end} ops={self.ops} injected={self.injected}>"


def live(ctx, n: int, body, fault: dict | None = None, *, disk: str, atexit: bool = True) -> Life:
    """Runs body(progress) as a process of its own. progress is a list which the body may append (picklable) notes to; it is
    available even if the process died. Ends: "exit" (value), "error" (value = exception text; from the code under test),
    "crash"."""
    k = ctx.k
    r, w = os.pipe()
    pid = boot.real_fork()
    if pid == 0:
        os.close(r)
        _child(ctx, n, body, fault, disk, atexit, w)
        os._exit(96)
    os.close(w)
    buf = bytearray()
    while True:
        data = os.read(r, 1 << 20)
        if not data:
            break
        buf += data
    os.close(r)
    _, status = os.waitpid(pid, 0)
    if not buf:
        raise HarnessError(f"life {n} ended without a report (status {status})")
    rep = pickle.loads(bytes(buf))
    k.now = max(k.now, rep["now"])
    k.steps += rep["steps"]
    k.switches += rep["switches"]
    k.hash.update(rep["hash"])
    k.sched_hash.update(rep["hash"])
    k.chooser.n_choices += rep["choices"]
    if k.chooser.replay is None:
        k.chooser.trace.update(rep["trace"])
    for name, c in rep["faults"].items():
        k.faults[name] = k.faults.get(name, 0) + c
    for name, c in rep["probes"].items():
        k.probes[name] = k.probes.get(name, 0) + c
    k.log += rep["log"]
    ctx.states |= rep["states"]
    ctx.known_hits.update(rep["known_hits"])
    if rep["injected"]:
        name = "disk:" + (fault["kind"] if fault["kind"].startswith("crash") or fault["kind"] == "short_write"
                          else f"{fault['kind']}:{fault.get('errno', 'EIO')}")
        k.fault(name)
    k.event(f"life {n} {rep['end']} ops={rep['ops']} {rep['oplog']}")
    if rep["end"] == "violation":
        msg, sig = rep["value"]
        raise Violation(msg, sig)
    if rep["end"] == "harness":
        raise HarnessError(rep["value"])
    return Life(rep["end"], rep["value"], rep["ops"], rep["oplog"], rep["injected"], rep["progress"])


def _child(ctx, n, body, fault, disk, atexit, w) -> None:
    k = ctx.k
    k.chooser.prefix = f"life{n}/"
    k.chooser.trace = {}
    k.faults, k.probes, k.log = {}, {}, []
    steps0, switches0, choices0 = k.steps, k.switches, k.chooser.n_choices
    progress: list = []
    sent = [False]

    def report(end, value) -> None:
        if sent[0]:
            return
        sent[0] = True
        rep = dict(end=end, value=value, now=k.now, steps=k.steps - steps0, switches=k.switches - switches0,
                   hash=k.hash.digest(), choices=k.chooser.n_choices - choices0, trace=k.chooser.trace, faults=k.faults,
                   probes=k.probes, log=k.log[:600], states=ctx.states, known_hits=ctx.known_hits, ops=lib().fsim_ops(),
                   oplog=lib().fsim_oplog().decode(), injected=lib().fsim_injected(), progress=progress)
        try:
            data = pickle.dumps(rep)
        except Exception as e:  # noqa: BLE001
            rep |= dict(end="harness", value=f"unpicklable report: {e}", progress=[])
            data = pickle.dumps(rep)
        while data:
            data = data[os.write(w, data[:65536]):]

    def on_fatal(e: BaseException) -> None:
        status, msg, sig = runner.classify(e)
        report(*(("violation", (msg, sig)) if status == "violation" else ("harness", msg)))
        os._exit(0)

    k.on_fatal = on_fatal
    signal.setitimer(signal.ITIMER_PROF, runner.CPU_LIMIT)
    try:
        arm(disk, fault, lambda: report("crash", None))
        try:
            value = body(progress)
            end = "exit"
        except (Violation, HarnessError):
            raise
        except Exception as e:  # noqa: BLE001
            if not runner.from_repo(e):
                raise HarnessError("".join(traceback.format_exception(e)))
            end, value = "error", (type(e).__name__, str(e)[:2000], "".join(traceback.format_exception(e))[-3000:])
        if atexit:
            for e in boot.run_atexit():
                progress.append(("atexit-error", type(e).__name__, str(e)[:500]))
        lib().fsim_disarm()
        report(end, value)
        os._exit(0)
    except BaseException as e:  # noqa: BLE001
        lib().fsim_disarm()
        on_fatal(e)
