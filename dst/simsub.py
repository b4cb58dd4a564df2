"""Simulated external commands: stands in for subprocess.Popen (subprocess.run and friends are the real code on top of it)."""
from __future__ import annotations

import errno
import io
import os
import subprocess

from . import boot
from .kernel import Kernel, MS, SEC


class Commands:
    """`lookup(argv, shell, cwd)` returns the behaviour of a command:

    out, err: bytes; code: int; dur: ns; start: errno or None (cannot be started); interrupt: raise KeyboardInterrupt after n ns
    """

    def __init__(self, kernel: Kernel, lookup) -> None:
        self.k = kernel
        self.lookup = lookup
        self.log: list[dict] = []
        boot.external_command_handler = self.popen

    def popen(self, *a, **k):
        return SimPopen(self, *a, **k)


class SimPopen:
    def __init__(self, commands: Commands, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None,
                 close_fds=True, shell=False, cwd=None, env=None, universal_newlines=None, startupinfo=None, creationflags=0,
                 restore_signals=True, start_new_session=False, pass_fds=(), *, user=None, group=None, extra_groups=None, encoding=None,
                 errors=None, text=None, umask=-1, pipesize=-1, process_group=None) -> None:
        k = self.k = commands.k
        k.yield_point("spawn")
        argv = [args] if isinstance(args, (str, bytes, os.PathLike)) else list(args)
        for a in argv:
            os.fspath(a)  # like the real thing: TypeError for anything that is not a string or path
        argv = [os.fsdecode(a) for a in argv]
        where = os.getcwd()
        if cwd is not None:
            cwd = os.fspath(cwd)
            if not os.path.exists(cwd):
                raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), cwd)
            if not os.path.isdir(cwd):
                raise NotADirectoryError(errno.ENOTDIR, os.strerror(errno.ENOTDIR), cwd)
            where = os.path.realpath(os.path.join(where, cwd))
        spec = self.spec = commands.lookup(argv, shell, where)
        if spec.get("start"):
            k.fault(f"start_{errno.errorcode[spec['start']]}")
            raise OSError(spec["start"], os.strerror(spec["start"]), argv[0])
        self.args = args
        self.pid = 90_000 + len(commands.log)
        self.returncode = None
        self.text = bool(text or universal_newlines or encoding or errors)
        self.encoding, self.errors = encoding or "utf-8", errors or "strict"
        self.entry = {"argv": argv, "shell": shell, "cwd": where, "start": k.now, "env": env, "killed": False, "input": None}
        commands.log.append(self.entry)
        k.event(f"command {argv} in {where}")
        self.end = k.now + spec.get("dur", 0)
        err = spec.get("err", b"")
        out = spec.get("out", b"")
        if stderr == subprocess.STDOUT:
            out, err = out + err, b""
        self._out = out if stdout == subprocess.PIPE else None
        self._err = err if stderr == subprocess.PIPE else None
        self.stdin = io.BytesIO() if stdin == subprocess.PIPE else None
        self.stdout = _Stream(self, self._out) if self._out is not None else None
        self.stderr = _Stream(self, self._err) if self._err is not None else None
        self.interrupted = False

    def _decode(self, data):
        return data.decode(self.encoding, self.errors).replace("\r\n", "\n") if self.text and data is not None else data

    def _await(self, timeout):
        k = self.k
        if self.returncode is not None:
            k.yield_point("wait")
            return
        interrupt = self.spec.get("interrupt")
        deadline = None if timeout is None else k.now + max(0, int(timeout * SEC))
        until = self.end if deadline is None else min(self.end, deadline)
        if interrupt is not None and not self.interrupted:
            at = self.entry["start"] + interrupt
            if at < until:
                k.block(None, at - k.now, why="command")
                self.interrupted = True
                k.fault("interrupt")
                raise KeyboardInterrupt()
        k.block(None, until - k.now, why="command")
        if self.returncode is None and k.now >= self.end:
            self.returncode = self.spec.get("code", 0)
        if self.returncode is None:
            k.fault("command_timeout")
            raise subprocess.TimeoutExpired(self.args, timeout)

    def communicate(self, input=None, timeout=None):
        self.entry["input"] = input
        self._await(timeout)
        return self._decode(self._out), self._decode(self._err)

    def wait(self, timeout=None):
        self._await(timeout)
        return self.returncode

    def poll(self):
        self.k.yield_point("poll")
        if self.returncode is None and self.k.now >= self.end:
            self.returncode = self.spec.get("code", 0)
        return self.returncode

    def send_signal(self, sig):
        if self.returncode is None:
            self.entry["killed"] = True
            self.returncode = -int(sig)

    def kill(self):
        self.send_signal(9)

    def terminate(self):
        self.send_signal(15)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, *a):
        if exc_type is KeyboardInterrupt:
            return
        self.wait()


class _Stream:
    def __init__(self, proc, data) -> None:
        self.proc, self.data = proc, data

    def read(self):
        self.proc._await(None)
        data, self.data = self.data, b""
        return self.proc._decode(data)

    def readlines(self):
        return self.read().splitlines(True)

    def __iter__(self):
        return iter(self.readlines())

    def close(self):
        pass
