"""S26: external commands."""
from __future__ import annotations

import errno
import os
import pathlib
import subprocess
import threading

from dst import simsub
from dst.kernel import MS

from . import Prop

from postbound.util import proc


class S26(Prop):
    id = "S26"
    quick_runs = 6000
    thorough_runs = 200000
    state_measure = "distinct (outcome, kind of working directory, overlap with another command) combinations"
    rule = ("A run executes generated commands with run_cmd from one to three threads, in existing, missing and relative directories, and "
            "compares result, directory and arguments of each with what the simulated command saw. Non-trivial: at least one command was "
            "started in another directory. Distinct by event-log hash.")
    real = ["postbound.util.proc", "subprocess.run"]
    stub = ["external commands (dst.simsub stands in for subprocess.Popen)", "thread scheduler"]
    assumptions = ["Interrupts (Ctrl-C) arrive while waiting for the command."]
    shrink_lists = ()

    def shrink(self, sc):
        for t in range(len(sc["threads"])):
            ops = sc["threads"][t]
            for i in range(len(ops)):
                yield {**sc, "threads": sc["threads"][:t] + [ops[:i] + ops[i + 1:]] + sc["threads"][t + 1:]}

    def scenario(self, rng, tier):
        n = 0
        threads = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            ops = []
            for _ in range(rng.randint(1, 4)):
                op = {"n": n, "form": rng.choice(["str", "list", "tuple", "iter", "shell"]), "args": [rng.choice(["-x", 7, "a b", "", 2.5]) for _ in range(rng.randint(0, 3))],
                      "extra": [rng.choice(["-y", 3]) for _ in range(rng.randint(0, 2))],
                      "dir": rng.choice([None, "a", "a", "b", "a/sub", "missing", "file", "gone"]), "dir_form": rng.choice(["abs", "rel", "path"]),
                      "out": rng.choice(["", "out\n", "x\ny\n", "ümlaut"]), "err": rng.choice(["", "problem\n"]), "code": rng.choice([0, 0, 1, 2, 127, -9]),
                      "dur_ms": rng.choice([0, 3, 6, 40, 3000])}
                r = rng.random()
                if r < 0.15:
                    op["start"] = rng.choice([errno.ENOENT, errno.EACCES, errno.ENOMEM, errno.ENOEXEC, errno.EAGAIN])
                elif r < 0.25:
                    op["interrupt_ms"] = rng.choice([0, 2, 25])
                elif r < 0.32:
                    op["garbled"] = True
                if rng.random() < 0.25:
                    op["timeout_s"] = rng.choice([0.001, 0.02, 1, 10])
                if rng.random() < 0.1:
                    op["check"] = True
                ops.append(op)
                n += 1
            threads.append(ops)
        return {"threads": threads, "sched": {"p_stay": rng.choice([0.0, 0.3, 0.7])}}

    def run(self, ctx, sc):
        k = ctx.k
        base = os.path.realpath(ctx.tmp)
        home = os.path.join(base, "home")
        for d in ("home", "home/a", "home/a/sub", "home/b", "home/gone"):
            os.makedirs(os.path.join(base, d), exist_ok=True)
        open(os.path.join(home, "file"), "w").close()
        os.chdir(home)
        os.rmdir(os.path.join(home, "gone"))
        specs = {op["n"]: op for ops in sc["threads"] for op in ops}
        running: set[int] = set()
        seen: dict[int, list[dict]] = {}

        def lookup(argv, shell, cwd):
            words = argv[0].split()
            n = int(words[0][3:])
            op = specs[n]
            seen.setdefault(n, []).append({"argv": argv, "shell": shell, "cwd": cwd})
            out = b"\xff\xfe\xfa" if op.get("garbled") else op["out"].encode()
            spec = {"out": out, "err": op["err"].encode(), "code": op["code"], "dur": op["dur_ms"] * MS, "start": op.get("start")}
            if "interrupt_ms" in op:
                spec["interrupt"] = op["interrupt_ms"] * MS
            return spec

        simsub.Commands(k, lookup)
        failed: list = []

        def one(op):
            n = op["n"]
            args = list(op["args"])
            extra = list(op["extra"])
            if op["form"] == "shell":
                cmd, want = f"cmd{n} | cat", [f"cmd{n} | cat"] + [str(a) for a in extra]
            elif op["form"] == "str":
                cmd, extra = f"cmd{n}", args + extra
                want = [f"cmd{n}"] + [str(a) for a in extra]
            else:
                cmd = [f"cmd{n}", *args]
                want = [str(a) for a in cmd] + [str(a) for a in extra]
                cmd = cmd if op["form"] == "list" else (tuple(cmd) if op["form"] == "tuple" else dict.fromkeys(cmd).keys() if len(set(map(str, cmd))) == len(cmd) else cmd)
                if op["form"] == "iter" and not isinstance(cmd, list):
                    cmd = iter(list(cmd))
            wd = None
            target = home
            if op["dir"] is not None:
                target = os.path.join(home, op["dir"])
                wd = {"abs": target, "rel": op["dir"], "path": pathlib.Path(target)}[op["dir_form"]]
            kw = {}
            if "timeout_s" in op:
                kw["timeout"] = op["timeout_s"]
            if op.get("check"):
                kw["check"] = True
            if op["form"] == "shell":
                kw["shell"] = True
            overlap = bool(running)
            running.add(n)
            error = result = None
            try:
                result = proc.run_cmd(cmd, *extra, work_dir=wd, **kw)
            except (Exception, KeyboardInterrupt) as e:  # noqa: BLE001
                error = e
            running.discard(n)
            what = f"run_cmd({cmd!r}, *{extra}, work_dir={wd!r}, {kw})"
            starts = seen.get(n, [])
            ctx.check(len(starts) <= 1, f"{what} was started {len(starts)} times", "started repeatedly")
            if not running:
                ctx.check(os.getcwd() == home, f"{what} -> {result!r} / {error!r}: the process is left in {os.getcwd()} instead of {home}",
                          "left in another directory")
            bad_dir = op["dir"] in ("missing", "file", "gone")
            end = "interrupt_ms" in op and op["interrupt_ms"] < min(op["dur_ms"], op.get("timeout_s", 1e9) * 1000)
            dead = "timeout_s" in op and op["timeout_s"] * 1000 < op["dur_ms"]
            if bad_dir:
                kind = "bad dir"
                ctx.check(isinstance(error, OSError) and not starts, f"{what}: the directory does not exist, but {result!r} {error!r} {starts}", "ran elsewhere")
            else:
                ctx.check(len(starts) == 1, f"{what} was not started: {error!r}", "not started")
                s = starts[0]
                ctx.check(s["cwd"] == target, f"{what} was executed in {s['cwd']} instead of {target}", "executed in wrong directory")
                ctx.check(s["argv"] == want and s["shell"] == (op["form"] == "shell"), f"{what} was called as {s['argv']} instead of {want}", "wrong arguments")
                if target != home:
                    ctx.nontrivial = True
                if op.get("start"):
                    kind = "start"
                    ctx.check(isinstance(error, OSError) and error.errno == op["start"], f"{what} cannot be started (errno {op['start']}), but {result!r} {error!r}", "start error lost")
                elif end:
                    kind = "interrupt"
                    ctx.check(isinstance(error, KeyboardInterrupt), f"{what} was interrupted, but {result!r} {error!r}", "interrupt lost")
                elif dead:
                    kind = "timeout"
                    ctx.check(isinstance(error, subprocess.TimeoutExpired), f"{what} timed out, but {result!r} {error!r}", "timeout lost")
                elif op.get("garbled"):
                    kind = "garbled"
                    if error is not None:
                        ctx.check(isinstance(error, UnicodeError), f"{what}: {error!r}", "unexpected error")
                elif op.get("check") and op["code"]:
                    kind = "check"
                    ctx.check(isinstance(error, subprocess.CalledProcessError) and error.returncode == op["code"], f"{what}: {result!r} {error!r}", "check lost")
                else:
                    kind = "ok" if not op["code"] else "failed"
                    ctx.check(error is None, f"{what} failed with {error!r}", "made-up error")
                    got = (str(result), result.out_data, result.err_data, result.exit_code, bool(result), result == op["out"])
                    exp = (op["out"], op["out"], op["err"], op["code"], op["code"] == 0, True)
                    ctx.check(got == exp, f"{what} -> {got} instead of {exp}", "wrong result")
                    try:
                        result.raise_if_error()
                        ctx.check(op["code"] == 0, f"{what}: raise_if_error did not raise for exit code {op['code']}", "wrong result")
                    except RuntimeError:
                        ctx.check(op["code"] != 0, f"{what}: raise_if_error raised for exit code 0", "wrong result")
            ctx.state(kind, op["dir"] is not None, op["dir_form"], overlap)

        def body(ops):
            try:
                for op in ops:
                    one(op)
            except BaseException as e:  # noqa: BLE001
                failed.append(e)

        threads = [threading.Thread(target=body, args=(ops,)) for ops in sc["threads"][1:]]
        for t in threads:
            t.start()
        body(sc["threads"][0])
        for t in threads:
            t.join()
        if failed:
            raise failed[0]
        ctx.check(os.getcwd() == home, f"finally, the process is left in {os.getcwd()} instead of {home}", "left in another directory")


PROPS = {"S26": S26()}
