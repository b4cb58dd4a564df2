"""Runs one simulated execution per forked child, collects results, minimises and replays failures, writes evidence."""
from __future__ import annotations

import gc
import hashlib
import json
import os
import random
import select
import shutil
import signal
import sys
import time
import traceback
import warnings

from . import boot
from .kernel import Chooser, HarnessError, Kernel, SEC, Violation

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("POSTBOUND_REPO", "/repo")
CPU_LIMIT = 40.0
WALL_LIMIT = 240.0
real_time = boot.real_perf_counter


class Ctx:
    """What a property's run gets: the kernel, the scenario, a scratch directory, and places to record what was covered."""

    def __init__(self, kernel: Kernel, scenario: dict, tmp: str, known: list[str]) -> None:
        self.k = kernel
        self.scenario = scenario
        self.tmp = tmp
        self.known = known
        self.states: set[str] = set()
        self.notes: list[str] = []
        self.known_hits: dict[str, str] = {}
        self.nontrivial = False
        self.phase = "setup"
        self.extra_sim_ns = 0

    def state(self, *parts) -> None:
        self.states.add("|".join(str(p) for p in parts))

    def violate(self, message: str, signature: str) -> None:
        """Reports a violation: fatal for the run unless it is a listed finding."""
        if signature in self.known:
            self.known_hits.setdefault(signature, message)
            return
        raise Violation(message, signature)

    def check(self, cond, message: str, signature: str) -> None:
        if not cond:
            self.violate(message, signature)

    def probe(self, name: str) -> None:
        self.k.probe(name)


def _result(kernel: Kernel, ctx: Ctx | None, status: str, message: str = "", signature: str = "") -> dict:
    out = {"status": status, "message": message[:6000], "signature": signature}
    if kernel is not None:
        out |= {"faults": kernel.faults, "probes": kernel.probes, "sim_ns": kernel.now + (ctx.extra_sim_ns if ctx else 0),
                "steps": kernel.steps,
                "switches": kernel.switches, "sched": kernel.sched_hash.hexdigest(), "events": kernel.hash.hexdigest(),
                "choices": kernel.chooser.n_choices}
        if status != "ok":
            out["log"] = kernel.log[-300:]
            out["trace"] = kernel.chooser.trace if kernel.chooser.replay is None else kernel.chooser.replay
    if ctx is not None:
        out |= {"states": sorted(ctx.states), "known_hits": ctx.known_hits, "nontrivial": ctx.nontrivial, "notes": ctx.notes[:20]}
    return out


def from_repo(e: BaseException) -> bool:
    """Whether an exception was raised in (or passed through) code of the repository."""
    seen = set()
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or id(x) in seen:
            continue
        seen.add(id(x))
        tb = x.__traceback__
        while tb is not None:
            if tb.tb_frame.f_code.co_filename.startswith(os.path.join(REPO, "postbound")):
                return True
            tb = tb.tb_next
        todo += [x.__cause__, x.__context__]
    return False


def unexpected_value(e: BaseException) -> bool:
    """Whether the judging code of a check failed on a value of an unexpected type or shape. This never happens on the unchanged tree."""
    if not isinstance(e, (AttributeError, TypeError, LookupError, ValueError)) or from_repo(e):
        return False
    if isinstance(e, AttributeError) and str(e.name).startswith("_"):
        return False  # checks may look at internals, which do not need to exist
    tb = e.__traceback__
    while tb is not None and tb.tb_next is not None:
        tb = tb.tb_next
    return tb is not None and tb.tb_frame.f_code.co_filename.startswith(os.path.join(VERIF, "props"))


def classify(e: BaseException) -> tuple[str, str, str]:
    if isinstance(e, Violation):
        return "violation", e.message, e.signature
    text = "".join(traceback.format_exception(e))
    if not isinstance(e, HarnessError) and unexpected_value(e):
        return "violation", f"the code under test returned something that the check cannot even evaluate: {type(e).__name__}: {e}\n{text[-3500:]}", f"unusable:{type(e).__name__}"
    if isinstance(e, HarnessError) or not from_repo(e):
        return "harness", text, "harness"
    return "violation", f"unexpected {type(e).__name__} escaped from the code under test: {e}\n{text[-3500:]}", f"unexpected:{type(e).__name__}"


def run_child(prop, seed: int, scenario: dict, trace: dict | None, known: list[str], wfd: int, tmp: str) -> None:
    """Body of the forked child. Never returns."""
    done = [False]
    kernel = None
    ctx = None

    def send(result: dict) -> None:
        if done[0]:
            os._exit(0)
        done[0] = True
        data = json.dumps(result, default=str).encode()
        data = len(data).to_bytes(8, "big") + data
        while data:
            n = os.write(wfd, data[:65536])
            data = data[n:]
        os._exit(0)

    def fatal(e: BaseException) -> None:
        status, msg, sig = classify(e)
        if status == "violation" and sig in known:
            ctx.known_hits.setdefault(sig, msg)
            send(_result(kernel, ctx, "ok"))
        send(_result(kernel, ctx, status, msg, sig))

    def on_cpu(_sig, _frame):
        stacks = []
        for ident, frame in sys._current_frames().items():
            stacks.append("".join(traceback.format_stack(frame)[-6:]))
        mine = [s for s in stacks if os.path.join(REPO, "postbound") in s]
        if mine:
            fatal(Violation("computes without ever reaching a synchronisation point or an end:\n" + mine[0][-2500:], "liveness:cpu-loop"))
        fatal(HarnessError("CPU budget exceeded outside of the code under test\n" + "\n".join(stacks)[-3000:]))

    try:
        signal.signal(signal.SIGPROF, on_cpu)
        signal.setitimer(signal.ITIMER_PROF, CPU_LIMIT)
        devnull = os.open(os.devnull, os.O_RDWR)
        if not os.environ.get("DST_DEBUG"):
            os.dup2(devnull, 1)
            os.dup2(devnull, 2)
        os.makedirs(tmp, exist_ok=True)
        os.chdir(tmp)
        os.environ["HOME"] = tmp
        warnings.simplefilter("ignore")
        if os.environ.get("FSIM_SO"):
            import ctypes
            ctypes.CDLL(os.environ["FSIM_SO"]).fsim_random(ctypes.c_ulong(seed & 0xFFFFFFFF))  # native code draws from here
        chooser = Chooser(seed, trace)
        sched = scenario.get("sched", {})
        kernel = Kernel(chooser, on_fatal=fatal, **sched)
        ctx = Ctx(kernel, scenario, tmp, known)
        kernel.start()
        prop.run(ctx, scenario)
        send(_result(kernel, ctx, "ok"))
    except BaseException as e:  # noqa: BLE001
        try:
            fatal(e)
        except BaseException:
            os._exit(99)
    os._exit(98)


class Pool:
    """Up to n children at a time, results handed over as they arrive."""

    def __init__(self, prop, known: list[str], jobs: int, scratch: str) -> None:
        self.prop, self.known, self.jobs, self.scratch = prop, known, jobs, scratch
        self.active: dict[int, tuple] = {}
        self.count = 0

    def start(self, key, seed, scenario, trace=None) -> None:
        self.count += 1
        tmp = os.path.join(self.scratch, f"run{self.count % 100_000}")
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            for fd in self.active:
                os.close(fd)
            run_child(self.prop, seed, scenario, trace, self.known, w, tmp)
            os._exit(97)
        os.close(w)
        self.active[r] = [pid, key, bytearray(), real_time(), tmp]

    def poll(self, timeout: float | None = None) -> list[tuple]:
        out = []
        ready, _, _ = select.select(list(self.active), [], [], 1.0 if timeout is None else timeout)
        for fd in ready:
            data = os.read(fd, 1 << 20)
            entry = self.active[fd]
            if data:
                entry[2] += data
                continue
            out.append(self._finish(fd))
        now = real_time()
        for fd in list(self.active):
            if now - self.active[fd][3] > WALL_LIMIT:
                pid = self.active[fd][0]
                try:
                    boot.real_kill(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                out.append(self._finish(fd, "wall clock limit of a single run exceeded"))
        return out

    def _finish(self, fd, why="") -> tuple:
        pid, key, buf, _t, tmp = self.active.pop(fd)
        os.close(fd)
        _, status = os.waitpid(pid, 0)
        shutil.rmtree(tmp, ignore_errors=True)
        if len(buf) >= 8 and len(buf) >= 8 + int.from_bytes(buf[:8], "big"):
            return key, json.loads(bytes(buf[8:]))
        return key, {"status": "harness", "signature": "harness", "message": f"child ended without a result (status {status}) {why}",
                     "engine_crash": not why and os.WIFSIGNALED(status) and os.WTERMSIG(status) in (signal.SIGSEGV, signal.SIGABRT, signal.SIGBUS, signal.SIGFPE, signal.SIGILL)}

    def one(self, seed, scenario, trace=None) -> dict:
        self.start("one", seed, scenario, trace)
        while True:
            for key, res in self.poll():
                if key == "one":
                    return res

    def close(self) -> None:
        for fd in list(self.active):
            pid = self.active[fd][0]
            try:
                boot.real_kill(pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            self._finish(fd)


def run_seed(base: int, i: int, prop_id: str) -> int:
    h = hashlib.blake2b(f"{prop_id}/{base}/{i}".encode(), digest_size=6).digest()
    return int.from_bytes(h, "big")


def load_known(prop_id: str) -> list[dict]:
    path = os.path.join(VERIF, "KNOWN_FINDINGS.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        data = json.load(f)
    return [e for e in data.get("known", []) if e["property"] == prop_id]


def scratch_dir(prop_id: str) -> str:
    base = os.environ.get("DST_SCRATCH", "/dev/shm" if os.access("/dev/shm", os.W_OK) else "/tmp")
    path = os.path.join(base, f"dst-{prop_id}-{os.getpid()}")
    shutil.rmtree(path, ignore_errors=True)
    os.makedirs(path)
    return path


# ------------------------------------------------------------------------------------------------------------ minimising
def shrink_scenarios(prop, scenario: dict):
    custom = getattr(prop, "shrink", None)
    if custom is not None:
        yield from custom(scenario)
    for key in getattr(prop, "shrink_lists", ("faults", "ops", "queries")):
        items = scenario.get(key)
        if not isinstance(items, list):
            continue
        n = len(items)
        size = n // 2
        while size >= 1:
            for s in range(0, n, size):
                yield {**scenario, key: items[:s] + items[s + size:]}
            size //= 2
    for key, simple in getattr(prop, "shrink_values", {}).items():
        if key in scenario and scenario[key] != simple:
            yield {**scenario, key: simple}


def minimise(pool: Pool, prop, seed, scenario, first: dict, budget_s: float = 45.0, budget_runs: int = 160):
    t0 = real_time()
    sig = first["signature"]
    best, result = scenario, first
    runs = 0

    def ok():
        return real_time() - t0 < budget_s and runs < budget_runs

    progress = True
    while progress and ok():
        progress = False
        for cand in shrink_scenarios(prop, best):
            if not ok():
                break
            runs += 1
            try:
                valid = getattr(prop, "valid", lambda s: True)(cand)
            except Exception:
                valid = False
            if not valid:
                continue
            r = pool.one(seed, cand)
            if r["status"] == "violation" and r["signature"] == sig:
                best, result = cand, r
                progress = True
                break
    # schedule: drop recorded non-default choices
    trace = result.get("trace") or {}
    entries = [(s, i) for s, d in trace.items() for i in d]
    replayed = pool.one(seed, best, trace)
    runs += 1
    if not (replayed["status"] == "violation" and replayed["signature"] == sig):
        return best, result, trace, runs, False
    result = replayed
    size = max(1, len(entries) // 2)
    while size >= 1 and entries and ok():
        s = 0
        changed = False
        while s < len(entries) and ok():
            keep = entries[:s] + entries[s + size:]
            cand = {}
            for st, i in keep:
                cand.setdefault(st, {})[i] = trace[st][i]
            runs += 1
            r = pool.one(seed, best, cand)
            if r["status"] == "violation" and r["signature"] == sig:
                entries, result, changed = keep, r, True
            else:
                s += size
        if size == 1 and not changed:
            break
        size = max(1, size // 2) if size > 1 else (1 if changed else 0)
    final = {}
    for st, i in entries:
        final.setdefault(st, {})[i] = trace[st][i]
    return best, result, final, runs, True


# ------------------------------------------------------------------------------------------------------------------- main
def write_evidence(prop, tier, base_seed, agg, wall, n_viol) -> None:
    hours = max(wall, 1e-9) / 3600
    cov = {
        "evaluations": agg["runs"],
        "distinct_nontrivial": len(agg["distinct"]),
        "rule": prop.rule,
        "samples": agg["samples"][:3],
        "simulated_runs": agg["runs"],
        "seeds_per_hour": round(agg["runs"] / hours),
        "simulated_seconds": round(agg["sim_ns"] / SEC, 3),
        "scheduling_steps": agg["steps"],
        "context_switches": agg["switches"],
        "choices_made": agg["choices"],
        "distinct_schedules": len(agg["schedules"]),
        "distinct_states": len(agg["states"]),
        "state_measure": prop.state_measure,
        "states_sample": sorted(agg["states"])[:40],
        "faults_injected": dict(sorted(agg["faults"].items())),
        "probes": dict(sorted(agg["probes"].items())),
        "real_components": prop.real,
        "stub_components": prop.stub,
    }
    out = {"property": prop.id, "tier": tier, "seed": base_seed, "level": "exploration", "coverage": cov,
           "assumptions": prop.assumptions, "wall_s": round(wall, 3), "violations": n_viol}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop.id}.json"), "w") as f:
        json.dump(out, f, indent=1)


def save_replay(prop, seed, scenario, trace, result, hashseed) -> str:
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    path = os.path.join(VERIF, "replays", f"{prop.id}-{seed}.json")
    with open(path, "w") as f:
        json.dump({"property": prop.id, "seed": seed, "hashseed": hashseed, "scenario": scenario, "trace": trace,
                   "signature": result["signature"], "message": result["message"], "events": result.get("events"),
                   "log": result.get("log", [])}, f, indent=1)
    return path


def new_agg() -> dict:
    return {"runs": 0, "sim_ns": 0, "steps": 0, "switches": 0, "choices": 0, "schedules": set(), "states": set(), "faults": {},
            "probes": {}, "samples": [], "distinct": set(), "known": {}}


def merge(agg, scenario, res) -> None:
    agg["runs"] += 1
    for k in ("sim_ns", "steps", "switches", "choices"):
        agg[k] += res.get(k, 0)
    agg["schedules"].add(res.get("sched"))
    agg["states"].update(res.get("states", []))
    for kind in ("faults", "probes"):
        for name, n in res.get(kind, {}).items():
            agg[kind][name] = agg[kind].get(name, 0) + n
    if res.get("nontrivial"):
        agg["distinct"].add(res.get("events"))
        if len(agg["samples"]) < 3:
            agg["samples"].append({"scenario": scenario, "faults": res.get("faults"), "steps": res.get("steps"),
                                   "sim_s": round(res.get("sim_ns", 0) / SEC, 4), "events": res.get("events")})
    for sig, msg in res.get("known_hits", {}).items():
        agg["known"].setdefault(sig, msg)


def explore(prop, tier: str, base_seed: int, runs: int, wall_cap: float, jobs: int, known_entries: list[dict],
            verbose: bool = False, dump_hashes: str | None = None, keep_going: bool = False) -> int:
    t0 = real_time()
    known = [e["signature"] for e in known_entries]
    scratch = scratch_dir(prop.id)
    pool = Pool(prop, known, jobs, scratch)
    gc.collect()
    gc.freeze()
    agg = new_agg()
    failures: list[tuple] = []
    hashes = {}
    sigs: dict[str, int] = {}
    harness = None
    try:
        i = 0
        scenarios = {}
        n_harness = 0

        def more():  # errors of the machinery do not stop the search at once: a violation found by another run is worth more
            return i < runs and not failures and n_harness < 40 and real_time() - t0 < wall_cap

        while more() or pool.active:
            while more() and len(pool.active) < jobs:
                seed = run_seed(base_seed, i, prop.id)
                sc = prop.scenario(random.Random(seed), tier)
                sc = json.loads(json.dumps(sc))
                scenarios[i] = (seed, sc)
                pool.start(i, seed, sc)
                i += 1
            for key, res in pool.poll():
                seed, sc = scenarios.pop(key)
                if res.get("engine_crash") and prop.native_engine and agg["probes"].get("crash of the native engine", 0) < max(3, i // 200):
                    agg["probes"]["crash of the native engine"] = agg["probes"].get("crash of the native engine", 0) + 1
                    continue  # a defect of the engine, not of PostBOUND, which runs in the same process
                if res["status"] == "harness":
                    harness = harness or (seed, sc, res)
                    n_harness += 1
                    continue
                merge(agg, sc, res)
                hashes[key] = (seed, res.get("events"), res["status"], res["signature"])
                if res["status"] == "violation":
                    sigs[res["signature"]] = sigs.get(res["signature"], 0) + 1
                    if keep_going:
                        if sigs[res["signature"]] <= 2:
                            print(f"[{seed}] {res['signature']}: {res['message'][:1500]}\n   scenario={json.dumps(sc)[:1500]}")
                    else:
                        failures.append((key, seed, sc, res))
        if dump_hashes:
            with open(dump_hashes, "w") as f:
                for key in sorted(hashes):
                    f.write(f"{key} {hashes[key]}\n")
        if failures:
            failures.sort(key=lambda f: f[0])
            key, seed, sc, res = failures[0]
            print(f"failing run: index={key} seed={seed} signature={res['signature']}")
            best, final, trace, n, exact = minimise(pool, prop, seed, sc, res)
            path = save_replay(prop, seed, best, trace, final, os.environ.get("PYTHONHASHSEED", "0"))
            wall = real_time() - t0
            write_evidence(prop, tier, base_seed, agg, wall, len(failures))
            print(f"minimised with {n} further runs (exact replay: {exact})")
            print(final["message"][:3000])
            print(f"VIOLATION property={prop.id} replay={path}")
            return 1
    finally:
        pool.close()
        shutil.rmtree(scratch, ignore_errors=True)
    wall = real_time() - t0
    if keep_going:
        print("signatures:", sigs)
    if harness is not None:
        seed, sc, res = harness
        print(f"CHECK ERROR (not a verdict): property={prop.id} seed={seed}\n{res['message']}\nscenario={json.dumps(sc)[:3000]}")
        for line in res.get("log", [])[-40:]:
            print("   ", line)
        return 2
    if not agg["runs"]:
        print(f"CHECK ERROR (not a verdict): property={prop.id}: no run was completed")
        return 2
    write_evidence(prop, tier, base_seed, agg, wall, 0)
    for e in known_entries:
        print(f"KNOWN-FINDING: property={prop.id} {e['what']}" + ("" if e["signature"] in agg["known"] else " (not met in this run)"))
    print(f"{prop.id}: {agg['runs']} runs, {len(agg['distinct'])} distinct non-trivial, {len(agg['schedules'])} schedules, "
          f"{len(agg['states'])} states, {agg['sim_ns'] / SEC:.1f} simulated s, {wall:.1f} s wall")
    if verbose:
        print("faults:", agg["faults"])
        print("probes:", agg["probes"])
        for s in sorted(agg["states"]):
            print("  state", s)
    missing = [p for p in getattr(prop, "required_probes", ()) if not agg["probes"].get(p) and not agg["faults"].get(p)]
    if missing:
        print(f"note: probes never hit in this run: {missing}")
    return 0


def replay(prop, path: str, verbose: bool = False) -> int:
    with open(path) as f:
        rec = json.load(f)
    scratch = scratch_dir(prop.id)
    pool = Pool(prop, [], 1, scratch)
    try:
        res = pool.one(rec["seed"], rec["scenario"], rec["trace"])
    finally:
        pool.close()
        shutil.rmtree(scratch, ignore_errors=True)
    if verbose:
        for line in res.get("log", []):
            print("   ", line)
    if res["status"] == "violation":
        same = res["signature"] == rec["signature"]
        print(res["message"])
        print(f"{'reproduced' if same else 'a DIFFERENT violation was found'}: signature={res['signature']} "
              f"identical event log: {res.get('events') == rec.get('events')}")
        print(f"VIOLATION property={prop.id} replay={path}")
        return 1
    print(f"not reproduced: {res['status']} {res['message'][:2000]}")
    return 0 if res["status"] == "ok" else 2
