"""S08-S12, S14: the benchmarking loop on a scripted database and pipeline; S10 and S11 with crashes and disk errors."""
from __future__ import annotations

import csv
import datetime
import io
import json
import math
import os
import re

import pandas as pd

from dst import boot, lives
from dst.kernel import MS, SEC, US

import postbound as pb
from postbound import bench
from postbound.db import simplify_result_set
from postbound.workloads import Workload

from . import Prop
from .common import marked, marker_of, parse, short, typed
from .scripted import ERRORS, ROW_KINDS, Ev, LearningStage, OnlineStage, Script, ScriptedPipeline, database

LABELS = ["1a", "10a", "2b", "q3", "Q3", "7", "07", "x y", "ü", "20"]
OK_ROWS = ("exec",)


# ------------------------------------------------------------------------------------------------------------------ scenarios
def gen_plan(rng, timeout, p_fail, p_timeout):
    p = {"dur_us": rng.choice([rng.randrange(10, 3000), rng.randrange(1000, 900_000), rng.randrange(10, 50_000)]),
         "rows": rng.choice(ROW_KINDS)}
    if rng.random() < 0.3:
        p["net_us"] = rng.randrange(1, 200_000)
    if rng.random() < 0.2:
        p["fetch_us"] = rng.randrange(1, 300_000)
    if rng.random() < p_fail:
        p["fail"] = rng.choice(list(ERRORS))
    elif timeout is not None and rng.random() < p_timeout:
        p["dur_us"] = int(timeout * 1e6 * rng.uniform(1.05, 4))
    elif timeout is not None:
        p["dur_us"] = min(p["dur_us"], int(timeout * 0.9e6))
    return p


def gen_bench(rng, *, n_queries=(0, 5), p_fail=0.15, p_timeout=0.2, p_opt_fail=0.12, error_action=None, output=None, pipeline=None):
    timeout = rng.choice([None, None, 0.5, 2, 2.0])
    nq = rng.randint(*n_queries)
    wreps, qreps = rng.choice([1, 1, 2, 3]), rng.choice([1, 1, 2, 3])
    pipeline = rng.random() < 0.6 if pipeline is None else pipeline
    calm = rng.random() < 0.2
    queries = []
    labels = rng.sample(LABELS, nq)
    for i in range(nq):
        q = {"i": i, "label": labels[i], "tmpl": rng.randrange(9), "x": rng.randrange(8),
             "plans": [gen_plan(rng, timeout, 0 if calm else p_fail, 0 if calm else p_timeout)
                       for _ in range(rng.choice([1, 1, wreps * qreps]))]}
        if pipeline:
            q["opt_us"] = rng.choice([0, rng.randrange(1, 2000), rng.randrange(1000, 2_000_000)])
            q["hint_prep"] = rng.random() < 0.3
            q["opt_fail"] = {str(n): rng.choice(list(ERRORS)) for n in range(1, wreps + 1) if not calm and rng.random() < p_opt_fail}
        queries.append(q)
    prep = None
    cfg = {}
    if rng.random() < 0.5:
        prep = {"projection": rng.choice(["none", "star", "count_star", "*", "count(*)"]),
                "output": rng.choice(["default", "default", "explain", "analyze", "explain_analyze"]),
                "prewarm": rng.random() < 0.4,
                "preparatory_statements": [f"SET prep_{j} = {rng.randrange(9)};" for j in range(rng.choice([0, 0, 1, 2, 3]))]}
        total = nq * wreps * qreps
        if not calm and rng.random() < 0.4:
            n_st = len(prep["preparatory_statements"])
            for j in range(1, total * max(1, n_st) + 1):
                if rng.random() < 0.12:
                    cfg.setdefault("prep_fail", {})[str(j)] = rng.choice(list(ERRORS))
        if not calm and prep["prewarm"] and rng.random() < 0.3:
            cfg["prewarm_fail"] = {str(rng.randint(1, max(1, total))): rng.choice(list(ERRORS))}
        cfg["prep_us"] = rng.choice([0, rng.randrange(1, 400_000)])
        cfg["prewarm_us"] = rng.choice([0, rng.randrange(1, 800_000)])
    if not calm and rng.random() < 0.12:
        cfg["describe_fail"] = {str(rng.randint(2, 2 + nq * wreps * qreps)): rng.choice(list(ERRORS))}
    cfg["describe_us"] = rng.choice([0, 0, rng.randrange(1, 300_000)])
    cfg["feedback_us"] = rng.choice([0, rng.randrange(1, 300_000)])
    cfg["callback_us"] = rng.choice([0, rng.randrange(1, 300_000)])
    return {"queries": queries, "wreps": wreps, "qreps": qreps, "timeout": timeout, "shuffled": rng.random() < 0.35,
            "error_action": error_action or rng.choice(["log", "log", "ignore", "raise"]), "prep": prep,
            "prep_obj": rng.random() < 0.5, "pipeline": pipeline, "online": pipeline and rng.random() < 0.5,
            "stopwatch": rng.random() < 0.5, "prewarm_support": rng.random() < 0.7,
            "timeout_support": timeout is not None or rng.random() < 0.5,
            "exec_cb": rng.random() < 0.5, "rep_cb": rng.random() < 0.5, "logger": rng.random() < 0.3,
            "as_list": rng.random() < 0.15, "output": output, "cfg": cfg, "name": rng.choice(["exp", "exp", "other exp"]),
            "jumps": [], "sched": {"p_stay": 1.0}}


def gen_jumps(rng, horizon_ms=4000):
    return [[rng.randrange(0, horizon_ms), rng.choice([-1, 1]) * rng.choice([1, 50, 3_600_000, 86_400_000, 5000])]
            for _ in range(rng.choice([0, 1, 2, 4]))]


# ----------------------------------------------------------------------------------------------------------------- simulation
class Obs:
    """Everything observed in one benchmark."""

    df = None
    error = None
    cb_error = None
    callbacks: list
    rep_calls: list


def build(ctx, sc):
    script = Script(ctx, sc["queries"], **sc["cfg"])
    db = database(script, timeout=sc["timeout_support"], stopwatch=sc["stopwatch"], prewarm=sc["prewarm_support"])
    objs = {q["label"]: parse(marked(q["i"], q["tmpl"], q["x"])) for q in sc["queries"]}
    if sc["as_list"]:
        work = list(objs.values())
        order = [(None, q["i"]) for q in sc["queries"]]
    else:
        work = Workload(objs)
        by_label = {q["label"]: q["i"] for q in sc["queries"]}
        order = [(label, by_label[label]) for label, _ in work.entries()]
    on = db
    stages = []
    if sc["pipeline"]:
        stages = [(LearningStage if sc["online"] else OnlineStage)(script)]
        on = ScriptedPipeline(script, db, stages)
    return script, db, objs, work, order, on


def run_bench(ctx, sc, output=None, script_hook=None):
    k = ctx.k
    for at, delta in sc["jumps"]:
        k.at(at * MS, lambda d=delta: k.jump_wall(d * MS))
    script, db, objs, work, order, on = build(ctx, sc)
    if script_hook:
        script_hook(script)
    obs = Obs()
    obs.script, obs.order, obs.objs, obs.callbacks, obs.rep_calls, obs.work = script, order, objs, [], [], work
    kw = {}
    if sc["prep"] is not None:
        kw["query_preparation"] = bench.QueryPreparation(**sc["prep"]) if sc["prep_obj"] else dict(sc["prep"])

    def exec_cb(res):
        obs.callbacks.append((res, len(script.events)))
        script.add(Ev("callback", m=marker_of(str(res.query)), t0=k.now, extra={
            "status": res.status, "result": res.query_result, "exec_time": res.execution_time, "opt_time": res.optimization_time}))
        script.checkpoint()
        if sc["cfg"].get("exec_cb_fail") == len(obs.callbacks):
            obs.cb_error = ERRORS["value"](f"callback {len(obs.callbacks)}")
            k.fault("callback_failure")
            raise obs.cb_error
        script.wait(sc["cfg"].get("callback_us", 0))

    def rep_cb(i):
        script.checkpoint()
        if sc["cfg"].get("rep_cb_fail") == i:
            obs.cb_error = ERRORS["runtime"](f"repetition callback {i}")
            k.fault("callback_failure")
            raise obs.cb_error
        obs.rep_calls.append((i, len(script.events)))
        script.add(Ev("repetition", n=i, t0=k.now))

    if sc["exec_cb"]:
        kw["exec_callback"] = exec_cb
    if sc["rep_cb"]:
        kw["repetition_callback"] = rep_cb
    if sc["logger"]:
        kw["logger"] = lambda msg: script.checkpoint()
    if output is not None:
        kw["progressive_output"] = output
    obs.t0 = k.now
    try:
        obs.df = bench.execute_workload(work, on, name=sc["name"], workload_repetitions=sc["wreps"], per_query_repetitions=sc["qreps"],
                                     shuffled=sc["shuffled"], timeout=sc["timeout"], error_action=sc["error_action"], **kw)
    except Exception as e:  # noqa: BLE001
        from dst.kernel import HarnessError, Violation
        if isinstance(e, (HarnessError, Violation)):
            raise
        obs.error = e
    obs.events = script.events
    obs.attempts = attempts(script.events)
    ctx.nontrivial |= len(obs.attempts) > 1
    for a in obs.attempts:
        ctx.state(a.kind, a.outcome, sc["error_action"], sc["pipeline"], sc["shuffled"], sc["wreps"] > 1, sc["qreps"] > 1)
    return obs


class Attempt:
    """One execution the benchmark undertook, reconstructed from the recorded calls."""

    def __init__(self, kind, ev, since, opt) -> None:
        self.kind, self.ev, self.since, self.opt = kind, ev, since, opt
        self.m = ev.m if kind in ("exec",) else (opt.m if opt is not None else None)
        self.outcome, self.rows, self.error = ev.outcome, ev.rows, ev.error

    def __repr__(self):
        return f"<{self.kind} m={self.m} {self.outcome}>"


def attempts(events) -> list:
    """Every statement execution, failed preparation and failed optimization, in order."""
    out = []
    since = 0
    opt = None
    for ev in events:
        if ev.kind == "optimize":
            opt = ev
            if ev.outcome == "error":
                out.append(Attempt("optimize", ev, since, ev))
            since = ev.t1
        elif ev.kind == "exec":
            out.append(Attempt("exec", ev, since, opt if opt is not None and opt.m == ev.m else None))
            since = ev.t1 if ev.t1 is not None else ev.t0
        elif ev.kind in ("prep", "prewarm", "describe") and ev.outcome == "error":
            out.append(Attempt("prepare", ev, since, opt))
            since = ev.t1
    return out


def plan_of(sc, obs) -> list[list[tuple]]:
    """The sequence of (label, marker) of each workload repetition; for shuffled workloads as far as it can be known."""
    return [list(obs.order) for _ in range(sc["wreps"])]


def expected_slots(sc, obs):
    """Walks the recorded attempts along the workload: yields (rep, query rep, marker, attempt or None). The order within a shuffled
    repetition is taken from the record itself (it must be a permutation, which is checked)."""
    att = obs.attempts
    i = 0
    slots = []
    problems = []
    stop = False
    for rep in range(1, sc["wreps"] + 1):
        todo = [m for _, m in obs.order]
        left = len(todo)
        while left and not stop:
            left -= 1
            if not sc["shuffled"]:
                m = todo.pop(0)
            else:
                # next query: the marker of the next attempt that has one; -1 if every execution failed in its preparation
                head = att[i:i + sc["qreps"]]
                m = next((a.m for a in head if a.m is not None), None)
                if m is None and head:
                    m = -1
                elif m not in todo:
                    problems.append(f"repetition {rep}: attempt {att[i] if i < len(att) else None} does not continue a permutation of {todo}")
                    return slots, problems, i
                else:
                    todo.remove(m)
            if i < len(att) and att[i].kind == "optimize":
                a = att[i]
                i += 1
                if m != -1 and a.m != m:
                    problems.append(f"repetition {rep}: expected query {m}, but {a} was optimized")
                    return slots, problems, i
                for r in range(1, sc["qreps"] + 1):
                    slots.append((rep, r, m, a))
                if sc["error_action"] == "raise":
                    stop = True
                continue
            for r in range(1, sc["qreps"] + 1):
                if i >= len(att):
                    problems.append(f"repetition {rep}, query {m}, query repetition {r}: never executed")
                    return slots, problems, i
                a = att[i]
                i += 1
                if a.kind == "optimize" or (a.m is not None and m != -1 and a.m != m):
                    problems.append(f"repetition {rep}, query {m}, query repetition {r}: got {a} instead")
                    return slots, problems, i
                slots.append((rep, r, m, a))
                if a.outcome == "error" and sc["error_action"] == "raise":
                    stop = True
                    break
        if stop:
            break
    if i != len(att):
        problems.append(f"surplus executions: {att[i:i + 4]}")
    return slots, problems, i


def status_of(a) -> str:
    return {"optimize": "optimization-error", "prepare": "execution-error"}.get(a.kind) or \
        {"ok": "ok", "timeout": "timeout", "error": "execution-error"}[a.outcome]


def same_value(got, want) -> bool:
    """Equality of result values after pandas' conversions (ints may have become floats, None may have become NaN)."""
    if want is None or (isinstance(want, float) and math.isnan(want)):
        return got is None or (isinstance(got, float) and math.isnan(got)) or got is pd.NaT
    if isinstance(want, (list, tuple)):
        return isinstance(got, (list, tuple)) and len(got) == len(want) and all(same_value(g, w) for g, w in zip(got, want))
    if isinstance(got, (list, tuple)) != isinstance(want, (list, tuple)):
        return False
    try:
        return bool(got == want)
    except Exception:  # noqa: BLE001
        return False


def emptyish(v) -> bool:
    return v is None or (isinstance(v, float) and math.isnan(v)) or (isinstance(v, (list, tuple)) and not v)


def close(a, b, tol=2e-3) -> bool:
    return a is not None and not (isinstance(a, float) and math.isnan(a)) and abs(a - b) <= tol


def want_time(sc, a) -> tuple[float, float]:
    """Bounds of the true duration of a successful or timed out execution."""
    ev = a.ev
    if a.outcome == "timeout":
        return sc["timeout"], sc["timeout"]
    if sc["stopwatch"]:
        return ev.runtime, ev.runtime
    d = (ev.t1 - ev.t0) / SEC
    return d - 1e-9, d + 1e-4


def label_of(sc, obs, m):
    for label, i in obs.order:
        if i == m:
            return label
    return None


def check_rows(ctx, sc, obs, rows: list[dict], slots, pre: str, *, strict_failures: bool) -> None:
    """rows: dictionaries with the frame's columns."""
    want = [(rep, r, m, a) for rep, r, m, a in slots if sc["error_action"] == "log" or status_of(a) in ("ok", "timeout")]
    if not strict_failures:
        raise AssertionError
    ctx.check(len(rows) == len(want), f"{pre}{len(rows)} rows for {len(want)} recorded executions: "
              f"{[(r['label'], r['status']) for r in rows]} vs {[(m, status_of(a)) for _, _, m, a in want]}", "rows: wrong number")
    for j, (row, (rep, r, m, a)) in enumerate(zip(rows, want)):
        where = f"{pre}row {j} ({row['label']}): "
        ctx.check(row["exec_index"] == j + 1, f"{where}exec_index {row['exec_index']} instead of {j + 1}", "rows: exec_index")
        check_row(ctx, sc, obs, row, rep, r, m, a, where)


def check_row(ctx, sc, obs, row, rep, r, m, a, where) -> None:
    if m != -1:
        label = label_of(sc, obs, m)
        if label is not None:
            ctx.check(str(row["label"]) == label, f"{where}belongs to query {label}", "rows: label")
        if "query" in row and not isinstance(row["query"], str):
            ctx.check(marker_of(str(row["query"])) == m, f"{where}query column shows {row['query']}", "rows: query")
    ctx.check(int(row["workload_repetition"]) == rep, f"{where}workload repetition {row['workload_repetition']} instead of {rep}", "rows: workload repetition")
    ctx.check(int(row["query_repetition"]) == r, f"{where}query repetition {row['query_repetition']} instead of {r}", "rows: query repetition")
    ctx.check(row["status"] == status_of(a), f"{where}status {row['status']} but the execution was {a}", "rows: status")
    if a.outcome == "ok":
        want = simplify_rows(a.rows)
        ctx.check(same_value(row["query_result"], want), f"{where}result {row['query_result']!r} instead of {want!r}", "rows: result")
    elif not isinstance(row["query_result"], str):
        ctx.check(emptyish(row["query_result"]), f"{where}a result {row['query_result']!r} without a successful execution", "rows: phantom result")
    reason = row["failure_reason"]
    reason = "" if reason is None or (isinstance(reason, float) and math.isnan(reason)) else str(reason)
    if a.outcome in ("ok", "timeout"):
        lo, hi = want_time(sc, a)
        t = row["exec_time"]
        ctx.check(t is not None and lo - 1e-6 <= t <= hi + 1e-6, f"{where}exec_time {t}, true duration within [{lo}, {hi}]", "rows: exec_time")
        ctx.check(not reason, f"{where}failure reason {reason!r} for a {a.outcome} execution", "rows: failure reason")
    else:
        ctx.check(reason == str(a.error), f"{where}failure reason {reason!r} instead of {str(a.error)!r}", "rows: failure reason")
        t = row["exec_time"]
        ctx.check(t is None or math.isnan(t), f"{where}exec_time {t} for a failed execution", "rows: exec_time of failure")
    if sc["pipeline"] and a.kind == "exec" and "optimized_query" in row and not isinstance(row["optimized_query"], str):
        o = row["optimized_query"]
        want = f"opt_{m}_{a.opt.n if a.opt else None} "
        ctx.check(o is not None and want in str(o), f"{where}optimized query {o} instead of {want}", "rows: optimized query")
    if sc["pipeline"] and a.kind == "exec":
        d = (a.opt.t1 - a.opt.t0) / SEC if a.opt else math.nan
        ctx.check(close(row["optimization_time"], d), f"{where}optimization time {row['optimization_time']}, true duration {d}", "rows: optimization time")
    elif not sc["pipeline"]:
        t = row["optimization_time"]
        ctx.check(t is None or math.isnan(t), f"{where}optimization time {t} without optimization", "rows: optimization time")


def simplify_rows(rows):
    """Documented simplification, written independently."""
    if not rows:
        return []
    if len(rows[0]) == 1:
        rows = [r[0] for r in rows]
    return rows[0] if len(rows) == 1 else rows


def check_frame(ctx, sc, obs) -> None:
    slots, problems, _ = expected_slots(sc, obs)
    ctx.check(not problems, f"executions do not follow the workload: {problems[0] if problems else ''}; attempts {obs.attempts[:30]}", "rows: executions")
    if obs.error is None:
        rows = obs.df.to_dict("records")
        check_rows(ctx, sc, obs, rows, slots, "", strict_failures=True)


COLUMNS = ["exec_index", "label", "timestamp", "workload_repetition", "query_repetition", "query", "status", "query_result", "exec_time",
           "failure_reason", "db_config", "query_preparation", "optimization_time", "optimization_pipeline", "optimized_query"]


class BenchProp(Prop):
    real = ["postbound.bench (execute_workload and everything below)", "postbound.workloads.Workload", "postbound.transform (query "
            "preparation)", "pandas, pyarrow (data frames and file formats)"]
    stub = ["database system (props.scripted: scripted results, failures, durations behind the Database interface)", "optimization "
            "pipeline (props.scripted)", "clocks, randomness, exit handlers (dst.boot)"]
    assumptions = ["The scripted database honours the Database interface (raw result sets, None on a timeout)."]
    state_measure = "distinct (step, outcome, error mode, pipeline, shuffling, repetitions) combinations"
    shrink_lists = ("queries", "jumps")
    shrink_values = {"wreps": 1, "qreps": 1, "shuffled": False, "prep": None, "exec_cb": False, "rep_cb": False, "logger": False, "online": False,
                     "cfg": {}}

    def expect_error(self, ctx, sc, obs) -> None:
        failed = [a for a in obs.attempts if a.outcome == "error"]
        if sc["error_action"] == "raise" and failed:
            ctx.check(obs.error is failed[0].error, f"the first failure {failed[0]} ({short(failed[0].error)}) reached the caller as {short(obs.error)}",
                      "error not raised unchanged")
        else:
            ctx.check(obs.error is None, f"the benchmark was aborted by {short(obs.error)} (error_action={sc['error_action']}, failures {failed})",
                      "benchmark aborted")


class S08(BenchProp):
    id = "S08"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("A run executes one generated benchmark and compares the returned data frame with the scripted database's record of what "
            "was executed, when and with which outcome. Non-trivial: at least two executions. Distinct by event-log hash.")

    def scenario(self, rng, tier):
        return gen_bench(rng, error_action=rng.choice(["log", "log", "ignore"]))

    def run(self, ctx, sc):
        obs = run_bench(ctx, sc)
        self.expect_error(ctx, sc, obs)
        ctx.check(list(obs.df.columns) == COLUMNS or set(COLUMNS) <= set(obs.df.columns), f"columns {list(obs.df.columns)}", "rows: columns")
        check_frame(ctx, sc, obs)
        # each repetition of a shuffled workload is a permutation; without shuffling the order is the workload's
        if sc["error_action"] == "log" and sc["queries"] and not sc["as_list"]:
            labels = [str(x) for x in obs.df["label"]]
            per = len(obs.order) * sc["qreps"]
            for rep in range(sc["wreps"]):
                got = labels[rep * per:(rep + 1) * per:sc["qreps"]]
                want = [x for x, _ in obs.order]
                ctx.check(got == want if not sc["shuffled"] else sorted(got) == sorted(want),
                          f"repetition {rep + 1} has order {got} of {want} (shuffled={sc['shuffled']})", "rows: order")


class S09(BenchProp):
    id = "S09"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("A run executes one generated benchmark with scripted failures of optimizations, preparations, executions and timeouts and "
            "checks which executions took place, and what reached the caller. Non-trivial: at least two executions. Distinct by "
            "event-log hash.")

    def scenario(self, rng, tier):
        return gen_bench(rng, n_queries=(1, 5), p_fail=0.25, p_opt_fail=0.2, output=rng.choice([None, "csv", "csv", "json"]))

    def run(self, ctx, sc):
        out = os.path.join(ctx.tmp, "res", f"out.{sc['output']}") if sc["output"] else None
        obs = run_bench(ctx, sc, output=out)
        self.expect_error(ctx, sc, obs)
        slots, problems, _ = expected_slots(sc, obs)
        ctx.check(not problems, f"error_action={sc['error_action']}: {problems[0] if problems else ''}; attempts {obs.attempts[:30]}", "executions wrong")
        if sc["pipeline"]:
            # each query is optimized once per repetition, as long as nothing stopped the benchmark
            opts = [e.m for e in obs.events if e.kind == "optimize"]
            if obs.error is None:
                ctx.check(len(opts) == len(sc["queries"]) * sc["wreps"], f"{len(opts)} optimizations", "optimizations wrong")
        if out and obs.error is not None:
            rows = read_output(ctx, out)
            check_progress(ctx, sc, obs, rows, slots, "after the error: ")


class S12(BenchProp):
    id = "S12"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("A run executes one generated benchmark with callbacks and an online-learning pipeline and compares their invocations with "
            "the executions. Non-trivial: at least two executions. Distinct by event-log hash.")

    def scenario(self, rng, tier):
        sc = gen_bench(rng, n_queries=(1, 4), pipeline=rng.random() < 0.8)
        sc["exec_cb"] = rng.random() < 0.9
        sc["rep_cb"] = rng.random() < 0.9
        sc["online"] = sc["pipeline"] and rng.random() < 0.85
        return sc

    def run(self, ctx, sc):
        obs = run_bench(ctx, sc)
        done = [a for a in obs.attempts if a.kind == "exec" and a.outcome in ("ok", "timeout")]
        if sc["exec_cb"]:
            cbs = [e for e in obs.events if e.kind == "callback"]
            ctx.check(len(cbs) == len(done), f"{len(cbs)} callbacks for {len(done)} finished executions: {cbs} vs {obs.attempts}", "callback count")
            for cb, a in zip(cbs, done):
                x = cb.extra
                ctx.check(cb.m == a.m, f"callback for query {cb.m} while {a} finished", "callback query")
                ctx.check(x["status"] == status_of(a), f"callback status {x['status']} for {a}", "callback status")
                if a.outcome == "ok":
                    ctx.check(same_value(x["result"], simplify_rows(a.rows)) or same_value(x["result"], a.rows),
                              f"callback result {x['result']!r} for rows {a.rows!r}", "callback result")
                else:
                    ctx.check(emptyish(x["result"]), f"callback result {x['result']!r} for a timeout", "callback result")
                lo, hi = want_time(sc, a)
                ctx.check(lo - 1e-6 <= x["exec_time"] <= hi + 1e-6 or (a.outcome == "timeout" and x["exec_time"] == math.inf),
                          f"callback exec time {x['exec_time']} for [{lo},{hi}]", "callback time")
                if sc["pipeline"]:
                    ctx.check(close(x["opt_time"], (a.opt.t1 - a.opt.t0) / SEC), f"callback optimization time {x['opt_time']}", "callback time")
                # order relative to other steps: after its execution, before the next one
                i, j = obs.events.index(a.ev), obs.events.index(cb)
                later = [e for e in obs.events[i + 1:j] if e.kind in ("exec", "optimize", "prep", "prewarm")]
                ctx.check(i < j and not later, f"callback for {a} came after {later}", "callback order")
        if sc["rep_cb"]:
            reps = [e.n for e in obs.events if e.kind == "repetition"]
            if obs.error is None:
                ctx.check(reps == list(range(1, sc["wreps"] + 1)), f"repetition callbacks {reps}", "repetition callback")
                per = []
                n = 0
                for e in obs.events:
                    if e.kind == "repetition":
                        per.append(n)
                        n = 0
                    elif e.kind == "exec" or (e.outcome == "error"):
                        n += 1
                slots, problems, _ = expected_slots(sc, obs)
                want = [len({id(a) for rep, _, _, a in slots if rep == i}) for i in range(1, sc["wreps"] + 1)]
                if not problems:
                    ctx.check(per == want, f"executions before each repetition callback {per} instead of {want}", "repetition callback position")
            else:
                ctx.check(reps == list(range(1, len(reps) + 1)) and len(reps) < sc["wreps"] + 1, f"repetition callbacks {reps}", "repetition callback")
        if sc["online"]:
            fb = [e for e in obs.events if e.kind == "feedback"]
            good = [a for a in done if a.outcome == "ok"]
            if obs.error is not None:
                # the query during which the benchmark was stopped may not have given its feedback yet
                last = obs.attempts[-1].m if obs.attempts else None
                n_tail = 0
                for a in reversed(obs.attempts):
                    if a.m != last and a.m is not None:
                        break
                    n_tail += a.outcome == "ok"
                ctx.check(len(good) - n_tail <= len(fb) <= len(good), f"{len(fb)} feedbacks for {len(good)} successful executions", "feedback count")
                good = good[:len(fb)]
            else:
                ctx.check(len(fb) == len(good), f"{len(fb)} feedbacks for {len(good)} successful executions; {obs.attempts}", "feedback count")
            for e, a in zip(fb, good):
                ctx.check(e.m == a.m, f"feedback for query {e.m} instead of {a}", "feedback query")
                ctx.check(e.rows is not None and (typed(list(e.rows)) == typed(a.rows) if isinstance(e.rows, (list, tuple)) else False),
                          f"feedback result {e.rows!r} instead of the raw rows {a.rows!r}", "feedback result")
                lo, hi = want_time(sc, a)
                ctx.check(lo * 1000 - 1e-3 <= e.runtime <= hi * 1000 + 1e-3, f"feedback time {e.runtime} ms for [{lo * 1000},{hi * 1000}]", "feedback time")
                ctx.check(obs.events.index(e) > obs.events.index(a.ev), f"feedback for {a} before it was executed", "feedback order")
        else:
            ctx.check(not [e for e in obs.events if e.kind == "feedback"], "feedback without online learning", "feedback unwanted")
        self.expect_error(ctx, sc, obs)


class S14(BenchProp):
    id = "S14"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("A run executes one generated benchmark while the wall clock is adjusted, and compares all reported times with the simulator's "
            "record. Non-trivial: at least two executions. Distinct by event-log hash.")

    def scenario(self, rng, tier):
        sc = gen_bench(rng, n_queries=(1, 4), p_fail=0.08, p_opt_fail=0.06, error_action=rng.choice(["log", "ignore"]))
        sc["jumps"] = gen_jumps(rng)
        sc["wall_quantum_ms"] = rng.choice([0, 0, 0, 16])
        sc["exec_cb"] = rng.random() < 0.7
        return sc

    def run(self, ctx, sc):
        k = ctx.k
        if sc["wall_quantum_ms"]:
            k.wall_quantum = sc["wall_quantum_ms"] * MS
        obs = run_bench(ctx, sc)
        self.expect_error(ctx, sc, obs)
        slots, problems, _ = expected_slots(sc, obs)
        ctx.check(not problems, f"{problems}", "executions wrong")
        want = [(rep, r, m, a) for rep, r, m, a in slots if sc["error_action"] == "log" or status_of(a) in ("ok", "timeout")]
        rows = obs.df.to_dict("records")
        ctx.check(len(rows) == len(want), f"{len(rows)} rows for {len(want)} executions", "rows: wrong number")
        for row, (rep, r, m, a) in zip(rows, want):
            where = f"{row['label']} rep {rep}/{r} {a}: "
            for col in ("exec_time", "optimization_time"):
                v = row[col]
                ctx.check(v is None or math.isnan(v) or v >= 0, f"{where}{col} is negative: {v}", "negative duration")
            if a.outcome in ("ok", "timeout"):
                lo, hi = want_time(sc, a)
                ctx.check(lo - 1e-6 <= row["exec_time"] <= hi + 1e-6, f"{where}exec_time {row['exec_time']}, true duration within [{lo}, {hi}]", "exec_time wrong")
            if sc["pipeline"] and a.kind == "exec":
                d = (a.opt.t1 - a.opt.t0) / SEC
                ctx.check(abs(row["optimization_time"] - d) < 1e-4, f"{where}optimization_time {row['optimization_time']}, true duration {d}", "optimization_time wrong")
            if a.kind == "exec":
                ts = row["timestamp"]
                ctx.check(ts is not None and not pd.isna(ts), f"{where}no timestamp", "timestamp missing")
                ts_ns = pd.Timestamp(ts).value
                ctx.check(self.possible(k, ts_ns, a.since, a.ev.t0), f"{where}timestamp {ts} is not the wall clock time of its start "
                          f"(wall clock when the server got it: {pd.Timestamp(a.ev.wall)})", "timestamp wrong")
        if sc["exec_cb"]:
            done = [a for a in obs.attempts if a.kind == "exec" and a.outcome in ("ok", "timeout")]
            for cb, a in zip([e for e in obs.events if e.kind == "callback"], done):
                lo, hi = want_time(sc, a)
                ctx.check(lo - 1e-6 <= cb.extra["exec_time"] <= hi + 1e-6, f"callback exec time {cb.extra['exec_time']} for [{lo},{hi}]", "callback time")

    @staticmethod
    def possible(k, ts_ns, t0, t1) -> bool:
        q = max(k.wall_quantum, 1000)
        ch = k.wall_changes
        for i, (start, off) in enumerate(ch):
            end = ch[i + 1][0] if i + 1 < len(ch) else 1 << 62
            lo, hi = max(start, t0), min(end, t1)
            if lo <= hi and off + lo - q <= ts_ns <= off + hi:
                return True
        return False


# ------------------------------------------------------------------------------------------------------- progressive output
def read_output(ctx, path, tolerate_torn_tail=False) -> list[dict]:
    """All rows of an output file, in file order. Raises a violation if the file cannot be read."""
    ctx.tail = None
    if not os.path.exists(path):
        return []
    kind = path.rsplit(".", 1)[1]
    try:
        if kind == "csv":
            with open(path, newline="", encoding="utf-8") as f:
                text = f.read()
            return read_csv(ctx, text, tolerate_torn_tail)
        if kind == "json":
            with open(path, encoding="utf-8") as f:
                return json.load(f)
        return pd.read_parquet(path).to_dict("records")
    except (ValueError, OSError, UnicodeDecodeError) as e:
        size = os.path.getsize(path)
        ctx.violate(f"{os.path.basename(path)} ({size} bytes) cannot be read back: {short(e)}", f"output unreadable: {kind}")
        return []


def read_csv(ctx, text, tolerate_torn_tail) -> list[dict]:
    records = []
    start = 0
    quoted = False
    for i, c in enumerate(text):
        if c == '"':
            quoted = not quoted
        elif c == "\n" and not quoted:
            records.append(text[start:i + 1])
            start = i + 1
    tail = text[start:]
    rows = [next(csv.reader(io.StringIO(r, newline=""))) for r in records]
    if tail:
        ctx.check(tolerate_torn_tail, f"the last line of the output is incomplete: {tail[:200]!r}", "output torn")
    if not rows:
        return []
    header = rows[0]
    out = []
    if tail and not quoted:
        # complete except for the line break: the next benchmark may keep this row
        fields = next(csv.reader(io.StringIO(tail, newline="")))
        if len(fields) == len(header):
            ctx.tail = dict(zip(header, fields))
    for r in rows[1:]:
        if len(r) != len(header):
            ctx.violate(f"the output contains a broken row: {r}", "output broken row")
        out.append(dict(zip(header, r)))
    for r in out:
        for col in ("exec_index", "workload_repetition", "query_repetition"):
            try:
                r[col] = int(r[col])
            except (KeyError, ValueError) as e:
                ctx.violate(f"broken row {r}: {short(e)}", "output broken row")
        for col in ("exec_time", "optimization_time"):
            r[col] = float(r[col]) if r.get(col) else math.nan
    return out


def jsonish(v):
    """What a JSON round trip makes of a result value."""
    import decimal
    if isinstance(v, (list, tuple)):
        return [jsonish(x) for x in v]
    if isinstance(v, decimal.Decimal):
        return float(v)
    if isinstance(v, (datetime.date, datetime.datetime)):
        return v.isoformat()
    return v


def cell_matches(cell, want) -> bool:
    want_j = jsonish(want)
    if same_value(cell, want) or same_value(cell, want_j):
        return True
    if want is None:
        return cell in ("", "null", None) or (isinstance(cell, float) and math.isnan(cell))
    if isinstance(cell, str):
        if cell == str(want) or cell == str(want_j):
            return True
        try:
            return same_value(json.loads(cell), want_j)
        except ValueError:
            return False
    return False


def check_file_row(ctx, sc, obs, row, rep, r, m, a, where) -> None:
    label = label_of(sc, obs, m)
    if label is not None:
        ctx.check(str(row["label"]) == label, f"{where}label {row['label']!r} instead of {label!r}", "output: label")
    ctx.check(f"{900_000 + m}" in str(row["query"]), f"{where}query {row['query']}", "output: query")
    ctx.check((int(row["workload_repetition"]), int(row["query_repetition"])) == (rep, r),
              f"{where}repetitions {row['workload_repetition']}/{row['query_repetition']} instead of {rep}/{r}", "output: repetition")
    ctx.check(row["status"] == status_of(a), f"{where}status {row['status']} for {a}", "output: status")
    if a.outcome == "ok":
        want = simplify_rows(a.rows)
        ctx.check(cell_matches(row["query_result"], want), f"{where}result {row['query_result']!r} instead of {want!r}", "output: result")
    lo, hi = want_time(sc, a)
    ctx.check(lo - 1e-6 <= float(row["exec_time"]) <= hi + 1e-6, f"{where}exec_time {row['exec_time']} for [{lo},{hi}]", "output: exec_time")
    if sc["pipeline"]:
        ctx.check(f"opt_{m}_{a.opt.n}" in str(row["optimized_query"]), f"{where}optimized query {row['optimized_query']}", "output: optimized query")


def check_progress(ctx, sc, obs, rows, slots, pre, *, may_miss=0) -> None:
    """rows of one benchmark in the file versus its finished executions. Failed executions may be listed as well (at most once each)."""
    fin = [(rep, r, m, a) for rep, r, m, a in slots if status_of(a) in ("ok", "timeout")]
    got = [row for row in rows if row["status"] in ("ok", "timeout")]
    n_failed = sum(1 for _, _, _, a in slots if status_of(a) not in ("ok", "timeout"))
    ctx.check(len(rows) - len(got) <= n_failed, f"{pre}{len(rows) - len(got)} failure rows for {n_failed} failures", "output: failures repeated")
    if sc["error_action"] == "ignore":
        ctx.check(len(rows) == len(got), f"{pre}ignored failures are listed: {rows}", "output: ignored failures")
    ctx.check(len(fin) - may_miss <= len(got) <= len(fin), f"{pre}{len(got)} measurements in the file, {len(fin)} executions finished "
              f"(the last {may_miss} may be missing): {[(r['label'], r['exec_index'], r['status']) for r in got]}", "output: measurements lost or repeated")
    for j, (row, (rep, r, m, a)) in enumerate(zip(got, fin)):
        check_file_row(ctx, sc, obs, row, rep, r, m, a, f"{pre}measurement {j}: ")
    idx = [int(r["exec_index"]) for r in rows]
    ctx.check(all(a < b for a, b in zip(idx, idx[1:])), f"{pre}exec_index not increasing: {idx}", "output: order")


class S10(BenchProp):
    id = "S10"
    quick_runs = 2500
    thorough_runs = 30000
    rule = ("A run executes one to three benchmarks (process lifetimes) into one output file, with a crash or disk error at a chosen file "
            "system operation of each, and compares the file with the executions recorded so far: before every execution and after "
            "every lifetime. Non-trivial: at least two executions. Distinct by event-log hash.")
    stub = BenchProp.stub + ["file system calls below the output directory pass through dst/fsim.c (real files, injected faults)"]
    assumptions = BenchProp.assumptions + ["Crashes are process deaths: what was handed to the kernel before survives (no power loss)."]
    shrink_lists = ("lives",)

    def scenario(self, rng, tier):
        fmt = rng.choice(["csv", "csv", "json", "parquet"])
        lives_ = []
        for _ in range(rng.choice([1, 2, 2, 3])):
            b = gen_bench(rng, n_queries=(1, 3), p_fail=0.1, p_opt_fail=0.08)
            b["wreps"] = min(b["wreps"], 2)
            if b["exec_cb"] and rng.random() < 0.1:
                b["cfg"]["exec_cb_fail"] = rng.randint(1, 3)
            if rng.random() < 0.4:
                for q in b["queries"]:
                    q["plans"] = [dict(p, rows=rng.choice(["big", "table", p["rows"]])) for p in q["plans"]]
            fault = None
            if rng.random() < 0.75:
                kind = rng.choice(["crash_before", "crash_torn", "crash_torn", "crash_torn", "crash_after", "fail_once", "fail_from", "short_write"])
                fault = {"kind": kind, "op": rng.randint(1, rng.choice([12, 40, 90])), "permille": rng.choice([0, 1, 200, 500, 900, 999]),
                         "errno": rng.choice(["ENOSPC", "EIO", "ENOSPC"])}
            lives_.append({"bench": b, "fault": fault})
        return {"fmt": fmt, "lives": lives_, "live_check": rng.random() < 0.5, "sched": {"p_stay": 1.0}, "path_obj": rng.random() < 0.5,
                "deep": rng.random() < 0.3}

    def run(self, ctx, sc):
        disk = os.path.join(ctx.tmp, "disk")
        os.makedirs(disk)
        path = os.path.join(disk, *(["a", "b"] if sc["deep"] else []), f"out.{sc['fmt']}")
        base: list[dict] = []  # rows that must be kept
        self.tail = None
        ctx.nontrivial = True
        for n, life in enumerate(sc["lives"]):
            b = life["bench"]

            def body(progress, b=b):
                def hook(script):
                    progress.append(("events", script.events))
                    script.before_exec = lambda: self.before(ctx, sc, b, path, script, base)

                obs = run_bench(ctx, b, output=bench.Path(path) if sc["path_obj"] else path, script_hook=hook)
                return None if obs.error is None else (type(obs.error).__name__, str(obs.error), isinstance(obs.error, OSError) and not
                                                       isinstance(obs.error, ConnectionError))

            result = lives.live(ctx, n, body, life["fault"], disk=disk, atexit=False)
            base = self.after(ctx, sc, b, path, base, result, n, life["fault"])

    def before(self, ctx, sc, b, path, script, base):
        """Called when the next execution starts: everything finished before must be in the file."""
        if not sc["live_check"]:
            return
        obs = Obs()
        obs.events = script.events
        obs.attempts = attempts(script.events)
        obs.order = [(q["label"] if not b["as_list"] else None, q["i"]) for q in b["queries"]]
        done = [a for a in obs.attempts if status_of(a) in ("ok", "timeout") and a.kind == "exec"]
        rows = read_output(ctx, path)
        base = self.with_tail(base, rows)
        mine = rows[len(base):]
        got = [r for r in mine if r["status"] in ("ok", "timeout")]
        ctx.check(len(got) == len(done), f"before the next execution, {len(got)} of {len(done)} finished measurements are in the file: "
                  f"{[(r['label'], r['exec_index']) for r in got]}", "output: not up to date")
        for r, a in zip(got, done):
            ctx.check(f"{900_000 + a.m}" in str(r["query"]) and r["status"] == status_of(a), f"row {r} for {a}", "output: wrong row")
        ctx.probe("file checked before an execution")

    def with_tail(self, base, rows):
        if self.tail is not None and len(rows) > len(base):
            row = rows[len(base)]
            if all(str(row[c]) == v for c, v in self.tail.items() if c not in ("exec_time", "optimization_time")):
                return base + [row]
        return base

    def after(self, ctx, sc, b, path, base, result, n, fault):
        pre = f"after lifetime {n} ({result.end} {result.value or ''}): "
        crashed = result.end == "crash"
        # a row can be left incomplete by a crash, or if the disk fails for good (so that it cannot be removed again either)
        dead_disk = bool(result.injected) and fault["kind"] == "fail_from" and fault["errno"] == "EIO"
        rows = read_output(ctx, path, tolerate_torn_tail=crashed or dead_disk)
        base, self.tail = self.with_tail(base, rows), ctx.tail
        diff = next(((x, y) for x, y in zip(map(key, base), map(key, rows)) if x != y), None)
        ctx.check(len(rows) >= len(base) and diff is None,
                  f"{pre}rows of earlier benchmarks were lost or changed: {len(rows)} rows, {len(base)} before; first change {diff}",
                  "output: earlier rows lost")
        mine = rows[len(base):]
        evs = next((p[1] for p in result.progress if p[0] == "events"), None)
        if evs is not None:
            obs = Obs()
            obs.events = evs
            obs.attempts = attempts(obs.events)
            order = [(q["label"], q["i"]) for q in b["queries"]]
            if not b["as_list"]:
                labels = [label for label, _ in Workload({q["label"]: parse(marked(q["i"], q["tmpl"], q["x"])) for q in b["queries"]}).entries()]
                d = dict(order)
                order = [(label, d[label]) for label in labels]
            obs.order = order if not b["as_list"] else [(None, i) for _, i in order]
            slots, problems, _ = expected_slots(b, obs)
            disturbed = crashed or (result.value is not None and result.value[2])
            if not problems or disturbed:
                check_progress(ctx, b, obs, mine, slots, pre, may_miss=1 if disturbed else 0)
            if result.end == "exit" and result.value is not None and result.value[2]:
                ctx.check(result.injected, f"{pre}{result.value}", "output: writing failed without a fault")
                ctx.state("write error", sc["fmt"])
            ctx.state(result.end, sc["fmt"], life_kind(result), len(mine) > 0, len(base) > 0)
        return rows


def life_kind(result):
    return "faulted" if result.injected else "calm"


def key(r):
    return tuple(str(r.get(c)) for c in ("exec_index", "label", "workload_repetition", "query_repetition", "status", "query_result", "query"))


class S11(BenchProp):
    id = "S11"
    quick_runs = 3000
    thorough_runs = 60000
    rule = ("A run executes one to four process lifetimes of one to three benchmarks each into one directory, with a crash or disk error "
            "at a chosen file system operation and arbitrary wall clock adjustments, and compares the experiment log after each "
            "lifetime with the benchmarks recorded so far. Non-trivial: at least two benchmarks. Distinct by event-log hash.")
    stub = S10.stub
    assumptions = S10.assumptions
    shrink_lists = ("lives", "jumps")

    def scenario(self, rng, tier):
        out = {"lives": [], "jumps": gen_jumps(rng), "quantum_ms": rng.choice([0, 0, 16, 10_000]), "sched": {"p_stay": 1.0},
               "frozen": rng.random() < 0.2}
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            benches = []
            for _ in range(rng.choice([1, 1, 2, 3])):
                b = gen_bench(rng, n_queries=(0, 2), p_fail=0.15, p_opt_fail=0.1, error_action=rng.choice(["raise", "raise", "log", "ignore"]),
                              output=rng.choice(["csv", "csv", "csv", "json", "parquet", None]))
                b["wreps"], b["qreps"] = min(b["wreps"], 2), 1
                b["file"] = rng.choice(["out", "out", "other"])
                if b["exec_cb"] and rng.random() < 0.1:
                    b["cfg"]["exec_cb_fail"] = rng.randint(1, b["wreps"] + 1)
                if b["rep_cb"] and rng.random() < 0.2:
                    b["cfg"]["rep_cb_fail"] = rng.randint(1, b["wreps"])
                if out["frozen"]:
                    for q in b["queries"]:
                        q["opt_us"] = 0
                benches.append(b)
            fault = None
            if rng.random() < 0.65:
                kind = rng.choice(["crash_before", "crash_torn", "crash_torn", "crash_torn", "crash_after", "fail_once", "fail_from", "short_write"])
                fault = {"kind": kind, "op": rng.randint(1, rng.choice([12, 40, 60])), "permille": rng.choice([0, 1, 200, 500, 900, 999]),
                         "errno": rng.choice(["ENOSPC", "EIO", "ENOSPC"])}
            out["lives"].append({"benches": benches, "fault": fault})
        return out

    def run(self, ctx, sc):
        k = ctx.k
        disk = os.path.join(ctx.tmp, "disk")
        os.makedirs(disk)
        log = os.path.join(disk, "res", "experiment_log.json")
        if sc["quantum_ms"]:
            k.wall_quantum = sc["quantum_ms"] * MS
        past: list[dict] = []  # entries of benchmarks that are over
        total = 0
        for n, life in enumerate(sc["lives"]):
            def body(progress, life=life):
                for at, delta in sc["jumps"]:
                    k.at(at * MS, lambda d=delta: k.jump_wall(d * MS))
                for i, b in enumerate(life["benches"]):
                    path = os.path.join(disk, "res", f"{b['file']}.{b['output']}") if b["output"] else None
                    rec = {"name": b["name"], "events": None, "over": None, "error": None, "logged": path is not None}
                    progress.append(rec)

                    def hook(script, rec=rec):
                        rec["events"] = script.events
                    obs = run_bench(ctx, {**b, "jumps": []}, output=path, script_hook=hook)
                    rec["over"] = "returned" if obs.error is None else "raised"
                    if obs.error is not None:
                        e = obs.error
                        disk_error = isinstance(e, OSError) and not isinstance(e, ConnectionError)
                        rec["error"] = (type(e).__name__, str(e), disk_error)
                        scripted = [a.error for a in obs.attempts if a.outcome == "error"] + [obs.cb_error]
                        if not disk_error and not any(e is x for x in scripted):
                            raise e
                return None

            result = lives.live(ctx, n, body, life["fault"], disk=disk, atexit=False)
            if result.end == "error":
                ctx.violate(f"lifetime {n}: a benchmark raised {result.value[:2]} by itself:\n{result.value[2]}", f"log: unexpected {result.value[0]}")
            total += len(result.progress)
            ctx.nontrivial |= total > 1
            past = self.compare(ctx, log, past, life, result, n)
            ctx.state(result.end, bool(result.injected), tuple((r["logged"], r["over"], r["error"] is not None) for r in result.progress)[-1:], len(past) > 0)

    def compare(self, ctx, log, past, life, result, n):
        pre = f"after lifetime {n} ({result.end}, {life['fault'] if result.injected else 'no fault'}): "
        entries = []
        if os.path.exists(log):
            try:
                with open(log, encoding="utf-8") as f:
                    entries = json.load(f)
            except (ValueError, OSError) as e:
                ctx.violate(f"{pre}the experiment log cannot be read: {short(e)}", "log: unreadable")
        ctx.check(isinstance(entries, list), f"{pre}the experiment log is not a list", "log: no list")
        ctx.check(entries[:len(past)] == past, f"{pre}entries of earlier benchmarks changed: {brief(entries[:len(past)])} instead of {brief(past)}",
                  "log: earlier entries changed")
        mine = entries[len(past):]
        hurt = bool(result.injected)
        recs = [r for r in result.progress if r["logged"]]
        benches = [x for x in life["benches"] if x["output"]]
        problems: list = []

        def match(i, j) -> bool:
            """Whether benchmarks i.. explain entries j.. (a benchmark that was hit by a fault before it did anything may lack its entry)"""
            if i == len(recs):
                if j < len(mine):
                    problems.append((i + j, f"surplus entries {brief(mine[j:])}", "surplus entries"))
                return j == len(mine)
            rec = recs[i]
            worked = bool(rec["events"]) or rec["over"] == "returned" or (rec["error"] is not None and not rec["error"][2])
            if j < len(mine):
                why = self.explain(rec, benches[i], mine[j], hurt, result)
                if why is None:
                    if match(i + 1, j + 1):
                        return True
                else:
                    problems.append((i + j, f"benchmark {i} {rec['name']!r} ({rec['over'] or 'killed'} {rec['error'] or ''}) versus entry {j} "
                                     f"{brief([mine[j]])}: {why[0]}", why[1]))
            else:
                problems.append((i + j, f"benchmark {i} {rec['name']!r} ({rec['over'] or 'killed'} {rec['error'] or ''}) has no entry", "entry missing"))
            return hurt and not worked and match(i + 1, j)

        if not match(0, 0):
            _, text, sig = max(problems, key=lambda x: x[0])
            ctx.violate(f"{pre}{text}; entries {brief(mine)}", f"log: {sig}")
        return entries

    def explain(self, rec, b, entry, hurt, result):
        """None if the entry is right for the benchmark."""
        if entry["experiment"] != rec["name"]:
            return "other name", "wrong entry"
        status, err = entry["status"], entry.get("error")
        if {str(v["query"]) for v in entry["workload"]["queries"].values()} != {str(parse(marked(q["i"], q["tmpl"], q["x"]))) for q in b["queries"]}:
            return f"other queries {entry['workload']}", "wrong entry"
        if rec["over"] == "returned" and status != "completed":
            return f"status {status}", "status"
        if rec["over"] == "raised" and not (status == "failed" or (hurt and status == "running")):
            return f"status {status}", "status"
        if rec["over"] is None:
            if status not in ("running", "completed", "failed"):
                return f"status {status}", "status"
            evs = rec["events"] or []
            if status == "completed" and len(attempts(evs)) != len(b["queries"]) * b["wreps"]:
                return f"completed after {len(attempts(evs))} executions", "status"
            if status == "failed" and not (any(e.outcome == "error" for e in evs) or (err and err["type"] == "OSError") or b["cfg"].get("rep_cb_fail")
                                            or b["cfg"].get("exec_cb_fail")):
                return f"failed with {err} although nothing failed", "status"
        if status == "failed":
            if not isinstance(err, dict) or not err.get("type") or (rec["error"] is not None and (err.get("type"), err.get("message")) != tuple(rec["error"][:2])):
                return f"error {err}", "error"
        elif err:
            return f"status {status} with error {err}", "error"
        if (entry.get("end_time") is None) != (status == "running"):
            return f"end time {entry.get('end_time')} of a {status} benchmark", "end time"
        return None


def brief(entries):
    return [(e.get("experiment"), e.get("status"), e.get("start_time"), e.get("error")) if isinstance(e, dict) else e for e in entries]


PROPS = {p.id: p() for p in (S08, S09, S10, S11, S12, S14)}
