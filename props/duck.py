"""S21: timeouts on DuckDB (real engine under the simulated facade of dst.simduck)."""
from __future__ import annotations

import math
import os

from dst import simduck
from dst.kernel import MS, SEC, US

from . import Prop
from .common import call, dataset, marked, marker_of, norm_sql, parse, pb, short, typed, with_hints
from .timed import simplify

duck = pb.duckdb
REAL_DUCK = ["postbound.duckdb (DuckDBInterface, hint service, optimizer)", "postbound.db, postbound.qal, postbound.transform",
             "the DuckDB engine itself (quacklab, one thread) for all answers and error classes",
             "concurrent.futures and threading of the standard library (on simulated locks)"]
STUB_DUCK = ["duration, interruption and failure of DuckDB statements (dst.simduck)", "clocks, scheduling, locks (dst.kernel)"]
ASSUME_DUCK = ["A running DuckDB statement notices an interrupt within 40 ms of simulated time; an interrupt that arrives before the "
               "statement began is ignored (as in the real engine)."]
PREP = ["SET preserve_insertion_order = true;", "SET default_null_order = 'nulls_last'; SET max_expression_depth = 900;"]


def build(q, i):
    sql = q["bad"].format(m=900_000 + i) if q.get("bad") else marked(i, q["tmpl"], q["x"])
    if q["form"] == "str":
        return sql, sql
    obj = parse(sql)
    if q["form"] == "hinted" and (q.get("prep") or q.get("hints")):
        obj = with_hints(obj, q.get("prep", ""), q.get("hints", ""))
    return obj, sql


def open_db(ctx, sc, name="simdb", script=None, **kw):
    engine = simduck.Engine(ctx.k, **kw)
    path = simduck.make_database(os.path.join(ctx.tmp, f"{name}.duckdb"), script or dataset(sc.get("data", 7), sc.get("rows", 12)))
    simduck.install(engine)
    return engine, path


class Truth:
    """Answers from a connection of its own to the real engine."""

    def __init__(self, path) -> None:
        self.con = simduck.real_connect(path, config={"threads": 1})

    def rows(self, sql):
        return self.con.execute(sql).fetchall()


class S21(Prop):
    id = "S21"
    native_engine = True
    quick_runs = 1700
    thorough_runs = 40000
    rule = ("A run is a history of timed, untimed, failing and analysing executions on one or two DuckDBInterfaces of the same file, "
            "driven by up to two application threads, with a user cursor working beside them; durations lie around the timeouts. "
            "Non-trivial: at least one timed statement was executed. Distinct by event-log hash.")
    state_measure = "distinct (operation, planned truth, outcome, failure, streaming) combinations"
    real, stub, assumptions = REAL_DUCK, STUB_DUCK, ASSUME_DUCK
    shrink_lists = ("ops", "ops2", "cursor")

    def gen_op(self, rng, i):
        kind = rng.choices(["timed", "etw", "time_query", "analyze", "untimed", "reset", "untimed_tq"], [6, 3, 1.5, 0.7, 2.5, 0.4, 0.5])[0]
        if kind == "reset":
            return {"op": "reset"}
        t = rng.choice([0.001, 0.05, 0.5, 2.0, 30.0])
        t_us = int(t * 1e6)

        def dur():
            return rng.choice([rng.randrange(50, 3000), rng.randrange(50, 3000), int(t_us * rng.uniform(0.05, 0.8)),
                               max(50, t_us + rng.randrange(-30_000, 30_001)), int(t_us * rng.uniform(1.2, 4)), t_us * 40 + 60_000_000])
        q = {"tmpl": rng.randrange(9), "x": rng.randrange(8), "form": rng.choice(["str", "obj", "obj", "hinted"]), "dur_us": dur()}
        if q["form"] == "hinted":
            q["prep"] = rng.choice(["", *PREP])
            q["hints"] = rng.choice(["", "/*=quack_lab= SeqScan(r) */"])
        if rng.random() < 0.3:
            q["stream_us"] = dur()
        if rng.random() < 0.15:
            q["fail"] = rng.choice(simduck.KINDS)
        elif rng.random() < 0.1:
            q["fail_fetch"] = rng.choice(simduck.KINDS)
        elif rng.random() < 0.07:
            q["bad"], q["form"] = rng.choice(["SELECT no_such_column FROM r WHERE r.id < {m}", "SELEC {m}", "SELECT * FROM gone WHERE 1 < {m}"]), "str"
        if kind in ("untimed", "untimed_tq"):
            q["dur_us"] = min(q["dur_us"], 3_000_000)
        if kind == "analyze":
            q["form"] = "obj"
            q.pop("bad", None)
        return {"op": kind, "timeout": t, "raw": rng.random() < 0.5, "q": q}

    def scenario(self, rng, tier):
        n = rng.randint(1, 6 if tier == "quick" else 10)
        two = rng.random() < 0.3
        ops = [self.gen_op(rng, i) for i in range(n)]
        cursor = [rng.randrange(100, 400_000) for _ in range(rng.choice([0, 0, 0, 2, 4]))]
        if any(op["op"] == "reset" for op in ops):   # would close the cursor
            cursor = []
        return {"ops": ops,
                "ops2": [self.gen_op(rng, i) for i in range(rng.randint(1, 4))] if two else [],
                "cursor": cursor,
                "data": rng.randrange(4), "cache": rng.random() < 0.15,
                "sched": {"p_stay": rng.choice([0.2, 0.6, 0.9]), "p_stall": rng.choice([0, 0, 0.01, 0.05]),
                          "stall_max": rng.choice([5 * MS, 300 * MS, 2 * SEC])}}

    def run(self, ctx, sc):
        import threading
        k = ctx.k
        engine, path = open_db(ctx, sc)
        self.truth = Truth(path)
        specs = {}

        def on_statement(con, stmt):
            q = specs.get(marker_of(stmt.sql))
            if q is None:
                return {"dur": 20 * US}
            out = {"dur": q["dur_us"] * US}
            if q.get("stream_us"):
                out["stream"] = q["stream_us"] * US
            for f in ("fail", "fail_fetch"):
                if q.get(f):
                    out[f] = q[f]
            return out
        engine.on_statement = on_statement
        threads, errors = [], []
        dbs = []
        for which, ops in enumerate([sc["ops"], sc["ops2"]]):
            if not ops and which:
                continue
            db = duck.DuckDBInterface(path, cache_enabled=False)
            dbs.append(db)
            base = 1000 * which

            def drive(db=db, ops=ops, base=base):
                try:
                    self.drive(ctx, engine, db, ops, base, specs)
                except BaseException as e:  # noqa: BLE001
                    errors.append(e)
            threads.append(threading.Thread(target=drive, name=f"app{which}"))
        if sc["cursor"]:
            cur = dbs[0].cursor()

            def side():
                try:
                    for j, d in enumerate(sc["cursor"]):
                        sql = marked(5000 + j, j, 3)
                        specs[5000 + j] = {"dur_us": d}
                        kind, v = call(lambda: cur.execute(sql).fetchall())
                        ctx.check(kind == "ok", f"the user's own cursor got {short(v)}", "interrupted someone else")
                        ctx.check(typed(v) == typed(self.truth.rows(sql)), f"the user's own cursor got {v!r:.200}", "wrong rows")
                except BaseException as e:  # noqa: BLE001
                    errors.append(e)
            threads.append(threading.Thread(target=side, name="cursor"))
        for t in threads:
            t.start()
        for t in threads:
            t.join()
        if errors:
            raise errors[0]
        for db in dbs:
            db.close()
        ctx.check(not engine.running, f"still executing at the end: {engine.running}", "left running")

    def drive(self, ctx, engine, db, ops, base, specs):
        k = ctx.k
        for n, op in enumerate(ops):
            where = f"op {n} {op}: "
            if op["op"] == "reset":
                kind, v = call(db.reset_connection)
                ctx.check(kind == "ok", f"{where}{short(v) if kind != 'ok' else ''}", "reset failed")
                continue
            q = op["q"]
            i = base + n
            specs[i] = q
            query, sql = build(q, i)
            timed = op["op"] not in ("untimed", "untimed_tq")
            t = op["timeout"]
            log0 = len(engine.log)
            t0 = k.now
            if op["op"] == "timed":
                kind, v = call(db.execute_query, query, raw=op["raw"], timeout=t)
            elif op["op"] == "untimed":
                kind, v = call(db.execute_query, query, raw=op["raw"])
            elif op["op"] == "etw":
                kind, v = call(db.execute_with_timeout, query, timeout=t)
                if kind == "ok" and v is None:
                    kind = "timeout"
            elif op["op"] == "analyze":
                kind, v = call(db.optimizer().analyze_plan, query, timeout=t)
                if kind == "ok" and v is None:
                    kind = "timeout"
            else:
                kind, v = call(db.time_query, query, timeout=t if timed else None)
            took, slack = k.now - t0, k.stalled_since(t0) + 60 * MS
            mine = [s for s in engine.log[log0:] if s.con is db._cur and marker_of(s.sql) == i]
            ctx.nontrivial |= timed and bool(mine)
            running = [s for s in engine.running if s.con is db._cur]
            ctx.check(not running, f"{where}returned {kind} while {running} is still being executed", "left running")
            dur = q["dur_us"] * US + q.get("stream_us", 0) * US * (not q.get("fail"))
            limit = int(t * SEC)
            bad = q.get("fail") or q.get("fail_fetch") or q.get("bad")
            if timed:
                ctx.check(took <= limit + slack + 3 * engine.interrupt_max or took <= dur + slack,
                          f"{where}took {took / SEC:.3f} s with a timeout of {t} s", "timeout exceeded")
            may_timeout = timed and dur + slack >= limit
            must_timeout = timed and dur - US > limit + slack
            ctx.state(op["op"], "over" if must_timeout else "around" if may_timeout else "within", kind, q.get("fail"), q.get("fail_fetch"),
                      bool(q.get("stream_us")), bool(q.get("bad")))
            if kind == "timeout":
                ctx.check(may_timeout, f"{where}reported a timeout after {took / SEC:.4f} s although it takes {dur / SEC:.4f} s", "false timeout")
                ctx.check(took >= limit, f"{where}reported a timeout after only {took / SEC:.4f} s", "false timeout")
                rt = db.last_query_runtime()
                ctx.check(rt >= t, f"{where}runtime {rt} after a timeout", "wrong runtime")
                continue
            ctx.check(not must_timeout or (kind == "error" and q.get("bad")), f"{where}returned {kind} although it takes {dur / SEC:.3f} s and the limit is {t} s", "missed timeout")
            ctx.check(len(mine) == 1, f"{where}executed {mine}", "wrong statements")
            if bad:
                ctx.check(kind == "error", f"{where}reported as {kind} {v!r:.200}", "failure not reported")
                if q.get("bad"):
                    want = "ProgrammingError"
                    ctx.check(any(c.__name__ == want for c in type(v).__mro__), f"{where}reported as {short(v)}", "wrong error")
                else:
                    cls, msg = simduck.ERRORS[q.get("fail") or q["fail_fetch"]]
                    ctx.check(isinstance(v, cls) and msg in str(v), f"{where}reported as {short(v)}, it is {cls.__name__}: {msg}", "wrong error")
                continue
            if op["op"] == "analyze" and kind == "error" and '"result": "error"' in str(self.truth.rows(f"EXPLAIN (ANALYZE, FORMAT JSON) {sql}")):
                continue    # the engine answers some (constant) queries without a plan
            ctx.check(kind == "ok", f"{where}failed: {short(v)}", "failed without a reason")
            rt = db.last_query_runtime()
            ctx.check(dur / SEC - 1e-9 <= rt <= (dur + slack) / SEC, f"{where}runtime {rt}, it took {dur / SEC}", "wrong runtime")
            if op["op"] in ("time_query", "untimed_tq"):
                ctx.check(v == rt, f"{where}time_query returned {v}, last_query_runtime is {rt}", "wrong runtime")
                continue
            if op["op"] == "analyze":
                ctx.check(isinstance(v, pb.QueryPlan), f"{where}returned {v!r:.200}", "wrong rows")
                continue
            want = self.truth.rows(sql)
            if op["op"] != "etw" and not op["raw"]:
                want = simplify(want)
            ctx.check(typed(v) == typed(want), f"{where}returned {v!r:.300} instead of {want!r:.300}", "wrong rows")
            preps = [norm_sql(s.sql) for s in engine.log[log0:] if s.con is db._cur and s is not mine[0]]
            text = norm_sql(mine[0].sql)
            ctx.check([p for p in preps if p] == ([norm_sql(q["prep"])] if q.get("prep") else []) or text.startswith(norm_sql(q.get("prep", "?"))),
                      f"{where}preparatory statements {preps} {text!r}", "wrong statements")


PROPS = {p.id: p() for p in (S21,)}
