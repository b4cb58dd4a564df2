"""S04: the parallel Postgres executor."""
from __future__ import annotations

import concurrent.futures

from dst import simpg
from dst.kernel import MS, SEC, US

from . import Prop
from .common import MARK, Faults, make_server, marked, marker_of, norm_sql, parse, pg, rows_equal, short


class S04(Prop):
    id = "S04"
    quick_runs = 1500
    thorough_runs = 60000
    state_measure = "distinct (threads, batch outcome mix, drain outcome, fault) combinations"
    rule = ("A run queues generated queries into one ParallelQueryExecutor in batches, drains them with and without a queue timeout, and "
            "compares callbacks and the result mapping with the server's log. Non-trivial: at least two queries executed. Distinct by "
            "event-log hash.")
    real = ["postbound.postgres.ParallelQueryExecutor and its worker functions", "concurrent.futures.ThreadPoolExecutor, threading, queue "
            "(on simulated locks and threads)", "psycopg error classes"]
    stub = ["PostgreSQL server (dst.simpg)", "psycopg connection/cursor facade", "thread scheduling, clocks, locks (dst.kernel)"]
    assumptions = ["Thread switches happen at synchronisation points (locks, I/O, clock reads), not between arbitrary bytecodes.",
                   "Queries of the generated batches produce a result set (the executor is documented for queries)."]
    shrink_lists = ("faults", "batches")

    def scenario(self, rng, tier):
        timeout = rng.choice([None, None, 1, 2, 10])
        batches = []
        i = 0
        for _ in range(rng.randint(1, 3)):
            qs = []
            for _ in range(rng.randint(0, 6)):
                if qs and rng.random() < 0.12:
                    qs.append(dict(rng.choice(qs)))  # the same query again
                    continue
                t_us = (timeout or 3) * 1_000_000
                q = {"i": i, "tmpl": rng.randrange(9), "x": rng.randrange(8), "obj": rng.random() < 0.5,
                     "dur_us": rng.choice([rng.randrange(100, 5000), rng.randrange(1000, 400_000), int(t_us * rng.uniform(0.2, 0.95)),
                                           int(t_us * rng.uniform(1.02, 3))])}
                i += 1
                if rng.random() < 0.15:
                    q["fail"] = rng.choice(["internal", "disk_full", "division", "undefined_table", "cancel", "deadlock", "conflict"])
                    if rng.random() < 0.5:
                        # the same error while its neighbours are still running
                        q["dur_us"] = rng.randrange(100, 3000)
                qs.append(q)
            drains = [rng.choice([None, None, rng.choice([0.001, 0.05, 1.0, 4.0])]) for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))]
            batches.append({"qs": qs, "drains": drains, "pause_ms": rng.choice([0, 0, 5, 800])})
        faults = []
        if rng.random() < 0.25:
            faults.append(rng.choice([
                {"kind": "refuse", "app": "parallel", "nth": rng.randint(1, 3)},
                {"kind": "lose", "app": "parallel", "nth": rng.randint(1, 6), "when": rng.choice(["before", "after"])},
                {"kind": "crash", "app": "parallel", "nth": rng.randint(1, 8), "down_ms": rng.choice([0, 2000])}]))
        return {"threads": rng.choice([1, 2, 2, 3, 5]), "timeout": timeout, "batches": batches, "faults": faults, "data": rng.randrange(4),
                "callback": rng.random() < 0.8, "context": rng.random() < 0.3, "verbose": rng.random() < 0.1,
                "sched": {"p_stay": rng.choice([0.0, 0.3, 0.7, 0.95]), "p_stall": rng.choice([0, 0, 0.02]), "stall_max": 500 * MS}}

    def run(self, ctx, sc):
        k = ctx.k
        server = make_server(ctx, sc)
        server.timeout_context = sc["context"]
        queries = {q["i"]: q for b in sc["batches"] for q in b["qs"]}
        faults = Faults(ctx, server, sc["faults"], queries)
        ex = pg.ParallelQueryExecutor("dbname=simdb host=localhost", sc["threads"], timeout=sc["timeout"], verbose=sc["verbose"])
        handed: list[tuple] = []  # (q, query object)
        calls: list[tuple] = []
        errors: list[BaseException] = []
        broken_pool = False

        def callback(query, result):
            calls.append((query, result))
            k.event(f"callback {marker_of(str(query))}")

        def drain(timeout):
            kw = {"callback": callback} if sc["callback"] else {}
            t0, st0 = k.now, k.stalled_ns
            try:
                if timeout is None:
                    ex.drain_queue(**kw)
                else:
                    ex.drain_queue(timeout, **kw)
                outcome = "done"
            except (TimeoutError, concurrent.futures.TimeoutError) as e:
                ctx.check(timeout is not None, f"drain without timeout raised {short(e)}", "drain timeout without limit")
                ctx.check(k.now - t0 >= int(timeout * SEC) - 1000, f"drain({timeout}) gave up after {(k.now - t0) / SEC}s", "drain too early")
                outcome = "timeout"
            except Exception as e:  # noqa: BLE001
                errors.append(e)
                outcome = "error"
            if timeout is not None:
                limit = int(timeout * SEC) + (k.stalled_ns - st0) + SEC // 5
                ctx.check(k.now - t0 <= limit, f"drain({timeout}) took {(k.now - t0) / SEC}s", "drain too late")
            else:
                left = [m for m in server.running() if m.app.startswith("PostBOUND parallel")]
                ctx.check(not left or sc["faults"], f"drain returned while {left} are running", "drain returned early")
            return outcome

        for b in sc["batches"]:
            for q in b["qs"]:
                sql = marked(q["i"], q["tmpl"], q["x"])
                query = parse(sql) if q["obj"] else sql
                try:
                    ex.queue_query(query)
                except Exception as e:  # noqa: BLE001
                    ctx.check(any(f["kind"] in ("refuse", "crash") for f in sc["faults"]), f"queue_query failed: {short(e)}", "queue_query failed")
                    broken_pool = True
                    continue
                handed.append((q, query))
            if b["pause_ms"]:
                k.sleep(b["pause_ms"] / 1000)
            for t in b["drains"]:
                ctx.state(sc["threads"], drain(t), bool(sc["faults"]), bool(sc["timeout"]))
        drain(None)
        drain(None)
        faults.armed = False
        mapping = ex.result_set()
        # CPython's ThreadPoolExecutor.shutdown can hang if a worker's initializer fails at the very same time
        k.block(None, 60 * SEC, why="initializers")
        ex.close()
        k.block(None, 3 * SEC, why="settle")

        sessions = [s for s in server.all_sessions if s.app.startswith("PostBOUND parallel")]
        ctx.check(len(sessions) <= sc["threads"], f"{len(sessions)} connections for {sc['threads']} threads", "too many connections")
        for st in server.log:
            ctx.check(not norm_sql(st.sql).upper().startswith(("BEGIN", "START TRANSACTION")), f"worker opened a transaction: {st}",
                      "not in autocommit mode")
        disturbed = bool(faults.fired)
        counts: dict[int, int] = {}
        for q, _ in handed:
            counts[q["i"]] = counts.get(q["i"], 0) + 1
        expected_calls = 0
        failing = 0
        done_ok = 0
        for q, query in handed:
            i = q["i"]
            n = counts[i]
            stmts = [s for s in server.log if marker_of(s.sql) == i]
            done_ok += bool(stmts)
            what = f"{norm_sql(marked(i, q['tmpl'], q['x']))!r} ({'object' if q['obj'] else 'string'}, planned {q['dur_us']} us, fail={q.get('fail')})"
            ctx.check(len(stmts) <= n and (disturbed or len(stmts) == n), f"{what} queued {n} times, executed {len(stmts)} times: {stmts}",
                      "not executed exactly once")
            mine = [c for c in calls if c[0] == query and type(c[0]) is type(query)]
            timed_out = sc["timeout"] is not None and q["dur_us"] >= sc["timeout"] * 1_000_000 and not q.get("fail")
            oks = [s for s in stmts if s.outcome == "ok" or (s.outcome == "canceled" and timed_out)]
            if q.get("fail"):
                failing += 1
                if disturbed and any("statement timeout" in str(s.error) for s in stmts):
                    continue  # the crash replaced the planned failure
                ctx.check(not mine and query not in mapping, f"{what} failed but is reported as {mine or mapping.get(query)!r}", "failed query reported")
                continue
            if not disturbed:
                ctx.check(query in mapping, f"{what} is missing from the results {list(mapping)!r:.300}; errors: {[short(e) for e in errors]}",
                          "result missing")
            if query in mapping:
                ctx.check(bool(oks), f"{what} is reported but did not run: {stmts}", "result without execution")
                if timed_out:
                    ctx.check(mapping[query] is None, f"{what} timed out but is reported as {mapping[query]!r}", "timeout reported as result")
                    ctx.probe("query_timed_out")
                else:
                    want = [tuple(r) for r in server.db.run(marked(i, q["tmpl"], q["x"])).rows]
                    ctx.check(rows_equal(mapping[query], want), f"{what}: {mapping[query]!r:.300} instead of {want!r:.300}", "wrong rows")
            if sc["callback"]:
                ctx.check(len(mine) <= n and (disturbed or len(mine) == n), f"{what} queued {n} times, callback called {len(mine)} times",
                          "callback not exactly once")
                for c in mine:
                    ctx.check(c[1] == mapping[query], f"{what}: callback got {c[1]!r:.300}, the mapping says {mapping[query]!r:.300}",
                              "callback result differs")
            if disturbed and query not in mapping:
                failing += 1
        if sc["callback"]:
            known = [q for _, q in handed]
            for c in calls:
                ctx.check(any(c[0] == x and type(c[0]) is type(x) for x in known), f"callback for {c[0]!r:.200}, which was never queued",
                          "callback for unknown query")
        ctx.check(not any(not any(x == y for _, y in handed) for x in mapping), f"unknown queries in {mapping!r:.500}", "unknown query in results")
        if failing:
            ctx.check(bool(errors) or broken_pool, f"{failing} queries failed but no error surfaced", "error swallowed")
            ctx.probe("error_surfaced")
        elif not disturbed:
            ctx.check(not errors, f"no query failed but {[short(e) for e in errors]} surfaced", "made-up error")
        ctx.nontrivial = done_ok >= 2
        busy = [s for s in server.running()]
        ctx.check(not busy, f"after close {busy} are running", "left running")


PROPS = {"S04": S04()}
