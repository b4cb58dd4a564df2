"""S01-S03: queries with a timeout on (simulated) PostgreSQL."""
from __future__ import annotations

import math

from dst import simmp, simpg
from dst.kernel import MS, SEC, US

from . import Prop
from .common import (BOOL_SETTINGS, MARK, NUM_SETTINGS, RUNTIME_SETTINGS, Faults, call, make_server, marked, marker_of, norm_sql,
                     parse, pb, pg, rows_equal, short, simplify_result_set, tables_of, with_hints)

REAL = ["postbound.postgres (PostgresInterface, TimeoutQueryExecutor, its worker process function, PostgresHintService)",
        "postbound.db, postbound.qal, postbound.parser, postbound.transform", "psycopg error classes and adapters",
        "concurrent.futures, threading and queue of the standard library (on simulated locks)"]
STUB = ["PostgreSQL server (dst.simpg: sessions, transactions, GUCs, signals, statement timing; SQL by in-memory sqlite)",
        "psycopg connection/cursor facade (network delays, connection loss)", "multiprocessing (dst.simmp: processes, pipes, signals)",
        "clocks, scheduling, locks (dst.kernel)"]
ASSUMPTIONS = ["A killed worker process stops at a synchronisation point (I/O, lock, pipe or clock operation), not in between.",
               "The simulated server answers cancellations within 3 ms of simulated time unless a statement is already over."]


def gen_query(rng, i, timeouts):
    q = {"tmpl": rng.randrange(9), "x": rng.randrange(8), "form": rng.choice(["str", "obj", "obj", "hinted", "assigned"])}
    t_us = int(rng.choice(timeouts) * 1e6)
    q["dur_us"] = rng.choice([
        rng.randrange(100, 3000), rng.randrange(100, 3000), int(t_us * rng.uniform(0.05, 0.8)),
        max(100, t_us + rng.randrange(-20_000, 20_001)), int(t_us * rng.uniform(1.3, 4)), t_us * 50 + 3_600_000_000])
    if q["form"] == "hinted":
        q["prep"] = rng.choice(["", "SET geqo TO off;", "SET enable_nestloop = 'off'; SET work_mem = '8192';",
                                "SET enable_hashjoin TO off;", "SET join_collapse_limit = 1;"])
        q["hints"] = rng.choice(["", "/*+ HashJoin(r s) */", "/*+\n SeqScan(r)\n*/"])
    if q["form"] == "assigned":
        q["off"] = sorted(rng.sample(["nl", "hash", "merge", "idx"], rng.randint(0, 2)))
        q["scan"] = rng.random() < 0.5
    return q


def build_query(q, i):
    sql = marked(i, q["tmpl"], q["x"])
    if q["form"] == "str":
        return sql, {}
    obj = parse(sql)
    if q["form"] == "hinted":
        if q.get("prep") or q.get("hints"):
            obj = with_hints(obj, q.get("prep", ""), q.get("hints", ""))
        return obj, {}
    if q["form"] == "assigned":
        ops = pb.PhysicalOperatorAssignment()
        for o in q.get("off", []):
            op = {"nl": pb.JoinOperator.NestedLoopJoin, "hash": pb.JoinOperator.HashJoin, "merge": pb.JoinOperator.SortMergeJoin,
                  "idx": pb.ScanOperator.IndexScan}[o]
            ops.set_operator_enabled_globally(op, False)
        if q.get("scan"):
            ops.set_scan_operator(pb.ScanOperator.SequentialScan, min(obj.tables(), key=str))
        return obj, {"physical_operators": ops}
    return obj, {}


def gen_set(rng):
    if rng.random() < 0.6:
        return {"op": "set", "name": rng.choice(BOOL_SETTINGS), "value": rng.choice(["on", "off", "off"]),
                "how": rng.choice(["str", "setting", "config"])}
    return {"op": "set", "name": rng.choice(NUM_SETTINGS), "value": str(rng.randint(1, 9)), "how": rng.choice(["str", "setting", "config"])}


class Timed(Prop):
    state_measure = "distinct (operation, planned truth, outcome, fault) combinations"
    rule = ("A run is a generated sequence of timed/untimed queries, setting changes and resets against one PostgresInterface on a "
            "simulated server; non-trivial if at least one timed query ran on the server. Distinct by event-log hash.")
    real, stub, assumptions = REAL, STUB, ASSUMPTIONS
    shrink_lists = ("faults", "ops")
    quick_runs = 1300
    thorough_runs = 30000

    def scenario(self, rng, tier):
        timeouts = [0.05, 0.5, 2.0, 30.0]
        ops = []
        n = rng.randint(1, 6 if tier == "quick" else 10)
        for i in range(n):
            roll = rng.random()
            if self.id == "S03" and roll < 0.5 or roll < 0.1:
                ops.append(gen_set(rng))
            kind = rng.choices(["timed", "etw", "time_query", "untimed", "reset"], [6, 2, 1.5, 2, 0.4])[0]
            if kind == "reset":
                ops.append({"op": "reset"})
                continue
            t = rng.choice(timeouts)
            q = gen_query(rng, i, [t])
            if kind == "untimed":
                q["dur_us"] = min(q["dur_us"], 5_000_000)
            if self.id == "S01":
                if rng.random() < 0.2:
                    q["fail"] = rng.choice(simpg.SERVER_KINDS + simpg.USER_KINDS)
                elif rng.random() < 0.12 and kind != "untimed":
                    q["big"] = rng.choice([400, 1500, 4000])
                elif rng.random() < 0.12:
                    q["fetch_us"] = rng.choice([rng.randrange(100, 3000), int(t * rng.uniform(0.3, 1) * 1e6), int(t * 2e6) + 500_000])
            ops.append({"op": kind, "timeout": t, "raw": rng.random() < 0.5, "q": q})
        sc = {"ops": ops, "faults": [], "data": rng.randrange(4),
              "sched": {"p_stay": rng.choice([0.3, 0.7, 0.95]), "p_stall": rng.choice([0, 0, 0, 0.01, 0.05]),
                        "stall_max": rng.choice([5 * MS, 400 * MS, 3 * SEC])}}
        if self.id == "S02":
            nt = sum(o["op"] in ("timed", "etw", "time_query") for o in ops)
            for _ in range(rng.choice([0, 1, 1, 1, 2])):
                kind = rng.choice(["kill", "kill", "kill", "lose_worker", "lose_worker", "lose_watchdog", "refuse", "term_watchdog", "crash",
                                   "error_worker"])
                if kind == "kill" and nt:
                    sc["faults"].append({"kind": "kill_worker", "worker": rng.randrange(nt), "step": rng.randint(1, 60)})
                elif kind == "lose_worker":
                    sc["faults"].append({"kind": "lose", "app": "worker", "nth": rng.randint(1, 3 * 4 + 60),
                                         "when": rng.choice(["before", "after"])})
                    if rng.random() < 0.6:
                        # right at the query itself
                        cand = [o for o in ops if "q" in o and o["op"] != "untimed"]
                        if cand:
                            sc["faults"].pop()
                            rng.choice(cand)["q"]["fail"] = "lose"
                elif kind == "lose_watchdog":
                    sc["faults"].append({"kind": "lose", "app": "watchdog", "nth": rng.randint(1, 4),
                                         "when": rng.choice(["before", "after"])})
                elif kind == "refuse":
                    sc["faults"].append({"kind": "refuse", "app": rng.choice(["worker", "watchdog"]), "nth": rng.randint(1, 3)})
                elif kind == "term_watchdog":
                    sc["faults"].append({"kind": "terminate", "app": "watchdog", "at_ms": rng.randrange(5, 20_000)})
                elif kind == "crash":
                    sc["faults"].append({"kind": "crash", "app": "worker", "nth": rng.randint(1, 120),
                                         "down_ms": rng.choice([0, 100, 5000])})
                else:
                    sc["faults"].append({"kind": "error", "app": "worker", "nth": rng.randint(1, 80),
                                         "error": rng.choice(["internal", "oom", "undefined_table"])})
        return sc

    # ------------------------------------------------------------------------------------------------------------------
    def run(self, ctx, sc):
        k = ctx.k
        self.tolerated = set()
        server = make_server(ctx, sc)
        queries = {i: o["q"] for i, o in enumerate(sc["ops"]) if "q" in o}
        faults = Faults(ctx, server, sc["faults"], queries)
        db = pg.PostgresInterface("dbname=simdb host=localhost")
        main_apps = "PostBOUND"
        twin = pg.PostgresInterface("dbname=simdb host=localhost user=twin", application_name="twin") if self.id == "S03" else None

        def main_session():
            alive = [s for s in server.alive_sessions() if s.app == main_apps]
            return alive[-1] if alive else None

        for i, op in enumerate(sc["ops"]):
            if op["op"] == "set":
                s = pg.PostgresSetting(op["name"], op["value"])
                arg = {"str": f"SET {op['name']} = '{op['value']}';", "setting": s, "config": pg.PostgresConfiguration([s])}[op["how"]]
                kind, v = call(db.apply_configuration, arg)
                if kind != "ok" and not sc["faults"]:
                    ctx.violate(f"applying {arg!r} failed: {short(v)}", "apply_configuration failed")
                if kind == "ok":
                    want = {"on": "on", "off": "off"}.get(op["value"], op["value"])
                    got = main_session().settings.get(op["name"])
                    ctx.check(got == want, f"setting {op['name']} is {got!r} after applying {want!r}", "setting not applied")
                continue
            if op["op"] == "reset":
                kind, v = call(db.reset_connection)
                if kind != "ok" and not sc["faults"]:
                    ctx.violate(f"reset_connection failed: {short(v)}", "reset failed")
                continue
            self.one(ctx, sc, server, faults, db, twin, i, op, main_session)

        # the end: nothing may be left behind
        k.sleep(6)
        self.leftovers(ctx, server, "at the end of the run", None)
        if self.id == "S02":
            self.next_query_works(ctx, server, faults, db)
        kind, v = call(db.close)
        ctx.check(kind == "ok", f"close() failed: {v}", "close failed")

    def next_query_works(self, ctx, server, faults, db):
        k = ctx.k
        faults.armed = False
        if k.now < server.refused_until:
            k.block(None, server.refused_until - k.now + MS, why="server restarts")
        i = 5000
        sql = marked(i, 0, 5)
        faults.queries[i] = {"dur_us": 2000}
        want = [tuple(r) for r in server.db.run(sql).rows]
        kind, v = call(db.execute_query, parse(sql), timeout=10.0, raw=True)
        if kind == "error":
            main_lost = not any(s.app == "PostBOUND" for s in server.alive_sessions())
            ctx.check(main_lost, f"faults are over, but a timed query fails: {short(v)}", "next query fails")
            kind, v = call(db.reset_connection)
            ctx.check(kind == "ok", f"faults are over, but resetting the connection fails: {short(v)}", "reset fails")
            kind, v = call(db.execute_query, parse(sql), timeout=10.0, raw=True)
        ctx.check(kind == "ok", f"faults are over, but a timed query on a working connection gives {kind} {v!r}", "next query fails")
        ctx.check(rows_equal(v, want), f"next query returned {v!r} instead of {want!r}", "next query wrong rows")
        k.sleep(6)
        self.leftovers(ctx, server, "after the final query", None)

    def leftovers(self, ctx, server, when, marker):
        running = [s for s in server.running() if s.app != "twin" and (marker is None or marker_of(s.sql) == marker)
                   and marker_of(s.sql) not in self.tolerated]
        ctx.check(not running, f"{when} the server still executes {running[:3]}", "query left running")
        alive = [p for p in simmp.world.processes if p._sim is not None and p._sim.alive]
        ctx.check(not alive, f"{when} worker processes are still alive: {[p._name for p in alive]}", "worker left behind")

    def one(self, ctx, sc, server, faults, db, twin, i, op, main_session):
        k = ctx.k
        q = op["q"]
        query, extra = build_query(q, i)
        T = op["timeout"]
        faulty = bool(sc["faults"]) or q.get("fail") == "lose"
        log0, t0, st0, hits0 = len(server.log), k.now, k.stalled_ns, sum(k.faults.values()) - k.faults.get("stall", 0)
        msess = main_session()
        before = dict(msess.settings) if msess else None
        raw = op["raw"]
        k.event(f"op {i} {op['op']}")
        prev_runtime = db.last_query_runtime()
        if op["op"] == "timed":
            kind, v = call(db.execute_query, query, timeout=T, raw=raw, **extra)
        elif op["op"] == "etw":
            kind, v = call(db.execute_with_timeout, query, T)
            raw = True
            if extra:
                extra = {}
        elif op["op"] == "time_query":
            query = parse(query) if isinstance(query, str) else query
            kind, v = call(db.time_query, query, timeout=T)
            extra = {}
        else:
            kind, v = call(db.execute_query, query, raw=raw, **extra)
        elapsed = k.now - t0
        tol = (k.stalled_ns - st0) + 100 * MS
        runtime = db.last_query_runtime()
        timed = op["op"] != "untimed"
        stmts = [s for s in server.log[log0:] if marker_of(s.sql) == i]
        ctx.nontrivial |= timed and bool(stmts)
        if op["op"] == "etw" and kind == "ok" and v is None:
            kind = "timeout"
        fired = sum(k.faults.values()) - k.faults.get("stall", 0) - hits0
        D = q["dur_us"] * US
        T_ns = int(T * SEC)
        ctx.state(op["op"], kind, "fail" if q.get("fail") else "", "near" if abs(D - T_ns) < tol else ("short" if D < T_ns else "long"),
                  "fault" if fired else "", f"n={len(stmts)}", "set" if before and before != server.session_defaults else "")
        where = f"op {i} {op['op']} {norm_sql(marked(i, q['tmpl'], q['x']))!r} timeout={T}s planned duration={D / SEC}s"

        # --- outcome
        planned = "error" if q.get("fail") else "ok"
        if q.get("fail") == "lose":
            planned = "error"
        if not timed:
            allowed = {planned}
        elif D > T_ns + tol:
            allowed = {"timeout"}
        elif D < T_ns - tol:
            allowed = {planned}
        else:
            allowed = {planned, "timeout"}
        environment_fault = fired > (1 if q.get("fail") and any(s.outcome in ("error", "lost", "canceled") for s in stmts) else 0)
        if sc["faults"] and environment_fault or (sc["faults"] and not msess) or k.now < server.refused_until or self.degraded(faults, server, db):
            allowed |= {"error"}
        ctx.check(kind in allowed, f"{where}: outcome {kind} ({v!r:.300}) but the truth allows only {sorted(allowed)}; server: {stmts}",
                  f"wrong outcome {kind}")
        ctx.check(len(stmts) <= 1, f"{where}: the query was executed {len(stmts)} times: {stmts}", "executed more than once")
        if kind == "ok":
            ctx.check(len(stmts) == 1 and stmts[0].outcome == "ok", f"{where}: success reported, but the server says {stmts}",
                      "success without execution")
            if op["op"] == "time_query":
                ctx.check(v == runtime or (math.isnan(v) and math.isnan(runtime)), f"{where}: time_query returned {v}, runtime {runtime}",
                          "time_query result")
            else:
                want = ([(j, "x" * 90) for j in range(q["big"])] if q.get("big")
                        else [tuple(r) for r in server.db.run(marked(i, q["tmpl"], q["x"])).rows])
                want = want if raw else simplify(want)
                ctx.check(rows_equal(v, want), f"{where}: returned {v!r:.300} instead of {want!r:.300}", "wrong rows")
            dur = stmts[0].duration
            lo, hi = dur / SEC - 1e-9, (dur + tol) / SEC
            ctx.check(lo <= runtime <= hi, f"{where}: reported runtime {runtime} but the server took {dur / SEC} (tolerance {tol / SEC})",
                      "wrong runtime")
        elif kind == "timeout":
            ctx.check(elapsed >= T_ns, f"{where}: timeout reported after {elapsed / SEC}s already", "premature timeout")
            ctx.check(runtime == T, f"{where}: runtime after a timeout is {runtime}, not {T}", "runtime after timeout")
        elif timed:
            ctx.check(math.isnan(runtime) or (environment_fault and before is None), f"{where}: runtime after an error is {runtime} (before: {prev_runtime}) error={short(v)}",
                      "runtime after error") if not sc["faults"] else None
            if not sc["faults"] and q.get("fail") and q["fail"] != "lose":
                cls = pb.db.DatabaseServerError if q["fail"] in simpg.SERVER_KINDS else pb.db.DatabaseUserError
                ctx.check(isinstance(v, cls), f"{where}: {q['fail']} reported as {short(v)}", "wrong error class")
        # --- boundedness and leftovers
        if timed:
            bound = T_ns + 30 * SEC + (k.stalled_ns - st0) + q.get("fetch_us", 0) * US
            ctx.check(elapsed <= bound, f"{where}: took {elapsed / SEC}s", "not bounded")
            if kind == "error" and faults.fired.count(Faults.APPS["watchdog"]) >= 2:
                # both the watchdog connection and its replacement were lost: nobody could stop the backend, which was reported
                self.tolerated.add(i)
            if self.id == "S02" or kind == "timeout":
                k.sleep(3)
                self.leftovers(ctx, server, f"3s after {where} returned ({kind})", i)
        # --- settings
        if self.id == "S03":
            self.settings_check(ctx, server, db, twin, i, op, query, extra, kind, stmts, msess, before, where, log0, main_session)

    def degraded(self, faults, server, db):
        """Whether the interactive session is gone (its loss was a fault of an earlier operation)."""
        return bool(faults.faults) and not any(s.app == "PostBOUND" for s in server.alive_sessions())

    def settings_check(self, ctx, server, db, twin, i, op, query, extra, kind, stmts, msess, before, where, log0, main_session):
        k = ctx.k
        if op["op"] == "untimed" or not stmts:
            # an untimed run applies its preparatory statements to the interactive session, which is documented
            return
        after = main_session()
        ctx.check(after is msess, f"{where}: the interactive session was replaced", "session replaced")
        diff = {x: (before[x], after.settings.get(x)) for x in before if before[x] != after.settings.get(x)}
        ctx.check(not diff, f"{where}: a timed query changed the interactive session: {diff}", "interactive session changed")
        mine = [s for s in server.log[log0:] if s.pid == msess.pid and not s.internal]
        ctx.check(not mine, f"{where}: statements of the timed query ran on the interactive session: {mine}", "ran on interactive session")
        # the same query without a timeout, on a separate session with the same settings
        tsess = [s for s in server.alive_sessions() if s.app == "twin"][-1]
        tsess.settings = dict(before) | {"application_name": "twin"}
        n0 = len(server.log)
        saved = op["q"]["dur_us"]
        op["q"]["dur_us"] = 1000
        tkind, tv = call(twin.execute_query, query, raw=True, **extra)
        op["q"]["dur_us"] = saved
        ctx.check(tkind == "ok", f"{where}: the untimed twin failed: {tv!r}", "twin failed")
        twin_stmts = [s for s in server.log[n0:] if s.pid == tsess.pid and not norm_sql(s.sql).upper().startswith("SHOW ")]
        while twin_stmts and marker_of(twin_stmts[-1].sql) != i:
            twin_stmts.pop()
        worker = [s for s in server.log[log0:n0] if s.pid == stmts[0].pid
                  and not norm_sql(s.sql).upper().startswith("SHOW ")]
        upto = worker[:worker.index(stmts[0]) + 1]
        a = [norm_sql(s.sql) for s in twin_stmts]
        b = [norm_sql(s.sql) for s in upto[-len(a):]]
        ctx.check(a == b, f"{where}: statements differ:\n untimed: {a}\n timed:   {b}", "different statements")
        want = {x: twin_stmts[-1].settings[x] for x in RUNTIME_SETTINGS if x in twin_stmts[-1].settings}
        got = {x: stmts[0].settings[x] for x in want}
        bad = {x: (want[x], got[x]) for x in want if want[x] != got[x]}
        ctx.check(not bad, f"{where}: settings (interactive, timed): {bad}", "different settings")
        rest = [s for s in worker[worker.index(stmts[0]) + 1:] if not s.internal]
        ctx.check(not rest, f"{where}: further statements after the query: {rest}", "statements after the query")
        if bad == {} and before != server.session_defaults:
            ctx.probe("settings_transferred")
        if op["q"].get("prep") or op["q"].get("off"):
            ctx.probe("preparatory_statements_seen")


def simplify(rows):
    """Independent model of the documented simplification."""
    if not rows:
        return []
    if len(rows[0]) == 1:
        rows = [r[0] for r in rows]
    return rows[0] if len(rows) == 1 else rows


class S01(Timed):
    id = "S01"


class S02(Timed):
    id = "S02"
    quick_runs = 1800


class S03(Timed):
    id = "S03"
    quick_runs = 1100


PROPS = {p.id: p() for p in (S01, S02, S03)}
