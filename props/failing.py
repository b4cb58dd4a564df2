"""S05: histories of failing queries on one database object."""
from __future__ import annotations

import re

from dst import simduck, simpg
from dst.kernel import MS, SEC, US

from . import Prop
from .common import Faults, call, dataset, make_server, marked, marker_of, norm_sql, parse, pb, pg, rows_equal, short, typed, with_hints
from .duck import ASSUME_DUCK, REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB, simplify

PREP = ["SET geqo TO off;", "SET enable_nestloop = 'off'; SET work_mem = '8192';", "SET join_collapse_limit = 1;"]
BAD_PREP = {"SET no_such_setting TO on;": "user", "SET geqo TO off; SET no_such_setting TO 1;": "user"}
DUCK_PREP = ["SET preserve_insertion_order = true;", "SET default_null_order = 'nulls_last'; SET max_expression_depth = 900;"]
TEXT_MARK = 7_000
SERVER, USER = pb.db.DatabaseServerError, pb.db.DatabaseUserError


def expected_class(kind):
    return SERVER if kind in simpg.SERVER_KINDS + ("lose", "crash") else USER


class S05(Prop):
    id = "S05"
    quick_runs = 1800
    thorough_runs = 40000
    rule = ("A run is a history of succeeding, failing, cancelled and connection-breaking queries (timed and untimed, with and without "
            "preparatory statements), data changes, transactions, rollbacks, server restarts and connection resets on one PostgresInterface. "
            "Non-trivial: at least one query failed and another one followed. Distinct by event-log hash.")
    state_measure = "distinct (operation, failure, connection state, transaction state, outcome) combinations"
    real, stub = REAL + REAL_DUCK, STUB + STUB_DUCK
    assumptions = ASSUMPTIONS + ASSUME_DUCK
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        if rng.random() < 0.3:
            return self.scenario_duck(rng, tier)
        ops = []
        for i in range(rng.randint(2, 9 if tier == "quick" else 16)):
            kind = rng.choices(["query", "reset", "begin", "rollback", "change", "terminate", "restart"],
                               [12, 1.4, 0.7, 0.9, 0.9, 0.7, 0.4])[0]
            op = {"op": kind}
            if kind == "query":
                q = {"tmpl": rng.randrange(9), "x": rng.randrange(8), "form": rng.choice(["str", "obj", "obj", "hinted", "hinted"]),
                     "dur_us": rng.choice([300, 2000, 30_000])}
                if q["form"] == "hinted":
                    q["prep"] = rng.choice([*PREP, *PREP, *BAD_PREP])
                    if q["prep"] not in BAD_PREP and rng.random() < 0.25:
                        q["prep_fail"] = rng.choice(simpg.SERVER_KINDS + simpg.USER_KINDS + ("lose",))
                if rng.random() < 0.4:
                    q["fail"] = rng.choice(simpg.SERVER_KINDS + simpg.USER_KINDS + ("lose", "lose", "crash"))
                    q["down_ms"] = rng.choice([0, 0, 50])
                elif rng.random() < 0.2:
                    q["bad"] = rng.choice(["SELECT * FROM no_such_table WHERE 1 < {m}", "SELECT no_such_column FROM r WHERE r.id < {m}",
                                           "SELEC {m}", "SELECT * FROM r WHERE ({m}"])
                    q["form"] = "str"
                    q.pop("prep", None)
                    q.pop("prep_fail", None)
                op |= {"q": q, "timeout": rng.choice([None, None, None, 10.0]), "raw": rng.random() < 0.5, "cache": rng.choice([None, None, True])}
            elif kind == "change":
                op["fail"] = rng.choice([None, None, "disk_full", "lock"])
            elif kind == "reset":
                op["cancel_fails"] = rng.random() < 0.3
                op["refused"] = rng.random() < 0.15
            elif kind == "restart":
                op["down_ms"] = rng.choice([0, 100])
            ops.append(op)
        return {"ops": ops, "data": rng.randrange(4), "cache": rng.random() < 0.3, "sched": {"p_stay": rng.choice([0.5, 0.9])}}

    def scenario_duck(self, rng, tier):
        ops = []
        for i in range(rng.randint(2, 9 if tier == "quick" else 16)):
            if rng.random() < 0.12:
                ops.append({"op": "reset"})
                continue
            q = {"tmpl": rng.randrange(9), "x": rng.randrange(8), "form": rng.choice(["str", "obj", "hinted", "hinted"]),
                 "dur_us": rng.choice([300, 2000, 30_000])}
            if q["form"] == "hinted":
                q["prep"] = rng.choice([*DUCK_PREP, *DUCK_PREP, "SET no_such_setting = 1;"])
                if "no_such" not in q["prep"] and rng.random() < 0.2:
                    q["prep_fail"] = rng.choice(simduck.KINDS)
            roll = rng.random()
            if roll < 0.25:
                q["fail"] = rng.choice(simduck.KINDS)
            elif roll < 0.35:
                q["fail_fetch"] = rng.choice(simduck.KINDS)
            elif roll < 0.42:
                q["fail"] = "fatal"
            elif roll < 0.55:
                q["bad"], q["form"] = rng.choice(["SELECT no_such_column FROM r WHERE r.id < {m}", "SELEC {m}", "SELECT * FROM gone WHERE 1 < {m}"]), "str"
                q.pop("prep", None)
                q.pop("prep_fail", None)
            elif roll < 0.65:
                q["dur_us"] = 20_000_000     # runs into the timeout, if there is one
            ops.append({"op": rng.choice(["query", "query", "query", "etw"]), "q": q, "timeout": rng.choice([None, None, 10.0]), "raw": rng.random() < 0.5})
        return {"system": "duck", "ops": ops, "data": rng.randrange(4), "sched": {"p_stay": rng.choice([0.5, 0.9])}}

    def run_duck(self, ctx, sc):
        import os
        k = ctx.k
        engine = simduck.Engine(k)
        path = simduck.make_database(os.path.join(ctx.tmp, "simdb.duckdb"), dataset(sc.get("data", 7)))
        simduck.install(engine)
        truth = simduck.real_connect(path, config={"threads": 1})
        now = [None]

        def on_statement(con, stmt):
            q = now[0]
            if q is None:
                return {}
            if marker_of(stmt.sql) is not None:
                spec = {"dur": q["dur_us"] * US} | {f: q[f] for f in ("fail", "fail_fetch") if q.get(f)}
                if q.get("prep_fail") and "SET " in stmt.sql:
                    spec["fail"] = q["prep_fail"]      # sent as a single text
                return spec
            return {"fail": q["prep_fail"]} if q.get("prep_fail") else {}
        engine.on_statement = on_statement
        db = pb.duckdb.DuckDBInterface(path)
        failed_before = False
        for n, op in enumerate(sc["ops"]):
            invalid = bool(engine.invalid)
            where = f"op {n} {op} on DuckDB{' (database invalidated)' if invalid else ''}: "
            now[0] = None
            if op["op"] == "reset":
                old = db._cur
                kind, v = call(db.reset_connection)
                ctx.check(kind == "ok", f"{where}{short(v) if kind != 'ok' else ''}", "reset failed")
                ctx.check(old.closed, f"{where}the old connection is still open", "session left open")
                ctx.check(len(engine.open()) == 1, f"{where}{len(engine.open())} connections are open", "session left open")
                ctx.state("reset", invalid)
                continue
            q = op["q"]
            sql = q["bad"].format(m=900_000 + n) if q.get("bad") else marked(n, q["tmpl"], q["x"])
            query = sql if q["form"] == "str" else parse(sql)
            preps = ""
            if q.get("prep"):
                query = with_hints(query, q["prep"], "")
                preps = q["prep"]
            now[0] = q
            n0 = len(engine.log)
            timeout = op["timeout"]
            if op["op"] == "etw":
                timeout = timeout or 10.0
                kind, v = call(db.execute_with_timeout, query, timeout=timeout)
                if kind == "ok" and v is None:
                    kind = "timeout"
            else:
                kind, v = call(db.execute_query, query, timeout=timeout, raw=op["raw"])
            sent = canon(";".join(s.sql.rstrip(";") for s in engine.log[n0:])).replace("; ", ";")
            own = canon(preps.rstrip(";") + ";" + sql if preps else sql).replace("; ", ";")
            ctx.state("duck", op["op"], q.get("fail"), q.get("fail_fetch"), q.get("prep_fail"), bool(q.get("bad")), invalid, kind, timeout is None)
            ctx.nontrivial |= failed_before
            ctx.check(own.startswith(sent.rstrip("; ")), f"{where}sent {sent!r}, its own statements are {own!r}", "foreign statements")
            want = None
            if invalid:
                want = "FatalException"
            elif "no_such" in preps:
                want = "CatalogException"
            elif q.get("bad"):
                want = "ProgrammingError"
            else:
                first = q.get("prep_fail") or q.get("fail") or q.get("fail_fetch")
                want = first and simduck.ERRORS[first][0].__name__
                if timeout and not q.get("prep_fail") and q["dur_us"] > timeout * 1e6:
                    want = "timeout"
            if want == "timeout":
                ctx.check(kind == "timeout", f"{where}outcome {kind} {v!r:.200}", "failure not reported")
                failed_before = True
                continue
            if want:
                ctx.check(kind == "error", f"{where}reported as {kind}: {v!r:.300}", "failure not reported")
                ctx.check(any(c.__name__ == want for c in type(v).__mro__), f"{where}reported as {short(v)}, expected a {want}", "wrong error class")
                failed_before = True
                continue
            ctx.check(kind == "ok", f"{where}failed: {short(v)}", "failed without a reason")
            ctx.check(sent.rstrip("; ") == own.rstrip("; "), f"{where}sent {sent!r}, its own statements are {own!r}", "foreign statements")
            rows = truth.execute(sql).fetchall()
            if op["op"] != "etw" and not op["raw"]:
                rows = simplify(rows)
            ctx.check(typed(v) == typed(rows), f"{where}returned {v!r:.300} instead of {rows!r:.300}", "wrong rows")
        call(db.close)
        ctx.check(not engine.open(), f"after close() connections are still open: {engine.open()}", "session left open")

    def run(self, ctx, sc):
        import os
        if sc.get("system") == "duck":
            return self.run_duck(ctx, sc)
        os.chdir(ctx.tmp)
        k = ctx.k
        server = make_server(ctx, sc)
        faults = Faults(ctx, server, [], {})
        prep_fail: dict = {}
        change_fail: list = [None]

        def on_statement(session, stmt):
            spec = faults.on_statement(session, stmt)
            if spec.get("fail") == "crash":
                spec["down_for"] = faults.queries[marker_of(stmt.sql)].get("down_ms", 0) * MS
            text = norm_sql(stmt.sql)
            if text in prep_fail and session.app in ("PostBOUND", "PostBOUND Timeout Worker") and prep_fail[text][0] == "armed":
                prep_fail[text][0] = "fired"
                spec["fail"] = prep_fail[text][1]
            if text.startswith("INSERT") and change_fail[0]:
                spec["fail"] = change_fail[0]
            return spec
        server.on_statement = on_statement
        cancel_fails, refuse = [False], [0]
        server.on_cancel = lambda session: cancel_fails[0]

        def on_connect(app, nth):
            if refuse[0] and app == "PostBOUND":
                refuse[0] -= 1
                return "refuse"
            return None
        server.on_connect = on_connect
        db = pg.PostgresInterface("dbname=simdb host=localhost", cache_enabled=sc["cache"])
        objects = [db.connection()]     # all client-side connection objects of this interface
        tx = "idle"                      # idle, open, failed
        failed_before = False
        cached: dict = {}
        inserted = 0

        def sessions():
            return [s for s in server.alive_sessions() if s.app == "PostBOUND"]

        for n, op in enumerate(sc["ops"]):
            lost = not sessions() or db.connection().closed
            where = f"op {n} {op} (connection {'lost' if lost else 'alive'}, transaction {tx}): "
            if op["op"] == "terminate":
                for s in sessions():
                    k.fault("session_terminated")
                    server.terminate_session(s.pid)
                k.sleep(1)
                tx = "idle"
                continue
            if op["op"] == "restart":
                k.fault("server_restart")
                server.crash(op["down_ms"] * MS)
                k.sleep(0.01)
                tx = "idle"
                continue
            if op["op"] == "reset":
                cancel_fails[0] = op["cancel_fails"]
                refuse[0] = 1 if op["refused"] else 0
                down = k.now < server.refused_until
                old = db.connection()
                kind, v = call(db.reset_connection)
                refused = op["refused"] and refuse[0] == 0
                cancel_fails[0], refuse[0] = False, 0
                ctx.check(old.closed and old._closed, f"{where}the old connection was not closed", "connection left open")
                k.sleep(1)
                ctx.check(not old._session.alive, f"{where}the old session is still open on the server", "session left open")
                if kind != "ok":
                    ctx.check(refused or down, f"{where}resetting failed: {short(v)}", "reset failed")
                    kind, v = call(db.reset_connection)
                    ctx.check(kind == "ok", f"{where}resetting after the server came back failed: {short(v)}", "reset failed")
                objects.append(db.connection())
                tx = "idle"
                alive = sessions()
                ctx.check(len(alive) == 1, f"{where}{len(alive)} sessions after the reset: {alive}", "session left open")
                ctx.check(v == alive[0].pid, f"{where}reported backend {v}, it is {alive[0].pid}", "wrong backend")
                ctx.state("reset", op["cancel_fails"], refused, lost)
                continue
            if op["op"] in ("begin", "rollback", "change"):
                n0 = len(server.log)
                if op["op"] == "begin":
                    if tx != "idle":
                        continue
                    kind, v = call(db.execute_query, "BEGIN", cache_enabled=False)
                elif op["op"] == "rollback":
                    kind, v = call(db.rollback_tx)
                    if lost:
                        continue
                else:
                    change_fail[0] = op["fail"]
                    kind, v = call(db.execute_query, f"INSERT INTO r VALUES ({TEXT_MARK + n}, -5, 0, 'x')", cache_enabled=False)
                    change_fail[0] = None
                sent = [norm_sql(s.sql) for s in server.log[n0:] if s.app == "PostBOUND"]
                ctx.state(op["op"], op.get("fail"), lost, tx, kind)
                if op["op"] == "rollback":
                    ctx.check(kind == "ok", f"{where}failed: {short(v)}", "rollback failed")
                    ctx.check(sessions()[0].tx is simpg.IDLE, f"{where}the transaction is still open", "rollback failed")
                    tx = "idle"
                    continue
                must_fail = lost or tx == "failed" or op.get("fail")
                if must_fail:
                    ctx.check(kind == "error" and isinstance(v, SERVER), f"{where}reported as {kind} {v!r:.200}", "wrong error class")
                    if tx == "open" and op.get("fail"):
                        tx = "failed"
                    failed_before = True
                else:
                    ctx.check(kind == "ok", f"{where}failed: {short(v)}", "failed without a reason")
                    ctx.check(v == [], f"{where}returned {v!r}", "wrong rows")
                    ctx.check(len(sent) == 1, f"{where}sent {sent}", "wrong statements")
                    if op["op"] == "begin":
                        tx = "open"
                continue
            # --- a query
            q = op["q"]
            i = n
            timed = op["timeout"] is not None
            sql = q["bad"].format(m=900_000 + i) if q.get("bad") else marked(i, q["tmpl"], q["x"])
            query = sql if q["form"] == "str" else parse(sql)
            preps = []
            if q.get("prep"):
                query = with_hints(query, q["prep"], "")
                preps = [norm_sql(x) for x in q["prep"].split(";") if x.strip()]
            prep_fail.clear()
            if q.get("prep_fail"):
                prep_fail[preps[0]] = ["armed", q["prep_fail"]]
            faults.queries[i] = q
            n0 = len(server.log)
            kw = {} if op["cache"] is None else {"cache_enabled": op["cache"]}
            kind, v = call(db.execute_query, query, raw=op["raw"], timeout=op["timeout"], **kw)
            app = "PostBOUND Timeout Worker" if timed else "PostBOUND"
            log = [s for s in server.log[n0:] if s.app == app and not norm_sql(s.sql).upper().startswith("SHOW ")
                   and not re.match(r"SELECT (VERSION|CURRENT_DATABASE)\(\)", norm_sql(s.sql), re.I)]
            if preps and (tx == "idle" or timed):    # may share a transaction with the preparatory statements
                log = [s for s in log if norm_sql(s.sql).upper() not in ("BEGIN", "COMMIT", "ROLLBACK")]
            if timed:
                mine = [s for s in log if marker_of(s.sql) == i]
                if preps and mine:
                    log = log[log.index(mine[0]) - len(preps):]
                elif not preps:
                    log = mine
                else:
                    log = None
            sent = None if log is None else [norm_sql(s.sql) for s in log]
            # expected outcome
            want_cls = None
            in_failed_tx = tx == "failed"    # timed queries read the settings of the main session
            if lost or in_failed_tx:
                want_cls = SERVER
            elif q.get("prep") in BAD_PREP:
                want_cls = USER
            elif q.get("prep_fail"):
                want_cls = expected_class(q["prep_fail"])
            elif q.get("fail"):
                want_cls = expected_class(q["fail"])
            elif q.get("bad"):
                want_cls = USER
            ctx.state("query", timed, q["form"], q.get("prep") in BAD_PREP, q.get("prep_fail"), q.get("fail"), bool(q.get("bad")), lost, tx, kind)
            ctx.nontrivial |= failed_before
            if want_cls is not None:
                failed_before = True
                ctx.check(kind == "error", f"{where}reported as {kind}: {v!r:.300}", "failure not reported")
                ctx.check(isinstance(v, want_cls), f"{where}reported as {short(v)}, expected a {want_cls.__name__}", "wrong error class")
                if tx == "open" and not timed:
                    tx = "failed"
                if not sessions():
                    tx = "idle"
                upto = sent or []
                full = preps + [norm_sql(sql)]
                ctx.check(timed or [canon(x) for x in upto] == [canon(x) for x in full[:len(upto)]], f"{where}sent {upto}, its own statements are {full}", "foreign statements")
                continue
            ctx.check(kind == "ok", f"{where}failed: {short(v)}", "failed without a reason")
            full = [canon(x) for x in preps + [norm_sql(sql)]]
            ctx.check([canon(x) for x in sent] == full, f"{where}sent {sent}, its own statements are {full}", "foreign statements")
            source = log[-1].session._db(False) if not timed else server.db
            want = [tuple(r) for r in source.run(sql).rows]
            want = want if op["raw"] else simplify(want)
            ctx.check(typed(v) == typed(want), f"{where}returned {v!r:.300} instead of {want!r:.300}", "wrong rows")
        call(db.close)
        k.sleep(5)
        left = [s for s in server.alive_sessions() if s.app.startswith("PostBOUND")]
        ctx.check(not left, f"after close() sessions are still open: {left}", "session left open")


def canon(sql: str) -> str:
    sql = re.sub(r"/\*.*?\*/", " ", sql, flags=re.S)
    return re.sub(r"\s+", " ", sql).strip().lower()


PROPS = {p.id: p() for p in (S05,)}
