"""S13: what a benchmark sends to the server for each execution (scripted database and simulated PostgreSQL)."""
from __future__ import annotations

import re

from dst.kernel import MS, SEC, US

from postbound import bench
from postbound.workloads import Workload

from .bench import BenchProp, attempts, build, close, emptyish, gen_bench, run_bench, same_value, simplify_rows
from .common import Faults, call, make_server, marked, marker_of, norm_sql, parse, pb, pg, short, tables_of
from .scripted import Ev, Script, ScriptedPipeline

PG_PREP = ["SET geqo TO off;", "SET enable_nestloop TO off;", "SET enable_hashjoin TO 'off';", "SET work_mem TO '8MB';", "SET jit TO off;",
           "SET join_collapse_limit TO 1;", "SET max_parallel_workers_per_gather TO 0;", "SET statement_timeout TO 0;"]
PG_HINT_PREP = ["SET enable_mergejoin TO off;", "SET enable_nestloop TO on;", "SET geqo TO on; SET enable_indexscan TO off;",
                "SET random_page_cost TO 7;", "SET LOCAL work_mem TO '64MB';", "SET LOCAL enable_seqscan TO off; SET LOCAL geqo TO off;"]
STAR = ("star", "*")
COUNT = ("count_star", "count(*)")


def requested(i, q, prep) -> str:
    sql = norm_sql(marked(i, q["tmpl"], q["x"]))
    if prep["projection"] in STAR:
        sql = re.sub(r"^SELECT .*? FROM", "SELECT * FROM", sql)
    elif prep["projection"] in COUNT:
        sql = re.sub(r"^SELECT .*? FROM", "SELECT COUNT(*) FROM", sql)
    return sql


def canonical(sql: str) -> str:
    sql = re.sub(r"/\*.*?\*/", " ", sql, flags=re.S)
    return re.sub(r"\s+", " ", norm_sql(sql)).lower().replace("count( *)", "count(*)").strip()


def setting_value(value) -> str:
    text = str(value).lower()
    units = {"kb": 1, "mb": 1024, "gb": 1024 ** 2}
    return str(int(text[:-2]) * units[text[-2:]]) if text[-2:] in units and text[:-2].isdigit() else text


def check_form(ctx, where, sql, q, i, prep, hint, lead=False) -> None:
    bare = re.sub(r"^(set \w+ (to|=) [^;]*; ?)+", "", canonical(sql)) if lead else canonical(sql)
    pos = bare.index("select")
    prefix, rest = bare[:pos].strip(), bare[pos:]
    want = canonical(requested(i, q, prep))
    ctx.check(rest == want, f"{where}the server received {sql!r}, requested was {want!r}", "form: query")
    out = prep["output"]
    ok = {"default": prefix == "", "explain": prefix.startswith("explain") and "analyze" not in prefix,
          "analyze": prefix.startswith("explain") and "analyze" in prefix,
          "explain_analyze": prefix.startswith("explain") and "analyze" in prefix}[out]
    ctx.check(ok, f"{where}requested output {out}, but the server received {sql!r}", "form: output")
    if hint:
        ctx.check(hint in sql, f"{where}the hints {hint} of the optimized query are missing in {sql!r}", "form: hints")


class S13(BenchProp):
    id = "S13"
    quick_runs = 2200
    thorough_runs = 50000
    rule = ("A run executes one generated benchmark with query preparation on the scripted database or on a PostgresInterface connected to "
            "the simulated server, and compares the statements the server received with the requested preparation. Non-trivial: at "
            "least two executions. Distinct by event-log hash.")
    real = BenchProp.real + ["postbound.postgres (interface, timeout executor, hint backend) for half of the runs"]
    stub = BenchProp.stub + ["PostgreSQL server, driver and processes (dst.simpg, dst.simmp) for half of the runs"]
    state_measure = "distinct (engine, projection, output, prewarming, statements, timeout, outcome) combinations"

    def scenario(self, rng, tier):
        engine = rng.choice(["scripted", "pg"])
        sc = gen_bench(rng, n_queries=(1, 3), p_fail=0.06, p_opt_fail=0.05, error_action=rng.choice(["log", "log", "ignore", "raise"]))
        sc["engine"] = engine
        if sc["prep"] is None:
            sc["prep"] = {"projection": rng.choice(["none", "star", "count_star"]), "output": rng.choice(["default", "explain", "analyze"]),
                          "prewarm": rng.random() < 0.6, "preparatory_statements": ["SET prep_0 = 1;"]}
        if engine == "pg":
            sc["wreps"], sc["qreps"] = min(sc["wreps"], 2), min(sc["qreps"], 2)
            sc["prep"]["preparatory_statements"] = rng.sample(PG_PREP, rng.choice([0, 1, 2, 3]))
            sc["cfg"] = {"callback_us": sc["cfg"]["callback_us"]}
            for q in sc["queries"]:
                if sc["pipeline"]:
                    q["hint_prep"] = rng.choice(["", "", *PG_HINT_PREP])
                q["dur_us"] = q["plans"][0]["dur_us"]
                q.pop("plans")
                if rng.random() < 0.3:
                    q["fetch_us"] = rng.randrange(100_000, 900_000)
            sc["prep_us"] = rng.choice([None, None, rng.randrange(100_000, 800_000)])
            sc["online"] = False
            sc["cache"] = rng.choice([None, False, True])
            sc["stall"] = rng.random() < 0.2
            sc["sched"] = {"p_stay": rng.choice([0.5, 0.9]), "p_stall": 0.01 if sc["stall"] else 0, "stall_max": 200 * MS}
            if rng.random() < 0.25:
                rng.choice(sc["queries"])["fail"] = rng.choice(["internal", "undefined_table"])
        return sc

    def run(self, ctx, sc):
        (self.scripted if sc["engine"] == "scripted" else self.postgres)(ctx, sc)

    # -- scripted database: order, failures ------------------------------------------------------------------------------
    def scripted(self, ctx, sc):
        obs = run_bench(ctx, sc)
        prep = sc["prep"]
        queries = {q["i"]: q for q in sc["queries"]}
        stmts = [norm_sql(s) for s in prep["preparatory_statements"]]
        prewarm = prep["prewarm"] and prep["output"] != "explain" and sc["prewarm_support"]
        plan = (["prewarm"] if prewarm else []) + [("prep", s) for s in stmts]
        done: list = []
        opt = None
        for ev in obs.events:
            if ev.kind == "optimize":
                ctx.check(not done, f"the preparation {done} was not followed by its query, but by {ev}", "preparation: order")
                opt = ev
            elif ev.kind in ("prewarm", "prep"):
                item = "prewarm" if ev.kind == "prewarm" else ("prep", norm_sql(ev.sql))
                ctx.check(plan[:len(done)] == done and len(done) < len(plan) and plan[len(done)] == item,
                          f"after {done}, the server received {item} instead of {plan[len(done):][:1] or 'the query'}", "preparation: order")
                done.append(item)
                if ev.kind == "prewarm" and sc["pipeline"]:
                    want = sorted(tables_of(queries[opt.m]["tmpl"]))
                    ctx.check(ev.extra["tables"] == want, f"prewarming of {ev.extra['tables']} for a query on {want}", "preparation: prewarming")
                if ev.kind == "prep":
                    ctx.check(ev.extra["cache"] is False, f"preparatory statement {ev.sql} may be answered from the cache", "preparation: cache")
                last_prewarm = ev if ev.kind == "prewarm" else (last_prewarm if len(done) > 1 else None)
                if ev.outcome == "error":
                    done = []
            elif ev.kind == "exec":
                where = f"query {ev.m} execution {ev.n}: "
                ctx.check(done == plan, f"{where}prepared with {done} instead of {plan}", "preparation: incomplete")
                if prewarm:
                    want = sorted(tables_of(queries[ev.m]["tmpl"]))
                    ctx.check(last_prewarm.extra["tables"] == want, f"{where}prewarming of {last_prewarm.extra['tables']}", "preparation: prewarming")
                done = []
                hint = f"opt_{ev.m}_{opt.n} " if sc["pipeline"] and opt is not None else ""
                check_form(ctx, where, ev.sql, queries[ev.m], ev.m, prep, hint, lead=True)
                ctx.check(ev.extra["cache"] in (False, None) and ev.extra["timeout"] == sc["timeout"], f"{where}executed with {ev.extra}", "execution arguments")
                ctx.state("scripted", prep["projection"], prep["output"], prewarm, len(stmts), bool(sc["timeout"]), ev.outcome)
            elif ev.kind in ("callback", "feedback", "repetition"):
                ctx.check(not done, f"{ev.kind} between preparation {done} and execution", "preparation: order")

    # -- simulated PostgreSQL: statements, settings, runtimes, results ---------------------------------------------------------
    def postgres(self, ctx, sc):
        k = ctx.k
        server = make_server(ctx, {})
        queries = {q["i"]: q for q in sc["queries"]}
        faults = Faults(ctx, server, [], queries)
        slow = {norm_sql(x) for x in sc["prep"]["preparatory_statements"]} | {
            norm_sql(x) for q in sc["queries"] if isinstance(q.get("hint_prep"), str) for x in q["hint_prep"].split(";")}

        def on_statement(session, stmt):
            spec = faults.on_statement(session, stmt)
            if sc.get("prep_us") and norm_sql(stmt.sql) in slow:
                spec["dur"] = sc["prep_us"] * US
            return spec
        server.on_statement = on_statement
        db = pg.PostgresInterface("dbname=simdb host=localhost", **({} if sc["cache"] is None else {"cache_enabled": sc["cache"]}))
        script = Script(ctx, [{**q, "plans": [{}]} for q in sc["queries"]])
        objs = {q["label"]: parse(marked(q["i"], q["tmpl"], q["x"])) for q in sc["queries"]}
        on = ScriptedPipeline(script, db, []) if sc["pipeline"] else db
        prep = sc["prep"]
        starts = []
        kw = {}
        if sc["exec_cb"]:
            kw["exec_callback"] = lambda res: script.wait(sc["cfg"]["callback_us"])
        n0 = len(server.log)
        stall0 = k.stalled_ns
        kind, df = call(bench.execute_workload, Workload(objs), on, workload_repetitions=sc["wreps"], per_query_repetitions=sc["qreps"],
                        shuffled=sc["shuffled"], timeout=sc["timeout"], error_action=sc["error_action"],
                        query_preparation=bench.QueryPreparation(**prep) if sc["prep_obj"] else dict(prep), **kw)
        log = server.log[n0:]
        ctx.nontrivial = True
        stall = (k.stalled_ns - stall0) / SEC
        failing = any(q.get("fail") for q in sc["queries"]) or any(q.get("opt_fail") for q in sc["queries"])
        if kind != "ok":
            ctx.check(sc["error_action"] == "raise" and failing, f"the benchmark failed: {short(df)}", "benchmark failed")
        stmts = [norm_sql(s) for s in prep["preparatory_statements"]]
        prewarm = prep["prewarm"] and prep["output"] != "explain"
        done: list = []
        execs = []
        main = next(s.pid for s in server.all_sessions if s.app == "PostBOUND")
        hint_seen: list = []
        hint_texts = {norm_sql(x) for q in sc["queries"] if isinstance(q.get("hint_prep"), str) and q["hint_prep"]
                      for x in q["hint_prep"].split(";") if x.strip()} | {norm_sql(q["hint_prep"]) for q in sc["queries"]
                                                                         if isinstance(q.get("hint_prep"), str) and q["hint_prep"]}
        plan = (["prewarm"] if prewarm else []) + stmts
        preps: list = []
        relations: set = set()
        for s in log:
            sql = norm_sql(s.sql)
            m = marker_of(sql)
            if m is not None:
                where = f"query {m} ({s}): "
                q = queries[m]
                ctx.check(preps == plan, f"{where}prepared with {preps} instead of {plan}", "preparation: incomplete")
                if prewarm:
                    tabs = {x for x in relations if x in ("r", "s", "t", "u")}
                    ctx.check(tabs == set(tables_of(q["tmpl"])), f"{where}prewarming of {sorted(relations)}", "preparation: prewarming")
                own = q.get("hint_prep") or "" if sc["pipeline"] else ""
                want_hint = [norm_sql(x) for x in own.split(";") if x.strip()]
                got_hint = [x.strip() for pid, t in hint_seen if pid == s.pid for x in t.split(";") if x.strip()]
                ctx.check(got_hint == want_hint, f"{where}own preparatory statements {want_hint}, received on its session {got_hint}", "preparation: hints")
                hint = f"opt_{m}_" if sc["pipeline"] else ""
                check_form(ctx, where, s.sql, q, m, prep, hint)
                # immediately before: nothing but the last preparatory statement on this session (if there is one)
                if want_hint:
                    before = [x for x in log if x.pid == s.pid and x.n < s.n]
                    ctx.check(before and (norm_sql(before[-1].sql) in hint_texts), f"{where}preceded by {before[-1:]}", "preparation: not immediately before")
                elif s.pid == main and plan:
                    before = [x for x in log if x.pid == main and x.n < s.n and not x.sql.strip().upper().startswith("SHOW")]
                    last = norm_sql(before[-1].sql) if before else ""
                    ctx.check(bool(before) and (last == plan[-1] or plan[-1] == "prewarm"), f"{where}preceded by {before[-1:]}", "preparation: not immediately before")
                for text in stmts + want_hint:
                    mm = re.match(r"SET (?:LOCAL )?(\w+) TO '?([\w.]+)'?$", text, re.I)
                    final = [re.match(r"SET (?:LOCAL )?(\w+) TO '?([\w.]+)'?$", t, re.I).groups() for t in stmts + want_hint]
                    value = [v for name, v in final if name == mm.group(1)][-1]
                    if mm.group(1) == "statement_timeout":
                        continue
                    got = s.settings[mm.group(1)]
                    ctx.check(setting_value(got) == setting_value(value), f"{where}runs with {mm.group(1)}={got}, prepared was {value}", "settings not in force")
                preps, hint_seen, relations = [], [], set()
                execs.append(s)
                continue
            if "pg_prewarm(" in sql and "pg_prewarm'" not in sql:
                preps.append("prewarm")
                relations |= set(re.findall(r"pg_prewarm\('(\w+)'\)", sql))
            elif sql in stmts and s.pid == main:
                preps.append(sql)
            elif sql in hint_texts or any(x.strip() in hint_texts for x in sql.split(";")):
                hint_seen.append((s.pid, sql))
        if kind != "ok":
            return
        # rows: runtime of the final statement only, result as given by the server
        rows = df.to_dict("records")
        rows = [r for r in rows if r["status"] != "optimization-error"]
        if sc["error_action"] == "ignore":
            if stall and sc["timeout"] and any(queries[marker_of(s.sql)].get("fail") for s in execs):
                return    # which of a failure and a timeout comes first depends on the stall
            execs = [s for s in execs if s.outcome != "error"]
        ctx.check(len(rows) == len(execs), f"{len(rows)} rows for {len(execs)} executions on the server", "rows: wrong number")
        for row, s in zip(rows, execs):
            m = marker_of(s.sql)
            where = f"query {m} {s}: "
            if row["status"] == "ok":
                ctx.check(s.outcome == "ok", f"{where}reported as a success", "row status")
                dur = s.duration / SEC
                ctx.check(dur - 1e-9 <= row["exec_time"] <= dur + 0.1 + stall, f"{where}reported runtime {row['exec_time']}, the server took {dur}", "row runtime")
                if prep["output"] == "default":
                    want = simplify_rows([tuple(x) for x in server.db.run(requested(m, queries[m], prep)).rows])
                    ctx.check(same_value(row["query_result"], want), f"{where}recorded result {row['query_result']!r:.300}, server's {want!r:.300}", "row result")
                else:
                    ctx.check(not emptyish(row["query_result"]), f"{where}no plan was recorded", "row result")
            elif row["status"] == "timeout":
                ctx.check(sc["timeout"] is not None and row["exec_time"] == sc["timeout"], f"{where}exec_time {row['exec_time']} of a timeout", "row runtime")
            else:
                ctx.check(bool(queries[m].get("fail")), f"{where}recorded as {row['status']}: {row['failure_reason']}", "row status")
            ctx.state("pg", prep["projection"], prep["output"], prewarm, len(stmts), bool(sc["timeout"]), row["status"], sc["cache"])


PROPS = {p.id: p() for p in (S13,)}
