"""S31: optimizer introspection: what the server's planner says about exactly that query under exactly its settings, without a trace."""
from __future__ import annotations

import math
import re
import warnings

import psycopg

from dst import simpg
from dst.kernel import MS

from . import Prop
from .common import MARK, TEMPLATES, call, make_server, marked, marker_of, norm_sql, parse, pb, short
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import transform

SETTINGS = {"work_mem": ["64MB", "512kB"], "geqo": ["off"], "join_collapse_limit": ["1", "3"], "random_page_cost": ["7"], "enable_nestloop": ["off"],
            "enable_seqscan": ["off"], "jit": ["off"]}
OPERATORS = {"NestedLoopJoin": (pb.JoinOperator.NestedLoopJoin, "enable_nestloop"), "HashJoin": (pb.JoinOperator.HashJoin, "enable_hashjoin"),
             "SortMergeJoin": (pb.JoinOperator.SortMergeJoin, "enable_mergejoin"), "SequentialScan": (pb.ScanOperator.SequentialScan, "enable_seqscan"),
             "IndexScan": (pb.ScanOperator.IndexScan, "enable_indexscan"), "IndexOnlyScan": (pb.ScanOperator.IndexOnlyScan, "enable_indexonlyscan"),
             "BitmapScan": (pb.ScanOperator.BitmapScan, "enable_bitmapscan"), "Memoize": (pb.IntermediateOperator.Memoize, "enable_memoize"),
             "Materialize": (pb.IntermediateOperator.Materialize, "enable_material"), "Sort": (pb.IntermediateOperator.Sort, "enable_sort")}
KNOBS = sorted(set(SETTINGS) | {s for _o, s in OPERATORS.values()})
MAPPED = {"Nested Loop": pb.JoinOperator.NestedLoopJoin, "Hash Join": pb.JoinOperator.HashJoin, "Merge Join": pb.JoinOperator.SortMergeJoin,
          "Seq Scan": pb.ScanOperator.SequentialScan, "Index Scan": pb.ScanOperator.IndexScan, "Index Only Scan": pb.ScanOperator.IndexOnlyScan,
          "Bitmap Heap Scan": pb.ScanOperator.BitmapScan, "Materialize": pb.IntermediateOperator.Materialize, "Memoize": pb.IntermediateOperator.Memoize,
          "Sort": pb.IntermediateOperator.Sort}
FAILS = ["internal", "undefined_table", "lose"]


# -- plans of the simulated planner

def plan_tree(rng, analyzed: bool):
    """A random plan in the format of EXPLAIN (FORMAT JSON), without its children's relationship to a parent."""

    def node(kind, rel, children=(), **extra):
        n = {"Node Type": kind, "Parallel Aware": False, "Async Capable": False, "Startup Cost": 0.0, "Total Cost": round(rng.uniform(1, 5000), 2),
             "Plan Rows": rng.choice([0, 1, rng.randrange(1, 10 ** 6)]), "Plan Width": rng.randrange(1, 100), **extra}
        if rel:
            n["Parent Relationship"] = rel
        if analyzed:
            n.update({"Actual Startup Time": 0.01, "Actual Total Time": round(rng.uniform(0.01, 9000), 3), "Actual Rows": rng.choice([0, 1, rng.randrange(10 ** 5)]),
                      "Actual Loops": rng.choice([1, 1, 1, rng.randrange(2, 50), 0]), "Shared Hit Blocks": rng.randrange(100), "Shared Read Blocks": rng.choice([0, rng.randrange(50)])})
        if children:
            n["Plans"] = list(children)
        return n

    def scan(t, rel):
        alias = rng.choice([t, t, t + "1"])
        kind = rng.choice(["Seq Scan", "Seq Scan", "Index Scan", "Index Only Scan", "Bitmap Heap Scan"])
        extra = {"Relation Name": t, "Alias": alias}
        if kind.startswith("Index"):
            extra["Index Name"] = f"{t}_pkey"
        kids = []
        if kind == "Bitmap Heap Scan":
            kids = [node("Bitmap Index Scan", "Outer", **{"Index Name": f"{t}_idx"})]
        if rng.random() < 0.1:
            extra["Filter"] = "(x < 3)"
            kids.insert(0, node("Result", rng.choice(["SubPlan", "InitPlan"]), **{"Subplan Name": "SubPlan 1"}))
        return node(kind, rel, kids, **extra)

    def build(tabs, rel, depth=0):
        if len(tabs) == 1:
            n = scan(tabs[0], rel)
        else:
            cut = rng.randrange(1, len(tabs))
            kind = rng.choice(["Nested Loop", "Hash Join", "Merge Join"])
            outer, inner = build(tabs[:cut], "Outer", depth + 1), build(tabs[cut:], "Inner", depth + 1)
            if kind == "Hash Join":
                inner["Parent Relationship"] = "Outer"
                inner = node("Hash", "Inner", [inner])
            elif rng.random() < 0.4:
                inner["Parent Relationship"] = "Outer"
                inner = node(rng.choice(["Sort"] if kind == "Merge Join" else ["Materialize", "Memoize"]), "Inner", [inner])
            n = node(kind, rel, [outer, inner] if rng.random() < 0.85 else [inner, outer], **{"Join Type": "Inner"})
        if rng.random() < 0.12:
            n["Parent Relationship"] = "Outer"
            w = rng.randrange(1, 4)
            extra = {"Workers Planned": w}
            if analyzed:
                extra["Workers Launched"] = rng.choice([w, w, 0])
            n = node(rng.choice(["Gather", "Gather Merge"]), rel, [n], **extra)
        return n

    tabs = ["r", "s", "t", "u"][:rng.randrange(1, 5)]
    rng.shuffle(tabs)
    if rng.random() < 0.1:
        root = node("Append", None, [build([t], "Member") for t in tabs])
    else:
        root = build(tabs, None)
    while rng.random() < 0.35:
        root["Parent Relationship"] = "Outer"
        root = node(rng.choice(["Aggregate", "Sort", "Limit", "Result", "Unique"]), None, [root])
    root.pop("Parent Relationship", None)
    return root


def same(a, b) -> bool:
    return a == b or (isinstance(a, float) and isinstance(b, float) and (math.isnan(a) and math.isnan(b) or math.isclose(a, b, rel_tol=1e-9)))


def compare(plan, raw, path="", factor=1):
    """The differences between a query plan and the plan the server reported."""
    diffs = []
    path = f"{path}/{raw['Node Type']}"

    def expect(name, got, want):
        if not same(got, want):
            diffs.append(f"{path}: {name} is {got!r} instead of {want!r}")

    expect("node type", plan.node_type, raw["Node Type"])
    expect("operator", plan.operator, MAPPED.get(raw["Node Type"]))
    want = None
    if "Relation Name" in raw:
        want = (raw["Relation Name"], raw["Alias"])
    tab = plan.base_table if not raw.get("Plans") or "Relation Name" in raw else plan.params.base_table
    expect("table", (tab.full_name, tab.identifier()) if tab is not None else None, want)
    expect("estimated cost", float(plan.estimated_cost), float(raw["Total Cost"]))
    expect("estimated cardinality", float(plan.estimated_cardinality), float(raw["Plan Rows"] * factor))
    rows = raw["Actual Rows"] * raw["Actual Loops"] if "Actual Rows" in raw else math.nan
    expect("actual cardinality", float(plan.actual_cardinality), float(rows))
    expect("execution time", float(plan.execution_time), raw["Actual Total Time"] / 1000 if "Actual Total Time" in raw else math.nan)
    expect("cache hits", plan.measures.cache_hits, raw.get("Shared Hit Blocks"))
    expect("cache misses", plan.measures.cache_misses, raw.get("Shared Read Blocks"))
    expect("index", plan.params.index or None, raw.get("Index Name"))
    expect("workers", plan.params.parallel_workers, raw.get("Workers Launched") or raw.get("Workers Planned") or 0)
    below = factor if factor > 1 else raw.get("Workers Planned", 0) + 1
    order = {"Outer": 0, "Inner": 1, "Member": 2}
    kids = sorted((c for c in raw.get("Plans", []) if c["Parent Relationship"] in order), key=lambda c: order[c["Parent Relationship"]])
    subs = [c for c in raw.get("Plans", []) if c["Parent Relationship"] not in order]
    expect("number of inputs", len(plan.children), len(kids))
    for got, child in zip(plan.children, kids):
        diffs += compare(got, child, path, below)
    expect("has a subplan", plan.subplan is not None, bool(subs))
    if subs and plan.subplan is not None:
        diffs += compare(plan.subplan.root, subs[0], path + "+", below)
    return diffs


class Introspect(Prop):
    id = "S31"
    quick_runs = 2500
    thorough_runs = 60000
    rule = "an introspection failed, timed out, or was asked for under settings of its own"
    state_measure = "what was asked for, the form of the query, its hints, the failure, cache, and the session's own settings"
    real = REAL + ["postbound.postgres (PostgresOptimizer, PostgresHintService, EXPLAIN parsing)", "postbound._qep", "postbound.transform"]
    stub = STUB + ["the planner (random plans per query, whose costs depend on the settings and hints in force)"]
    assumptions = ASSUMPTIONS + ["SET LOCAL has no effect outside of a transaction and is undone at its end"]
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        ops = []
        for _ in range(rng.randrange(2, 9)):
            r = rng.random()
            fault = None
            if rng.random() < 0.25:
                fault = [rng.choice([1, 1, 2, 2, 3, 4]), rng.choice(FAILS)]
            if r < 0.12:
                ops.append({"op": "configure", "operator": rng.choice(sorted(OPERATORS)), "enabled": rng.random() < 0.5, "fault": fault})
                continue
            if r < 0.2:
                s = rng.choice(sorted(SETTINGS))
                ops.append({"op": "set", "setting": s, "value": rng.choice(SETTINGS[s]), "fault": None})
                continue
            what = rng.choice(["plan", "plan", "card", "cost", "analyze", "analyze", "parse", "execute"])
            form = rng.choice(["obj", "hinted", "hinted", "str", "explained"])
            if what in ("analyze", "execute", "parse") and form in ("str", "explained"):
                form = "hinted"
            hints = {"settings": {}, "cards": False}
            if form == "hinted":
                hints = {"settings": {s: rng.choice(SETTINGS[s]) for s in rng.sample(sorted(SETTINGS), rng.choice([0, 1, 2]))}, "cards": rng.random() < 0.5}
            timeout = rng.choice([None, None, 0.5, 2.0]) if what in ("analyze", "execute") else None
            op = {"op": what, "form": form, "hints": hints, "q": [rng.randrange(1, 6), rng.randrange(len(TEMPLATES)), rng.randrange(6)], "timeout": timeout,
                  "dur_ms": rng.choice([1, 20, 1200, 3000]) if timeout else rng.choice([1, 20]), "fault": fault if timeout is None else None,
                  "plan": plan_tree(rng, what == "analyze"), "raw": rng.random() < 0.5}
            ops.append(op)
        return {"ops": ops, "data": rng.randrange(50), "cache": rng.random() < 0.6}

    def run(self, ctx, sc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.body(ctx, sc)

    def body(self, ctx, sc):
        server = make_server(ctx, sc)
        db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True, cache_enabled=sc["cache"])
        now = {"n": 0, "at": None, "fail": None, "fired": None, "op": None, "said": None}

        def on_statement(session, stmt):
            now["n"] += 1
            op = now["op"]
            spec = {}
            if marker_of(stmt.sql) is not None and op and "q" in op:
                spec["dur"] = op["dur_ms"] * MS
            if now["at"] == now["n"]:
                now["fired"] = stmt.sql
                spec["fail"] = now["fail"]
            return spec

        def explain(session, sql):
            op = now["op"]
            if marker_of(sql) is None or not op or "q" not in op:
                return planner(session, sql)
            raw = dict(op["plan"])
            raw["Total Cost"] = self.price(op["plan"]["Total Cost"], session.settings, sql)
            now["said"] = raw
            return simpg.Result(["QUERY PLAN"], [([{"Plan": raw}],)], 1)

        planner, server.explain = server.explain, explain
        server.on_statement = on_statement
        opt = db.optimizer()
        session_settings = self.settings(server)
        for i, op in enumerate(sc["ops"]):
            fault = op["fault"]
            hints = op.get("hints", {"settings": {}, "cards": False})
            query = None
            now.update(at=None, op=None)
            if "q" in op:
                query = parse(marked(*op["q"]))
                plain = str(query)
                if op["form"] == "hinted":
                    params = pb.PlanParameterization()
                    for s, v in hints["settings"].items():
                        params.set_system_settings(s, v)
                    if hints["cards"]:
                        params.add_cardinality(query.tables(), 42)
                    query = db.hinting().generate_hints(query, plan_parameters=params)
                elif op["form"] == "str":
                    query = plain
                elif op["form"] == "explained":
                    query = "EXPLAIN (FORMAT JSON) " + plain
                text = str(query)
            now.update(n=0, at=fault and fault[0], fail=fault and fault[1], fired=None, op=op, said=None)
            mark = len(server.log)
            what = f"op {i} ({op['op']}, {op.get('form')}, hints {hints}, timeout {op.get('timeout')} of {op.get('dur_ms')} ms, fault {fault}): "
            want_settings = dict(session_settings)
            match op["op"]:
                case "configure":
                    res = call(opt.configure_operator, OPERATORS[op["operator"]][0], enabled=op["enabled"])
                    want_settings[OPERATORS[op["operator"]][1]] = "on" if op["enabled"] else "off"
                case "set":
                    res = call(db.cursor().execute, f"SET {op['setting']} TO '{op['value']}'")
                    want_settings = self.settings(server)
                case "plan":
                    res = call(opt.query_plan, query)
                case "card":
                    res = call(opt.cardinality_estimate, query)
                case "cost":
                    res = call(opt.cost_estimate, query)
                case "analyze":
                    res = call(opt.analyze_plan, query, **({"timeout": op["timeout"]} if op["timeout"] or op["raw"] else {}))
                case "parse":
                    res = call(db.execute_query, transform.as_explain(query), cache_enabled=False, raw=op["raw"])
                case "execute":
                    res = call(db.execute_query, query, cache_enabled=False, raw=True, timeout=op["timeout"])
            got, value = res
            ctx.state(op["op"], op.get("form"), len(hints["settings"]), hints["cards"], fault and fault[1] and bool(now["fired"]), op.get("timeout") is None, got, sc["cache"])
            mine = [s for s in server.log[mark:] if marker_of(s.sql) is not None]
            if hints["settings"]:
                ctx.nontrivial = True
            if now["fired"]:
                ctx.nontrivial = True
                fine = got == "error" and isinstance(value, (pb.db.DatabaseServerError, pb.db.DatabaseUserError, psycopg.Error))
                if not (now["fired"].strip().upper() in ("ROLLBACK",)):
                    ctx.check(fine, f"{what}{short(value) if got != 'ok' else 'no error'} although {norm_sql(now['fired'])[:120]!r} failed", "failure not reported")
                want_settings = session_settings
            elif op.get("timeout") and op["dur_ms"] > op["timeout"] * 1000 + 1:
                ctx.nontrivial = True
                late = (got == "ok" and value is None) if op["op"] == "analyze" else got == "timeout"
                ctx.check(late, f"{what}{got} {short(value) if got == 'error' else ''} instead of a timeout", "timeout")
                ctx.k.sleep(2)
                ctx.check(all(s.end is not None and s.outcome != "ok" for s in mine), f"{what}the server still worked on it: {mine}", "not cancelled")
            elif op.get("timeout") and op["dur_ms"] > op["timeout"] * 1000 - 200:
                pass  # may go either way
            else:
                ctx.check(got == "ok", f"{what}{got} {short(value)} without a failure", "failed")
            if query is not None:
                ctx.check(str(query) == text, f"{what}the query became {query}", "query altered")
                for s in mine:
                    self.statement(ctx, what, op, s, plain, hints, session_settings)
                ctx.check(len(mine) == 1 or (now["fired"] and len(mine) <= 1), f"{what}{len(mine)} statements: {[norm_sql(s.sql)[:100] for s in mine]}", "number of statements")
                if got == "ok" and value is not None and now["said"] is not None:
                    self.answer(ctx, what, op, value, now["said"], opt)
            if db._connection.closed:
                db.reset_connection()
                session_settings = self.settings(server)
                continue
            s = self.main(server)
            ctx.check(s.tx == 0, f"{what}a transaction was left open", "transaction left open")
            after = self.settings(server)
            ctx.check(after == want_settings, f"{what}session settings changed: {sorted(set(after.items()) ^ set(want_settings.items()))}", "settings changed")
            session_settings = after
        db.close()

    @staticmethod
    def main(server):
        return [s for s in server.alive_sessions() if s.app == "PostBOUND"][-1]

    def settings(self, server) -> dict:
        return dict(self.main(server).settings)

    @staticmethod
    def price(base, settings, sql) -> float:
        extra = sum((n + 1) * 10_000 * (sum(map(ord, str(settings.get(k)))) % 97) for n, k in enumerate(KNOBS))
        return round(base + extra + (10 ** 7 if "Rows(" in sql else 0), 2)

    def statement(self, ctx, what, op, s, plain, hints, session_settings) -> None:
        m = re.match(r"\s*(?:/\*.*?\*/\s*)*EXPLAIN\s*(\([^)]*\))?", s.sql, re.S | re.I)
        analyzed = m is not None and "ANALYZE" in (m.group(1) or "").upper()
        kind = "execution" if m is None else "EXPLAIN ANALYZE" if analyzed else "EXPLAIN"
        want = {"execute": "execution", "analyze": "EXPLAIN ANALYZE"}.get(op["op"], "EXPLAIN")
        ctx.check(kind == want, f"{what}sent as {kind}: {norm_sql(s.sql)[:200]}", "query executed" if want == "EXPLAIN" else "not executed")
        body = re.sub(r"\s+", " ", s.sql[m.end():] if m else re.sub(r"/\*.*?\*/", " ", s.sql, flags=re.S)).strip().rstrip(";").lower()
        ctx.check(body == re.sub(r"\s+", " ", plain).strip().rstrip(";").lower(), f"{what}asked about {body!r} instead of {plain!r}", "another query")
        ctx.check(("Rows(" in s.sql) == hints["cards"], f"{what}hints: {norm_sql(s.sql)[:200]}", "hints")
        if op["timeout"] is None or s.app != "PostBOUND":
            for k in KNOBS:
                v = hints["settings"].get(k)
                ok = self.value(s.settings[k]) == self.value(v if v is not None else session_settings[k])
                ctx.check(ok, f"{what}{k} was {s.settings[k]} instead of {v if v is not None else session_settings[k]}", "settings not in force")

    @staticmethod
    def value(v):
        m = re.fullmatch(r"(\d+)\s*(kB|MB|GB)", str(v))
        return str(int(m.group(1)) * {"kB": 1, "MB": 1024, "GB": 1024 * 1024}[m.group(2)]) if m else str(v)

    def answer(self, ctx, what, op, value, raw, opt) -> None:
        match op["op"]:
            case "card":
                ctx.check(float(value) == float(raw["Plan Rows"]), f"{what}{value} instead of {raw['Plan Rows']}", "cardinality")
            case "cost":
                ctx.check(same(float(value), raw["Total Cost"]), f"{what}{value} instead of {raw['Total Cost']}", "cost")
            case "plan" | "analyze" | "parse":
                if op["op"] == "parse":
                    value = opt.parse_plan(value)
                diffs = compare(value, raw)
                ctx.check(not diffs, f"{what}{'; '.join(diffs[:4])}", "plan")


PROPS = {"S31": Introspect()}
