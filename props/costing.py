"""S35: the native cost model reports what the server's planner says about exactly the given plan."""
from __future__ import annotations

import math
import random
import re
import warnings

import psycopg

from dst import simpg

from . import Prop
from .common import call, make_server, parse, pb, short
from .hinting import NAMES, Received, inner_nodes, key, leaves, make_plan, plan_leaves, random_tree
from .introspect import same
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import opt, qal

COLS = {"r": ["id", "a", "b"], "s": ["id", "r_id", "c"], "t": ["id", "s_id", "d"], "u": ["id", "r_id", "e"]}
EDGES = [(0, "id", 1, "r_id"), (1, "id", 2, "s_id"), (0, "id", 3, "r_id")]
NODES = {"seq": "Seq Scan", "idx": "Index Scan", "idxonly": "Index Only Scan", "bitmap": "Bitmap Heap Scan", "nlj": "Nested Loop", "hash": "Hash Join", "merge": "Merge Join",
         "mat": "Materialize", "memo": "Memoize", "sort": "Sort"}
FAILS = ["internal", "undefined_table", "lose"]
ERRORS = (pb.db.DatabaseServerError, pb.db.DatabaseUserError)


def connected(rng, pool, n):
    """n of the tables that are connected by joins."""
    tabs = [rng.choice(sorted(pool))]
    while len(tabs) < n:
        near = [x for a, _, b, _ in EDGES for x, y in ((a, b), (b, a)) if y in tabs and x in pool and x not in tabs]
        if not near:
            break
        tabs.append(rng.choice(near))
    return sorted(tabs)


class Costing(Prop):
    id = "S35"
    quick_runs = 2500
    thorough_runs = 60000
    rule = "a request to the planner failed, or the cost of an intermediate operator, a sort or an index scan was asked for"
    state_measure = "the operator, the size of the plan and of the query, what the planner did with the hints, the failure, backend and error handling"
    real = REAL + ["postbound.opt.native (NativeCostModel)", "postbound.postgres (PostgresOptimizer, PostgresHintService, EXPLAIN parsing)", "postbound._qep", "postbound.transform"]
    stub = STUB + ["the planner (follows the hints or not, with random costs)"]
    assumptions = ASSUMPTIONS + ["The planner scans each table once and reports its aliases."]
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        tabs = connected(rng, {0, 1, 2, 3}, rng.choice([1, 2, 2, 3, 3, 4]))
        filters = [[i, rng.choice(COLS["rstu"[i]]), rng.choice(["<", ">", "="]), rng.randrange(9)] for i in tabs if rng.random() < 0.6]
        tail = rng.choice(["", "", "", "group", "order", "limit", "having"])
        ops = []
        for _ in range(rng.randrange(1, 7)):
            root = rng.choice(["plain", "plain", "idx", "idxonly", "mat", "mat", "memo", "memo", "sort", "sort"])
            sub = connected(rng, tabs, 1 if root.startswith("idx") else rng.randrange(1, len(tabs) + 1))
            if root in ("mat", "memo") and len(sub) == len(tabs) > 1 and rng.random() < 0.8:
                sub = connected(rng, tabs, len(tabs) - 1)
            tree = random_tree(rng, list(sub))

            def cards():
                return [rng.choice([3, 40, 17, 0, "nan"]), rng.choice(["nan", "nan", 5, 23])]

            def walk(t, inner=False):
                if isinstance(t, int):
                    return {"scan": t, "op": rng.choice(["seq", "seq", "idx", "idxonly", "bitmap"]), "cards": cards(), "subplan": False, "filter": rng.random() < 0.4, "lookup": None, "bits": 0}
                node = {"join": [walk(t[0]), walk(t[1], True)], "op": rng.choice(["nlj", "hash", "merge"]), "cards": cards(), "workers": 0}
                if inner and rng.random() < 0.4:
                    node = {"aux": "mat", "cards": cards(), "workers": 0, "key": None, "in": node}
                return node

            d = walk(tree)
            if root.startswith("idx"):
                d["op"] = root
            op = {"root": root, "sub": sub, "plan": d, "raise": rng.random() < 0.4, "obeys": rng.random() < 0.7, "swap": rng.random() < 0.5, "seed": rng.randrange(10 ** 6),
                  "fault": [rng.choice([1, 1, 2]), rng.choice(FAILS)] if rng.random() < 0.25 else None, "verbose": rng.random() < 0.5}
            if root == "memo":
                op["key"] = rng.choice([[i, c] for i in sub for c in COLS["rstu"[i]][:2]])
            if root == "sort":
                op["keys"] = [[[i, rng.choice(COLS["rstu"[i]])]] for i in rng.sample(sub, rng.choice([1, 1, min(2, len(sub))]))]
                if rng.random() < 0.3:
                    a, ca, b, cb = rng.choice(EDGES)
                    if a in sub and b in tabs:
                        op["keys"] = [rng.sample([[a, ca], [b, cb]], 2)]
                if rng.random() < 0.15:
                    op["expr"] = rng.randrange(len(op["keys"]))  # sorted by a value that is computed from the columns
            ops.append(op)
        return {"tabs": tabs, "alias": [rng.choice(["", "", f"x{i}"]) for i in range(4)], "filters": filters, "tail": tail, "star": rng.random() < 0.5, "ops": ops,
                "backend": rng.choice(["pg_hint_plan", "pg_lab"]), "cache": rng.random() < 0.4, "data": rng.randrange(50)}

    def run(self, ctx, sc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.body(ctx, sc)

    def body(self, ctx, sc):
        server = make_server(ctx, sc)
        server.extra_show = {"pg_hint_plan.enable_hint": "on"} if sc["backend"] == "pg_hint_plan" else {"enable_pglab": "on"}
        db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True, cache_enabled=sc["cache"])
        self.names = ["rstu"[i] if not sc["alias"][i] else sc["alias"][i] for i in range(4)]
        name = self.names
        conds = [([a, b], f"{name[a]}.{ca} = {name[b]}.{cb}") for a, ca, b, cb in EDGES if a in sc["tabs"] and b in sc["tabs"]]
        conds += [([i], f"{name[i]}.{c} {o} {v}") for i, c, o, v in sc["filters"]]
        first = name[sc["tabs"][0]]
        tail = {"": "", "group": f" GROUP BY {first}.id", "order": f" ORDER BY {first}.id", "limit": " LIMIT 3", "having": f" GROUP BY {first}.id HAVING COUNT(*) > 1"}[sc["tail"]]
        head = f"{first}.id" if sc["tail"] in ("group", "having", "order") or not sc["star"] else "*"
        sql = f"SELECT {head} FROM " + ", ".join("rstu"[i] + (f" AS {sc['alias'][i]}" if sc["alias"][i] else "") for i in sc["tabs"])
        sql += (" WHERE " + " AND ".join(c for _, c in conds) if conds else "") + tail
        query = parse(sql)
        T = {i: next(t for t in query.tables() if t.full_name == "rstu"[i]) for i in sc["tabs"]}
        now = {"op": None, "n": 0, "said": []}

        def on_statement(session, stmt):
            if "EXPLAIN" not in stmt.sql.upper() or now["op"] is None:
                return {}
            now["n"] += 1
            fault = now["op"]["fault"]
            if fault and fault[0] == now["n"]:
                now["said"].append((stmt.sql, None))
                return {"fail": fault[1]}
            return {}

        def explain(session, sql):
            if now["op"] is None:
                return planner(session, sql)
            raw, wanted = self.answer(now["op"], sql, sc)
            now["said"].append((sql, {"root": raw["Total Cost"], "wanted": wanted}))
            return simpg.Result(["QUERY PLAN"], [([{"Plan": raw}],)], 1)

        planner, server.explain = server.explain, explain
        server.on_statement = on_statement
        for i, op in enumerate(sc["ops"]):
            plan = make_plan(op["plan"], T, query)
            col = lambda x: qal.ColumnExpression(pb.ColumnReference(x[1], T[x[0]]))
            match op["root"]:
                case "mat":
                    plan = pb.QueryPlan("Materialize", operator=pb.IntermediateOperator.Materialize, children=[plan])
                case "memo":
                    plan = pb.QueryPlan("Memoize", operator=pb.IntermediateOperator.Memoize, children=[plan], lookup_key=col(op["key"]))
                case "sort":
                    keys = [pb.SortKey.of(col(k[0])) if len(k) == 1 else pb.SortKey.for_equivalence_class([col(x) for x in k]) for k in op["keys"]]
                    if "expr" in op:
                        keys[op["expr"]] = pb.SortKey.of(qal.FunctionExpression("abs", [col(op["keys"][op["expr"]][0])]))
                    plan = pb.QueryPlan("Sort", operator=pb.IntermediateOperator.Sort, children=[plan], sort_keys=keys)
            model = opt.native.NativeCostModel(raise_on_error=op["raise"], verbose=op["verbose"])
            now.update(op=op, n=0, said=[])
            mark = len(server.log)
            model.initialize(db, query)
            text = str(query)
            res = call(model.estimate_cost, query, plan)
            now["op"] = None
            what = f"op {i} ({op['root']} over {op['sub']} of {sql!r}, obeys={op['obeys']}, fault={op['fault']}, raise_on_error={op['raise']}): "
            ctx.state(op["root"], len(op["sub"]), len(sc["tabs"]), op["obeys"], op["fault"], sc["backend"], op["raise"], res[0])
            if op["root"] != "plain" or any(s is None for _, s in now["said"]):
                ctx.nontrivial = True
            ctx.check(str(query) == text, f"{what}the query became {query}", "query altered")
            self.judge(ctx, sc, op, conds, now["said"], res, what)
            other = [s.sql for s in server.log[mark:] if re.search(r"\bSELECT\b", s.sql, re.I) and not re.search("EXPLAIN", s.sql, re.I) and "information_schema" not in s.sql and "pg_" not in s.sql]
            ctx.check(not other, f"{what}executed {other}", "query executed")
            if db._connection.closed:
                db.reset_connection()
        db.close()

    # -- the planner

    def answer(self, op, sql, sc):
        """(plan, cost of the node that was asked for or None if it is not there)"""
        rng = random.Random(op["seed"] + len(sql))
        tabs = self.asked(sql)
        ids = {n: i for i, n in enumerate(self.names)}

        def node(kind, kids=(), **extra):
            out = {"Node Type": kind, "Startup Cost": 0.0, "Total Cost": round(rng.uniform(1, 5000), 2), "Plan Rows": rng.randrange(1, 1000), "Plan Width": 8, **extra}
            for rel, k in zip(("Outer", "Inner"), kids):
                k["Parent Relationship"] = rel
            if kids:
                out["Plans"] = list(kids)
            return out

        def scan(i, kind):
            n = node(kind, **{"Relation Name": "rstu"[i], "Alias": self.names[i]})
            if kind.startswith("Index"):
                n["Index Name"] = "some_idx"
            return n

        def build(d):
            if "scan" in d:
                return scan(d["scan"], NODES[d["op"]])
            if "aux" in d:
                return node(NODES[d["aux"]], [build(d["in"])])
            a, b = (build(x) for x in d["join"])
            return node(NODES[d["op"]], [a, node("Hash", [b]) if d["op"] == "hash" else b])

        extra = sorted(ids[t] for t in tabs if ids.get(t) not in op["sub"])
        root = build(op["plan"])
        wanted = root
        if op["root"] in ("idx", "idxonly") and not op["obeys"]:
            root, wanted = scan(op["sub"][0], rng.choice(["Seq Scan", "Bitmap Heap Scan", "Index Only Scan" if op["root"] == "idx" else "Index Scan"])), None
        if op["root"] in ("mat", "memo"):
            if op["obeys"]:
                root = wanted = node(NODES[op["root"]], [root])
            else:
                wanted = None
        for i in extra:
            other = scan(i, "Seq Scan")
            if not op["obeys"] and op["swap"]:
                other = node(NODES.get(op["root"], "Materialize"), [other])  # the operator is used, but somewhere else
            root = node("Nested Loop", [root, other] if op["swap"] else [other, root])
        if "ORDER BY" in sql.upper():
            root = node("Sort", [root])
        if "COUNT(" in sql.upper():
            root = node("Aggregate", [root])
        return root, wanted and wanted["Total Cost"]

    @staticmethod
    def asked(sql):
        m = re.search(r"\bFROM\s+(.*?)(?:\bWHERE\b|\bGROUP BY\b|\bORDER BY\b|\bLIMIT\b|\bHAVING\b|;|$)", sql, re.S | re.I)
        return [part.split()[-1] for part in m.group(1).split(",")] if m else []

    # -- the oracle

    def judge(self, ctx, sc, op, conds, said, res, what):
        got, value = res
        whole = len(op["sub"]) == len(sc["tabs"])
        names = lambda ids: frozenset(self.names[i] for i in ids)
        free = [i for i in sc["tabs"] if i not in op["sub"]]
        inter = op["root"] in ("mat", "memo")
        if inter and whole:
            ctx.check(got == "error" and isinstance(value, ValueError), f"{what}{short(value)}, although this cannot be the final operator", "not refused")
            return
        partners = [x for a, _, b, _ in EDGES for x, y in ((a, b), (b, a)) if x in free and y in op["sub"]]
        if op["root"] == "memo":
            k = op["key"][0]
            partners = [x for a, _, b, _ in EDGES for x, y in ((a, b), (b, a)) if x in free and y == k]
        for n, (sql, _) in enumerate(said):
            self.statement(ctx, sc, op, conds, sql, partners if inter else [], n, what, names)
        index = op["plan"].get("op") in ("idx", "idxonly") and "scan" in op["plan"] and not inter
        limit = 2 if index else 1
        ctx.check(len(said) <= limit, f"{what}{len(said)} requests", "number of requests")
        if inter and not partners:
            ctx.check(got == "ok" and math.isinf(value) and not said, f"{what}{got} {short(value)} with {len(said)} requests, but there is nothing to join with", "made-up cost")
            return
        if "expr" in op and not said:
            # there is no query for that
            fine = got == "ok" and math.isinf(value) or op["raise"] and got == "error" and isinstance(value, ERRORS)
            ctx.check(fine, f"{what}{got} {short(value)} for a sort by an expression", "failure not priced")
            return
        ctx.check(bool(said), f"{what}{got} {short(value)} without asking the planner", "planner not asked")
        last = said[-1][1]
        want = None
        if last is not None:
            if inter:
                want = last["wanted"]
            elif len(said) == 2:
                want = last["wanted"]
            else:
                want = last["root"]
        if index and len(said) == 1:
            ctx.check(last is not None or op["fault"][1] == "lose", f"{what}{got} {short(value)} after the only request failed", "gave up early")
        if last is None and op["fault"][1] == "lose" and got == "error" and isinstance(value, ERRORS):
            return  # the hints cannot be generated without a connection
        if want is not None:
            ctx.check(got == "ok" and same(float(value), want), f"{what}{got} {short(value)} instead of {want} for {said[-1][0]!r}", "wrong cost")
        elif op["raise"] and not inter:
            ctx.check(got == "error" and isinstance(value, ERRORS), f"{what}{got} {short(value)} instead of an error", "failure not reported")
        else:
            ctx.check(got == "ok" and math.isinf(value), f"{what}{got} {short(value)} instead of infinite costs", "failure not priced")

    def statement(self, ctx, sc, op, conds, sql, partners, n, what, names):
        rec = Received(sql, sc["backend"])
        ctx.check(not rec.problems and rec.present, f"{what}hints {sql!r}: {rec.problems}", "hints")
        m = re.match(r"EXPLAIN\s*(\([^)]*\))?\s*", rec.rest, re.I)
        ctx.check(m is not None and "ANALYZE" not in m.group(0).upper(), f"{what}sent {sql!r}", "query executed")
        tabs = self.asked(rec.rest)
        extra = [t for t in tabs if t not in names(op["sub"])]
        fine = len(set(tabs)) == len(tabs) and names(op["sub"]) <= set(tabs) and (set(extra) <= names(partners) and len(extra) == 1 if partners else not extra)
        ctx.check(fine, f"{what}asked about {tabs} instead of {sorted(names(op['sub']))}{' and one of ' + str(sorted(names(partners))) if partners else ''}: {sql!r}", "other tables")
        ids = [i for i in range(4) if self.names[i] in tabs]
        where = re.search(r"\bWHERE\b(.*?)(?:\bGROUP BY\b|\bORDER BY\b|\bLIMIT\b|\bHAVING\b|;|$)", rec.rest, re.I | re.S)
        got = sorted(re.sub(r"\s+", " ", c).strip() for c in re.split(r"\bAND\b", where.group(1))) if where else []
        flip = lambda c: " = ".join(sorted(c.split(" = "))) if " = " in c else c
        want = [c for ts, c in conds if set(ts) <= set(ids)]
        ctx.check(sorted(map(flip, got)) == sorted(map(flip, want)), f"{what}asked about {got} instead of {want}: {sql!r}", "other predicates")
        order = re.search(r"\bORDER BY\b(.*?)(?:\bLIMIT\b|;|$)", rec.rest, re.I | re.S)
        if op["root"] == "sort" and "expr" not in op:
            cols = [c.strip().split()[0] for c in order.group(1).split(",")] if order else []
            fine = len(cols) == len(op["keys"]) and all(c in [f"{self.names[i]}.{x}" for i, x in k if i in op["sub"]] for c, k in zip(cols, op["keys"]))
            ctx.check(fine, f"{what}sorted by {cols} instead of {op['keys']}: {sql!r}", "other sort order")
        nodes = NAMES[sc["backend"]]

        def hinted(d):
            ks = names(plan_leaves(d))
            if "aux" in d:
                if d["aux"] in nodes:
                    ctx.check(bool(set(rec.ops.get((ks, "inter"), [])) & nodes[d["aux"]]), f"{what}no {d['aux']} of {sorted(ks)} in {sql!r}", "operator not hinted")
                hinted(d["in"])
                return
            ctx.check(bool(set(rec.ops.get((ks, "node"), [])) & nodes[d["op"]]), f"{what}no {d['op']} of {sorted(ks)} in {sql!r}", "operator not hinted")
            if "join" in d:
                est, act = d["cards"]
                rows = est if act == "nan" else act
                ctx.check(rec.cards.get(ks, []) == ([float(rows)] if rows != "nan" else []), f"{what}cardinality of {sorted(ks)} is not {rows} in {sql!r}", "cardinality not hinted")
                for x in d["join"]:
                    hinted(x)

        hinted(op["plan"])
        if op["root"] in nodes and op["root"] in ("mat", "memo"):
            ks = names(op["sub"])
            ctx.check(bool(set(rec.ops.get((ks, "inter"), [])) & nodes[op["root"]]), f"{what}no {op['root']} of {sorted(ks)} in {sql!r}", "operator not hinted")


PROPS = {"S35": Costing()}
