"""S17: optimized and rewritten queries return the rows of the original one."""
from __future__ import annotations

import re
import warnings

import psycopg

from dst import boot, simduck

from . import Prop, optimizing, sqlgen
from .common import call, dataset, make_server, parse, pb, short
from .duck import Truth, open_db
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import opt, transform, util, validation
from postbound.parser import ParserError

REFUSALS = (validation.UnsupportedQueryError, pb.db.UnsupportedDatabaseFeatureError, ParserError)
ENGINE_LIMITS = (simduck.real.InternalException, simduck.real.NotImplementedException)
REWRITES = ["reparse", "quick", "flat", "ec", "flatten", "rename", "hints", "columns", "whole"]
PG_STAGES = {
    "integrated": [["native"], ["random:plan"]],
    "emulated": [[x] for x in ("join:native", "join:ues", "ops:native", "param:native", "card:native", "random:order", "random:ops")],
    "multi": None,
    "textbook": [["enum:dp", "cost:native", "card:native"], ["enum:pg", "cost:native", "card:native"], ["enum:pg", "cost:native", "card:distorted"], ["enum:random", "cost:native", "card:native"]],
    "incremental": [["native"], ["native", "step"], ["step"]],
}


def stage(name, db, watch):
    match name:
        case "random:order":
            return opt.randomized.RandomJoinOrderOptimizer(generator_args={"tree_structure": "bushy"})
        case "random:ops":
            return opt.randomized.RandomOperatorOptimizer()
        case "random:plan":
            return opt.randomized.RandomPlanOptimizer(database=db)
        case "enum:random":
            return opt.dynprog.DynamicProgrammingEnumerator(target_db=db)
    return optimizing.stage(name, db, watch)


class Quiet(optimizing.Watch):
    def start(self, obj, query):
        pass

    def stop(self, obj):
        pass

    def use(self, obj):
        pass


def build(sc, db):
    """The pipeline of a scenario, or None."""
    kind = sc["kind"]
    if kind == "none":
        return None
    watch = Quiet()
    st = [stage(n, db, watch) for n in sc["stages"]]
    match kind:
        case "integrated":
            return pb.IntegratedOptimizationPipeline(db).use(st[0]).build()
        case "emulated":
            return pb.IntegratedOptimizationPipeline(db).use(pb.as_complete_algorithm(st[0], database=db)).build()
        case "multi":
            p = pb.MultiStageOptimizationPipeline(db)
        case "textbook":
            p = pb.TextBookOptimizationPipeline(db)
        case "incremental":
            p = pb.IncrementalOptimizationPipeline(db)
    for s in st:
        p.use(s)
    return p.build() if kind != "incremental" else p


def rewrite(name, query, rng_pick):
    match name:
        case "reparse":
            return parse(str(query))
        case "quick":
            return parse(pb.qal.format_quick(query))
        case "flat":
            return transform.explicit_to_implicit(query)
        case "ec":
            return transform.add_ec_predicates(query)
        case "flatten":
            if isinstance(query, pb.qal.SetQuery) or not query.where_clause:
                return query
            return transform.replace_clause(query, pb.qal.Where(transform.flatten_and_predicate(query.where_clause.predicate)))
        case "rename":
            tab = sorted(query.tables(), key=str)
            tab = tab[rng_pick % len(tab)]
            return transform.rename_table(query, tab, pb.TableReference(tab.full_name, "renamed"))
        case "hints":
            return transform.drop_hints(transform.add_clause(query, pb.qal.Hint("", "/*+ x */")))
        case "whole":
            if not isinstance(query, pb.qal.ImplicitSqlQuery) or query.cte_clause or str(query).count("SELECT") > 1:
                return query
            return transform.extract_query_fragment(query, query.tables())
        case "columns":
            return transform.replace_clause(query, query.select_clause)
    raise KeyError(name)


def normal(rows, ordered: bool, star: bool):
    rows = [tuple(r) for r in rows or []]
    if star:
        rows = [tuple(sorted(r, key=repr)) for r in rows]
    return rows if ordered else sorted(rows, key=repr)


def fragment(q, keep):
    """The part of a select-project-join query over some of its tables, built by hand."""
    tabs = q["tabs"]
    names = [sqlgen.ref(tabs, i) for i in range(len(tabs))]

    def within(p):
        return all(names.index(n) in keep for n in set(re.findall(r"\b(\w+)\.\w+", p)) if n in names)

    src = ", ".join(tabs[i][0] + (f" AS {tabs[i][1]}" if tabs[i][1] else "") for i in sorted(keep))
    where = [f"{names[i]}.{mc} = {names[k]}.{oc}" for i in sorted(keep) for mc, k, oc in tabs[i][2] if k in keep]
    where += [p for p in q["where"] if within(p)]
    return f"SELECT COUNT(*) FROM {src}" + (" WHERE " + " AND ".join(where) if where else "")


def constants(rng):
    """A query that joins a table with the constant rows of a CTE."""
    tab = rng.choice("rstu")
    cols = sqlgen.num_cols(tab)
    return {"tab": tab, "join": rng.choice(cols), "show": rng.sample(cols, 2), "rows": [[rng.randrange(8), rng.randrange(40)] for _ in range(rng.randrange(1, 4))],
            "values": rng.random() < 0.7, "second": rng.random() < 0.4, "filter": rng.randrange(6) if rng.random() < 0.4 else None, "materialized": rng.choice(["", "", "MATERIALIZED "]),
            "rewrite": rng.choice(["reparse", "quick", "table", "table", "column", "column", "cte column", "both"])}


class Rewritten(Prop):
    id = "S17"
    native_engine = True
    quick_runs = 2500
    thorough_runs = 60000
    rule = "an optimized or rewritten query was executed"
    state_measure = "system, pipeline, rewrites, class of the query and the fault"
    real = REAL + ["postbound._pipelines", "postbound._stages", "postbound.opt", "postbound.transform", "postbound.duckdb", "the DuckDB engine itself (quacklab)"]
    stub = STUB + ["the planner of the simulated PostgreSQL server (ignores hints)", "rows of the simulated PostgreSQL server (computed by SQLite)", "duration and failure of DuckDB statements"]
    assumptions = ASSUMPTIONS
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        system = rng.choice(["pg", "pg", "duck"])
        kind = rng.choice(["none", "integrated", "integrated", "emulated", "emulated", "multi", "multi", "textbook", "incremental"])
        stages = []
        if kind == "multi":
            stages = [rng.choice([None, "join:native", "join:ues", "random:order"]), rng.choice([None, "ops:native", "ops:ues", "random:ops"]),
                      rng.choice([None, "param:native", "card:native", "card:distorted"])]
            stages = [s for s in stages if s]
        elif kind != "none":
            stages = rng.choice(PG_STAGES[kind])
        ops = []
        for _ in range(rng.randrange(1, 5)):
            spj = rng.random() < (0.5 if kind in ("none", "integrated") else 0.8)
            q = sqlgen.query(rng, spj=spj, n_max=5)
            joins = rng.random() < 0.12
            if joins:
                # inner joins only, which can be written without them
                spj = False
                while q["style"] != "explicit" or len(q["tabs"]) < 2 or (rng.random() < 0.5 and not q.get("having")):
                    q = sqlgen.query(rng, n_max=3)
                q["kinds"] = [rng.choice(["JOIN", "INNER JOIN"]) for _ in q["tabs"]]
            fault = None
            if rng.random() < 0.25:
                fault = {"at": rng.choice([1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 40)]), "fail": rng.choice(["internal", "lose"] if system == "pg" else ["oom", "io", "internal"])}
            ops.append({"q": q, "rewrites": ["flat"] if joins else [] if rng.random() < 0.4 else rng.sample(REWRITES, rng.choice([1, 1, 2])), "pick": rng.randrange(60), "fault": fault,
                        "bind": rng.random() < 0.4, "keep": sorted(rng.sample(range(len(q["tabs"])), rng.randrange(1, len(q["tabs"]) + 1))) if spj and rng.random() < 0.5 else None,
                        "form": rng.choice(["query", "query", "query", "str"]), "swap": rng.randrange(60) if rng.random() < 0.4 else None,
                        "aliases": rng.randrange(600) if rng.random() < 0.3 else None, "with": constants(rng) if rng.random() < 0.15 else None})
        return {"system": system, "kind": kind, "stages": stages, "backend": rng.choice(["pg_hint_plan", "pg_lab"]), "ops": ops, "data": rng.randrange(50)}

    def shrink(self, sc):
        for i, op in enumerate(sc["ops"]):
            def put(**kw):
                return {**sc, "ops": sc["ops"][:i] + [{**op, **kw}] + sc["ops"][i + 1:]}
            for q in sqlgen.simpler(op["q"]):
                yield put(q=q)
            for j in range(len(op["rewrites"])):
                yield put(rewrites=op["rewrites"][:j] + op["rewrites"][j + 1:])
            if op["fault"]:
                yield put(fault=None)
            if op["bind"]:
                yield put(bind=False)
            if op["form"] != "query":
                yield put(form="query")
        if sc["kind"] != "none":
            yield {**sc, "kind": "none", "stages": []}

    def run(self, ctx, sc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.body(ctx, sc)

    def open(self, ctx, sc):
        if sc["system"] == "pg":
            server = make_server(ctx, sc)
            server.extra_show = {"pg_hint_plan.enable_hint": "on"} if sc["backend"] == "pg_hint_plan" else {"enable_pglab": "on"}
            db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True, cache_enabled=False)
            return server, db, lambda sql: server.db.run(sql).rows
        engine, path = open_db(ctx, sc, script=dataset(sc["data"]).replace("ON DELETE CASCADE", ""))
        db = pb.duckdb.connect(path, refresh=True)
        return engine, db, Truth(path).rows

    def body(self, ctx, sc):
        host, db, reference = self.open(ctx, sc)
        pg = sc["system"] == "pg"
        if not pg and "enum:pg" in sc["stages"]:
            return   # made for PostgreSQL only
        kind, pipe = call(build, sc, db)
        if kind != "ok":
            ctx.check(isinstance(pipe, (validation.UnsupportedSystemError, pb.db.UnsupportedDatabaseFeatureError)), f"building {sc['kind']} {sc['stages']} on {sc['system']}: {short(pipe)}", "building failed")
            return
        now = {"n": 0, "q": None, "wrong": None, "at": None, "fail": None, "fired": None}

        def on_statement(_session, stmt):
            now["n"] += 1
            wrong = foreign(stmt.sql) if now["q"] else None
            if wrong:
                now["wrong"] = f"hints and query disagree about {wrong}: {stmt.sql}"
            if wrong is not None:
                ctx.probe("join order of a statement")
            if now["at"] == now["n"]:
                now["fired"] = stmt.sql
                return {"fail": now["fail"]}
            return {}

        host.on_statement = on_statement
        for i, op in enumerate(sc["ops"]):
            q = op["q"]
            sql = sqlgen.render(q)
            if pg and not pg_can(q, sql):
                ctx.probe("not for the simulated PostgreSQL")
                continue
            k, rows = call(reference, sql)
            if k != "ok":
                ctx.probe("refused by the engine itself")
                continue
            k, query = call(pb.parse_query, sql, bind_columns=op["bind"] and pg)
            if k != "ok":
                ctx.check(isinstance(query, ParserError), f"parsing {sql}: {short(query)}", "parsing failed")
                continue
            if op["keep"] is not None:
                self.fragments(ctx, op, query, reference)
            if op.get("swap") is not None:
                self.swapped(ctx, op, sql, reference)
            if op.get("aliases") is not None:
                self.realiased(ctx, op, sql, reference)
            if op.get("with"):
                self.constant(ctx, sc, op["with"], reference)
            star = any("*" in x and "(" not in x for x in q["items"])
            want = normal(rows, sqlgen.ordered(q), star)
            for attempt in ("first", "retry"):
                fault = op["fault"] if attempt == "first" else None
                now.update(n=0, q=pg and plain(q, sc) and " OR " not in sql, at=fault and fault["at"], fail=fault and fault["fail"], fired=None)
                chain = op["rewrites"]
                what = f"op {i} ({attempt}, {sc['system']} {sc['kind']} {sc['stages']} {chain}) {sql!r}: "
                before = self.settings(host) if pg else None
                text = str(query)
                k, value = self.process(sc, op, pipe, db, query)
                now["at"] = None
                ctx.check(not now["wrong"], f"{what}{now['wrong']}", "foreign hints")
                ctx.check(str(query) == text, f"{what}the input query became {query}", "query altered")
                if now["fired"]:
                    ctx.k.event(f"failed {now['fired'][:80]}")
                    # pipelines may handle failures of single estimates
                    if k == "error":
                        ctx.check(isinstance(value, (pb.db.DatabaseServerError, pb.db.DatabaseUserError, psycopg.Error, simduck.real.Error)), f"{what}{short(value)} after {now['fired']!r} failed", "failure not reported")
                    if pg and db._connection.closed:
                        db.reset_connection()
                if k == "refused":
                    ctx.probe("refused")
                    break
                if k == "error" and not now["fired"] and (pipe is not None and (isinstance(value, ENGINE_LIMITS) or not plain(q, sc) and isinstance(value, simduck.real.Error)) or "optimizing" in value.__notes__ and (not plain(q, sc) or folded(sc, sql, reference))):
                    # outside of what the optimizers support, or what the engine can do with hints
                    ctx.probe("cannot be optimized")
                    ctx.k.event(type(value).__name__)
                    if isinstance(value, ENGINE_LIMITS):
                        return
                    break
                if not now["fired"]:
                    ctx.check(k == "ok", f"{what}{short(value)} while {getattr(value, '__notes__', '')}", f"failed while {getattr(value, '__notes__', '')}: {type(value).__name__}")
                if k == "ok":
                    ctx.nontrivial = True
                    optimized, result = value
                    got = normal(result, sqlgen.ordered(q), star)
                    ctx.check(got == want, f"{what}{len(got)} rows {got[:6]} instead of {len(want)} rows {want[:6]}; executed {optimized}", "different rows")
                if pg:
                    after = self.settings(host)
                    ctx.check(after == before or fault and fault["fail"] == "lose", f"{what}session settings changed: {set(after.items()) ^ set(before.items())}", "settings changed")
                ctx.state(sc["system"], sc["kind"], "+".join(sc["stages"]), "+".join(chain), len(q["tabs"]), q["style"], bool(q["group"]), bool(q.get("union")), fault and fault["fail"], bool(now["fired"]), k)
                if not now["fired"]:
                    break
        db.close()

    def process(self, sc, op, pipe, db, query):
        stage = "rewriting"
        try:
            for name in op["rewrites"]:
                try:
                    query = rewrite(name, query, op["pick"])
                except (ValueError, pb.qal._qal.QueryTypeError, *REFUSALS):
                    if not may_refuse(name, op["q"]):
                        raise
                    continue
            stage = "optimizing"
            optimized = query if pipe is None else pipe.optimize_query(query)
            stage = "executing"
            arg = str(optimized) if op["form"] == "str" and pipe is None else optimized
            return "ok", (optimized, db.execute_query(arg, cache_enabled=False, raw=True))
        except REFUSALS as e:
            return "refused", e
        except Exception as e:  # noqa: BLE001
            from dst.kernel import HarnessError, Violation
            if isinstance(e, (HarnessError, Violation)):
                raise
            e.add_note(stage)
            return "error", e

    def fragments(self, ctx, op, query, reference):
        q = op["q"]
        if op["pick"] % 3 == 0 and all(re.fullmatch(r"\w+\.\w+", x) for x in q["items"]):
            q = {**q, "items": ["DISTINCT", *q["items"]]}
            query = sqlgen.render(q)
        tabs = {pb.TableReference(q["tabs"][k][0], q["tabs"][k][1]) for k in op["keep"]}
        by_hand = fragment(q, set(op["keep"]))
        k, f = call(transform.extract_query_fragment, parse(sqlgen.render(q)), tabs, projection="count_star")
        ctx.check(k == "ok", f"fragment {sorted(map(str, tabs))} of {query}: {short(f) if k != 'ok' else ''}", "fragment failed")
        a, b = reference(by_hand), call(reference, str(f))
        ctx.check(b[0] == "ok" and [tuple(r) for r in a] == [tuple(r) for r in b[1]], f"fragment {op['keep']} of {query} is {f} with {b[1]} instead of {by_hand} with {a}", "wrong fragment")
        names = {sqlgen.ref(q["tabs"], i): i for i in range(len(q["tabs"]))}
        distinct = q["items"][0] == "DISTINCT"
        items = q["items"][distinct:]
        if all(x == "COUNT(*)" or re.fullmatch(r"\w+\.\w+", x) and names[x.split(".")[0]] in op["keep"] for x in items):
            by_hand = by_hand.replace("COUNT(*)", "DISTINCT " * distinct + ", ".join(items), 1)
            k, f = call(transform.extract_query_fragment, parse(sqlgen.render(q)), tabs)
            a, b = reference(by_hand), call(reference, str(f))
            ctx.check(b[0] == "ok" and normal(a, False, False) == normal(b[1], False, False), f"fragment {op['keep']} of {query} is {f} with {b[1]} instead of {by_hand} with {a}", "wrong fragment")

    def swapped(self, ctx, op, sql, reference):
        """Other columns in place of some of the columns, compared with the same change of the text."""
        query = parse(sql)
        mine = sorted({c for c in query.columns() if c.is_bound() and not c.table.virtual and c.table.full_name in sqlgen.COLUMNS and c.name in sqlgen.COLUMNS[c.table.full_name]}, key=str)
        named = [t.identifier() for t in query.tables()]
        mine = [c for c in mine if named.count(c.table.identifier()) == 1]  # a CTE may be called like the table it is based on
        if not mine:
            return
        pick = op["swap"]
        todo, by_hand = {}, sql
        for col in [mine[pick % len(mine)], mine[pick // 7 % len(mine)]]:
            others = [c for c in sqlgen.COLUMNS[col.table.full_name] if c != col.name and (c == "name") == (col.name == "name")]
            if others and col not in todo:
                todo[col] = pb.ColumnReference(others[pick % len(others)], col.table)
        texts = {f"{c.table.identifier()}.{c.name}": f"{n.table.identifier()}.{n.name}" for c, n in todo.items()}
        by_hand = re.sub(r"\b\w+\.\w+\b", lambda m: texts.get(m[0], m[0]), sql)
        a = call(reference, by_hand)
        if a[0] != "ok":
            return
        before = str(query)
        k, renamed = call(transform.rename_columns_in_query, query, todo)
        ctx.check(k == "ok", f"renaming {texts} in {sql}: {short(renamed) if k != 'ok' else ''}", "renaming failed")
        ctx.check(str(query) == before, f"renaming {texts} changed the original query {before} to {query}", "query altered")
        b = call(reference, str(renamed))
        q = op["q"]
        star = any("*" in x and "(" not in x for x in q["items"])
        ctx.check(b[0] == "ok" and normal(a[1], sqlgen.ordered(q), star) == normal(b[1], sqlgen.ordered(q), star),
                  f"renaming {texts} in {sql} gives {renamed} with {b[1] if b[0] == 'ok' else short(b[1])} instead of {by_hand} with {a[1]}", "wrong renaming")

    def realiased(self, ctx, op, sql, reference):
        """Several tables get other aliases at once, compared with the same change of the text."""
        query, pick, q = parse(sql), op["aliases"], op["q"]
        named = [t.identifier() for t in query.tables()]
        mine = sorted((t for t in query.tables() if t.alias and not t.virtual and named.count(t.identifier()) == 1), key=str)
        if not mine:
            return
        mine = mine[pick % len(mine):] + mine[:pick % len(mine)]
        mine = mine[:1 + pick // 5 % len(mine)]
        names = [t.alias for t in mine]
        fresh = [f"n{i}" for i in range(len(mine))]
        explicit = q["style"] == "explicit" or q.get("derived") is not None
        match pick % 3:
            case 1 if not explicit:
                new = names[1:] + names[:1]   # cyclic exchange
            case 2 if not explicit:
                new = fresh[:1] + names[:-1]   # each one takes over the name of its predecessor
            case _:
                new = fresh
        to = dict(zip(names, new))
        by_hand = re.sub(r"\b\w+\b", lambda m: to.get(m[0], m[0]), sql)
        a = call(reference, by_hand)
        if a[0] != "ok":
            return
        before = str(query)
        todo = {t: pb.TableReference(t.full_name, to[t.alias]) for t in mine}
        k, renamed = call(transform.rename_table, query, todo)
        ctx.check(k == "ok", f"aliases {to} in {sql}: {short(renamed) if k != 'ok' else ''}", "renaming tables failed")
        ctx.check(str(query) == before, f"aliases {to} changed the original query {before} to {query}", "query altered")
        b = call(reference, str(renamed))
        star = any("*" in x and "(" not in x for x in q["items"])
        ctx.check(b[0] == "ok" and normal(a[1], sqlgen.ordered(q), star) == normal(b[1], sqlgen.ordered(q), star),
                  f"aliases {to} in {sql} give {renamed} with {b[1] if b[0] == 'ok' else short(b[1])} instead of {by_hand} with {a[1]}", "wrong renaming of tables")
        ctx.probe("aliases changed")

    def constant(self, ctx, sc, w, reference):
        """Rewritten queries over CTEs with constant rows."""
        def text(alias="x", first="i", cols=w["show"], join=w["join"]):
            if w["values"]:
                cte = f"vv({first}, j) AS {w['materialized']}(VALUES {', '.join(f'({a}, {b})' for a, b in w['rows'])})"
            else:
                cte = f"vv AS {w['materialized']}(SELECT {w['rows'][0][0]} AS {first}, {w['rows'][0][1]} AS j)"
            if w["second"]:
                cte += f", ww AS (SELECT y.id FROM {w['tab']} AS y WHERE y.{w['join']} > 0)"
            sql = f"WITH {cte} SELECT {', '.join(f'{alias}.{c}' for c in cols)}, vv.{first}, vv.j FROM {w['tab']} AS {alias}, vv" + (", ww" if w["second"] else "")
            sql += f" WHERE {alias}.{join} = vv.{first}" + (f" AND ww.id = {alias}.id" if w["second"] else "")
            return sql + (f" AND {alias}.{cols[0]} > {w['filter']}" if w["filter"] is not None else "")

        sql, by_hand = text(), {}
        a = call(reference, sql)
        k, query = call(parse, sql)
        ctx.check(a[0] == k == "ok", f"{sql}: {short(a[1]) if a[0] != 'ok' else ''} {short(query) if k != 'ok' else ''}", "constants failed")
        k, seen = call(lambda: (sorted(f"{c.table.identifier()}.{c.name}" for c in query.columns() if c.is_bound()), len(query.predicates().joins()), hash(query)))
        ctx.check(k == "ok", f"{sql}: {short(seen) if k != 'ok' else ''}", "constants not inspectable")
        want = {f"x.{c}" for c in (*w["show"], w["join"])} | {"vv.i", "vv.j"} | ({"x.id", "ww.id", "y.id", f"y.{w['join']}"} if w["second"] else set())
        ctx.check(set(seen[0]) - {"vv.column_1", "vv.column_2"} == want, f"{sql} has the columns {seen[0]} instead of {sorted(want)}", "wrong columns")
        ctx.check(seen[1] == 1 + w["second"], f"{sql} has {seen[1]} joins", "wrong joins")
        tab, virtual = pb.TableReference(w["tab"], "x"), pb.TableReference.create_virtual("vv")
        other = [c for c in sqlgen.num_cols(w["tab"]) if c not in w["show"] and c != w["join"] and (not w["second"] or c != "id")]
        col = w["show"][0]
        skip = not other or w["second"] and col == "id"
        name = w["rewrite"]
        if name in ("column", "both") and skip or name in ("cte column", "both") and not w["values"]:
            name = "table"
        done, do = sql, None
        match name:
            case "reparse" | "quick":
                do = lambda: rewrite(name, query, 0)
            case "table":
                do, done = (lambda: transform.rename_table(query, tab, pb.TableReference(w["tab"], "nn"))), text(alias="nn")
            case _:
                todo, kw = {}, {}
                if name != "cte column":
                    todo[pb.ColumnReference(col, tab)] = pb.ColumnReference(other[0], tab)
                    kw.update(cols=[other[0], w["show"][1]], join=other[0] if w["join"] == col else w["join"])
                if name != "column":
                    todo[pb.ColumnReference("i", virtual)] = pb.ColumnReference("ii", virtual)
                    kw["first"] = "ii"
                do, done = (lambda: transform.rename_columns_in_query(query, todo)), text(**kw)
        k, new = call(do)
        ctx.check(k == "ok", f"{name} in {sql}: {short(new) if k != 'ok' else ''}", f"{name} failed for constants")
        if "FROM (VALUES" in str(new) and sc["system"] == "pg":
            return   # SQLite cannot do this
        a, b = call(reference, done), call(reference, str(new))
        ctx.check(a[0] == b[0] and (a[0] != "ok" or normal(a[1], False, False) == normal(b[1], False, False)),
                  f"{name} in {sql} gives {new} with {b[1] if b[0] == 'ok' else short(b[1])} instead of {done} with {a[1]}", "wrong constants")
        ctx.probe("constants rewritten")

    @staticmethod
    def settings(server) -> dict:
        s = [s for s in server.alive_sessions() if s.app == "PostBOUND"]
        return dict(s[-1].settings) if s else {}


def may_refuse(rewrite, q) -> bool:
    """Whether a rewrite does not need to support a query. Set operations and subqueries in the FROM clause are not supported by all of them."""
    explicit = q["style"] == "explicit"
    outer = explicit and any("INNER" not in x and x != "JOIN" for x in q["kinds"][1:])
    return bool(q.get("union") or (rewrite == "flat" and (q.get("derived") is not None or outer)))


def foreign(sql):
    """The difference of the tables that are hinted and those that are part of a statement, None if there is nothing to compare."""
    m = re.match(r"\s*/\*(.*?)\*/(.*)$", sql, re.S)
    if not m or len(re.findall(r"\bSELECT\b", m[2])) != 1 or re.search(r"\bJOIN\b", m[2]):
        return None
    order = re.search(r"(?:JoinOrder|Leading)\((.*)\)", m[1])
    source = re.search(r"\bFROM\b(.*?)(?:\bWHERE\b|\bGROUP BY\b|\bHAVING\b|\bORDER BY\b|\bLIMIT\b|;|$)", m[2], re.S)
    if not order or not source:
        return None
    return set(re.findall(r"\w+", order[1])) ^ {x.split()[-1] for x in source[1].split(",")}


def plain(q, sc) -> bool:
    """Whether the query belongs to the class that every optimizer supports: implicit joins of base tables without subqueries."""
    if q["style"] != "implicit" or any(q.get(x) for x in ("union", "cte", "derived")) or sqlgen.render(q).count("SELECT") > 1:
        return False
    # plans of DuckDB do not tell apart the occurrences of a table (documented)
    own_plans = sc["kind"] == "emulated" or any("native" in s or s == "step" for s in sc["stages"])
    return not (sc["system"] == "duck" and own_plans and len({t[0] for t in q["tabs"]}) < len(q["tabs"]))


def folded(sc, sql, reference) -> bool:
    """Whether DuckDB removes tables from the plan, because there are no rows for sure. Such plans have no join order for all tables."""
    return sc["system"] == "duck" and re.search("EMPTY_RESULT|COLUMN_DATA_SCAN", str(reference(f"EXPLAIN {sql}"))) is not None


def pg_can(q, sql) -> bool:
    return not q.get("union") and not re.search(r"\b(ANY|ALL) \(", sql)


PROPS = {"S17": Rewritten()}
