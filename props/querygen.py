"""S28: randomly generated queries keep what was asked for (PostgresInterface on the simulated server, DuckDBInterface on the real engine)."""
from __future__ import annotations

import datetime
import decimal
import os

from dst import simduck, simpg

from . import Prop
from .common import call, pb, pg, qal, short
from .duck import REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB

from postbound.experiments import querygen

NAMES = ["r", "s", "t", "u", "movie info", "Upper", "pg_like", "w"]
PG_TYPES = ["INTEGER", "TEXT", "DATE", "NUMERIC"]
DUCK_TYPES = ["INTEGER", "TEXT", "DATE", "DOUBLE", "DECIMAL(9,2)", "BOOLEAN", "TIMESTAMP", "BIGINT"]
COLS = ["a", "b", "order", "Name", "since", "d", "note", "x y"]
TEXTS = ["x", "O'Neil", "", "100%", 'say "hi"', "a b", "0", "NULL", "%s", "{x}", "--", "\u00e4"]
NUMERIC = {"INTEGER", "DATE", "NUMERIC", "DOUBLE", "DECIMAL(9,2)", "TIMESTAMP", "BIGINT"}


def q(name):
    return '"' + name + '"'


def value(typ, i):
    """The Python value of a column type that the scenario's number stands for."""
    if i is None:
        return None
    if typ in ("INTEGER", "BIGINT"):
        return i - 3
    if typ == "TEXT":
        return TEXTS[i % len(TEXTS)]
    if typ == "DATE":
        return datetime.date(2020, 1, 1) + datetime.timedelta(days=40 * i)
    if typ == "TIMESTAMP":
        return datetime.datetime(2020, 1, 1, 10, 30) + datetime.timedelta(hours=7 * i, microseconds=125000 * (i % 3))
    if typ == "BOOLEAN":
        return bool(i % 2)
    if typ.startswith("DECIMAL"):
        return decimal.Decimal(i - 3) / 4
    return (i - 3) / 4


class Tables:
    """The reference model: tables, keys and rows, mirrored into the database."""

    def __init__(self, sc, types) -> None:
        self.tables = {}
        for n, t in enumerate(sc["tables"]):
            earlier = list(self.tables)
            cols = [("id", "INTEGER")]
            fks = []
            for i, target in enumerate(t["fks"]):
                target = NAMES[n] if target is None else earlier[target % len(earlier)] if earlier else None
                if target is not None:
                    cols.append((f"f{i}" if i % 2 == 0 else f"Fk {i}", "INTEGER"))
                    fks.append((cols[-1][0], target))
            cols += [(COLS[c], types[typ % len(types)]) for c, typ in t["cols"]]
            self.tables[NAMES[n]] = {"cols": cols, "fks": fks, "rows": [], "keyed": t["keyed"]}

    def ddl(self):
        out = []
        for name, t in self.tables.items():
            parts = [f"{q(c)} {typ}" + (" PRIMARY KEY" if c == "id" else "") for c, typ in t["cols"]]
            parts += [f"FOREIGN KEY({q(c)}) REFERENCES {q(target)}(id)" for c, target in t["fks"]]
            out.append(f"CREATE TABLE {q(name)}({', '.join(parts)});")
        return "\n".join(out)

    def insert(self, op):
        """Rows of an insertion as (table, parameters)."""
        name = list(self.tables)[op["t"] % len(self.tables)]
        t = self.tables[name]
        out = []
        for numbers in op["rows"]:
            new_id = len(t["rows"])
            row = []
            targets = dict(t["fks"])
            for (c, typ), i in zip(t["cols"], numbers):
                if c == "id":
                    v = new_id
                elif c in targets:
                    others = len(self.tables[targets[c]]["rows"])
                    v = i % others if i is not None and others else None
                else:
                    v = value(typ, i)
                row.append(v)
            t["rows"].append(row)
            out.append(row)
        return name, out

    def graph(self, ignored):
        """Adjacency of the joinable tables."""
        here = [t for t in self.tables if t not in ignored]
        near = {t: set() for t in here}
        for t in here:
            for _, target in self.tables[t]["fks"]:
                if target in near and target != t:
                    near[t].add(target)
                    near[target].add(t)
        return near

    def usable(self, table, opts):
        t = self.tables[table]
        keys = {"id"} | {c for c, _ in t["fks"]}
        return [c for c, typ in t["cols"] if (opts["key_columns"] or c not in keys) and (not opts["numeric"] or typ in NUMERIC)]

    def values(self, table, column):
        i = [c for c, _ in self.tables[table]["cols"]].index(column)
        return [r[i] for r in self.tables[table]["rows"] if r[i] is not None]


def connected_sets(near, most):
    """All connected sets of at most this many tables."""
    found = {frozenset([t]) for t in near}
    layer = set(found)
    for _ in range(most - 1):
        layer = {s | {x} for s in layer for t in s for x in near[t] if x not in s}
        found |= layer
    return found


def plain(v):
    """Comparison form of a literal: what the database would see."""
    if isinstance(v, (datetime.date, datetime.datetime)):
        return str(v)
    if isinstance(v, (float, decimal.Decimal)) and not isinstance(v, bool):
        return decimal.Decimal(str(v)).normalize()
    return decimal.Decimal(v) if isinstance(v, int) and not isinstance(v, bool) else v


class PgSystem:
    def __init__(self, ctx, sc, tables) -> None:
        self.server = server = simpg.Server(ctx.k, tables.ddl())
        simpg.install(server)
        self.armed = None
        server.on_statement = lambda session, stmt: self.armed(stmt.sql) if self.armed else {}
        self.db = pg.PostgresInterface("dbname=simdb host=localhost")

    def insert(self, name, rows):
        if rows:
            marks = ", ".join("?" * len(rows[0]))
            flat = [[str(v) if isinstance(v, datetime.date) else v for v in r] for r in rows]
            self.server.db.con.executemany(f"INSERT INTO {q(name)} VALUES ({marks})", flat)
            self.server.db.stale = True

    def analyze(self, huge):
        self.server.db.analyze()
        for t in huge:
            self.server.db.reltuples["main", t] = 5000
        self.server.db.stale = True

    def count(self, sql, params):
        return self.server.db.con.execute(sql, [str(p) if isinstance(p, datetime.date) else p for p in params]).fetchone()[0]

    fails = ["internal", "oom", "lose", "cancel"]


class DuckSystem:
    def __init__(self, ctx, sc, tables) -> None:
        self.engine = simduck.Engine(ctx.k)
        path = os.path.join(ctx.tmp, "simdb.duckdb")
        simduck.make_database(path, tables.ddl())
        simduck.install(self.engine)
        self.armed = None
        self.engine.on_statement = lambda con, stmt: self.armed(stmt.sql) if self.armed else {}
        self.db = pb.duckdb.DuckDBInterface(path)
        self.con = simduck.real_connect(path, config={"threads": 1})

    def insert(self, name, rows):
        for r in rows:
            self.con.execute(f"INSERT INTO {q(name)} VALUES ({', '.join('?' * len(r))})", r)

    def analyze(self, huge):
        pass

    def count(self, sql, params):
        return self.con.execute(sql, params).fetchone()[0]

    fails = ["internal", "oom"]


class S28(Prop):
    id = "S28"
    native_engine = True
    quick_runs = 1500
    thorough_runs = 40000
    rule = ("A run is a schema (with quoted names, several or self-referencing foreign keys, unconnected tables), data with NULLs, quotes, zeros and empty "
            "tables, and a history of generator requests, drawn queries, insertions by another client, ANALYZE and failing requests; the random "
            "choices of the generator are the scheduler's. Non-trivial: a query with a join and a filter was drawn. Distinct by event-log hash.")
    state_measure = "distinct (system, options, tables, joins, filters, literal kinds) combinations of drawn queries"
    real = REAL + REAL_DUCK + ["the query generator and the schema graph"]
    stub = STUB + STUB_DUCK
    assumptions = ASSUMPTIONS[1:] + ["Foreign keys are single-column.", "Requests that no connected set of tables can satisfy may be refused or not answered."]
    shrink_lists = ("ops", "tables")

    def scenario(self, rng, tier):
        tables = []
        for n in range(rng.choice([1, 2, 3, 4, 4, 5, 5, 7])):
            tables.append({"fks": [rng.randrange(8) if rng.random() < 0.88 else None for _ in range(rng.choice([0, 1, 1, 1, 2, 3]))],
                           "cols": [[c, rng.randrange(8)] for c in rng.sample(range(len(COLS)), rng.choice([0, 1, 2, 3]))], "keyed": True})

        def rows():
            spread = rng.choice([1, 1, 3, 9])
            nulls = rng.choice([0, 0.2, 0.2, 1])
            return [[None if rng.random() < nulls else 3 + rng.randrange(spread) if rng.random() < 0.7 else rng.randrange(12) for _ in range(8)]
                    for _ in range(rng.choice([0, 1, 1, 2, 6]))]

        def request():
            few = lambda: rng.choice([1, 1, 2, 3, 4])  # noqa: E731
            return {"op": "request", "count_star": rng.random() < 0.5, "ignore": rng.sample(range(8), rng.choice([0, 0, 1, 2])),
                    "min_tables": rng.choice([None, None, None, 1, 2, 2, 3]) if rng.random() < 0.95 else rng.choice([0, 8, 9]),
                    "max_tables": rng.choice([None, None, few() + 1, few() + 1, 9]) if rng.random() < 0.9 else few() - 1,
                    "min_filters": rng.choice([None, None, 0, 1, 1, 2, 3]) if rng.random() < 0.95 else 6,
                    "max_filters": rng.choice([None, None, None, 1, 2, 3, 50]) if rng.random() < 0.9 else 0, "key_columns": rng.random() < 0.65, "numeric": rng.random() < 0.25}
        ops = [{"op": "insert", "t": n, "rows": rows()} for n in range(len(tables)) if rng.random() < 0.9]
        ops.append(request())
        for _ in range(rng.randint(3, 9 if tier == "quick" else 24)):
            kind = rng.choices(["draw", "request", "insert", "analyze"], [8, 2.5, 1.5, 0.7])[0]
            ops.append(request() if kind == "request" else {"op": "insert", "t": rng.randrange(8), "rows": rows()} if kind == "insert"
                       else {"op": "analyze", "huge": rng.sample(range(8), rng.choice([0, 1, 3]))} if kind == "analyze"
                       else {"op": "draw", "fail": rng.randrange(6) if rng.random() < 0.08 else None, "how": rng.randrange(4), "run": rng.random() < 0.6})
        return {"system": rng.choice(["pg", "duck"]), "tables": tables, "ops": ops, "sched": {"p_stay": 1.0}}

    def run(self, ctx, sc):
        os.chdir(ctx.tmp)
        tables = Tables(sc, DUCK_TYPES if sc["system"] == "duck" else PG_TYPES)
        system = (DuckSystem if sc["system"] == "duck" else PgSystem)(ctx, sc, tables)
        self.huge = set()
        generator = opts = None
        for n, op in enumerate(sc["ops"]):
            where = f"op {n} {op} on {sc['system']}: "
            if op["op"] == "insert":
                name, rows = tables.insert(op)
                system.insert(name, rows)
            elif op["op"] == "analyze":
                names = [NAMES[i] for i in op["huge"] if NAMES[i] in tables.tables]
                system.analyze(names)
                self.huge = set(names)
            elif op["op"] == "request":
                opts = op
                generator = self.request(op)(system.db)
            elif generator is not None and not self.draw(ctx, f"{where}({opts}) ", op, sc, system, tables, generator, opts):
                generator = None
        call(system.db.close)

    @staticmethod
    def request(op):
        ignore = {pb.TableReference(NAMES[i]) for i in op["ignore"]}
        kw = {k: op[k] for k in ("min_tables", "max_tables", "min_filters", "max_filters") if op[k] is not None}
        return lambda db: querygen.generate_query(db, count_star=op["count_star"], ignore_tables=ignore or None, filter_key_columns=op["key_columns"],
                                                  numeric_filters=op["numeric"], **kw)

    def draw(self, ctx, where, op, sc, system, tables, generator, opts) -> bool:
        """Draws a query. False: the generator is finished."""
        ignored = {NAMES[i] for i in opts["ignore"]} | ({t for t in tables.tables if t.startswith("pg_")} if sc["system"] == "pg" else set())
        near = tables.graph(ignored)
        low = 1 if opts["min_tables"] is None else opts["min_tables"]
        high = min(len(near) if opts["max_tables"] is None else opts["max_tables"], len(near))
        sets = {s for s in connected_sets(near, high) if len(s) >= low} if high >= 1 and low >= 1 else set()
        min_f = opts["min_filters"] or 0
        max_f = 10 ** 6 if opts["max_filters"] is None else opts["max_filters"]
        columns = {t: tables.usable(t, opts) for t in near}
        possible = {s for s in sets if sum(len(columns[t]) for t in s) >= min_f} if min_f <= max_f else set()
        invalid = low < 1 or high < low
        if not possible and not invalid:
            # nothing satisfies the request: it may be refused, or never answered
            ctx.probe("unsatisfiable")
            if not self.refuses_only(ctx, where, opts, sets, columns, min_f, max_f):
                return True
        state = {"n": 0, "fired": None}

        def armed(sql):
            state["n"] += 1
            ctx.check(state["n"] < 4000, f"{where}4000 statements and no query", "no progress")
            if op["fail"] is not None and state["n"] == op["fail"] + 1:
                state["fired"] = system.fails[op["how"] % len(system.fails)]
                ctx.k.fault(state["fired"])
                return {"fail": state["fired"]}
            return {}
        system.armed = armed
        sent = len(system.server.log) if sc["system"] == "pg" else len(system.engine.log)
        kind, query = call(next, generator)
        system.armed = None
        log = (system.server.log if sc["system"] == "pg" else system.engine.log)[sent:]
        for s in log:
            text = s.sql.lstrip().split(None, 1)[0].upper() if s.sql.strip() else ""
            ctx.check(text in ("SELECT", "WITH", "SHOW", "DESCRIBE", "PRAGMA", "SET", "BEGIN", "COMMIT", "ROLLBACK"), f"{where}sent {s.sql!r}", "generator writes")
        if state["fired"]:
            ctx.check(kind == "error" or query is not None, f"{where}no query after a fault", "nothing")
            if kind == "error":
                if state["fired"] == "lose":
                    call(system.db.reset_connection)
                return False
        if not possible:
            ctx.check(kind == "error" and isinstance(query, ValueError), f"{where}nothing satisfies the request, but the outcome is {short(query)}", "unsatisfiable answered")
            ctx.state((sc["system"], "refused"))
            return False
        ctx.check(kind == "ok", f"{where}no query: {short(query)}", f"failed {type(query).__name__}")
        self.judge(ctx, where, op, sc, system, tables, opts, query, ignored, low, high, min_f, max_f, columns, near)
        return True

    @staticmethod
    def refuses_only(ctx, where, opts, sets, columns, min_f, max_f) -> bool:
        """Whether refusal is certain: contradictory bounds, no tables, or more filters than there are columns."""
        return not sets or min_f > max_f or min_f > sum(len(c) for c in columns.values())

    def judge(self, ctx, where, op, sc, system, tables, opts, query, ignored, low, high, min_f, max_f, columns, near):
        text = str(query)
        where += f"{text!r}: "
        ctx.k.event(f"query {text}")
        used = [t.full_name for t in query.tables()]
        ctx.check(len(set(used)) == len(used) and set(used) <= set(near), f"{where}tables {used}, available are {sorted(near)}", "tables")
        ctx.check(low <= len(used) <= high, f"{where}{len(used)} tables, asked for {low} to {high}", "number of tables")
        want_select = "COUNT(*)" if opts["count_star"] else "*"
        ctx.check(str(query.select_clause).strip() == f"SELECT {want_select}", f"{where}select clause {query.select_clause}", "select clause")
        parts = []
        if query.where_clause is not None:
            pred = query.where_clause.predicate
            parts = list(pred.children) if isinstance(pred, qal.CompoundPredicate) and pred.operation == qal.CompoundOperator.And else [pred]
        joins, filters, params, conds = [], [], [], []
        ops = {qal.LogicalOperator.Equal: "=", qal.LogicalOperator.NotEqual: "<>", qal.LogicalOperator.Greater: ">", qal.LogicalOperator.Less: "<"}
        for p in parts:
            ctx.check(isinstance(p, qal.BinaryPredicate) and p.operation in ops, f"{where}predicate {p}", "predicate kind")
            left = p.first_argument.column
            here = f"{q(left.table.full_name)}.{q(left.name)}"
            if isinstance(p.second_argument, qal.ColumnExpression):
                right = p.second_argument.column
                a, b = (left.table.full_name, left.name), (right.table.full_name, right.name)
                known = any({a, b} == {(t, c), (target, "id")} for t in used for c, target in tables.tables[t]["fks"])
                ctx.check(known and p.operation == qal.LogicalOperator.Equal, f"{where}join {p} is not along a foreign key", "join predicate")
                joins.append((a[0], b[0]))
                conds.append(f"{here} = {q(b[0])}.{q(b[1])}")
                continue
            t, c = left.table.full_name, left.name
            literal = p.second_argument.value
            ctx.check(t in used and c in columns[t], f"{where}filter {p} on a column that may not be filtered ({columns.get(t)})", "filter column")
            stored = tables.values(t, c)
            ctx.check(any(plain(v) == plain(literal) and isinstance(v, bool) == isinstance(literal, bool) for v in stored),
                      f"{where}filter {p}: {literal!r} is no value of the column ({stored[:12]})", "filter value")
            filters.append((t, c))
            conds.append(f"{here} {ops[p.operation]} ?")
            params.append(next(v for v in stored if plain(v) == plain(literal)))
        reached = {used[0]}
        while more := {x for a, b in joins for x in (a, b) if (a in reached) != (b in reached)} - reached:
            reached |= more
        ctx.check(reached == set(used), f"{where}cross product between {sorted(reached)} and {sorted(set(used) - reached)}", "cross product")
        linked = {frozenset((t, x)) for t in used for x in near[t] if x in used}
        ctx.check({frozenset(j) for j in joins} == linked and len(joins) == len(linked), f"{where}joins {joins}, foreign keys link {sorted(map(sorted, linked))}", "joins")
        ctx.check(len(set(filters)) == len(filters), f"{where}a column is filtered twice", "filtered twice")
        free = sum(1 for t in used for c in columns[t] if not tables.values(t, c) or t in self.huge)
        ctx.check(min_f - free <= len(filters) <= max_f, f"{where}{len(filters)} filters, asked for {min_f} to {max_f} ({free} columns without values)", "number of filters")
        ctx.nontrivial |= bool(joins and filters)
        kinds = tuple(sorted({type(p).__name__ for p in params}))
        ctx.state((sc["system"], opts["count_star"], opts["numeric"], opts["key_columns"], len(used), len(joins), len(filters), kinds))
        if not op["run"]:
            return
        sql = f"SELECT COUNT(*) FROM {', '.join(map(q, used))}" + (" WHERE " + " AND ".join(conds) if conds else "")
        expected = system.count(sql, params)
        if expected > 3000 and not opts["count_star"]:
            return
        kind, rows = call(system.db.execute_query, query, raw=True, cache_enabled=False)
        ctx.check(kind == "ok", f"{where}cannot be executed: {short(rows)}", "query fails")
        got = rows[0][0] if opts["count_star"] else len(rows)
        ctx.check(got == expected, f"{where}{got} rows, its predicates select {expected}", "query rows")


PROPS = {"S28": S28()}
