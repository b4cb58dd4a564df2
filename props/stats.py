"""S24: the statistics of a database describe its tables (PostgresInterface on the simulated server, DuckDBInterface on the real engine)."""
from __future__ import annotations

import copy
import os
from collections import Counter

from dst import simduck, simpg
from dst.kernel import US

from . import Prop
from .common import call, pb, pg, short
from .duck import REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB

TABLES = [("", "r", ["id", "a", "name"]), ("", "movie", ["id", "order"]), ("", "movie info", ["id", "order", "Name"]), ("", "vacant", ["id", "a"]),
          ("s2", "r", ["id", "a", "name"]), ("s2", "movie info", ["id", "order", "Name"]), ("s2", "only", ["id", "a"])]
TYPES = {"id": "INTEGER", "a": "INTEGER", "order": "INTEGER", "name": "TEXT", "Name": "TEXT"}
KINDS = ["total_rows", "num_distinct", "min_max", "most_common_values", "histogram"]


def sql_name(schema, table):
    return (f"{schema}." if schema else "") + f'"{table}"'


def create(schema, tables=TABLES, qualify=False) -> str:
    out = []
    for s, t, cols in tables:
        if s == schema:
            body = ", ".join(f'"{c}" {TYPES[c]}' for c in cols)
            out.append(f"CREATE TABLE {sql_name(s if qualify else '', t)}({body});")
    return "\n".join(out)


def gen_values(rng, col, n):
    spread = rng.choice([1, 2, 4, 9, 30])
    nulls = rng.choice([0, 0, 0.2, 0.9])
    out = []
    for _ in range(n):
        v = rng.randrange(-spread, spread + 1) if rng.random() < 0.95 else 7000
        v = f"n{v}" if TYPES[col] == "TEXT" else v
        out.append(None if rng.random() < nulls else v)
    return out


def gen_change(rng):
    t = rng.randrange(len(TABLES))
    what = rng.choices(["insert", "delete", "update", "empty"], [5, 2, 2, 0.4])[0]
    cols = TABLES[t][2]
    n = rng.choice([1, 1, 2, 5, 20])
    return {"t": t, "what": what, "rows": list(map(list, zip(*[gen_values(rng, c, n) for c in cols]))) if what == "insert" else None,
            "col": rng.randrange(len(cols)), "mod": rng.choice([1, 2, 3]), "rest": rng.randrange(2)}


def literal(v):
    return "NULL" if v is None else f"'{v}'" if isinstance(v, str) else str(v)


class Data:
    """The tables, as lists of rows, mirrored into the database with SQL."""

    def __init__(self, execute) -> None:
        self.execute = execute
        self.rows = {(s, t): [] for s, t, _ in TABLES}

    def apply(self, change) -> None:
        s, t, cols = TABLES[change["t"]]
        rows, name = self.rows[s, t], sql_name(s, t)
        if change["what"] == "insert":
            rows.extend(tuple(r) for r in change["rows"])
            self.execute(f"INSERT INTO {name} VALUES " + ", ".join("(" + ", ".join(map(literal, r)) + ")" for r in change["rows"]))
            return
        if change["what"] == "empty":
            rows.clear()
            self.execute(f"DELETE FROM {name}")
            return
        # every row whose first column modulo m equals a remainder
        col, m = change["col"] % len(cols), change["mod"]
        rest = change["rest"] % m
        hit = [r for r in rows if r[0] is not None and isinstance(r[0], int) and r[0] % m == rest and r[0] >= 0]
        where = f'"{cols[0]}" >= 0 AND "{cols[0]}" % {m} = {rest}'
        if change["what"] == "delete":
            self.rows[s, t] = [r for r in rows if r not in hit]
            self.execute(f"DELETE FROM {name} WHERE {where}")
        else:
            value = "x" if TYPES[cols[col]] == "TEXT" else 5000
            self.rows[s, t] = [r[:col] + (value,) + r[col + 1:] if r in hit else r for r in rows]
            self.execute(f'UPDATE {name} SET "{cols[col]}" = {literal(value)} WHERE {where}')

    def snapshot(self, t: int, col):
        s, name, cols = TABLES[t]
        rows = self.rows[s, name]
        return [r[col] for r in rows] if col is not None else [None] * len(rows)


class Pg:
    def __init__(self, ctx, sc) -> None:
        self.server = server = simpg.Server(ctx.k, create(""), schemas={"s2": create("s2", qualify=True)})
        simpg.install(server)
        server.on_statement = self.on_statement
        server.sampled = lambda d: max(1, d + sc.get("sample", 0)) if d else 0
        self.plan = None
        self.armed = None
        self.db = pg.PostgresInterface("dbname=simdb host=localhost", cache_enabled=sc["db_cache"])
        self.stats = self.db.statistics()

    def execute(self, sql):
        self.server.db.con.execute(sql)
        self.server.db.stale = True

    def on_statement(self, session, stmt):
        return self.armed(stmt) if self.armed else {}

    fails = ["internal", "oom", "lose", "cancel"]

    def log(self):
        return self.server.log

    def analyze(self):
        self.server.db.analyze()


class Duck:
    def __init__(self, ctx, sc) -> None:
        self.engine = simduck.Engine(ctx.k)
        path = os.path.join(ctx.tmp, "simdb.duckdb")
        simduck.make_database(path, f"{create('')}\nCREATE SCHEMA s2;\n{create('s2', qualify=True)}")
        simduck.install(self.engine)
        self.engine.on_statement = lambda con, stmt: self.armed(stmt) if self.armed else {}
        self.armed = None
        self.db = pb.duckdb.DuckDBInterface(path, cache_enabled=sc["db_cache"])
        self.stats = self.db.statistics()
        self.con = simduck.real_connect(path, config={"threads": 1})

    def execute(self, sql):
        self.con.execute(sql)

    fails = ["internal", "oom"]

    def log(self):
        return self.engine.log

    def analyze(self):
        pass


def ordered(values):
    return sorted({v for v in values if v is not None})


def matches(kind, values, arg, got) -> str | None:
    """What is wrong with the answer for a column with these values (None: nothing)."""
    if kind == "total_rows":
        return None if got == len(values) and not isinstance(got, bool) else f"the table has {len(values)} rows"
    distinct = ordered(values)
    if kind == "num_distinct":
        return None if got == len(distinct) else f"the column has {len(distinct)} distinct values"
    if kind == "min_max":
        want = (distinct[0], distinct[-1]) if distinct else (None, None)
        return None if isinstance(got, (tuple, list)) and tuple(got) == want else f"minimum and maximum are {want}"
    counts = Counter(values)
    if kind == "most_common_values":
        got = [tuple(p) for p in got]
        top = sorted(counts.values(), reverse=True)
        top = top if arg is None or arg <= 0 else top[:arg]
        if [f for _, f in got] != top:
            return f"the highest frequencies are {top}"
        wrong = [p for p in got if counts.get(p[0]) != p[1]]
        if wrong or len({v for v, _ in got}) != len(got):
            return f"the frequencies are {sorted(counts.items(), key=repr)}"
        return None
    if not distinct:
        return None if got is None else "the column has no values"
    if got is None:
        return "the column has values"
    bounds, freqs = [b for b, _ in got], [f for _, f in got]
    if got.lower != distinct[0] or not bounds or bounds[-1] != distinct[-1] or bounds != sorted(set(bounds)) or len(bounds) != len(freqs):
        return f"the values range from {distinct[0]!r} to {distinct[-1]!r}"
    prev = None
    for b, f in zip(bounds, freqs):
        true = sum(n for v, n in counts.items() if v is not None and v <= b and (prev is None or v > prev))
        if true != f:
            return f"{true} values lie above {prev!r} up to {b!r}, not {f}"
        prev = b
    if got.n_rows != sum(freqs) or got.upper != bounds[-1]:
        return f"there are {sum(freqs)} values up to {bounds[-1]!r} (n_rows {got.n_rows}, upper {got.upper!r})"
    return None


class S24(Prop):
    id = "S24"
    quick_runs = 2600
    thorough_runs = 60000
    rule = ("A run is a history of statistics requests (all kinds, both schemas, quoted names, empty tables and NULLs; emulated, native, cached or "
            "not), changes of the data between and during requests, settings being switched, cache and connection resets, ANALYZE, and failing or "
            "lost requests. Non-trivial: data changed before a request that was not answered from the cache, or a stale answer had to come from it. "
            "Distinct by event-log hash.")
    state_measure = "distinct (system, statistic, mode, caching, outcome, statements sent, column shape) combinations"
    real = REAL + REAL_DUCK
    stub = STUB + STUB_DUCK + ["pg_class.reltuples and pg_stats.n_distinct of the simulated server (with a sampling error), as of the last ANALYZE"]
    assumptions = ASSUMPTIONS[1:] + [
        "Native most-common values and histograms of Postgres are not simulated (array-typed catalog columns); native row counts and distinct values are.",
        "A request during which the data changes may describe the data before or after the change, but not a mixture."]
    shrink_lists = ("ops", "init")

    def scenario(self, rng, tier):
        ops = []
        catalog = rng.random() < 0.25   # mostly statistics from the catalog of the database
        for _ in range(rng.randint(3, 14 if tier == "quick" else 30)):
            kind = rng.choices(["ask", "change", "set", "reset_cache", "reset_connection", "analyze", "bad"], [10, 4, 1.5, 0.4, 0.4, 0.9, 0.3])[0]
            if kind == "ask":
                if ops and rng.random() < 0.4 and (asks := [o for o in ops if o["op"] == "ask"]):
                    op = copy.deepcopy(rng.choice(asks)) | {"fail": None, "change": None}     # the same statistic again
                else:
                    t = rng.randrange(len(TABLES))
                    op = {"op": "ask", "kind": rng.choice(KINDS), "t": t, "col": rng.randrange(len(TABLES[t][2])),
                          "arg": rng.choice([None, None, 0, -1, 1, 1, 2, 3, 10]), "bins": rng.choice([1, 2, 3, 5, 10, 100])}
                op |= {"emulated": rng.choice([None, True, True, True, False]), "cache": rng.choice([None, None, None, True, False]),
                       "fail": rng.randrange(8) if rng.random() < 0.08 else None, "nth": rng.choice([1, 1, 2]),
                       "change": gen_change(rng) | ({"t": op["t"]}) if rng.random() < 0.1 else None}
                if catalog and rng.random() < 0.7:
                    op |= {"kind": rng.choice(["num_distinct", "num_distinct", "total_rows"]), "emulated": False}
                if op["change"] and op["change"]["what"] == "insert":
                    n = len(op["change"]["rows"])
                    op["change"]["rows"] = list(map(list, zip(*[gen_values(rng, c, n) for c in TABLES[op["t"]][2]])))
            elif kind == "change":
                op = {"op": kind, "change": gen_change(rng)}
            elif kind == "set":
                op = {"op": kind, "what": rng.choice(["emulated", "cache_enabled", "cache_enabled", "db_cache", "enable_emulation_fallback"]),
                      "to": rng.choice([True, True, False, None])}
            else:
                op = {"op": kind, "t": rng.randrange(len(TABLES)), "how": rng.randrange(6), "perfect": rng.random() < 0.5, "what": rng.randrange(3)}
            ops.append(op)
        init = [c for c in (gen_change(rng) for _ in range(rng.randint(2, 8))) if c["what"] == "insert"]
        return {"system": rng.choice(["pg", "pg", "duck"]), "ops": ops, "init": init, "db_cache": rng.random() < 0.4, "analyzed": rng.random() < 0.6,
                "sample": rng.choice([0, 0, -1, 2]), "sched": {"p_stay": 1.0}}

    def run(self, ctx, sc):
        k = ctx.k
        os.chdir(ctx.tmp)
        system = (Duck if sc["system"] == "duck" else Pg)(ctx, sc)
        db, stats, is_pg = system.db, system.stats, sc["system"] == "pg"
        data = Data(system.execute)
        for c in sc["init"]:
            data.apply(c)
        analyzed: dict = {}     # (t, col or None) -> (rows, distinct) at the last ANALYZE (Postgres)
        if sc["analyzed"]:
            system.analyze()
        if is_pg:
            for t, (_, _, cols) in enumerate(TABLES):     # the initial tables are analyzed while they are empty
                self.note(analyzed, data, t, range(len(cols)), sc, only_rows=not sc["analyzed"], empty=not sc["analyzed"])
        deleted: set = set()
        settings = {"emulated": is_pg, "cache_enabled": True, "enable_emulation_fallback": True, "db_cache": sc["db_cache"]}
        cached: dict = {}       # request -> values of the column when it was answered
        dirty = False
        for n, op in enumerate(sc["ops"]):
            where = f"op {n} {op} on {sc['system']} with {settings}: "
            if op["op"] == "change":
                data.apply(op["change"])
                deleted |= {op["change"]["t"]} if op["change"]["what"] != "insert" else set()
                dirty = True
                continue
            if op["op"] == "set":
                to = bool(op["to"]) if op["what"] in ("emulated", "db_cache", "enable_emulation_fallback") else op["to"]
                settings[op["what"]] = to
                if op["what"] == "db_cache":
                    db.cache_enabled = to
                else:
                    setattr(stats, op["what"], to)
                continue
            if op["op"] in ("reset_cache", "reset_connection"):
                kind, v = call(getattr(db, op["op"]))
                ctx.check(kind == "ok", f"{where}failed: {short(v)}", "reset failed")
                if op["op"] == "reset_cache":
                    cached.clear()
                continue
            if op["op"] == "analyze":
                if is_pg:
                    self.analyze(ctx, where, op, sc, stats, data, analyzed, cached)
                continue
            if op["op"] == "bad":
                self.bad(ctx, where, op, stats, system)
                continue
            dirty = self.ask(ctx, where, op, sc, system, stats, data, analyzed, deleted, settings, cached, dirty)
        stats_now = db.statistics()
        ctx.check(stats_now is stats, "the database handed out a different statistics object", "statistics object")
        call(db.close)

    @staticmethod
    def reference(t, col=None):
        schema, table, cols = TABLES[t]
        ref = pb.TableReference(table, schema=schema) if schema else pb.TableReference(table)
        return ref if col is None else pb.ColumnReference(cols[col], ref)

    @staticmethod
    def note(analyzed, data, t, cols, sc, *, only_rows=False, empty=False, perfect=None):
        rows = 0 if empty else len(data.snapshot(t, None))
        analyzed[t, None] = rows
        for c in cols:
            if only_rows or not rows:
                continue
            d = len(ordered(data.snapshot(t, c)))
            override = analyzed.get((t, c, "override"))
            d = override if override else (max(1, d + sc["sample"]) if d else 0)
            analyzed[t, c] = (d, rows)

    def analyze(self, ctx, where, op, sc, stats, data, analyzed, cached):
        """update_statistics for a table, a column, a generator of columns, or everything."""
        t = op["t"]
        cols = TABLES[t][2]
        perfect = op["perfect"]
        if op["how"] in (0, 1):
            touched, kw = [(t, 0)], {"columns": self.reference(t, 0)}
        elif op["how"] == 2:
            touched, kw = [(t, c) for c in range(len(cols))], {"columns": [self.reference(t, c) for c in range(len(cols))]}
        elif op["how"] == 3:
            touched, kw = [(t, c) for c in range(len(cols))], {"columns": (self.reference(t, c) for c in range(len(cols)))}
        elif op["how"] == 4 and not TABLES[t][0]:
            touched, kw = [(t, c) for c in range(len(cols))], {"tables": self.reference(t)}
        else:
            touched, kw = [(i, c) for i, x in enumerate(TABLES) if not x[0] for c in range(len(x[2]))], {}
        kind, v = call(stats.update_statistics, perfect_n_distinct=perfect, perfect_mcv=op["what"] == 0, **kw)
        ctx.check(kind == "ok", f"{where}updating the statistics failed: {short(v)}", "update failed")
        if perfect or op["what"] == 0:
            for i, c in touched:    # determined through the emulated statistic, with caching
                values = cached.setdefault(("num_distinct", i, c, None), data.snapshot(i, c))
                if perfect:
                    analyzed[i, c, "override"] = len(ordered(values))
        for i in {i for i, _ in touched}:
            self.note(analyzed, data, i, [c for j, c in touched if j == i], sc)
        ctx.probe("analyzed")

    def bad(self, ctx, where, op, stats, system):
        from postbound import UnboundColumnError, VirtualTableError
        n0 = len(system.log())
        virtual = pb.TableReference.create_virtual("v")
        cases = [(VirtualTableError, lambda: stats.total_rows(virtual)), (VirtualTableError, lambda: stats.min_max(pb.ColumnReference("a", virtual))),
                 (UnboundColumnError, lambda: stats.num_distinct(pb.ColumnReference("a"))),
                 (UnboundColumnError, lambda: stats.most_common_values(pb.ColumnReference("a"))),
                 (VirtualTableError, lambda: stats.most_common_values(pb.ColumnReference("a", virtual))),
                 (UnboundColumnError, lambda: stats.histogram(pb.ColumnReference("a"), n_bins=3, emulated=True))]
        want, fn = cases[op["how"] % len(cases)]
        kind, v = call(fn)
        ctx.check(kind == "error" and isinstance(v, want) and len(system.log()) == n0, f"{where}got {kind} {short(v)} instead of {want.__name__}",
                  "request without a table")

    def ask(self, ctx, where, op, sc, system, stats, data, analyzed, deleted, settings, cached, dirty):
        t, what = op["t"], op["kind"]
        is_pg = sc["system"] == "pg"
        col = None if what == "total_rows" else op["col"] % len(TABLES[t][2])
        arg = op["arg"] if what == "most_common_values" else op["bins"] if what == "histogram" else None
        emulated = op["emulated"] if op["emulated"] is not None else settings["emulated"]
        fallback = not emulated and (what == "min_max" or not is_pg and what != "total_rows")
        native = not emulated and not fallback
        if native and is_pg and what in ("most_common_values", "histogram"):
            emulated, native, op = True, False, op | {"emulated": True}
        kw = {"emulated": op["emulated"]} if op["emulated"] is not None else {}
        if fallback:
            op = op | {"cache": None}
        effective = next(x for x in (op["cache"], settings["cache_enabled"], settings["db_cache"]) if x is not None)
        if op["cache"] is not None:
            kw["cache_enabled"] = op["cache"]
        if what == "most_common_values":
            kw["k"] = arg
        elif what == "histogram" and not fallback:
            kw["n_bins"] = arg
        if fallback and what == "histogram":
            arg = 100
        key = (what, t, col, arg if what == "most_common_values" else None)
        before = data.snapshot(t, col)
        count = 0

        def armed(stmt):
            nonlocal count, dirty
            if getattr(stmt, "session", None) is not None and stmt.session.app != "PostBOUND":
                return {}
            count += 1
            if op["change"] and count == op["nth"] and is_pg:
                data.apply(op["change"])
                if op["change"]["what"] != "insert":
                    deleted.add(t)
                dirty = True
                ctx.probe("changed_during_request")
            if op["fail"] is not None and count == 1:
                return {"fail": system.fails[op["fail"] % len(system.fails)]}
            return {}

        system.armed = armed
        n0 = len(system.log())
        kind, got = call(getattr(stats, what), self.reference(t, col), **kw)
        system.armed = None
        sent = len(system.log()) - n0
        after = data.snapshot(t, col)
        if isinstance(got, BaseException):
            text = short(got)
        else:
            text = f"{list(got)} from {got.lower}" if what == "histogram" and got is not None and kind == "ok" else f"{got!r:.300}"
        ctx.state(sc["system"], what, emulated, native, effective, kind, sent, op["fail"] is not None, bool(before), None in before)
        if fallback and not settings["enable_emulation_fallback"]:
            ctx.check(kind == "error" and isinstance(got, pb.db.UnsupportedDatabaseFeatureError) and not sent,
                      f"{where}a statistic the system does not maintain gave {text} although emulation is not allowed", "forbidden emulation")
            return dirty
        failed = op["fail"] is not None and count >= 1
        if failed:
            ctx.check(kind == "error", f"{where}the request failed but was answered with {text}", "answer without data")
            if is_pg and system.fails[op["fail"] % len(system.fails)] == "lose":
                kind, v = call(system.db.reset_connection)
                ctx.check(kind == "ok", f"{where}reset_connection failed: {short(v)}", "reset failed")
            return dirty
        ctx.check(kind == "ok", f"{where}failed: {text}", "unexpected error")
        if native:
            if not is_pg:
                fine = isinstance(got, int) and (got == len(before) if t not in deleted else got >= 0)
                ctx.check(fine, f"{where}the native row count is {text}, the table has {len(before)} rows", "wrong native statistic")
                return dirty
            if what == "total_rows":
                want = analyzed.get((t, None))
                ctx.check(got == want, f"{where}the native row count is {text}, it was {want} at the last ANALYZE", "wrong native statistic")
            else:
                d, _rows = analyzed.get((t, col), (None, None))
                now = analyzed.get((t, None))
                want = {d}
                if d is not None and _rows != now:      # a ratio of rows, applied to the row count of a later ANALYZE of other columns
                    want.add(round(d / _rows * now))
                ctx.check(got in want, f"{where}the native number of distinct values is {text}, it was {d} of {_rows} rows at the last ANALYZE",
                          "wrong native statistic")
            ctx.nontrivial |= dirty
            return dirty
        if effective and key in cached:
            wrong = matches(what, cached[key], arg, got)
            ctx.check(sent == 0, f"{where}sent {sent} statements although the statistic is cached", "sent although cached")
            ctx.check(wrong is None, f"{where}answered {text} from the cache, but when it was determined {wrong}", "wrong cached statistic")
            if cached[key] != before:
                ctx.nontrivial = True
                ctx.probe("stale_answer")
            return dirty
        related = [v for (w, tt, cc, _), v in cached.items() if (w, tt, cc) == (what, t, col)] if effective and sent == 0 else []
        fits = [v for v in [after, before, *related] if matches(what, v, arg, got) is None]
        ctx.check(bool(fits), f"{where}answered {text}, but {matches(what, after, arg, got)}", f"wrong {what}")
        ctx.check(sent or related, f"{where}answered without asking the database", "not sent")
        if effective:
            if len({repr(f) for f in fits}) == 1 or before == after:
                cached[key] = fits[0]
            else:
                cached[key] = fits[0] if what != "histogram" else fits[0]
        ctx.nontrivial |= dirty
        return dirty


PROPS = {"S24": S24()}
