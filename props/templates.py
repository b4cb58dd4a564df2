"""S34: workloads generated from CEB templates instantiate their templates (PostgresInterface on the simulated server, DuckDBInterface on the
real engine)."""
from __future__ import annotations

import datetime
import decimal
import json
import os
import pathlib
import re

from dst import simduck, simpg

from . import Prop
from .common import call, pb, pg, short
from .duck import REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB

from postbound.experiments import ceb

COLS = [("m", "title", "TEXT"), ("m", "year", "INTEGER"), ("m", "added", "DATE"), ("m", "score", "NUMERIC"), ("m", "order", "INTEGER"),
        ("k", "kind", "TEXT"), ("m", "year", "INTEGER"), ("m", "title", "TEXT"), ("m", "kind_id", "INTEGER")]
TABLE = {"m": "movie", "k": "kind"}
TEXTS = ["x", "y", "O'Neil", "it''s", "", "100%", 'say "hi"', "a, b", "(c)", "0", "xy", "\u00e4"]
RESERVED = {"order"}


def ident(alias, col, aliased):
    name = f'"{col}"' if col in RESERVED else col
    return f"{alias}.{name}" if aliased else f"{TABLE[alias]}.{name}"


def value(typ, i):
    if i is None:
        return None
    if typ == "TEXT":
        return TEXTS[i % len(TEXTS)]
    if typ == "DATE":
        return datetime.date(2020, 1, 1) + datetime.timedelta(days=40 * i)
    if typ == "NUMERIC":
        return (i - 3) / 4
    return i - 3


def toml(v):
    if isinstance(v, (list, tuple)):
        return "[" + ", ".join(map(toml, v)) + "]"
    if isinstance(v, datetime.date):
        return v.isoformat()
    return json.dumps(v, ensure_ascii=False) if isinstance(v, str) else str(v)


def plain(v):
    if isinstance(v, datetime.date):
        return str(v)
    if isinstance(v, (int, float, decimal.Decimal)) and not isinstance(v, bool):
        return decimal.Decimal(str(v)).normalize()
    return v


class Template:
    """A template of the scenario, its TOML file, and what its queries must look like."""

    def __init__(self, spec, n) -> None:
        self.spec, self.title = spec, f"tpl-{n}"
        self.aliased = spec["aliased"]
        self.preds = []
        for i, p in enumerate(spec["preds"]):
            cols = [COLS[c] for c in p["cols"]]
            deps = [d for d in p["deps"] if d < i]
            self.preds.append({**p, "columns": cols, "deps": deps if p["type"] == "sql" else [], "keys": [f"K{i}_{j}" for j in range(len(cols))], "name": f"P{i}"})
        self.source = ("movie m, kind k", "m.kind_id = k.id") if self.aliased else ("movie, kind", "movie.kind_id = kind.id")
        self.base = f"SELECT COUNT(*) FROM {self.source[0]} WHERE {self.source[1]}" + "".join(" AND " + c for p in self.preds for c in self.conditions(p)) \
            + "".join(" AND " + c for p in self.preds if p["twice"] for c in self.conditions(p))

    def conditions(self, p):
        return [f"{ident(a, c, self.aliased)} {op} <<{k}>>" for (a, c, _), op, k in zip(p["columns"], p["ops"], p["keys"])]

    def sql(self, p):
        cols = [ident(a, c, self.aliased) for a, c, _ in p["columns"]]
        select = list(cols)
        if p["weights"] is not None:
            select.insert(0 if p["weights"] == 0 else len(select), "COUNT(*)")
        where = [self.source[1]] + [c for d in p["deps"] for c in self.conditions(self.preds[d]) * (1 + self.preds[d]["twice"])]
        return f"SELECT {', '.join(select)} FROM {self.source[0]} WHERE {' AND '.join(where)}" + (f" GROUP BY {', '.join(cols)}" if p["weights"] is not None else "")

    def options(self, p):
        """(values, weight) of a list predicate."""
        out, seen = [], set()
        for numbers, w in p["options"]:
            values = tuple(value(typ, i) for (_, _, typ), i in zip(p["columns"], numbers))
            if p["weights"] is not None and values in seen:
                continue
            seen.add(values)
            out.append((values, w))
        if p["weights"] is not None and not any(w for _, w in out):
            out[0] = (out[0][0], 1)
        return out

    def weights_column(self, p):
        return None if p["weights"] is None else 1 if p["weights"] == 0 else len(p["columns"]) + 1

    def text(self):
        aliases = {"m": "movie", "k": "kind"} if self.aliased else {"movie": "", "kind": ""}
        out = [f"title = {toml(self.title)}", "[base_sql]", f"sql = '''{self.base}'''",
               "table_aliases = { " + ", ".join(f"{a} = {toml(t)}" for a, t in aliases.items()) + " }"]
        for i in self.spec["order"]:
            if i >= len(self.preds):
                continue
            p = self.preds[i]
            wrap = "<<{}>>" if p["wrap"] else "{}"
            names = [c if p["bare"] and not self.aliased else f"{a if self.aliased else TABLE[a]}.{c}" for a, c, _ in p["columns"]]
            out += ["[[predicates]]", f"name = {toml(p['name'])}", f"keys = {toml([wrap.format(k) for k in p['keys']])}", f"columns = {toml(names)}",
                    f"pred_type = {toml(p['ops'])}", f"sampling_method = {toml('weighted' if p['weighted'] or p['weights'] is not None else 'uniform')}",
                    f"type = {toml(p['type'])}"]
            if p["type"] == "sql":
                out.append(f"sql = '''{self.sql(p)}'''")
                if p["deps"]:
                    out.append(f"dependencies = {toml([self.preds[d]['name'] for d in p['deps']])}")
            else:
                options = []
                for values, w in self.options(p):
                    row = list(values)
                    if p["weights"] is not None:
                        row.insert(0 if p["weights"] == 0 else len(row), w)
                    options.append(row if len(row) > 1 or p["nested"] else row[0])
                out.append(f"options = {toml(options)}")
            if p["weights"] is not None:
                out.append(f"weights_column = {self.weights_column(p)}")
            if p["ops"] == ["IN"]:
                lo, hi = self.samples(p)
                out += ([f"min_samples = {lo}"] if lo != 1 else []) + ([f"max_samples = {hi}"] if hi is not None else [])
        return "\n".join(out) + "\n"

    def samples(self, p):
        lo, hi = p["samples"]
        if p["type"] == "list":
            lo = min(lo, len({v for v, w in self.options(p) if w or p["weights"] is None}))
        return lo, hi if hi is None else max(lo, hi)

    def extract(self, query):
        """The text that replaced each placeholder, None if this is not an instance of the template."""
        parts = re.split(r"<<(\w+)>>", self.base)
        pattern = "".join(re.escape(x) if i % 2 == 0 else f"(?P={x})" if x in parts[1:i:2] else f"(?P<{x}>.*?)" for i, x in enumerate(parts))
        m = re.fullmatch(pattern, query, re.S)
        return m.groupdict() if m else None


def split_list(text):
    """The elements of a parenthesised SQL list, None if it is none."""
    if not (text.startswith("(") and text.endswith(")")):
        return None
    out, depth, quoted, cur = [], 0, False, ""
    for ch in text[1:-1]:
        if ch == "'":
            quoted = not quoted
        if not quoted:
            depth += (ch == "(") - (ch == ")")
            if ch == "," and depth == 0:
                out.append(cur)
                cur = ""
                continue
        cur += ch
    return None if quoted or depth else out + [cur]


class System:
    def __init__(self, ctx, sc) -> None:
        self.k = ctx.k
        script = ('CREATE TABLE kind(id INTEGER PRIMARY KEY, kind TEXT);\nCREATE TABLE movie(id INTEGER PRIMARY KEY, title TEXT, "year" INTEGER, '
                  f'kind_id INTEGER, added DATE, score {"NUMERIC" if sc["system"] == "pg" else "DOUBLE"}, "order" INTEGER);')
        rows = {"kind": [[i, value("TEXT", x)] for i, x in enumerate(sc["kinds"])],
                "movie": [[i, value("TEXT", a), value("INTEGER", b), c % max(1, len(sc["kinds"])) if c is not None else None, value("DATE", d), value("NUMERIC", e), value("INTEGER", f)]
                          for i, (a, b, c, d, e, f) in enumerate(sc["movies"])]}
        self.armed = None
        self.pg = sc["system"] == "pg"
        if self.pg:
            self.server = simpg.Server(ctx.k, script)
            simpg.install(self.server)
            con = self.server.db.con
            for t, rs in rows.items():
                for r in rs:
                    con.execute(f"INSERT INTO {t} VALUES ({', '.join('?' * len(r))})", [str(v) if isinstance(v, datetime.date) else v for v in r])
            self.server.db.stale = True
            self.server.on_statement = lambda session, stmt: self.armed(stmt.sql) if self.armed else {}
            self.db = pg.PostgresInterface("dbname=simdb host=localhost", cache_enabled=False)
            self.con, self.log = con, self.server.log
        else:
            self.engine = simduck.Engine(ctx.k)
            path = os.path.join(ctx.tmp, "simdb.duckdb")
            simduck.make_database(path, script)
            simduck.install(self.engine)
            self.engine.on_statement = lambda con, stmt: self.armed(stmt.sql) if self.armed else {}
            self.con = simduck.real_connect(path, config={"threads": 1})
            for t, rs in rows.items():
                for r in rs:
                    self.con.execute(f"INSERT INTO {t} VALUES ({', '.join('?' * len(r))})", r)
            self.db = pb.duckdb.DuckDBInterface(path, cache_enabled=False)
            self.log = self.engine.log

    def rows(self, sql):
        return self.con.execute(sql).fetchall()

    @property
    def fails(self):
        return ["internal", "oom", "lose", "cancel"] if self.pg else ["internal", "oom"]


class S34(Prop):
    id = "S34"
    quick_runs = 1500
    thorough_runs = 40000
    rule = ("A run is a data set (NULLs, quotes, empty and duplicate values), one to three templates with correlated, dependent, weighted and IN predicates "
            "over explicit lists or SQL (listed in any order, aliased tables or not) and a history of workload generations, some hit by failing "
            "requests, and of stored workloads; random choices are the scheduler's. Non-trivial: a query with a dependent predicate was generated. "
            "Distinct by event-log hash.")
    state_measure = "distinct (system, kinds of predicates, dependencies, samples, outcome) combinations"
    real = REAL + REAL_DUCK + ["the CEB generator, its TOML reader and the writer of workload files"]
    stub = STUB + STUB_DUCK
    assumptions = ASSUMPTIONS[1:] + ["Templates follow the documented rules; values that make a LIKE pattern are used as they are."]
    shrink_lists = ("ops", "templates", "movies")

    def scenario(self, rng, tier):
        def predicate(i):
            width = rng.choice([1, 1, 1, 2])
            cols = rng.sample(range(len(COLS)), width)
            ops = []
            for c in cols:
                kinds = ["=", "=", "<", ">", "<=", ">=", "<>"] + (["LIKE", "LIKE", "LIKE"] if COLS[c][2] == "TEXT" else [])
                ops.append(rng.choice(kinds))
            if width == 1 and rng.random() < 0.35:
                ops = ["IN"]
            lo = rng.choice([1, 1, 1, 2, 3])
            weighted = rng.random() < 0.45
            return {"cols": cols, "ops": ops, "type": rng.choice(["sql", "sql", "sql", "list"]), "weighted": weighted,
                    "weights": rng.choice([None, 0, 1]) if weighted else None, "deps": rng.sample(range(i), min(i, rng.choice([0, 1, 1, 2]))),
                    "samples": [lo, rng.choice([None, lo, lo + 1])], "wrap": rng.random() < 0.3, "bare": rng.random() < 0.5, "nested": rng.random() < 0.3, "twice": rng.random() < 0.2,
                    "options": [[[rng.randrange(12) for _ in range(width)], rng.choice([0, 1, 1, 5])] for _ in range(rng.choice([1, 2, 3, 5]))]}
        templates = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            n = rng.choice([1, 2, 2, 3, 4])
            templates.append({"aliased": rng.random() < 0.6, "preds": [predicate(i) for i in range(n)], "order": rng.sample(range(n), n)})
        family = rng.random()
        if family < 0.08:
            # a second query turns up rarely, and there is no third one
            col = rng.choice([1, 8])
            templates = [{"aliased": True, "order": [0], "preds": [predicate(0) | {"cols": [col], "ops": ["="], "type": "list", "weighted": True, "weights": 1,
                          "deps": [], "options": [[[3], 40], [[4], rng.choice([1, 2])]]}]}]
        elif family < 0.3:
            # several predicates depend on the same value, which not all of them can satisfy
            first = predicate(0) | {"cols": [rng.choice([1, 2, 3, 4])], "ops": ["="], "type": "sql", "weighted": False, "weights": None}
            others = [predicate(1) | {"cols": [rng.choice([0, 3, 4, 5])], "ops": [rng.choice(["=", "<"])], "type": "sql", "deps": [0]},
                      predicate(2) | {"cols": [rng.choice([0, 1, 5])], "ops": ["IN"], "type": "sql", "deps": [0], "samples": [rng.choice([2, 2, 3]), None]}]
            templates = [{"aliased": rng.random() < 0.6, "preds": [first, *others], "order": rng.sample(range(3), 3)}]
        spread = rng.choice([2, 4, 12])
        nulls = rng.choice([0, 0, 0.15])
        cell = lambda: None if rng.random() < nulls else rng.randrange(spread)  # noqa: E731
        ops = []
        for _ in range(rng.randint(1, 3 if tier == "quick" else 6)):
            ops.append({"op": rng.choice(["raw", "raw", "raw", "parsed"]), "n": rng.choice([1, 1, 2, 4]), "only": rng.choice([None, None, 0]),
                        "fail": rng.randrange(12) if rng.random() < 0.15 else None, "how": rng.randrange(4), "persist": rng.random() < 0.3})
        if family < 0.08:
            ops = [{"op": "raw", "n": 3, "only": None, "fail": None, "how": 0, "persist": False} for _ in range(8)]
        return {"system": rng.choice(["pg", "duck"]), "templates": templates, "kinds": [rng.randrange(12) for _ in range(rng.choice([1, 2, 4]))],
                "movies": [[cell(), cell(), rng.randrange(8), cell(), cell(), cell()] for _ in range(rng.choice([1, 4, 10, 20]))], "ops": ops, "sched": {"p_stay": 1.0}}

    def run(self, ctx, sc):
        os.chdir(ctx.tmp)
        system = System(ctx, sc)
        templates = [Template(t, n) for n, t in enumerate(sc["templates"])]
        os.mkdir("templates")
        for t in templates:
            pathlib.Path("templates", f"{t.title}.toml").write_text(t.text(), encoding="utf-8")
        pathlib.Path("templates", "README.md").write_text("no template")
        for n, op in enumerate(sc["ops"]):
            self.generate(ctx, f"op {n} {op} on {sc['system']}: ", n, op, sc, system, templates)
        call(system.db.close)

    def generate(self, ctx, where, n, op, sc, system, templates):
        chosen = templates if op["only"] is None else [templates[op["only"]]]
        pattern = {} if op["only"] is None else {"template_pattern": f"{chosen[0].title}*"}
        state = {"n": 0, "fired": None}

        def armed(sql):
            state["n"] += 1
            ctx.check(state["n"] < 20000, f"{where}20000 statements and no workload", "no progress")
            if op["fail"] is not None and state["n"] == op["fail"] + 1:
                state["fired"] = system.fails[op["how"] % len(system.fails)]
                ctx.k.fault(state["fired"])
                return {"fail": state["fired"]}
            return {}
        system.armed = armed
        sent = len(system.log)
        if op["op"] == "raw":
            kind, result = call(ceb.generate_raw_workload, "templates", queries_per_template=op["n"], db_connection=system.db, **pattern)
        else:
            kind, result = call(ceb.generate_workload, "templates", queries_per_template=op["n"], db_connection=system.db, name="w", **pattern)
        system.armed = None
        asked = [s.sql for s in system.log[sent:]]
        if state["fired"]:
            if kind == "error":
                if state["fired"] == "lose":
                    call(system.db.reset_connection)
                return
        if kind == "error" and isinstance(result, ceb.SamplingError):
            ctx.check(self.may_fail(op, chosen, system, asked), f"{where}refused although every choice leads to a query: {short(result)}", "sampling error")
            ctx.state((sc["system"], "sampling error", op["n"]))
            return
        ctx.check(kind == "ok", f"{where}no workload: {short(result)}", f"failed {type(result).__name__}")
        labels = {f"{t.title}-{i}": t for t in chosen for i in range(1, op["n"] + 1)}
        found = dict(result) if op["op"] == "raw" else dict(result.entries())
        ctx.check(set(found) == set(labels), f"{where}queries {sorted(found)} instead of {sorted(labels)}", "labels")
        texts = [v if op["op"] == "raw" else str(v) for v in found.values()]
        ctx.check(len(set(texts)) == len(texts), f"{where}the same query twice: {texts}", "duplicate queries")
        for label, query in found.items():
            if op["op"] == "raw":
                self.judge(ctx, f"{where}{label} {query!r}: ", system, labels[label], query, sc)
            kind, rows = call(system.db.execute_query, str(query), raw=True)
            ctx.check(kind == "ok", f"{where}{label} {str(query)!r} cannot be executed: {short(rows)}", "query fails")
            expected = system.rows(str(query))
            ctx.check([tuple(r) for r in rows] == [tuple(r) for r in expected], f"{where}{label} returns {rows}, not {expected}", "rows")
        if op["persist"]:
            target = pathlib.Path(f"out{n}")
            target.mkdir()
            kind, v = call(ceb.persist_workload, str(target) if op["n"] == 1 else target, result)
            ctx.check(kind == "ok", f"{where}storing failed: {short(v)}", "persist failed")
            stored = {p.stem: p.read_text(encoding="utf-8") for p in target.iterdir()}
            ctx.check(set(stored) == set(found), f"{where}stored {sorted(stored)}", "stored labels")
            for label, text in stored.items():
                want = found[label]
                same = text == want + "\n" if op["op"] == "raw" else pb.parse_query(text) == want
                ctx.check(same, f"{where}{label} stored as {text!r} instead of {str(want)!r}", "stored query")

    @staticmethod
    def may_fail(op, chosen, system, asked) -> bool:
        """Whether some choice of values leads nowhere, or the queries may run out."""
        if op["n"] > 1 or len(chosen) > 1 and len({t.base for t in chosen}) < len(chosen):
            return True
        most = max([t.samples(p)[0] for t in chosen for p in t.preds if p["ops"] == ["IN"]], default=1)
        for sql in asked:
            if "kind" not in sql or "information_schema" in sql or "pg_" in sql:
                continue
            try:
                rows = system.rows(sql)
            except Exception:  # noqa: BLE001
                continue
            if len({tuple(r) for r in rows}) < most:
                return True
        return False

    def judge(self, ctx, where, system, template, query, sc):
        texts = template.extract(query)
        ctx.check(texts is not None, f"{where}is no instance of {template.base!r}", "instance")
        ctx.k.event(query)
        for p in template.preds:
            chosen = []
            for (alias, col, typ), op, key in zip(p["columns"], p["ops"], p["keys"]):
                chosen.append(self.evaluate(ctx, where, system, texts[key], op, typ))
            if p["type"] == "sql":
                sql = template.sql(p)
                for d in p["deps"]:
                    for key in template.preds[d]["keys"]:
                        sql = sql.replace(f"<<{key}>>", texts[key])
                rows = [tuple(r) for r in system.rows(sql)]
                if p["weights"] is not None:
                    rows = [r[1:] if p["weights"] == 0 else r[:-1] for r in rows]
                if p["deps"]:
                    ctx.nontrivial = True
            else:
                rows = [v for v, w in template.options(p) if w or p["weights"] is None]
            rows = [tuple(plain(v) for v in r) for r in rows]
            if p["ops"] == ["IN"]:
                values = chosen[0]
                lo, hi = template.samples(p)
                ctx.check(all((v,) in rows for v in values), f"{where}{p['name']}: {values} are not all among {sorted(set(rows), key=repr)[:12]}", "IN values")
                ctx.check(len(set(values)) == len(values), f"{where}{p['name']}: {values} repeats a value", "IN repeats")
                ctx.check(lo <= len(values) <= (hi if hi is not None else len(set(rows))), f"{where}{p['name']}: {len(values)} values, asked for {lo} to {hi}", "IN samples")
            else:
                ctx.check(tuple(chosen) in self.like(rows, p["ops"]), f"{where}{p['name']}: {chosen} is none of {sorted(set(rows), key=repr)[:12]}", "values")
        shape = tuple(sorted((tuple(p["ops"]), p["type"], p["weighted"], str(p["weights"]), len(p["deps"])) for p in template.preds))
        ctx.state((sc["system"], template.aliased, shape))

    @staticmethod
    def like(rows, ops):
        """Candidate rows as the literals they should lead to."""
        return {tuple(f"%{v}%" if op in ("LIKE", "ILIKE") and v is not None else v for v, op in zip(r, ops)) for r in rows}

    @staticmethod
    def evaluate(ctx, where, system, text, op, typ):
        items = split_list(text) if op == "IN" else [text]
        ctx.check(bool(items), f"{where}{text!r} is no list", "IN list")
        out = []
        for item in items:
            quoted = item.strip().startswith("'")
            try:
                v = system.rows(f"SELECT {item}")[0][0]
            except Exception as e:  # noqa: BLE001
                ctx.violate(f"{where}{item!r} is no literal: {short(e)}", "literal")
            ctx.check(v is None or quoted == (typ in ("TEXT", "DATE")), f"{where}{item!r} is no {typ} literal", "literal type")
            out.append(plain(v))
        return out if op == "IN" else out[0]


PROPS = {"S34": S34()}
