"""S29: schema look-ups describe the tables as they are (PostgresInterface and the generic implementation on the simulated server,
DuckDBInterface on the real engine)."""
from __future__ import annotations

import copy
import os

from dst import simduck, simpg

from . import Prop
from .common import call, pb, pg, short
from .duck import REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB

NAMES = ["r", "s", "t", "movie info", "Upper", "k1", "k2"]
COLS = [("id", "INTEGER"), ("a", "INTEGER"), ("b", "INTEGER"), ("order", "INTEGER"), ("Name", "TEXT"), ("since", "DATE")]
DTYPE = {"pg": {"INTEGER": "integer", "TEXT": "text", "DATE": "date"}, "duck": {"INTEGER": "INTEGER", "TEXT": "VARCHAR", "DATE": "DATE"}}
DTYPE["base"] = DTYPE["pg"]
VIEWS = ["v0", "v1"]
KINDS = ["tables", "columns", "is_view", "lookup_column", "is_primary_key", "primary_key_column", "has_secondary_index", "has_index", "indexes_on",
         "foreign_keys_on", "datatype", "is_nullable", "as_graph", "equivalence", "getitem_table", "getitem_column", "getitem_str", "indexed_column",
         "len", "iter"]


def q(name):
    return f'"{name}"'


class Model:
    """The tables by (schema, name)."""

    def __init__(self) -> None:
        self.tables: dict = {}
        self.views: dict = {}      # (schema, name) -> table name
        self.indexes: dict = {}    # (schema, name) -> (table name, columns)

    def plan(self, op):
        """Adapts an operation to what exists. Returns (sql builder, effect) or None."""
        schema, what = op["schema"], op["what"]
        here = sorted(n for s, n in self.tables if s == schema)
        if what == "create":
            name = NAMES[op["name"]]
            if (schema, name) in self.tables:
                return None
            cols = [COLS[c] for c in op["cols"]]
            names = [c for c, _ in cols]
            pk = [names[i % len(names)] for i in op["pk"]]
            pk = list(dict.fromkeys(pk))
            unique = []
            for u in op["unique"]:
                u = list(dict.fromkeys(names[i % len(names)] for i in u))
                if u not in unique and sorted(u) != sorted(pk) and not any(sorted(u) == sorted(x) for x in unique):
                    unique.append(u)
            notnull = [names[i % len(names)] for i in op["notnull"]]
            fks = []
            for src, target, kind in op["fks"]:
                candidates = [(t, c) for t in here for c in self.keys(schema, t) if self.type(schema, t, c) == dict(cols)[names[src % len(names)]]]
                if candidates:
                    fk = (names[src % len(names)], *candidates[target % len(candidates)])
                    if fk not in fks:
                        fks.append(fk)
            table = {"cols": cols, "pk": pk, "unique": unique, "fks": fks, "notnull": notnull}

            def sql(qualified, duck):
                parts = [f"{q(c)} {t}" + (" NOT NULL" if c in notnull else "") for c, t in cols]
                parts += [f"PRIMARY KEY({', '.join(map(q, pk))})"] if pk else []
                parts += [f"UNIQUE({', '.join(map(q, u))})" for u in unique]
                prefix = f"{schema}." if schema and duck else ""
                parts += [f"FOREIGN KEY({q(c)}) REFERENCES {prefix}{q(t)}({q(tc)})" for c, t, tc in fks]
                return f"CREATE TABLE {qualified}{q(name)}({', '.join(parts)})"
            return sql, lambda: self.tables.__setitem__((schema, name), table)
        if what == "view":
            name = VIEWS[op["name"] % 2]
            if not here or (schema, name) in self.views:
                return None
            t = here[op["pick"] % len(here)]
            return (lambda qualified, duck: f"CREATE VIEW {qualified}{q(name)} AS SELECT * FROM {qualified}{q(t)}",
                    lambda: self.views.__setitem__((schema, name), t))
        if what == "drop_view":
            views = sorted(n for s, n in self.views if s == schema)
            if not views:
                return None
            v = views[op["pick"] % len(views)]
            return lambda qualified, duck: f"DROP VIEW {qualified}{q(v)}", lambda: self.views.pop((schema, v))
        if what == "index":
            if not here or (schema, f"ix{op['name']}") in self.indexes:
                return None
            t = here[op["pick"] % len(here)]
            names = [c for c, _ in self.tables[schema, t]["cols"]]
            cols = list(dict.fromkeys(names[i % len(names)] for i in op["cols"]))[:op["width"]]
            name = f"ix{op['name']}"

            def sql(qualified, duck):
                place = (f"{name} ON {qualified}" if duck else f"{qualified}{name} ON ")
                return f"CREATE {'UNIQUE ' if op['uniq'] else ''}INDEX {place}{q(t)}({', '.join(map(q, cols))})"
            return sql, lambda: self.indexes.__setitem__((schema, name), (t, cols))
        if what == "drop_index":
            found = sorted(n for s, n in self.indexes if s == schema)
            if not found:
                return None
            n = found[op["pick"] % len(found)]
            return lambda qualified, duck: f"DROP INDEX {qualified}{n}", lambda: self.indexes.pop((schema, n))
        if what in ("add_column", "drop_column", "rename_column"):
            plain = [t for t in here if not any(s == schema and v == t for (s, _), v in self.views.items()) and (schema, t) != ("s2", "keep")]
            if not plain:
                return None
            t = plain[op["pick"] % len(plain)]
            x = self.tables[schema, t]
            have = [c for c, _ in x["cols"]]
            new = [(c, typ) for c, typ in COLS if c not in have]
            used = {*x["pk"], *(c for u in x["unique"] for c in u), *x["notnull"], *(f[0] for f in x["fks"]),
                    *(c for (s, _), (tt, cols) in self.indexes.items() if (s, tt) == (schema, t) for c in cols),
                    *(f[2] for (s, _), y in self.tables.items() if s == schema for f in y["fks"] if f[1] == t)}
            free = [c for c in have if c not in used]
            if what != "drop_column" and not new or what != "add_column" and not free or what == "drop_column" and len(have) < 2:
                return None
            table = f"ALTER TABLE {{}}{q(t)} "
            old, (name, typ) = free[op["col"] % len(free)] if free else None, new[op["col"] % len(new)] if new else ("", "")
            if what == "add_column":
                return lambda qualified, duck: table.format(qualified) + f"ADD COLUMN {q(name)} {typ}", lambda: x["cols"].append((name, typ))
            if what == "drop_column":
                return lambda qualified, duck: table.format(qualified) + f"DROP COLUMN {q(old)}", lambda: x["cols"].__delitem__(have.index(old))
            return (lambda qualified, duck: table.format(qualified) + f"RENAME COLUMN {q(old)} TO {q(name)}",
                    lambda: x["cols"].__setitem__(have.index(old), (name, x["cols"][have.index(old)][1])))
        # drop a table nobody depends on
        free = [t for t in here if not any(s == schema and n != t and any(f[1] == t for f in x["fks"]) for (s, n), x in self.tables.items())
                and not any(s == schema and v == t for (s, _), v in self.views.items())]
        if not free:
            return None
        t = free[op["pick"] % len(free)]

        def drop():
            del self.tables[schema, t]
            self.indexes = {k: v for k, v in self.indexes.items() if (k[0], v[0]) != (schema, t)}
        return lambda qualified, duck: f"DROP TABLE {qualified}{q(t)}", drop

    def type(self, schema, t, c):
        return dict(self.tables[schema, t]["cols"])[c]

    def keys(self, schema, t):
        x = self.tables[schema, t]
        return ([x["pk"][0]] if len(x["pk"]) == 1 else []) + [u[0] for u in x["unique"] if len(u) == 1]

    def columns(self, schema, name):
        if (schema, name) in self.views:
            name = self.views[schema, name]
        x = self.tables.get((schema, name))
        return [c for c, _ in x["cols"]] if x else []

    def fks(self, schema, t, c):
        x = self.tables.get((schema, t))
        return {(schema, tt, tc) for src, tt, tc in (x["fks"] if x else []) if src == c}

    def single_indexes(self, schema, t, c, constraints=True):
        x = self.tables[schema, t]
        out = {n for (s, n), (tt, cols) in self.indexes.items() if (s, tt) == (schema, t) and cols == [c]}
        if constraints:
            out |= {f"{t}_{c}_key" for u in x["unique"] if u == [c]} | ({f"{t}_pkey"} if x["pk"] == [c] else set())
        return out

    def indexes_with(self, schema, t, c):
        x = self.tables[schema, t]
        out = {n for (s, n), (tt, cols) in self.indexes.items() if (s, tt) == (schema, t) and c in cols}
        return out | {f"{t}_{'_'.join(u)}_key" for u in x["unique"] if c in u} | ({f"{t}_pkey"} if c in x["pk"] else set())

    def components(self):
        groups: list = []
        for (s, t), x in self.tables.items():
            if s:
                continue
            for src, tt, tc in x["fks"]:
                pair = {("", t, src), ("", tt, tc)}
                touching = [g for g in groups if g & pair]
                groups = [g for g in groups if not g & pair] + [set().union(pair, *touching)]
        return groups


class PgSystem:
    kind = "pg"

    def __init__(self, ctx, sc) -> None:
        self.server = server = simpg.Server(ctx.k, "", schemas={"s2": "CREATE TABLE s2.keep(id INTEGER);"})
        simpg.install(server)
        self.armed = None
        server.on_statement = lambda session, stmt: self.armed() if self.armed else {}
        self.db = pg.PostgresInterface("dbname=simdb host=localhost")
        self.base = pb.db.DatabaseSchema(self.db) if sc["system"] == "base" else None

    def schema(self):
        return self.base or self.db.schema()

    def ddl(self, sql):
        self.server.db.con.execute(sql)
        self.server.db.stale = True

    fails = ["internal", "oom", "lose", "cancel"]


class DuckSystem:
    kind = "duck"

    def __init__(self, ctx, sc) -> None:
        self.engine = simduck.Engine(ctx.k)
        path = os.path.join(ctx.tmp, "simdb.duckdb")
        simduck.make_database(path, "CREATE SCHEMA s2; CREATE TABLE s2.keep(id INTEGER);")
        simduck.install(self.engine)
        self.armed = None
        self.engine.on_statement = lambda con, stmt: self.armed() if self.armed else {}
        self.db = pb.duckdb.DuckDBInterface(path)
        self.con = simduck.real_connect(path, config={"threads": 1})

    def schema(self):
        return self.db.schema()

    def ddl(self, sql):
        self.con.execute(sql)

    fails = ["internal", "oom"]


def col_key(c):
    return None if c is None else (c.table.schema or "", c.table.full_name, c.name)


def tab_key(t):
    return (t.schema or "", t.full_name)


class S29(Prop):
    id = "S29"
    quick_runs = 2600
    thorough_runs = 60000
    rule = ("A run is a history of schema changes (tables with keys, foreign keys, unique constraints; indexes; views; in two schemas, by another "
            "client or through the same connection), schema look-ups of all kinds in between, failing or lost look-ups, and reset connections. "
            "Non-trivial: the schema changed after a first look-up and before another. Distinct by event-log hash.")
    state_measure = "distinct (system, look-up, schema, kind of relation, answer shape, statements sent) combinations"
    real = REAL + REAL_DUCK + ["the generic information_schema based implementation (DatabaseSchema)"]
    stub = STUB + STUB_DUCK + ["information_schema and pg_catalog of the simulated server, derived from its sqlite tables"]
    assumptions = ASSUMPTIONS[1:] + ["Foreign keys are single-column; compound keys and indexes only count where the documentation says so.",
                                     "Constraint names are unique within a schema, as names chosen by Postgres are."]
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        def ddl(what=None):
            what = what or rng.choices(["create", "drop", "index", "drop_index", "view", "drop_view", "add_column", "drop_column", "rename_column"], [5, 1.6, 3, 0.8, 1, 0.5, 1.5, 1.5, 1])[0]
            op = {"op": "ddl", "what": what, "schema": rng.choice(["", "", "", "s2"]), "name": rng.randrange(len(NAMES)), "pick": rng.randrange(6),
                  "own": rng.random() < 0.3}
            if what == "create":
                cols = rng.sample(range(len(COLS)), rng.randint(1, 5))
                some = lambda k: [rng.randrange(5) for _ in range(k)]  # noqa: E731
                op |= {"cols": cols, "pk": some(rng.choice([0, 1, 1, 1, 2])), "unique": [some(rng.choice([1, 1, 2])) for _ in range(rng.choice([0, 0, 1, 2]))],
                       "notnull": some(rng.choice([0, 1, 2])), "fks": [[rng.randrange(5), rng.randrange(8), 0] for _ in range(rng.choice([0, 1, 1, 2, 3]))]}
            elif what.endswith("_column"):
                op |= {"col": rng.randrange(6)}
            elif what == "index":
                op |= {"cols": [rng.randrange(5) for _ in range(3)], "width": rng.choice([1, 1, 1, 2]), "uniq": rng.random() < 0.3}
            return op

        ops = [ddl("create") for _ in range(rng.randint(1, 4))]
        for _ in range(rng.randint(4, 16 if tier == "quick" else 36)):
            kind = rng.choices(["ask", "ddl", "reset_connection", "bad"], [10, 4, 0.4, 0.4])[0]
            if kind == "ask":
                if rng.random() < 0.35 and (asks := [o for o in ops if o["op"] == "ask"]):
                    op = copy.deepcopy(rng.choice(asks)) | {"fail": None}
                else:
                    op = {"op": "ask", "kind": rng.choice(KINDS + ["lookup_column"] * 3), "schema": rng.choice(["", "", "", "s2"]), "t": rng.randrange(24), "col": rng.randrange(12),
                          "as_str": rng.random() < 0.3, "expect": rng.random() < 0.4, "candidates": [rng.randrange(12) for _ in range(rng.choice([1, 2, 4, 8]))],
                          "gen": rng.random() < 0.3, "fail": rng.randrange(8) if rng.random() < 0.08 else None}
            elif kind == "ddl":
                op = ddl()
            else:
                op = {"op": kind, "how": rng.randrange(12)}
            ops.append(op)
            if kind == "ask" and rng.random() < 0.4:
                # the same question before and after a change
                ops += [ddl(rng.choice(["add_column", "add_column", "drop_column", "rename_column", "index", "drop", "create", "view"])), copy.deepcopy(op) | {"fail": None}]
        return {"system": rng.choice(["pg", "pg", "base", "duck"]), "ops": ops, "sched": {"p_stay": 1.0}}

    def run(self, ctx, sc):
        os.chdir(ctx.tmp)
        model = Model()
        model.tables["s2", "keep"] = {"cols": [("id", "INTEGER")], "pk": [], "unique": [], "fks": [], "notnull": []}
        system = (DuckSystem if sc["system"] == "duck" else PgSystem)(ctx, sc)
        asked = changed = False
        for n, op in enumerate(sc["ops"]):
            where = f"op {n} {op} on {sc['system']}: "
            if op["op"] == "ddl":
                if self.ddl(ctx, where, op, sc, system, model):
                    changed = asked
            elif op["op"] == "reset_connection":
                kind, v = call(system.db.reset_connection)
                ctx.check(kind == "ok", f"{where}failed: {short(v)}", "reset failed")
            elif op["op"] == "bad":
                self.bad(ctx, where, op, system)
            else:
                ctx.nontrivial |= changed
                asked |= bool(self.ask(ctx, where, op, sc, system, model))
        call(system.db.close)

    def ddl(self, ctx, where, op, sc, system, model):
        duck = sc["system"] == "duck"
        plan = model.plan(op)
        if plan is None:
            return False
        sql, effect = plan
        text = sql(f"{op['schema']}." if op["schema"] else "", duck)
        if duck:
            try:
                system.ddl(text)
            except simduck.real.Error as e:
                ctx.probe("refused_ddl")
                ctx.k.event(f"refused {text}: {type(e).__name__}")
                return False
        elif op["own"] and not op["schema"] and op["what"] != "create":
            kind, v = call(lambda: system.db.cursor().execute(text))
            ctx.check(kind == "ok", f"{where}{text} failed: {short(v)}", "ddl failed")
        else:
            system.ddl(text)
        ctx.k.event(text)
        effect()
        return True

    def bad(self, ctx, where, op, system):
        from postbound import UnboundColumnError, VirtualTableError
        schema = system.schema()
        virtual = pb.TableReference.create_virtual("v")
        unbound, lost = pb.ColumnReference("a"), pb.ColumnReference("a", virtual)
        methods = [schema.is_primary_key, schema.has_secondary_index, schema.indexes_on, schema.foreign_keys_on, schema.datatype, schema.is_nullable]
        fn = methods[op["how"] % 6]
        arg, want = (unbound, UnboundColumnError) if op["how"] < 6 else (lost, VirtualTableError)
        kind, v = call(fn, arg)
        ctx.check(kind == "error" and isinstance(v, want), f"{where}{fn.__name__} gave {kind} {short(v)} instead of {want.__name__}", "request without a table")

    def ask(self, ctx, where, op, sc, system, model):
        what, sysname = op["kind"], sc["system"]
        schema = system.schema()
        wanted = op["schema"]
        relations = sorted(k for k in [*model.tables, *model.views] if k[0] == wanted)
        if op["t"] >= 21 or not relations:
            rel = (wanted, ["missing", "ghost"][op["t"] % 2])
        else:
            rel = relations[op["t"] % len(relations)]
        exists, is_view = rel in model.tables or rel in model.views, rel in model.views
        ref = pb.TableReference(rel[1], schema=rel[0])
        arg = rel[1] if op["as_str"] and not rel[0] else ref
        names = model.columns(*rel)
        col = names[op["col"] % len(names)] if names else "id"
        if what in ("is_primary_key", "primary_key_column", "has_secondary_index", "has_index", "indexes_on", "datatype", "is_nullable", "getitem_column",
                    "foreign_keys_on") and (not exists or is_view):
            return False
        if sysname == "base" and what in ("has_secondary_index", "has_index", "indexes_on", "indexed_column", "getitem_column", "getitem_table", "getitem_str"):
            return False    # the generic implementation only guesses indexes from constraints
        if sysname == "duck" and what == "indexed_column" or what == "getitem_table" and rel[0]:
            return False
        column = pb.ColumnReference(col, ref)
        table = model.tables.get(rel)
        current = {t for t in model.tables if not t[0]}
        views = {t for t in model.views if not t[0]}
        fn, check = None, None

        def eq(value, transform=lambda v: v):
            return lambda got: None if transform(got) == value and type(transform(got)) is type(value) else f"{value!r:.300} (got {transform(got)!r:.300})"

        def indexed(t, c):
            """(has a secondary index, has any index): each True, False or None (not specified)."""
            x = model.tables[t]
            single = model.single_indexes(*t, c, constraints=sysname != "duck") - {f"{t[1]}_pkey"}
            secondary = bool(single)
            if not secondary and sysname == "duck" and [c] in x["unique"]:
                secondary = None
            return secondary, True if x["pk"] == [c] else secondary

        def info_error(i, t):
            x = model.tables.get(t)
            if x is None:
                return None
            c = i.column.name
            if col_key(i.column) != (*t, c) or tab_key(i.table) != t or i.datatype != DTYPE[sysname][dict(x["cols"])[c]]:
                return f"the description of {t}.{c}"
            if bool(i.primary_key) != (x["pk"] == [c]) or bool(i.nullable) != (c not in x["notnull"] and c not in x["pk"]):
                return f"primary key {x['pk'] == [c]} and nullable {c not in x['notnull'] and c not in x['pk']} for {c}, not {i}"
            if (want := indexed(t, c)[1]) is not None and bool(i.indexed) != want:
                return f"indexed {want} for {c}"
            return None

        def table_info_error(i, t):
            if [x.column.name for x in i.columns] != model.columns(*t) or tab_key(i.table) != t:
                return f"the columns {model.columns(*t)}"
            x = model.tables.get(t)
            for c in i.columns:
                if e := info_error(c, t):
                    return e
            pk = (*t, x["pk"][0]) if x and len(x["pk"]) == 1 else None
            if col_key(i.primary_key) != pk:
                return f"primary key {pk}"
            out = {((*t, s), (t[0], tt, tc)) for s, tt, tc in x["fks"]} if x else set()
            inc = {((s, n, src), (s, tt, tc)) for (s, n), y in model.tables.items() for src, tt, tc in y["fks"] if (s, tt) == t}
            got_out = {(col_key(f.fk_col), col_key(f.referenced_col)) for f in i.outgoing_foreign_keys}
            got_in = {(col_key(f.fk_col), col_key(f.referenced_col)) for f in i.incoming_foreign_keys}
            return None if (got_out, got_in) == (out, inc) else f"foreign keys {out} and {inc} (got {got_out} and {got_in})"

        expected_error = None
        if what in ("tables", "len", "iter"):
            if what == "tables" and sysname == "pg" and rel[0]:
                here, over = {t for t in model.tables if t[0]}, {t for t in model.views if t[0]}
                fn = lambda: schema.tables(schema="s2")  # noqa: E731
            elif what == "tables":
                here, over = current, views
                fn = lambda: schema.tables(include_system_tables=True) if op["expect"] else schema.tables()  # noqa: E731
            else:
                here, over = current, views
                fn = (lambda: len(schema)) if what == "len" else lambda: list(schema)
            if what == "len":
                check = lambda got: None if got in (len(here), len(here | over)) else f"{len(here)} tables and {len(over)} views"  # noqa: E731
            else:
                check = lambda got: None if here <= {tab_key(t) for t in got} <= here | over and len(got) == len(set(got)) else f"{here} and {over}"  # noqa: E731
        elif what == "columns":
            fn, check = lambda: schema.columns(arg), eq([(*rel, c) for c in names], lambda got: [col_key(c) for c in got])
        elif what == "is_view":
            fn, check = lambda: schema.is_view(arg), eq(is_view)
            expected_error = None if exists else ValueError
        elif what == "lookup_column":
            everything = sorted([*model.tables, *model.views])
            picked = list(dict.fromkeys(everything[i % len(everything)] for i in op["candidates"])) if everything else []
            name = ([c for c, _ in COLS] + ["nope"])[op["col"] % 7]
            owner = next((t for t in picked if name in model.columns(*t)), None)
            refs = [pb.TableReference(t, schema=s) for s, t in picked]
            fn = lambda: schema.lookup_column(name if op["as_str"] else pb.ColumnReference(name), (r for r in refs) if op["gen"] else refs,  # noqa: E731
                                              expect_match=op["expect"])
            check = eq(owner, lambda got: tab_key(got) if got is not None else None)
            expected_error = ValueError if owner is None and op["expect"] else None
        elif what == "is_primary_key":
            fn, check = lambda: schema.is_primary_key(column), lambda got: None if bool(got) == (table["pk"] == [col]) else f"{table['pk'] == [col]}"
        elif what == "primary_key_column":
            fn, check = lambda: schema.primary_key_column(arg), eq((*rel, table["pk"][0]) if len(table["pk"]) == 1 else None, col_key)
            if len(table["pk"]) > 1:
                expected_error, check = "maybe", check
        elif what in ("has_secondary_index", "has_index"):
            want = indexed(rel, col)[what == "has_index"]
            fn = lambda: getattr(schema, what)(column)  # noqa: E731
            check = lambda got: None if want is None or bool(got) == want else f"{want}"  # noqa: E731
        elif what == "indexes_on":
            low, high = model.single_indexes(*rel, col, constraints=sysname != "duck"), model.indexes_with(*rel, col)
            fn = lambda: schema.indexes_on(column)  # noqa: E731
            if sysname == "duck":
                keyed = col in table["pk"] or any(col in u for u in table["unique"])
                check = lambda got: None if low <= set(got) and all(g in high or keyed and g.endswith("key") for g in got) else f"{low} up to {high}"  # noqa: E731
            else:
                check = lambda got: None if low <= set(got) <= high else f"{low} up to {high}"  # noqa: E731
        elif what == "foreign_keys_on":
            fn, check = lambda: schema.foreign_keys_on(column), eq(model.fks(*rel, col), lambda got: {col_key(c) for c in got})
        elif what == "datatype":
            fn, check = lambda: schema.datatype(column), eq(DTYPE[sysname][model.type(*rel, col)])
        elif what == "is_nullable":
            want = col not in table["notnull"] and col not in table["pk"]
            fn, check = lambda: schema.is_nullable(column), lambda got: None if bool(got) == want else f"{want}"
        elif what == "as_graph":
            def graph_error(g):
                if {tab_key(t) for t in g.nodes} != current:
                    return f"the tables {current}"
                for t, d in g.nodes(data=True):
                    x = model.tables[tab_key(t)]
                    pk = (*tab_key(t), x["pk"][0]) if len(x["pk"]) == 1 else None
                    types = {(*tab_key(t), c): DTYPE[sysname][ty] for c, ty in x["cols"]}
                    if [col_key(c) for c in d["columns"]] != list(types) or {col_key(c): v for c, v in d["data_type"].items()} != types or col_key(d["primary_key"]) != pk:
                        return f"{t.full_name} with {types} and primary key {pk}"
                want = sorted(((*t, s), (t[0], tt, tc)) for t in current for s, tt, tc in model.tables[t]["fks"])
                got = sorted((col_key(f.fk_col), col_key(f.referenced_col)) for _, _, d in g.edges(data=True) for f in d["foreign_keys"])
                return None if got == want else f"foreign keys {want} (got {got})"
            fn, check = schema.as_graph, graph_error
        elif what == "equivalence":
            groups = sorted(sorted(g) for g in model.components())
            if op["expect"]:
                fn, check = schema.join_equivalence_classes, eq(groups, lambda got: sorted(sorted(col_key(c) for c in g) for g in got))
            else:
                want = {c: sorted(g) for g in groups for c in g}
                fn, check = schema.join_equivalence_keys, eq(want, lambda got: {col_key(c): sorted(col_key(x) for x in g) for c, g in got.items()})
        elif what == "getitem_table":
            fn, check = lambda: schema[ref], lambda got: table_info_error(got, rel)
            expected_error = None if exists else KeyError
        elif what == "getitem_column":
            fn, check = lambda: schema[column], lambda got: info_error(got, rel)
        elif what == "getitem_str":
            if rel[0] or not exists:
                fn, check, expected_error = lambda: schema["ghost" if op["as_str"] else "ghost.id"], lambda got: None, KeyError
            elif op["as_str"]:
                fn, check = lambda: schema[rel[1]], lambda got: table_info_error(got, rel)
            elif is_view:
                return False
            else:
                fn, check = lambda: schema[f"{rel[1]}.{col}"], lambda got: info_error(got, rel)
        elif what == "indexed_column":
            found = sorted(k for k in model.indexes if k[0] == wanted)
            if not found:
                return False
            s, name = found[op["t"] % len(found)]
            t, cols = model.indexes[s, name]
            fn = lambda: schema.indexed_column(name, schema=s) if s else schema.indexed_column(name)  # noqa: E731
            check = eq((s, t, cols[0]), col_key)
        count = 0

        def armed():
            nonlocal count
            count += 1
            return {"fail": system.fails[op["fail"] % len(system.fails)]} if op["fail"] is not None and count == 1 + op["fail"] % 3 else {}

        system.armed = armed
        kind, got = call(fn)
        system.armed = None
        text = short(got) if isinstance(got, BaseException) else f"{got!r:.300}"
        ctx.state(sysname, what, rel[0], exists, is_view, kind, min(count, 12), bool(got) if isinstance(got, (set, list, dict, bool)) else got is None)
        if op["fail"] is not None and count >= 1 + op["fail"] % 3:
            ctx.check(kind == "error" and not (expected_error not in (None, "maybe") and type(got) is expected_error),
                      f"{where}the look-up failed but was answered with {text}", "answer without data")
            if system.fails[op["fail"] % len(system.fails)] == "lose":
                kind, v = call(system.db.reset_connection)
                ctx.check(kind == "ok", f"{where}reset_connection failed: {short(v)}", "reset failed")
            return True
        if expected_error == "maybe" and kind == "error":
            return True
        if expected_error not in (None, "maybe"):
            ctx.check(kind == "error" and isinstance(got, expected_error), f"{where}got {text} instead of {expected_error.__name__}", f"wrong {what}")
            return True
        ctx.check(kind == "ok", f"{where}{rel}.{col} failed: {text}", f"failed {what}")
        wrong = check(got)
        ctx.check(wrong is None, f"{where}{rel}.{col}: answered {text}, the database has {wrong}", f"wrong {what}")
        return True


PROPS = {"S29": S29()}
