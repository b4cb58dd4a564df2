"""S22: histories of data shifts (WorkloadShifter) on the simulated PostgreSQL server."""
from __future__ import annotations

import math
import os

from dst import simmp, simpg
from dst.kernel import MS

from . import Prop
from .common import call, pb, pg, short
from .timed import ASSUMPTIONS, REAL, STUB

# table -> (columns, primary key, foreign keys [(column, target, cascades)])
TABLES = {
    "r": (["id INTEGER", "a INTEGER", "b INTEGER", "name TEXT"], ["id"], []),
    "s": (["id INTEGER", "r_id INTEGER", "c INTEGER"], ["id"], [("r_id", "r", True)]),
    "t": (["id INTEGER", "s_id INTEGER", "d INTEGER"], ["id"], [("s_id", "s", True)]),
    "v": (["id INTEGER", "t_id INTEGER", "e INTEGER"], ["id"], [("t_id", "t", False)]),
    "samples": (["sample_id INTEGER", "v INTEGER"], ["sample_id"], []),
    "words": (["word TEXT", "n INTEGER"], ["word"], []),
    "pairs": (["x INTEGER", "y INTEGER"], ["x", "y"], []),
    "log": (["v INTEGER", "w INTEGER"], [], []),
}
COLS = {t: [c.split()[0] for c in spec[0]] for t, spec in TABLES.items()}
TYPE = {(t, c.split()[0]): c.split()[1] for t, spec in TABLES.items() for c in spec[0]}


def script() -> str:
    out = []
    for t, (cols, pk, fks) in TABLES.items():
        items = list(cols)
        if pk:
            items.append(f"PRIMARY KEY ({', '.join(pk)})")
        for c, target, cascade in fks:
            items.append(f"FOREIGN KEY ({c}) REFERENCES {target}({TABLES[target][1][0]}){' ON DELETE CASCADE' if cascade else ''}")
        # a single integer key has to be declared with the column, otherwise it is not the rowid
        out.append(f"CREATE TABLE {t}({', '.join(items)});")
    return "\n".join(out)


def fill(rng, table, n, data) -> list:
    rows = []
    maybe = lambda x: None if rng.random() < 0.25 else x     # noqa: E731
    for i in range(1, n + 1):
        if table == "r":
            rows.append([i * 3, rng.randrange(5), maybe(rng.randrange(4)), maybe(rng.choice(["x", "", "a,b", 'q"q', "two\nlines", "zz"]))])
        elif table in ("s", "t", "v"):
            up = [x[0] for x in data[{"s": "r", "t": "s", "v": "t"}[table]]]
            if up:
                rows.append([i, rng.choice(up), maybe(rng.randrange(4))])
        elif table == "samples":
            rows.append([i * 2, maybe(rng.randrange(3))])
        elif table == "words":
            rows.append([f"{rng.choice('abc')}{i}", maybe(rng.randrange(3))])
        elif table == "pairs":
            rows.append([rng.randrange(3), i])
        else:
            rows.append([rng.randrange(3), i])
    return rows


class Stop(Exception):
    """The shift is not possible on this data."""


def remove(state, table, gone) -> dict:
    """The state after deleting the rows for which gone(row) holds and all rows depending on them."""
    state = dict(state)
    dead = [row for row in state[table] if gone(row)]
    state[table] = [row for row in state[table] if not gone(row)]
    for child, (_c, _pk, fks) in TABLES.items():
        for col, target, cascade in fks:
            if target == table:
                pos, keys = COLS[child].index(col), {row[COLS[table].index(TABLES[table][1][0])] for row in dead}
                if cascade:
                    state = remove(state, child, lambda row: row[pos] in keys)
                elif any(row[pos] in keys for row in state[child]):
                    raise Stop(f"{child} references {table}")
    return state


def same(a, b) -> bool:
    return set(a) == set(b) and all(sorted(map(tuple, a[t]), key=repr) == sorted(map(tuple, b[t]), key=repr) for t in a)


def marker_names(op):
    return (op.get("marker_table") or f"{op['table']}_delete_marker", op.get("marker_column") or f"{op['table']}_{op['column']}")


class S22(Prop):
    id = "S22"
    quick_runs = 2500
    thorough_runs = 60000
    rule = ("A run is a history of removals (random, ordered, by marks), and of creating, exporting and importing marks, on a PostgresInterface "
            "connected to the simulated server. Statements fail, connections break or are refused, the server crashes, and exported files "
            "are lost or damaged. Non-trivial: at least one shift changed data. Distinct by event-log hash.")
    state_measure = "distinct (operation, arguments, failing statement, outcome) combinations"
    real = ["postbound.postgres (WorkloadShifter, PostgresInterface, PostgresSchemaInterface, PostgresStatisticsInterface)"] + REAL[1:]
    stub = STUB
    assumptions = ASSUMPTIONS + ["Row-level locks between concurrent transactions are not modelled: no other client writes during a shift."]
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        data: dict = {}
        for t in TABLES:
            data[t] = fill(rng, t, rng.choice([0, 1, 2]) if t == "v" else rng.choice([0, 1, 3, 5, 8, 12]), data)
        ops = []
        for _ in range(rng.randint(1, 5 if tier == "quick" else 9)):
            kind = rng.choices(["random", "ordered", "marks", "marked", "export", "import"], [3, 4, 2, 3, 1.2, 1.5])[0]
            op = {"op": kind}
            if kind in ("random", "ordered"):
                table = rng.choice(["r", "r", "s", "s", "t", "t", "v", "samples", "samples", "words", "words", "pairs", "log", "nosuch"])
                op |= {"table": table, "ref": rng.random() < 0.5, "vacuum": rng.random() < 0.3}
                if rng.random() < 0.55:
                    op["n"] = rng.choice([1, 1, 2, 3, 5, 50, 0, -1])
                else:
                    op["pct"] = rng.choice([0.1, 0.25, 0.5, 0.34, 0.9, 0.99, 0.0, 1.0, 1.5])
                if rng.random() < 0.05:
                    op["n"], op["pct"] = 1, 0.5
                if kind == "ordered":
                    op["column"] = rng.choice(COLS.get(table, ["id"]))
                    op["asc"] = rng.choice([None, True, False])
                    op["nulls"] = rng.choice([None, None, "first", "last"])
            else:
                table, column = rng.choice([("r", "id"), ("r", "id"), ("r", "name"), ("r", "b"), ("s", "id"), ("s", "c"), ("t", "id"), ("words", "word"), ("log", "v")])
                op |= {"table": table, "column": column}
                if rng.random() < 0.3:
                    op["marker_table"] = f"marks_{TYPE[table, column].lower()}"
                    op["marker_column"] = rng.choice([None, "mk", "mk"])
                if kind == "marks":
                    op["pct"] = rng.choice([None, 0.0, 0.1, 0.3, 0.5, 0.9, 1.0, 1.0, 1.7, -0.3])
                elif kind == "marked":
                    op["vacuum"] = rng.random() < 0.3
                else:
                    op["file"] = rng.choice([None, "m1.csv", "m1.csv", "m2.csv"])
                    if kind == "export" and rng.random() < 0.1:
                        op["file"] = "nodir/m.csv"
                    if kind == "import":
                        op["explicit"] = rng.random() < 0.3
                        op["damage"] = rng.choice([None, None, None, None, "missing", "torn", "extra", "duplicate", "empty", "header", "garbage"])
                        op["cut"] = rng.random()
            if rng.random() < 0.35:
                op["fault"] = {"nth": rng.randrange(1, 9), "kind": rng.choice(["disk_full", "lock", "oom", "cancel", "privilege", "lose", "lose", "lose_after",
                                                                               "lose_after", "crash"])}
            elif rng.random() < 0.08:
                op["refuse"] = rng.choice([1, 1, 2])
            ops.append(op)
            if kind == "marks" and rng.random() < 0.7:
                keep = {x: op[x] for x in ("table", "column", "marker_table", "marker_column") if x in op}
                for nxt in rng.choice([["marked"], ["export", "import"], ["export", "marks", "import", "marked"], ["export", "import", "marked"]]):
                    ops.append({"op": nxt, **keep, "pct": 0.5, "file": "m3.csv", "vacuum": rng.random() < 0.2, "explicit": rng.random() < 0.3})
        return {"data": data, "ops": ops, "cache": rng.random() < 0.3, "emulated": rng.random() < 0.5}

    # -- model ---------------------------------------------------------------------------------------------------------------
    def outcomes(self, op, state, columns, files):
        """Predicate over the state after the operation (the first element is its description); raises Stop if it has to fail."""
        kind, table = op["op"], op["table"]
        if kind in ("random", "ordered"):
            n, pct = op.get("n"), op.get("pct")
            if table not in TABLES or len(TABLES[table][1]) != 1:
                raise Stop("no usable primary key")
            if (n is None) == (pct is None):
                raise Stop("both or no sizes")
            if n is not None and n <= 0 or pct is not None and not 0 < pct < 1:
                raise Stop("size out of range")
            rows = state[table]
            sizes = {min(n, len(rows))} if n is not None else {math.floor(pct * len(rows)), math.ceil(pct * len(rows))}
            pos = COLS[table].index(TABLES[table][1][0])
            if kind == "ordered":
                col = COLS[table].index(op["column"])
                rows = sorted(rows, key=lambda r: r[pos])
                asc = op["asc"] is not False
                known = sorted([r for r in rows if r[col] is not None], key=lambda r: r[col], reverse=not asc)
                nulls = [r for r in rows if r[col] is None]
                last = op["nulls"] == "last" or op["nulls"] is None and asc
                rows = known + nulls if last else nulls + known
                allowed, stuck = [], False
                for size in sizes:
                    gone = {r[pos] for r in rows[:size]}
                    try:
                        allowed.append(remove(state, table, lambda r: r[pos] in gone))
                    except Stop:
                        stuck = True
                if not allowed:
                    raise Stop("referenced")
                return stuck, lambda after: any(same(after, a) for a in allowed)

            def check(after):
                left = {r[pos] for r in after[table]}
                try:
                    return len(state[table]) - len(left) in sizes and same(after, remove(state, table, lambda r: r[pos] not in left))
                except Stop:
                    return False
            try:        # the removal can fail if some choice of rows is referenced from elsewhere
                remove(state, table, lambda r: bool(max(sizes)))
                stuck = False
            except Stop:
                stuck = True
            return stuck, check
        marker, column = marker_names(op)
        pos = COLS[table].index(op["column"])
        if kind in ("marks", "import") and marker in columns and columns[marker] != ["marker_idx", column]:
            raise Stop("the marker table has other columns")
        others = {t: rows for t, rows in state.items() if t != marker}
        if kind == "marks":
            pct = 0.5 if op["pct"] is None else op["pct"]
            if not 0 <= pct <= 1:
                raise Stop("percentage out of range")
            values = [r[pos] for r in state[table]]

            def check(after):
                if marker not in after or not same({t: r for t, r in after.items() if t != marker}, others):
                    return False
                left = list(values)
                for _i, v in after[marker]:
                    if v not in left:
                        return False
                    left.remove(v)
                if len({i for i, _v in after[marker]}) != len(after[marker]):
                    return False
                return not left if pct == 1 else not after[marker] if pct == 0 else True
            return False, check
        if kind == "marked":
            if columns.get(marker) != ["marker_idx", column]:
                raise Stop("no such marks")
            gone = {v for _i, v in state[marker]} - {None}
            allowed = remove(state, table, lambda r: r[pos] in gone)
            return False, lambda after: same(after, allowed)
        if kind == "export":
            if marker not in state or "/" in (op["file"] or ""):
                raise Stop("nothing to export")
            return False, lambda after: same(after, state)
        text = files
        if text is None:
            raise Stop("no file")
        try:
            rows = simpg.parse_csv(text)[1:]
        except simpg.pge.Error as e:
            raise Stop(str(e)) from None
        number = TYPE[table, op["column"]] == "INTEGER"
        new = []
        for r in rows:
            try:
                i, v = r
                new.append((int(i), int(v) if number and v is not None else v))
            except (TypeError, ValueError):
                raise Stop("malformed file") from None
        if len({i for i, _v in new}) < len(new):
            raise Stop("duplicate index")
        want = others | {marker: new}
        return False, lambda after: same(after, want)

    # -- run -----------------------------------------------------------------------------------------------------------------
    def run(self, ctx, sc):
        k = ctx.k
        k.event(str(sc))
        os.chdir(ctx.tmp)
        server = simpg.Server(k, script())
        for t in TABLES:
            for row in sc["data"][t]:
                server.db.con.execute(f"INSERT INTO {t} VALUES ({','.join('?' * len(row))})", row)
        server.db.stale = True
        simpg.install(server)
        simmp.reset()
        now: dict = {"op": None, "n": 0, "con": 0, "fired": None}

        def on_statement(session, stmt):
            op = now["op"]
            if op is None:
                return {}
            now["n"] += 1
            f = op.get("fault")
            if f and f["nth"] == now["n"]:
                now["fired"] = stmt.sql.split()[0].upper()
                return {"then": "lose"} if f["kind"] == "lose_after" else {"fail": f["kind"]}
            return {}

        def on_connect(app, nth):
            if now["op"] is None:
                return None
            now["con"] += 1
            if now["op"].get("refuse") == now["con"]:
                now["fired"] = "CONNECT"
                return "refuse"
            return None
        server.on_statement, server.on_connect = on_statement, on_connect
        db = pg.PostgresInterface("dbname=simdb host=localhost", cache_enabled=sc["cache"])
        db.statistics().emulated = sc["emulated"]
        shifter = pg.WorkloadShifter(db)
        for n, op in enumerate(sc["ops"]):
            now["op"] = None
            if db.connection().closed or not db.connection()._session.alive:
                db.reset_connection()
            k.sleep(1)
            state = {t: [tuple(r) for r in rows] for t, rows in server.db.dump().items()}
            columns = {t: [r[1] for r in server.db.con.execute(f"PRAGMA main.table_info({t})")] for t in state}
            path = self.file_of(ctx, op)
            if op["op"] == "import":
                self.damage(ctx, op, path)
            text = None
            if op["op"] == "import" and os.path.exists(path):
                text = open(path, newline="").read()
            where = f"op {n} {op} on {({t: len(r) for t, r in state.items()})}: "
            stuck, allowed, why = False, None, None
            try:
                stuck, allowed = self.outcomes(op, state, columns, text)
            except Stop as e:
                why = str(e)
            now.update(op=op, n=0, con=0, fired=None)
            start = len(server.log)
            kind, v = call(self.apply, ctx, shifter, op, path)
            now["op"] = None
            k.sleep(1)
            fired = now["fired"]
            text_of = short(v) if kind != "ok" else "ok"
            main = db.connection()._session
            for s in server.alive_sessions():
                if s.tx is not simpg.IDLE:
                    ctx.violate(f"{where}a transaction is left open ({text_of}): {s.app!r}", "transaction left open")
                if s is not main and fired == "COMMIT":      # psycopg keeps a connection whose commit failed open until it is garbage
                    s.end("garbage collected")
                elif s is not main:
                    ctx.violate(f"{where}a connection is left open ({text_of}, fault at {fired}): {s.app!r}", "connection left open")
            after = {t: [tuple(r) for r in rows] for t, rows in server.db.dump().items()}
            vacuums = [s for s in server.log[start:] if s.sql.upper().startswith("VACUUM")]
            done = allowed is not None and allowed(after)
            if kind == "ok":
                ctx.check(why is None, f"{where}succeeded, although it has to fail: {why}", f"{op['op']}: accepted")
                ctx.check(done, f"{where}wrong data afterwards: {self.diff(state, after)}", f"{op['op']}: wrong data")
                if op["op"] not in ("export", "import", "marks"):
                    ok = [s for s in vacuums if s.outcome == "ok"]
                    ctx.check(bool(ok) == bool(op["vacuum"]), f"{where}{len(ok)} vacuums", "vacuum")
                if op["op"] == "export":
                    marker, column = marker_names(op)
                    want = [columns[marker]] + [[str(i), None if x is None else str(x)] for i, x in state[marker]]
                    got = simpg.parse_csv(open(path, newline="").read())
                    ctx.check(sorted(got, key=repr) == sorted(want, key=repr), f"{where}the exported file contains {got}", "export: wrong data")
            else:
                ctx.check(bool(fired) or why is not None or stuck, f"{where}failed without a reason: {text_of}", f"{op['op']}: failed without a reason")
                if fired == "VACUUM":
                    ctx.check(done, f"{where}the data is not shifted after the vacuum failed: {self.diff(state, after)}", "vacuum undoes shift")
                ctx.check(same(after, state) or done, f"{where}failed with {text_of}, but left changed data: {self.diff(state, after)}", f"{op['op']}: partial shift")
                if not fired:
                    ctx.check(same(after, state), f"{where}failed with {text_of}, but changed data: {self.diff(state, after)}", f"{op['op']}: changed data")
            if not same(state, after):
                ctx.nontrivial = True
            ctx.state(op["op"], op.get("nulls"), op.get("asc"), op.get("damage"), bool(op.get("n")), fired, (op.get("fault") or {}).get("kind") if fired else None,
                      kind, why, done)
        call(db.close)
        k.sleep(1)
        ctx.check(not server.alive_sessions(), f"after close() sessions are still open: {[s.app for s in server.alive_sessions()]}", "connection left open")

    @staticmethod
    def diff(a, b):
        return {t: (sorted(set(a.get(t, [])) - set(b.get(t, [])), key=repr), sorted(set(b.get(t, [])) - set(a.get(t, [])), key=repr))
                for t in sorted(set(a) | set(b)) if t not in a or t not in b or sorted(a[t], key=repr) != sorted(b[t], key=repr)}

    @staticmethod
    def file_of(ctx, op):
        if op["op"] not in ("export", "import"):
            return None
        return os.path.join(ctx.tmp, op["file"] or f"{marker_names(op)[0]}.csv")

    @staticmethod
    def damage(ctx, op, path):
        kind = op.get("damage")
        if not kind or not os.path.exists(path):
            return
        ctx.k.fault(f"file_{kind}")
        text = open(path, newline="").read()
        if kind == "missing":
            os.unlink(path)
            return
        lines = text.splitlines(True)
        if kind == "torn":
            text = text[:int(op["cut"] * len(text))]
        elif kind == "extra":
            text += "99,1,2\n"
        elif kind == "duplicate":
            text += lines[-1]
        elif kind == "empty":
            text = ""
        elif kind == "header":
            text = lines[0]
        else:
            text += "garbage\n"
        with open(path, "w", newline="") as f:
            f.write(text)

    @staticmethod
    def apply(ctx, shifter, op, path):
        kind, table = op["op"], op["table"]
        if kind in ("random", "ordered"):
            args = {"n_rows": op["n"]} if op.get("n") is not None else {}
            if op.get("pct") is not None:
                args["row_pct"] = op["pct"]
            args["vacuum"] = op["vacuum"]
            ref = pb.TableReference(table)
            if kind == "random":
                return shifter.remove_random(ref if op["ref"] else table, **args)
            if op["asc"] is not None:
                args["ascending"] = op["asc"]
            if op["nulls"]:
                args["null_placement"] = op["nulls"]
            return shifter.remove_ordered(pb.ColumnReference(op["column"], ref) if op["ref"] else f"{table}.{op['column']}", **args)
        names = {x: op[x] for x in ("marker_table", "marker_column") if op.get(x)}
        if op["column"] != "id":
            names["target_column"] = op["column"]
        if kind == "marks":
            pct = [] if op["pct"] is None else [op["pct"]]
            return shifter.generate_marker_table(table, *pct, **names)
        if kind == "marked":
            return shifter.remove_marked(table, vacuum=op["vacuum"], **names)
        file = {"out_file" if kind == "export" else "in_file": path} if op["file"] else {}
        if kind == "export":
            names.pop("marker_column", None)
            names.pop("target_column", None)
            return shifter.export_marker_table(**({"target_table": table} if "marker_table" not in names or op.get("n") else {}), **names, **file)
        if op.get("explicit"):
            names["target_column_type"] = "integer" if TYPE[table, op["column"]] == "INTEGER" else "text"
        return shifter.import_marker_table(target_table=table, **names, **file)


PROPS = {"S22": S22()}
