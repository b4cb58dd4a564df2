"""S06, S07: the query cache, on a PostgresInterface connected to the simulated server."""
from __future__ import annotations

import copy
import os
import re

from dst import lives, simduck, simpg
from dst.kernel import MS, US

from . import Prop
from .common import Faults, call, dataset, make_server, marked, marker_of, parse, pb, pg, short, typed, with_hints
from .duck import REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB, simplify

VALUES = [
    ("int", "0"), ("int", "42"), ("int", "-7"), ("int", "9007199254740993"), ("float", "0.1"), ("float", "-2.5"), ("float", "nan"), ("float", "inf"),
    ("none", ""), ("bool", "t"), ("bool", "f"), ("text", ""), ("text", "x"), ("text", "ä \"quoted\" \\ line\nbreak 'q'"), ("text", "2020-01-01"),
    ("text", "$date"), ("date", "2020-02-29"), ("date", "infinity"), ("date", "-infinity"), ("timestamp", "2021-03-04 05:06:07.890123"),
    ("timestamp", "1999-12-31 23:59:59"), ("timestamp", "infinity"), ("timestamptz", "2021-03-04 05:06:07+02"), ("timestamptz", "2021-10-31 00:30:00.5+00"),
    ("interval", "1 day 02:03:04"), ("interval", "-00:00:00.000001"), ("interval", "3650 days 23:59:59.999999"), ("interval", "00:00:00.1"),
    ("interval", "109500 days 00:00:00.000003"), ("time", "12:34:56.789"), ("time", "00:00:00"), ("numeric", "12.30"), ("numeric", "1E+3"),
    ("numeric", "-0.000001"), ("bytes", "00ff10"), ("uuid", "12345678-1234-5678-1234-567812345678"), ("list", "1,2,3"), ("list", ""),
    ("json", "plain"), ("json", "dollar"), ("record", "1,a"), ("opaque", "10.0.0.1")]


def wire(kind, text):
    import ipaddress
    import uuid
    if kind in ("int", "float"):
        return {"int": int, "float": float}[kind](text)
    if kind in ("date", "timestamp", "timestamptz", "interval", "time", "numeric"):
        return simpg.Raw(kind, text)
    return {"none": lambda: None, "bool": lambda: text == "t", "text": lambda: text, "bytes": lambda: bytes.fromhex(text),
            "uuid": lambda: uuid.UUID(text), "list": lambda: [int(x) for x in text.split(",") if x],
            "json": lambda: {"plain": {"a": [1, {"b": None}], "c": "d"}, "dollar": {"$date": "no date", "$x": [1.5]}}[text],
            "record": lambda: (1, "a"), "opaque": lambda: ipaddress.ip_address(text)}[kind]()


DUCK_VALUES = [
    "0", "42", "-7::BIGINT", "170141183460469231731687303715884105727", "0.1::DOUBLE", "'nan'::DOUBLE", "'inf'::DOUBLE", "NULL", "true", "false",
    "''", "'x'", "'ä \"quoted\" \\ ''q'", "'2020-01-01'", "'$date'", "DATE '2020-02-29'", "DATE 'infinity'",
    "TIMESTAMP '2021-03-04 05:06:07.890123'", "TIMESTAMP '1999-12-31 23:59:59'", "TIMESTAMPTZ '2021-03-04 05:06:07+02'", "INTERVAL 3 DAY",
    "INTERVAL '-00:00:00.000001'", "INTERVAL 2 MONTH", "INTERVAL '3650 days 23:59:59.999999'", "TIME '12:34:56.789'", "TIMETZ '12:00:00+02'",
    "12.30::DECIMAL(10,2)", "-0.000001::DECIMAL(12,6)", "'\\x00\\xFF'::BLOB", "uuid '12345678-1234-5678-1234-567812345678'", "[1,2,NULL]",
    "{'a': 1, 'b': 'x'}", "{'$date': 'x'}", "MAP{'k': 1}", "MAP{1: 'a', 2: 'b'}", "[DATE '2020-01-01']", "array_value(1, 2)", "[]"]


def gen_rows(rng):
    n_rows, n_cols = rng.choice([0, 1, 1, 2, 3, 5]), rng.choice([1, 1, 2, 3])
    return [[rng.randrange(len(VALUES)) for _ in range(n_cols)] for _ in range(n_rows)]


def gen_query(rng, i, system="pg"):
    q = {"i": i, "tmpl": rng.randrange(9), "x": rng.randrange(8), "form": rng.choice(["str", "obj", "obj", "hinted"]),
         "rows": gen_rows(rng) if rng.random() < 0.7 else None, "dur_us": rng.choice([500, 2000, 60_000])}
    if system == "duck" and rng.random() < 0.7:
        q["cols"] = [rng.randrange(len(DUCK_VALUES)) for _ in range(rng.choice([1, 1, 2, 3]))]
    if q["form"] == "hinted":
        q["prep"] = rng.choice(["", "SET geqo TO off;", "SET enable_hashjoin TO off; SET work_mem = '8192';"])
        q["hints"] = rng.choice(["", "/*+ SeqScan(r) */"])
        if system == "duck":
            q["prep"] = rng.choice(["", "SET preserve_insertion_order = true;"])
            q["hints"] = rng.choice(["", "/*=quack_lab= SeqScan(r) */"])
    return q


def build(q):
    sql = marked(q["i"], q["tmpl"], q["x"])
    if q.get("cols") is not None:
        sql = f"SELECT {', '.join(f'vals.v{c}' for c in q['cols'])} FROM vals WHERE vals.id < {900_000 + q['i']} AND vals.id < {q['x'] - 2}"
    if q["form"] == "str":
        return sql
    obj = parse(sql)
    if q["form"] == "hinted" and (q.get("prep") or q.get("hints")):
        obj = with_hints(obj, q.get("prep", ""), q.get("hints", ""))
    return obj


class PgSystem:
    """A PostgresInterface on the simulated server."""

    def __init__(self, ctx, sc, queries) -> None:
        server = make_server(ctx, sc)
        self.faults = faults = Faults(ctx, server, [], {q["i"]: dict(q, rows=None) for q in queries})
        rows = {q["i"]: q.get("rows") for q in queries}

        def on_statement(session, stmt):
            spec = faults.on_statement(session, stmt)
            m = marker_of(stmt.sql)
            if m in rows and rows[m] is not None and "fail" not in spec:
                spec["rows"] = [tuple(wire(*VALUES[v]) for v in r) for r in rows[m]]
            return spec
        server.on_statement = on_statement
        self.log = server.log

    def open(self, cache_enabled, **kw):
        return pg.PostgresInterface("dbname=simdb host=localhost", cache_enabled=cache_enabled, **kw)

    def arm(self, q, fail) -> None:
        self.faults.queries[q["i"]] = dict(q, rows=None, fail=fail)

    def truth(self, queries):
        """The true (raw) rows, from an interface of its own without a cache."""
        db = pg.PostgresInterface("dbname=simdb host=localhost user=truth", application_name="truth")
        out = {}
        for q in queries:
            kind, v = call(db.execute_query, build(q), cache_enabled=False, raw=True)
            if kind != "ok":
                raise v
            out[q["i"]] = copy.deepcopy(v)
        db.close()
        return out

    def sent(self, n0, i):
        return [s for s in self.log[n0:] if marker_of(s.sql) == i]


class DuckSystem:
    """A DuckDBInterface on the real engine under the simulated facade."""
    FAILS = {"internal": "internal", "undefined_table": "catalog", "oom": "oom"}

    def __init__(self, ctx, sc, queries) -> None:
        self.engine = simduck.Engine(ctx.k)
        self.path = os.path.join(ctx.tmp, "simdb.duckdb")
        if not os.path.exists(self.path):
            script = simduck.to_duck(dataset(sc.get("data", 7), 8))
            columns = ", ".join(f"{v} AS v{i}" for i, v in enumerate(DUCK_VALUES))
            simduck.make_database(self.path + ".new", f"{script}\nCREATE TABLE vals AS SELECT range AS id, {columns} FROM range(3);")
            os.replace(self.path + ".new", self.path)
        simduck.install(self.engine)
        self.specs = {q["i"]: {"dur": q["dur_us"] * US} for q in queries}
        self.engine.on_statement = lambda con, stmt: self.specs.get(marker_of(stmt.sql), {})
        self.log = self.engine.log

    def open(self, cache_enabled):
        return pb.duckdb.DuckDBInterface(self.path, cache_enabled=cache_enabled)

    def arm(self, q, fail) -> None:
        self.specs[q["i"]] = {"dur": q["dur_us"] * US} | ({"fail": self.FAILS[fail]} if fail else {})

    def truth(self, queries):
        con = simduck.real_connect(self.path, config={"threads": 1})
        out = {q["i"]: con.execute(re.sub(r"/\*.*?\*/", "", str(build(q)))).fetchall() for q in queries}
        con.close()
        return out

    def sent(self, n0, i):
        return [s for s in self.log[n0:] if marker_of(s.sql) == i]


def make_system(ctx, sc, queries):
    return (DuckSystem if sc.get("system") == "duck" else PgSystem)(ctx, sc, queries)


def spoil(rng_value: int, v):
    """A caller that modifies the result it was given."""
    if not isinstance(v, list):
        return
    [v.clear, lambda: v.append(("spoiled",)), v.reverse, lambda: v.__setitem__(slice(0, 1), [])][rng_value % 4]()


class S06(Prop):
    id = "S06"
    quick_runs = 2200
    thorough_runs = 50000
    rule = ("A run is a history of cached, uncached, raw, simplified, timed, failing executions of a few overlapping queries, cache switches, "
            "resets of cache and connection, and callers modifying the results they got. Non-trivial: at least one answer came from the "
            "cache. Distinct by event-log hash.")
    state_measure = "distinct (operation, switches, in cache, outcome, statements sent) combinations"
    real = REAL + REAL_DUCK
    stub = STUB + STUB_DUCK + ["result sets of about two thirds of the queries (typed values as they come from the wire, loaded by the real adapters)"]
    assumptions = ASSUMPTIONS[1:] + ["Results are requested for queries whose answer only depends on the (unchanging) data."]
    shrink_lists = ("ops", "queries")

    def scenario(self, rng, tier):
        system = rng.choice(["pg", "pg", "duck"])
        queries = [gen_query(rng, i, system) for i in range(rng.randint(1, 4))]
        ops = []
        for _ in range(rng.randint(3, 14 if tier == "quick" else 25)):
            kind = rng.choices(["exec", "etw", "time_query", "switch", "reset_cache", "reset_connection"], [12, 1, 1, 1.5, 0.6, 0.6])[0]
            op = {"op": kind}
            if kind == "switch":
                op["to"] = rng.random() < 0.6
            elif kind in ("exec", "etw", "time_query"):
                op |= {"q": rng.randrange(len(queries)), "cache": rng.choice([None, None, True, True, False]), "raw": rng.random() < 0.5,
                       "timeout": rng.choice([None, None, None, 0.01, 5.0]), "spoil": rng.choice([None, None, 0, 1, 2, 3])}
                if rng.random() < 0.12:
                    op["fail"] = rng.choice(["internal", "undefined_table", "oom"])
            ops.append(op)
        return {"system": system, "queries": queries, "ops": ops, "enabled": rng.random() < 0.6, "data": rng.randrange(4),
                "sched": {"p_stay": rng.choice([0.5, 0.95])}}

    def run(self, ctx, sc):
        os.chdir(ctx.tmp)
        queries = sc["queries"]
        if not queries:
            return
        system = make_system(ctx, sc, queries)
        truth = system.truth(queries)
        db = system.open(sc["enabled"])
        maybe: set = set()      # queries that may be in the cache
        ctx.check(db.cache_enabled == sc["enabled"], f"cache_enabled is {db.cache_enabled}", "cache switch")
        cached: set = set()     # queries that are certainly in the cache
        enabled = sc["enabled"]
        for n, op in enumerate(sc["ops"]):
            k = ctx.k
            if op["op"] == "switch":
                db.cache_enabled = enabled = op["to"]
                ctx.check(db.cache_enabled == enabled, f"op {n}: cache_enabled is {db.cache_enabled} after setting it to {enabled}", "cache switch")
                continue
            if op["op"] in ("reset_cache", "reset_connection"):
                kind, v = call(getattr(db, op["op"]))
                ctx.check(kind == "ok", f"op {n}: {op['op']} failed: {short(v)}", "reset failed")
                if op["op"] == "reset_cache":
                    cached.clear()
                    maybe.clear()
                continue
            if op["q"] >= len(queries):
                continue
            q = queries[op["q"]]
            i = q["i"]
            system.arm(q, op.get("fail"))
            n0 = len(system.log)
            query = build(q)
            effective = op["cache"] if op["cache"] is not None else enabled
            raw, timeout = op["raw"], op["timeout"]
            if op["op"] == "exec":
                kw = {} if op["cache"] is None else {"cache_enabled": op["cache"]}
                kind, v = call(db.execute_query, query, raw=raw, timeout=timeout, **kw)
            else:
                effective, raw = False, True
                timeout = timeout or 5.0
                if op["op"] == "etw":
                    kind, v = call(db.execute_with_timeout, query, timeout=timeout)
                    kind = "timeout" if kind == "ok" and v is None else kind
                else:
                    kind, v = call(db.time_query, query, timeout=timeout)
            sent = system.sent(n0, i)
            hit = effective and (i in cached or i in maybe and not sent)
            where = f"op {n} {op} on {sc['system']}: "
            want_sent = 0 if hit else 1
            ctx.check(len(sent) == want_sent, f"{where}the query was sent {len(sent)} times, expected {want_sent}",
                      "sent although cached" if hit else ("not sent" if not sent else "sent repeatedly"))
            if hit:
                ctx.nontrivial = True
                ctx.probe("answered_from_cache")
                outcomes = {"ok"}
            else:
                outcomes = {"error"} if op.get("fail") else {"ok"}
                if timeout is not None and timeout * 1e6 < q["dur_us"] + 3000:
                    outcomes = {"timeout"} if timeout * 1e6 < q["dur_us"] - 3000 and not op.get("fail") else outcomes | {"timeout"}
            ctx.check(kind in outcomes, f"{where}outcome {kind} ({short(v) if isinstance(v, BaseException) else v!r:.200}), expected {outcomes}", "wrong outcome")
            ctx.state(sc["system"], op["op"], op["cache"], enabled, raw, timeout is not None, i in cached, kind, len(sent), q["form"])
            if kind == "ok" and op["op"] != "time_query":
                want = truth[i] if raw else simplify(truth[i])
                ctx.check(typed(v) == typed(want), f"{where}returned {v!r:.300} instead of {want!r:.300} ({'from the cache' if hit else 'live'})",
                          "wrong value from cache" if hit else "wrong value")
                if op["spoil"] is not None:
                    spoil(op["spoil"], v)
            if kind == "ok" and effective:
                (cached if timeout is None else maybe).add(i)
        db.close()


class S07(Prop):
    id = "S07"
    quick_runs = 1800
    thorough_runs = 40000
    rule = ("A run is a sequence of one to four process lifetimes that execute queries with caching in one directory, each with at most one "
            "crash or disk error while running or at exit, or a damaged cache file in between. Non-trivial: a later lifetime asked for a "
            "query cached by an earlier one. Distinct by event-log hash.")
    state_measure = "distinct (end of life, fault, damage, expected hit, hit) combinations"
    real = REAL + REAL_DUCK + ["real files in a scratch directory"]
    stub = S06.stub + ["file system calls below the scratch directory pass through dst/fsim.c (real files, injected faults)"]
    assumptions = ["Crashes are process deaths: what was handed to the kernel before survives (no power loss).",
                   "The data does not change between lifetimes and lifetimes do not overlap."]
    shrink_lists = ("lives", "queries")

    def scenario(self, rng, tier):
        system = rng.choice(["pg", "pg", "duck"])
        queries = [gen_query(rng, i, system) for i in range(rng.randint(1, 4))]
        out = []
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 5)):
                kind = rng.choices(["exec", "reset_cache", "chdir", "second", "switch", "fail"], [10, 0.3, 0.6, 0.8, 0.5, 0.6])[0]
                ops.append({"op": kind, "q": rng.randrange(len(queries)), "cache": rng.choice([None, True, True, False]), "raw": rng.random() < 0.6,
                            "db": rng.randrange(2), "to": rng.random() < 0.7})
            fault = None
            if rng.random() < 0.4:
                kind = rng.choice(["crash_before", "crash_torn", "crash_torn", "crash_after", "fail_once", "fail_from", "short_write"])
                fault = {"kind": kind, "op": rng.randint(1, rng.choice([4, 10])), "permille": rng.choice([0, 1, 300, 800, 999]),
                         "errno": rng.choice(["ENOSPC", "EIO", "EACCES"])}
            damage = rng.choice([None] * 6 + ["truncate", "garbage", "list", "utf8", "directory", "empty", "values"])
            out.append({"ops": ops, "enabled": rng.random() < 0.6, "fault": fault, "kill": rng.random() < 0.1, "damage": damage,
                        "permille": rng.randrange(1000)})
        return {"system": system, "queries": queries, "lives": out, "data": rng.randrange(4), "sched": {"p_stay": 1.0}}

    def run(self, ctx, sc):
        queries = sc["queries"]
        if not queries:
            return
        disk = os.path.join(ctx.tmp, "disk")
        os.makedirs(os.path.join(disk, "elsewhere"))
        durable: set = set()
        opaque = {q["i"] for q in queries if sc["system"] == "pg" and any(VALUES[v][0] == "opaque" for r in q["rows"] or [] for v in r)}
        for n, life in enumerate(sc["lives"]):
            if life["damage"] and self.damage(disk, life):
                ctx.k.fault("damaged_file:" + life["damage"])
                durable = set()

            def body(progress, life=life, durable=frozenset(durable), n=n):
                return self.life(ctx, sc, queries, disk, life, set(durable), progress, n)

            result = lives.live(ctx, n, body, life["fault"], disk=disk, atexit=not life["kill"])
            where = f"life {n}: "
            ctx.nontrivial |= "nontrivial" in result.progress
            ctx.check(result.end != "error", f"{where}{result.value}", "unexpected error")
            errors = [p for p in result.progress if p and p[0] == "atexit-error"]
            ctx.check(not errors or result.injected, f"{where}errors at exit: {errors}", "error at exit")
            if result.end == "crash" or life["kill"] or result.injected:
                ctx.state(result.end, life["fault"] and life["fault"]["kind"], life["kill"], bool(result.injected), life["damage"])
                if result.end == "exit" and any(p == "reset" for p in result.progress):
                    durable = set()
                elif result.end == "crash" and any(p == "reset" for p in result.progress):
                    durable = set()      # either the old or the new contents
                continue
            ctx.state("exit", life["damage"], len(result.value))
            durable = set(result.value) - opaque
            if os.path.isdir(self.cache_file(disk) or ""):
                durable = set()      # a directory is in the way
        # what is left must still be usable
        def last(progress):
            life = {"ops": [{"op": "exec", "q": i, "cache": True, "raw": True, "db": 0} for i in range(len(queries))], "enabled": False}
            return self.life(ctx, sc, queries, disk, life, set(durable), progress, len(sc["lives"]))
        result = lives.live(ctx, len(sc["lives"]), last, None, disk=disk)
        ctx.check(result.end == "exit", f"last life: {result}: {result.value}", "unexpected error")
        ctx.check(not [p for p in result.progress if p[0] == "atexit-error"], f"last life: {result.progress}", "error at exit")

    @staticmethod
    def cache_file(disk):
        found = [f for f in sorted(os.listdir(disk)) if f.startswith(".query_cache") and f.endswith(".json")]
        return os.path.join(disk, found[0]) if found else None

    def damage(self, disk, life) -> bool:
        path = self.cache_file(disk)
        if path is None or not os.path.isfile(path):
            return False
        size = os.path.getsize(path)
        kind = life["damage"]
        with open(path, "rb") as f:
            old = f.read()
        if kind == "truncate":
            new = old[:size * life["permille"] // 1000]
        else:
            new = {"garbage": b"\x00not json", "list": b"[1, 2]", "utf8": b'{"q": "\xff\xfe"}', "empty": b"", "directory": b"",
                   "values": b'{"SELECT 1": 5, "x": {"$date": 5}}'}[kind]
        os.remove(path)
        if kind == "directory":
            os.mkdir(path)
            return True
        with open(path, "wb") as f:
            f.write(new)
        return new != old

    def life(self, ctx, sc, queries, disk, life, durable, progress, n):
        """Returns the queries whose results have to be available to later processes if this one ends normally."""
        os.chdir(disk)
        system = make_system(ctx, sc, queries)
        truth = system.truth(queries)
        dbs = [system.open(life["enabled"])]
        # per interface: (switch, queries certainly in its cache, cache was loaded)
        enabled = [life["enabled"]]
        own = [set(durable) if life["enabled"] else set()]
        loaded = [life["enabled"]]
        lost = [False]
        was_reset = [False]
        moved = False

        def load(x):
            if not loaded[x]:
                loaded[x] = True
                if not was_reset[x] and not moved:
                    own[x] |= durable
                elif moved:
                    lost[0] = True    # found another cache file (or none)

        for m, op in enumerate(life["ops"]):
            if op["q"] >= len(queries):
                continue
            q = queries[op["q"]]
            i = q["i"]
            x = min(op["db"], len(dbs) - 1)
            if op["op"] == "chdir":
                os.chdir(os.path.join(disk, "elsewhere"))
                moved = True
                continue
            if op["op"] == "second":
                if len(dbs) < 2 and not moved:
                    dbs.append(system.open(life["enabled"]))
                    enabled.append(life["enabled"])
                    own.append(set(durable) if life["enabled"] else set())
                    loaded.append(life["enabled"])
                    was_reset.append(False)
                continue
            if op["op"] == "switch":
                dbs[x].cache_enabled = enabled[x] = op["to"]
                if op["to"]:
                    load(x)
                continue
            if op["op"] == "reset_cache":
                dbs[x].reset_cache()
                own[x].clear()
                was_reset[x] = True
                progress.append("reset")
                continue
            fail = "internal" if op["op"] == "fail" else None
            system.arm(q, fail)
            n0 = len(system.log)
            kind, v = call(dbs[x].execute_query, build(q), cache_enabled=op["cache"], raw=op["raw"])
            sent = system.sent(n0, i)
            effective = op["cache"] if op["cache"] is not None else enabled[x]
            if effective:
                load(x)
            where = f"life {n} op {m} {op}: "
            hit = effective and i in own[x]
            disk_fault = bool(lives.lib().fsim_injected())
            if i in durable and effective:
                progress.append("nontrivial")
                ctx.k.probe("asked_for_result_of_earlier_process")
            if hit and not disk_fault:
                ctx.check(not sent, f"{where}the result was cached before (by {'an earlier process' if i in durable else 'this process'}), but the query was sent again",
                          "cached result lost" if i in durable else "sent although cached")
            ctx.check(len(sent) <= 1 and (effective or len(sent) == 1), f"{where}the query was sent {len(sent)} times", "not sent")
            if sent and fail:
                ctx.check(kind == "error", f"{where}a failing query returned {v!r}", "failure hidden")
                continue
            ctx.check(kind == "ok", f"{where}the query failed: {short(v) if kind != 'ok' else ''}", "query failed")
            want = truth[i] if op["raw"] else simplify(truth[i])
            ctx.check(typed(v) == typed(want), f"{where}returned {v!r:.400} instead of {want!r:.400} ({'live' if sent else 'cached'})",
                      "wrong value" if sent else "wrong value from cache")
            ctx.state("hit" if not sent else "sent", i in durable, effective, life["fault"] and life["fault"]["kind"] if life.get("fault") else None)
            if effective:
                own[x].add(i)
        for db in dbs:
            call(db.close)
        if lost[0]:
            return sorted(durable) if not any(was_reset) else []
        if any(was_reset):
            last = max(x for x in range(len(dbs)) if was_reset[x])
            return sorted(own[last]) if len(dbs) == 1 and loaded[0] else []
        return sorted(set().union(durable, *[o for o in own]))


PROPS = {p.id: p() for p in (S06, S07)}
