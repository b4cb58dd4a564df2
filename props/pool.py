"""S25: histories of connections through the connect functions and the database pool."""
from __future__ import annotations

import json
import os

import psycopg

from dst import simduck, simmp, simpg
from dst.kernel import MS

from postbound import duckdb as duck
from postbound.db import DatabasePool, current_database

from . import Prop
from .common import call, dataset, pb, pg, short
from .duck import ASSUME_DUCK, REAL_DUCK, STUB_DUCK
from .timed import ASSUMPTIONS, REAL, STUB

NAMES = {"pg": ["postgres", "a", "b"], "duck": ["duckdb", "c", "d", "a"]}
SOURCES = ["string", "string", "plain", "multiline", "toml", "json", "ini", "default", "env", "missing", "none", "unknown", "twosections"]
WORDS = ["secret", "it's", "back\\slash", "two words", "50%off", "", "a=b", "ünï", '"q"']
ENV = {"dbname": "PGDATABASE", "host": "PGHOST", "port": "PGPORT", "user": "PGUSER", "password": "PGPASSWORD", "passfile": "PGPASSFILE"}
BAD_SOURCES = ("missing", "none", "unknown", "twosections")


class S25(Prop):
    id = "S25"
    quick_runs = 1500
    thorough_runs = 40000
    rule = ("A run is a history of connecting (under pooled and new names, refreshed, private, from every source of connection parameters), closing, "
            "losing connections, querying and looking up databases on the shared pool, with a simulated PostgreSQL server and real DuckDB files. "
            "Connections are refused and set-up statements fail. Non-trivial: at least two connections. Distinct by event-log hash.")
    state_measure = "distinct (operation, arguments, state of the pooled connection, outcome) combinations"
    real, stub = ["postbound.db (DatabasePool)"] + REAL + REAL_DUCK, STUB + STUB_DUCK
    assumptions = ASSUMPTIONS + ASSUME_DUCK
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        ops = []
        for _ in range(rng.randint(2, 9 if tier == "quick" else 16)):
            kind = rng.choices(["pg", "duck", "close", "lose", "restart", "query", "lookup", "clear"], [8, 4, 2.5, 1.5, 0.7, 3, 2, 0.25])[0]
            op = {"op": kind}
            if kind in ("pg", "duck"):
                op |= {"name": rng.choice([None, None, *NAMES[kind]]), "refresh": rng.random() < 0.3, "private": rng.random() < 0.2,
                       "refuse": rng.random() < 0.12}
                if kind == "pg":
                    op["source"] = rng.choice(SOURCES) if rng.random() < 0.75 else "string"
                    params = {"dbname": "simdb" if rng.random() < 0.95 else "nodb", "host": rng.choice(["localhost", "db.example.org"])}
                    for key in ("port", "user", "password"):
                        if rng.random() < 0.5:
                            params[key] = rng.choice([5432, 6543]) if key == "port" else rng.choice(WORDS)
                    op["params"] = params
                    op["decoys"] = rng.sample(["default", "env"], rng.choice([0, 0, 1, 2]))
                    op["app"] = rng.choice([None, None, "bench run"])
                    op["setup_fail"] = rng.choice([None] * 8 + ["internal", "lose", "privilege", "cancel"])
                    op["setup_nth"] = rng.choice([1, 1, 2])
                else:
                    op["file"] = rng.choice(["one.duckdb", "one.duckdb", "two.duckdb", "nodir/x.duckdb"])
                    op["path"] = rng.random() < 0.5
            elif kind == "lookup":
                op["name"] = rng.choice(NAMES["pg"] + NAMES["duck"] + ["postgres - 2", "duckdb - 2", "nothing"])
            elif kind == "query":
                op |= {"h": rng.random(), "timed": rng.random() < 0.4}
            elif kind == "restart":
                op["down_ms"] = rng.choice([0, 0, 30])
            else:
                op["h"] = rng.random()
            ops.append(op)
        return {"ops": ops, "data": rng.randrange(3)}

    # -- sources of connection parameters ------------------------------------------------------------------------------------
    @staticmethod
    def quoted(params) -> str:
        return psycopg.conninfo.make_conninfo("", **{k: str(v) for k, v in params.items()})

    def prepare(self, ctx, op):
        """Writes the configuration and provides the arguments of connect() and the expected parameters."""
        for name in ENV.values():
            os.environ.pop(name, None)
        if os.path.exists(".psycopg_connection"):
            os.unlink(".psycopg_connection")
        decoy = {"dbname": "simdb", "host": "decoy", "user": "decoy"}
        params, source = op["params"], op["source"]
        usable = {k: v for k, v in params.items() if source != "env" or v != ""}
        args = {}
        if source == "string":
            args["connect_string"] = f"  {self.quoted(params)} "
        elif source in ("plain", "multiline"):
            args["config_file"] = "server"
            text = self.quoted(params)
            if source == "multiline":
                text = "\n".join(self.quoted({k: v}) for k, v in params.items())
            open("server", "w").write(text + "\n")
        elif source == "toml":
            args["config_file"] = "server.toml"
            open("server.toml", "w").write("\n".join(f"{k} = {json.dumps(v, ensure_ascii=False)}" for k, v in params.items()))
        elif source == "json":
            args["config_file"] = os.path.abspath("server.json")
            open("server.json", "w").write(json.dumps(params))
        elif source in ("ini", "twosections"):
            args["config_file"] = "server.ini"
            open("server.ini", "w").write("[db]\n" + "\n".join(f"{k} = {v}" for k, v in params.items()) + ("\n[other]\nhost = x\n" if source == "twosections" else "\n"))
        elif source == "unknown":
            args["config_file"] = "server.xml"
            open("server.xml", "w").write("<x/>")
        elif source == "missing":
            args["config_file"] = "gone.json"
        if source == "default" or (source not in ("env", "none") and "default" in op["decoys"]):
            open(".psycopg_connection", "w").write(self.quoted(params if source == "default" else decoy) + "\n")
        if source == "env" or (source != "none" and "env" in op["decoys"]):
            for k, v in (params if source == "env" else decoy).items():
                os.environ[ENV[k]] = str(v)
        return args, usable

    # -- run -----------------------------------------------------------------------------------------------------------------
    def run(self, ctx, sc):
        try:
            self.history(ctx, sc)
        finally:
            for name in ENV.values():
                os.environ.pop(name, None)
            DatabasePool.get_instance().clear()

    def history(self, ctx, sc):
        k = ctx.k
        k.event(str(sc))
        os.chdir(ctx.tmp)
        server = simpg.Server(k, dataset(sc["data"]))
        simpg.install(server)
        simmp.reset()
        engine = simduck.Engine(k)
        for name in ("one", "two"):
            simduck.make_database(f"{name}.duckdb", f"CREATE TABLE which(name TEXT);\nINSERT INTO which VALUES ('{name}');")
        simduck.install(engine)
        now = {"op": None, "n": 0, "fired": False}

        def on_statement(session, stmt):
            op = now["op"]
            if op is None or not op.get("setup_fail"):
                return {}
            now["n"] += 1
            if now["n"] == op["setup_nth"]:
                now["fired"] = True
                return {"fail": op["setup_fail"]}
            return {}

        def refuse(*_):
            if now["op"] is not None and now["op"].get("refuse"):
                now["fired"] = True
                return "refuse"
            return None
        server.on_statement = on_statement
        server.on_connect = refuse
        engine.on_connect = lambda path: "io" if refuse() else None
        pool = DatabasePool.get_instance()
        pool.clear()
        model: dict = {}              # name -> handle, in order of registration
        handles: list = []            # [object, state: open | closed | lost | noticed, params or file]

        def find(obj):
            return next((h for h in handles if h[0] is obj), None)

        def alive(h):
            obj = h[0]
            return obj._connection._session.alive and not obj._connection.closed if isinstance(obj, pg.PostgresInterface) else not obj._cur.closed

        def ident(h):
            obj = h[0]
            return obj._connection._session.pid if isinstance(obj, pg.PostgresInterface) else obj._cur.id

        def check_pool(where):
            ctx.check(pool.n_databases() == len(model) and pool.empty() == (not model), f"{where}the pool has {pool.n_databases()} databases instead of {sorted(model)}", "pool contents")
            for name, h in model.items():
                ctx.check(name in pool and pool.retrieve_database(name) is h[0], f"{where}{name!r} is not registered or another database", "pool contents")

        for n, op in enumerate(sc["ops"]):
            where = f"op {n} {op} on {({x: h[1] for x, h in model.items()})}: "
            kind = op["op"]
            if kind in ("pg", "duck"):
                self.connect(ctx, op, where, server, engine, model, handles, now, find, alive, ident)
            elif kind == "clear":
                pool.clear()
                model.clear()
            elif kind == "restart":
                k.fault("server_restart")
                server.crash(op["down_ms"] * MS)
                for h in handles:
                    if isinstance(h[0], pg.PostgresInterface) and h[1] == "open":
                        h[1] = "lost"
            elif kind == "lookup":
                self.lookup(ctx, op, where, pool, model)
            elif handles:
                h = handles[int(op["h"] * len(handles))]
                is_pg = isinstance(h[0], pg.PostgresInterface)
                if kind == "close":
                    got, v = call(h[0].close)
                    ctx.check(got == "ok" or h[1] != "open", f"{where}close failed: {short(v)}", "close")
                    h[1] = "closed"
                elif kind == "lose" and is_pg and h[1] == "open":
                    k.fault("session_terminated")
                    server.terminate_session(h[0]._connection._session.pid)
                    k.sleep(0.1)
                    h[1] = "lost"
                elif kind == "query":
                    self.query(ctx, op, where, h)
            check_pool(where)
            if server.refused_until > k.now and kind != "restart":
                k.sleep(0.2)
        for h in handles:
            call(h[0].close)
        k.sleep(1)
        ctx.check(not server.alive_sessions(), f"sessions are still open after all connections were closed: {[s.app for s in server.alive_sessions()]}", "leak")
        ctx.check(not engine.open(), f"DuckDB connections are still open after all were closed: {engine.open()}", "leak")

    def lookup(self, ctx, op, where, pool, model):
        name = op["name"]
        ctx.check((name in pool) == (name in model), f"{where}wrong membership", "lookup")
        kind, v = call(pool.retrieve_database, name)
        ctx.check(v is model[name][0] if name in model else isinstance(v, KeyError), f"{where}retrieved {type(v).__name__}", "lookup")
        for fn in (pool.current_database, current_database):
            kind, v = call(fn)
            ctx.check(v is next(iter(model.values()))[0] if len(model) == 1 else kind == "error" and isinstance(v, ValueError), f"{where}current database is {type(v).__name__}", "lookup: current")
        kind, v = call(pool.any_database)
        ctx.check(any(v is h[0] for h in model.values()) if model else isinstance(v, ValueError), f"{where}any database is {type(v).__name__}", "lookup: any")
        ctx.state("lookup", len(model), name in model)

    def query(self, ctx, op, where, h):
        is_pg = isinstance(h[0], pg.PostgresInterface)
        sql = "SELECT COUNT(*) FROM r" if is_pg else "SELECT name FROM which"
        want = 12 if is_pg else h[2]
        kind, v = call(h[0].execute_query, sql, cache_enabled=False, **({"timeout": 60.0} if op["timed"] else {}))
        if h[1] == "open":
            ctx.check(kind == "ok" and v == want, f"{where}an open connection answers {short(v) if kind != 'ok' else v} instead of {want!r}", "query on open connection")
        if kind != "ok" and h[1] == "lost" and is_pg and h[0]._connection.closed:
            h[1] = "noticed"
        ctx.state("query", is_pg, op["timed"], h[1], kind)

    def connect(self, ctx, op, where, server, engine, model, handles, now, find, alive, ident):
        k = ctx.k
        is_pg = op["op"] == "pg"
        name = op["name"] or ("postgres" if is_pg else "duckdb")
        pooled = model.get(name) if not op["refresh"] else None
        was = pooled[1] if pooled else None
        before = {id(h[0]): (ident(h), alive(h)) for h in handles}
        sessions = {s.pid for s in server.alive_sessions()}
        ducks = {c.id for c in engine.open()}
        args = {"name": op["name"]} if op["name"] else {}
        args |= {x: True for x in ("refresh", "private") if op[x]}
        down = is_pg and server.refused_until > k.now
        want = None
        if is_pg:
            more, want = self.prepare(ctx, op)
            args |= more
            if op["app"]:
                args["application_name"] = op["app"]
        now.update(op=op, n=0, fired=False)
        if is_pg:
            kind, v = call(pg.connect, **args)
        else:
            kind, v = call(duck.connect, op["file"] if op["path"] else __import__("pathlib").Path(op["file"]), **args)
        now["op"] = None
        k.sleep(0.05)
        fired = now["fired"]
        text = short(v) if kind != "ok" else "ok"
        # everything else stays as it is
        for h in handles:
            if h is not pooled:
                ctx.check(before[id(h[0])] == (ident(h), alive(h)), f"{where}another connection was changed ({text})", "other connection touched")
        if pooled is not None:
            if isinstance(pooled[0], pg.PostgresInterface) != is_pg:
                ctx.check(kind == "error", f"{where}a connection to another system was returned", "wrong system")
                return
            if kind != "ok":
                ctx.check(fired or down, f"{where}failed with {text}", "connect failed without a reason")
                if was == "open":
                    ctx.check(alive(pooled) or op.get("setup_fail"), f"{where}lost the open connection", "connection lost")
                elif was != "lost":
                    pooled[1] = "closed"
                return
            ctx.check(v is pooled[0], f"{where}returned another object", "not the pooled connection")
            if was == "open":
                ctx.check(before[id(v)] == (ident(pooled), alive(pooled)), f"{where}an open connection was re-established", "needless reconnect")
            if was in ("closed", "noticed"):
                ctx.check(alive(pooled), f"{where}the {was} connection was not re-established", "not re-established")
            if alive(pooled):
                pooled[1] = "open"
                self.query(ctx, {"timed": bool(op["refuse"])}, where, pooled)
            ctx.state(op["op"], "pooled", was, op["private"], kind)
            ctx.nontrivial = True
            return
        bad = is_pg and (op["source"] in BAD_SOURCES or op["params"]["dbname"] == "nodb") or not is_pg and op["file"].startswith("nodir")
        if kind != "ok":
            ctx.check(fired or down or bad, f"{where}failed with {text}", "connect failed without a reason")
            left = {s.pid for s in server.alive_sessions()} - sessions
            ctx.check(not left, f"{where}failed with {text}, but left {len(left)} sessions open", "failed connect leaves session")
            ctx.check({c.id for c in engine.open()} == ducks, f"{where}failed with {text}, but left connections open", "failed connect leaves session")
            ctx.state(op["op"], op.get("source"), "failed", fired, down, bad, op.get("setup_fail"))
            return
        ctx.check(not bad, f"{where}succeeded without usable parameters", "bad parameters accepted")
        ctx.check(find(v) is None, f"{where}returned an existing connection", "not a new connection")
        if is_pg:
            got = {x: y for x, y in v._connection._params.items() if x not in ("application_name", "client_encoding")}
            ctx.check(got == {x: str(y) for x, y in want.items()}, f"{where}connected with {got} instead of {want}", "parameters")
            ctx.check(v._connection._session.app == (op["app"] or "PostBOUND"), f"{where}application name {v._connection._session.app!r}", "parameters")
            h = [v, "open", want]
        else:
            h = [v, "open", op["file"].split(".")[0]]
        handles.append(h)
        ctx.nontrivial = len(handles) > 1
        ctx.check(alive(h), f"{where}the new connection is not usable", "dead connection")
        if not op["private"]:
            key, i = name, 2
            while key in model:
                key, i = f"{name} - {i}", i + 1
            model[key] = h
        self.query(ctx, {"timed": False}, where, h)
        ctx.state(op["op"], op.get("source"), op["refresh"], op["private"], name in model, "ok", tuple(sorted(op.get("decoys", []))))


PROPS = {"S25": S25()}
