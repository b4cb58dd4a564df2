"""DuckDB under simulation: the real engine (quacklab, one thread) computes all answers, this facade decides how long statements
take, where interrupts and failures strike, and records what was executed.

What it takes from the real thing (checked against quacklab 1.4.1): a connection runs one statement at a time, later callers wait;
execute() discards the previous result set and any interrupt that arrived before it began; an interrupt stops a running statement
as well as a pending streaming result with an InterruptException; `select` results without a blocking operator are streamed, i.e.
computed while they are fetched.
"""
from __future__ import annotations

import os
import re

import quacklab as real

from .kernel import MS, US, Kernel

real_connect = real.connect
ERRORS = {
    "oom": (real.OutOfMemoryException, "Out of Memory Error: failed to allocate data of size 16.0 MiB"),
    "io": (real.IOException, "IO Error: Could not write file: No space left on device"),
    "conversion": (real.ConversionException, "Conversion Error: Could not convert string 'x' to INT32"),
    "out_of_range": (real.OutOfRangeException, "Out of Range Error: Overflow in multiplication of INT64"),
    "internal": (real.InternalException, "INTERNAL Error: Attempted to access index 3 within vector of size 3"),
    "binder": (real.BinderException, "Binder Error: Ambiguous reference to column name"),
    "catalog": (real.CatalogException, "Catalog Error: Table with name gone does not exist!"),
    "fatal": (real.FatalException, "FATAL Error: Failed to append to ART index"),
    "tx": (real.TransactionException, "TransactionContext Error: Conflict on update!"),
}
KINDS = tuple(e for e in ERRORS if e != "fatal")
INVALID = "FATAL Error: Failed: database has been invalidated because of a previous fatal error. The database must be restarted prior to being used again."


class Statement:
    def __init__(self, con, sql, params, task) -> None:
        self.con, self.sql, self.params, self.task = con, sql, params, task
        self.start = self.begin = self.end = None     # asked, running since, over
        self.outcome = "pending"                       # ok | failed | interrupted | error
        self.streaming = False

    def __repr__(self) -> str:
        return f"<{self.outcome} #{self.con.id} {self.sql[:90]!r}>"


class Engine:
    """All simulated DuckDB connections of a run."""

    def __init__(self, kernel: Kernel, default_dur: int = 300 * US, interrupt_max: int = 40 * MS) -> None:
        self.k = kernel
        self.default_dur = default_dur
        self.interrupt_max = interrupt_max
        self.log: list[Statement] = []
        self.running: set = set()
        self.connections: list[Connection] = []
        self.on_statement = lambda con, stmt: {}
        self.on_connect = lambda path: None
        self.invalid: set = set()   # databases after a fatal error: unusable until all their connections are closed
        self.interrupts = 0
        self.lost_interrupts = 0

    def connect(self, database=":memory:", read_only=False, config=None):
        self.k.yield_point("duckdb connect")
        exc = self.on_connect(str(database))
        if exc:
            self.k.fault(f"duckdb_connect_{exc}")
            cls, msg = ERRORS[exc]
            raise cls(msg)
        path = os.path.abspath(str(database)) if str(database) != ":memory:" else object()
        if path in self.invalid and not [c for c in self.open() if c.path == path]:
            self.invalid.discard(path)
        con = Connection(self, real_connect(database, read_only=read_only, config=dict(config or {}) | {"threads": 1}), None)
        con.path = path
        return con

    def open(self) -> list["Connection"]:
        return [c for c in self.connections if not c.closed]


class Connection:
    def __init__(self, engine: Engine, con, parent) -> None:
        self.__dict__.update(_e=engine, _con=con, parent=parent, closed=False, busy=None, interrupted=False, stream=None,
                             no_result=None, path=parent and parent.path, id=len(engine.connections) + 1)
        engine.connections.append(self)

    def __getattr__(self, name):
        return getattr(self._con, name)

    def __setattr__(self, name, value):
        self.__dict__[name] = value

    # -- one statement at a time ------------------------------------------------------------------------------------------
    def _acquire(self, who) -> None:
        k = self._e.k
        k.yield_point("duckdb lock")
        while self.busy is not None:
            k.block(lambda: self.busy is None, why=f"duckdb connection busy: {self.busy}")
        self.busy = who

    def _work(self, stmt: Statement, ns: int) -> None:
        """The engine computes for a while, and may notice an interrupt."""
        k = self._e.k
        self._e.running.add(stmt)
        try:
            hit = self.interrupted or k.block(lambda: self.interrupted, max(1, ns), why=f"duckdb computes {stmt.sql[:40]!r}")
            if hit:
                k.fault("duckdb_interrupted")
                stmt.outcome = "interrupted"
                k.block(None, k.chooser.delay("interrupt_latency", 1 * US, self._e.interrupt_max), why="duckdb winds down")
                raise real.InterruptException("INTERRUPT Error: Interrupted!")
        finally:
            self._e.running.discard(stmt)

    def execute(self, query, parameters=None):
        k = self._e.k
        if self.closed:
            return self._con.execute(query)
        stmt = Statement(self, str(query), parameters, k.me().name)
        stmt.start = k.now
        self._acquire(stmt)
        try:
            if self.closed:
                return self._con.execute(query)
            k.yield_point("duckdb begin")
            if self.interrupted:
                self._e.lost_interrupts += 1
                k.probe("duckdb_interrupt_lost")
            self.interrupted = False
            self.stream, self.no_result = None, "No open result set"
            stmt.begin = k.now
            self._e.log.append(stmt)
            # Plans for given join orders contain uninitialised estimates, which end up in the hints of later statements.
            text = re.sub(r"^/\*=.*?\*/\s*", "/* hints */ ", stmt.sql, flags=re.S)
            k.event(f"duckdb #{self.id} {text[:160]!r}")
            if self.path in self._e.invalid:
                stmt.outcome = "failed"
                raise real.FatalException(INVALID)
            spec = self._e.on_statement(self, stmt) or {}
            self._work(stmt, spec.get("dur", self._e.default_dur))
            if spec.get("fail"):
                k.fault(f"duckdb_{spec['fail']}")
                stmt.outcome = "failed"
                if spec["fail"] == "fatal":
                    self._e.invalid.add(self.path)
                cls, msg = ERRORS[spec["fail"]]
                raise cls(msg)
            try:
                self._con.execute(query) if parameters is None else self._con.execute(query, parameters)
            except Exception:
                stmt.outcome = "error"
                raise
            self.no_result = None
            stmt.outcome = "ok"
            if spec.get("stream") or spec.get("fail_fetch"):
                stmt.streaming = True
                stmt.outcome = "streaming"
                self.stream = [stmt, spec.get("stream", 1), spec.get("fail_fetch")]
        finally:
            stmt.end = k.now
            self.busy = None
        k.yield_point("duckdb result")
        return self

    def _fetch(self, name, *args):
        k = self._e.k
        if self.closed:
            return getattr(self._con, name)(*args)
        self._acquire(f"fetch by {k.me().name}")
        try:
            if self.no_result:
                raise real.InvalidInputException(f"Invalid Input Error: {self.no_result}")
            if self.stream is not None:
                stmt, ns, fail = self.stream
                self.stream = None
                self.no_result = "No open result set"
                try:
                    self._work(stmt, ns)
                    if fail:
                        k.fault(f"duckdb_fetch_{fail}")
                        stmt.outcome = "failed"
                        cls, msg = ERRORS[fail]
                        raise cls(msg)
                finally:
                    stmt.end = k.now
                    if stmt.outcome != "streaming":
                        self._con.fetchall()    # the real engine gives up its result, too
                self.no_result = None
                stmt.outcome = "ok"
            return getattr(self._con, name)(*args)
        finally:
            self.busy = None

    def fetchall(self):
        return self._fetch("fetchall")

    def fetchone(self):
        return self._fetch("fetchone")

    def fetchmany(self, size=1):
        return self._fetch("fetchmany", size)

    def interrupt(self) -> None:
        self._e.k.yield_point("duckdb interrupt")
        if self.closed:
            return self._con.interrupt()
        self._e.interrupts += 1
        self.interrupted = True

    def cursor(self):
        self._e.k.yield_point("duckdb cursor")
        if self.closed:
            return self._con.cursor()
        return Connection(self._e, self._con.cursor(), self)

    def close(self) -> None:
        self._acquire("close")
        try:
            self.closed = True
            self._con.close()
            for c in self._e.connections:
                if c.parent is self:
                    c.closed = True
        finally:
            self.busy = None


class Module:
    """Stands in for the quacklab module."""

    def __init__(self, engine: Engine) -> None:
        self._engine = engine
        self.connect = engine.connect
        self.DuckDBPyConnection = Connection

    def __getattr__(self, name):
        return getattr(real, name)


def install(engine: Engine) -> None:
    import postbound.duckdb
    postbound.duckdb.quacklab = Module(engine)


def to_duck(script: str) -> str:
    """The shared data set in DuckDB's dialect, with few statements."""
    script = re.sub(r" ON DELETE CASCADE", "", script)
    out, rows = [], {}
    for line in script.splitlines():
        m = re.match(r"INSERT INTO (\w+) VALUES (\(.*\));", line)
        if m:
            rows.setdefault(m.group(1), []).append(m.group(2))
        elif line.strip():
            out.append(line)
    return "\n".join(out + [f"INSERT INTO {t} VALUES {','.join(v)};" for t, v in rows.items()])


def make_database(path: str, script: str) -> str:
    con = real_connect(path, config={"threads": 1})
    con.execute(to_duck(script))
    con.close()
    return os.path.abspath(path)
