"""A scripted database system and pipeline behind PostBOUND's public interfaces: every call, its time and outcome is recorded, and
durations, results and failures follow the scenario."""
from __future__ import annotations

import datetime
import decimal

from dst.kernel import MS, US

import postbound as pb
from postbound import db as pbdb
from postbound import qal, transform
from postbound.db import Database, DatabaseServerError, DatabaseUserError, simplify_result_set

from .common import MARK, marker_of

ERRORS = {
    "server": lambda m: DatabaseServerError(f"server failed at {m}"),
    "user": lambda m: DatabaseUserError(f"bad query {m}"),
    "value": lambda m: ValueError(f"unexpected value {m}"),
    "key": lambda m: KeyError(f"key {m}"),
    "timeouterr": lambda m: ConnectionResetError(f"connection lost at {m}"),
    "runtime": lambda m: RuntimeError(f"line one {m}\nline \"two\", with comma"),
    "zero": lambda m: ZeroDivisionError(f"division {m}"),
    "assert": lambda m: AssertionError(f"assertion {m}"),
    "empty": lambda m: RuntimeError(),
}


def make_rows(kind: str, m: int, n: int):
    """Rows of the n-th execution of query m. Every value identifies the execution."""
    v = m * 1000 + n
    return {
        "scalar": [(v,)],
        "row": [(v, f"t{n}")],
        "column": [(v,), (v + 1,), (None,)],
        "table": [(v, "x"), (v + 1, 'quo"te, and\nnewline')],
        "empty": [],
        "none": [(None,)],
        "decimal": [(decimal.Decimal(v) / 8, 1), (decimal.Decimal("0.5"), 2)],
        "dscalar": [(decimal.Decimal(v) / 4,)],
        "dates": [(datetime.date(2020, 1, 1 + n % 28), v), (datetime.date(2021, 2, 3), v + 1)],
        "text": [(f"value {v}",)],
        "bool": [(bool(n % 2), v)],
        "float": [(v + 0.25,)],
        "big": [(i, f"{v}-{i}-" + "x" * 40) for i in range(40)],
    }[kind]


ROW_KINDS = ["scalar", "scalar", "row", "column", "table", "empty", "none", "decimal", "dscalar", "dates", "text", "bool", "float", "big"]


class Ev:
    """One recorded event."""

    __slots__ = ("kind", "m", "n", "t0", "t1", "wall", "outcome", "rows", "runtime", "query", "sql", "error", "extra")

    def __init__(self, kind, **kw):
        for s in self.__slots__:
            setattr(self, s, None)
        self.kind = kind
        for k, v in kw.items():
            setattr(self, k, v)

    def __repr__(self):
        return f"<{self.kind} m={self.m} n={self.n} {self.outcome} t={self.t0}-{self.t1} {self.extra or ''}>"

    def __reduce__(self):
        """Crosses process lifetimes without the query object; errors as text."""
        d = {s: getattr(self, s) for s in self.__slots__ if s not in ("query", "kind")}
        d["error"] = None if d["error"] is None else str(d["error"])
        return _revive, (self.kind, d)


def _revive(kind, d):
    return Ev(kind, **d)


class Script:
    """The scenario's decisions, looked up by query marker and execution number."""

    def __init__(self, ctx, queries: list[dict], **cfg) -> None:
        self.ctx, self.k = ctx, ctx.k
        self.queries = {q["i"]: q for q in queries}
        self.cfg = cfg
        self.events: list[Ev] = []
        self.exec_count: dict[int, int] = {}
        self.opt_count: dict[int, int] = {}
        self.n_prep = 0
        self.n_prewarm = 0
        self.n_describe = 0
        self.on_exec = None
        self.before_exec = None
        self.started = False

    def checkpoint(self) -> None:
        """Called whenever the benchmark tells somebody about its progress."""
        if self.before_exec:
            self.before_exec()

    def add(self, ev: Ev) -> Ev:
        self.events.append(ev)
        return ev

    def plan(self, m: int, n: int) -> dict:
        q = self.queries.get(m, {})
        plans = q.get("plans") or [{}]
        return plans[(n - 1) % len(plans)]

    def wait(self, us: int) -> None:
        if us:
            self.k.block(None, us * US, why="scripted")
        else:
            self.k.yield_point()


class ScriptedDatabase(Database):
    def __init__(self, script: Script, name: str = "scripteddb") -> None:
        self.script = script
        self.name = name
        self._runtime = float("nan")
        self.closed = False
        super().__init__("Scripted", cache_enabled=False)

    # -- execution ----------------------------------------------------------------------------------------------------
    def _run(self, query, timeout, cache_enabled):
        s = self.script
        sql = query if isinstance(query, str) else str(query)
        m = marker_of(sql)
        if m is None:
            return self._prep(sql, cache_enabled)
        s.started = True
        n = s.exec_count[m] = s.exec_count.get(m, 0) + 1
        s.checkpoint()
        p = s.plan(m, n)
        ev = s.add(Ev("exec", m=m, n=n, t0=s.k.now, wall=s.k.wall_ns(), query=query, sql=sql,
                      extra={"timeout": timeout, "cache": cache_enabled}))
        s.k.event(f"exec {m} #{n}")
        s.wait(p.get("net_us", 0))
        dur = p.get("dur_us", 1000)
        if timeout is not None and dur >= timeout * 1e6:
            s.wait(int(timeout * 1e6))
            ev.t1, ev.outcome = s.k.now, "timeout"
            self._runtime = timeout
            s.k.fault("query_timeout")
            return ev, None
        s.wait(dur)
        if p.get("fail"):
            ev.t1, ev.outcome, ev.error = s.k.now, "error", ERRORS[p["fail"]](f"{m}#{n}")
            self._runtime = float("nan")
            s.k.fault(f"exec_{p['fail']}")
            raise ev.error
        rows = make_rows(p.get("rows", "scalar"), m, n)
        if p.get("fetch_us"):
            s.wait(p["fetch_us"])
        ev.t1, ev.outcome, ev.rows = s.k.now, "ok", rows
        ev.runtime = self._runtime = dur / 1e6
        if s.on_exec:
            s.on_exec(ev)
        return ev, rows

    def _prep(self, sql, cache_enabled):
        s = self.script
        s.started = True
        s.n_prep += 1
        ev = s.add(Ev("prep", n=s.n_prep, t0=s.k.now, sql=sql, extra={"cache": cache_enabled}))
        s.wait(s.cfg.get("prep_us", 0))
        fail = s.cfg.get("prep_fail", {}).get(str(s.n_prep))
        ev.t1 = s.k.now
        if fail:
            ev.outcome, ev.error = "error", ERRORS[fail](f"preparation {s.n_prep}")
            s.k.fault(f"prepare_{fail}")
            raise ev.error
        ev.outcome = "ok"
        return ev, [("done",)]

    def execute_query(self, query, *, cache_enabled=None, raw=False):
        _, rows = self._run(query, None, cache_enabled)
        return rows if raw else simplify_result_set(rows)

    # -- everything else ------------------------------------------------------------------------------------------------
    def describe(self):
        s = self.script
        s.n_describe += 1
        s.wait(s.cfg.get("describe_us", 0))
        if s.started:
            fail = s.cfg.get("describe_fail", {}).get(str(s.n_describe))
            if fail:
                ev = s.add(Ev("describe", n=s.n_describe, t0=s.k.now, t1=s.k.now, outcome="error", error=ERRORS[fail](f"describe {s.n_describe}")))
                s.k.fault(f"describe_{fail}")
                raise ev.error
        return {"system_name": "Scripted", "n": s.n_describe}

    def schema(self):
        raise NotImplementedError

    def statistics(self):
        raise NotImplementedError

    def hinting(self):
        return ScriptedHints(self)

    def optimizer(self):
        raise NotImplementedError

    def database_name(self):
        return self.name

    def database_system_name(self):
        return "Scripted"

    def database_system_version(self):
        from postbound.util import Version
        return Version("1.0")

    def reset_connection(self):
        return None

    def cursor(self):
        raise NotImplementedError

    def close(self):
        self.closed = True


class _Timeout:
    def execute_with_timeout(self, query, timeout=60.0):
        _, rows = self._run(query, timeout, None)
        return rows


class _Stopwatch:
    def last_query_runtime(self):
        return self._runtime

    def time_query(self, query, *, timeout=None):
        self.execute_query(query)
        return self._runtime


class _Prewarm:
    def prewarm_tables(self, tables=None, *more, exclude_table_pages=False, include_primary_index=True, include_secondary_indexes=True):
        s = self.script
        s.started = True
        s.n_prewarm += 1
        names = sorted(t.full_name for t in ([tables] if not isinstance(tables, (set, list, tuple, frozenset)) else list(tables)) + list(more)) \
            if tables is not None else []
        ev = s.add(Ev("prewarm", n=s.n_prewarm, t0=s.k.now, extra={"tables": names}))
        s.wait(s.cfg.get("prewarm_us", 0))
        fail = s.cfg.get("prewarm_fail", {}).get(str(s.n_prewarm))
        ev.t1 = s.k.now
        if fail:
            ev.outcome, ev.error = "error", ERRORS[fail](f"prewarm {s.n_prewarm}")
            s.k.fault(f"prewarm_{fail}")
            raise ev.error
        ev.outcome = "ok"

    def cooldown_tables(self, *a, **k):
        pass


_classes: dict = {}


def database(script: Script, *, timeout: bool, stopwatch: bool, prewarm: bool, name="scripteddb") -> ScriptedDatabase:
    key = (timeout, stopwatch, prewarm)
    if key not in _classes:
        bases = tuple(b for b, on in ((_Timeout, timeout), (_Stopwatch, stopwatch), (_Prewarm, prewarm)) if on)
        _classes[key] = type("ScriptedDatabase" + "".join("TSP"[i] for i, on in enumerate(key) if on), bases + (ScriptedDatabase,), {})
    return _classes[key](script, name)


class ScriptedHints(pbdb.HintService):
    def __init__(self, db):
        self.db = db

    def generate_hints(self, query, plan=None, *, join_order=None, physical_operators=None, plan_parameters=None):
        return transform.add_clause(query, qal.Hint("", "/*+ scripted */"))

    def format_query(self, query):
        return str(query)

    def supports_hint(self, hint):
        return True


class OnlineStage(pb.CompleteOptimizationAlgorithm):
    """Only its training interface is used."""

    def __init__(self, script: Script) -> None:
        super().__init__()
        self.script = script

    def optimize_query(self, query):
        raise NotImplementedError

    def describe(self):
        return {"name": "scripted"}

    def pre_check(self):
        return pb.validation.EmptyPreCheck()


class LearningStage(OnlineStage):
    def learn_from_feedback(self, query, result_set, *, exec_time):
        self.script.checkpoint()
        self.script.add(Ev("feedback", m=marker_of(str(query)), t0=self.script.k.now, query=query, rows=result_set, runtime=exec_time))
        self.script.wait(self.script.cfg.get("feedback_us", 0))
        return {}


class ScriptedPipeline(pb.OptimizationPipeline):
    def __init__(self, script: Script, db, stages: list) -> None:
        self.script, self.db, self._stages = script, db, stages

    def query_execution_plan(self, query):
        raise NotImplementedError

    def optimize_query(self, query):
        s = self.script
        s.started = True
        s.checkpoint()
        m = marker_of(str(query))
        n = s.opt_count[m] = s.opt_count.get(m, 0) + 1
        ev = s.add(Ev("optimize", m=m, n=n, t0=s.k.now, query=query))
        q = s.queries.get(m, {})
        s.wait(q.get("opt_us", 0))
        ev.t1 = s.k.now
        fails = q.get("opt_fail", {})
        if fails.get(str(n)):
            ev.outcome, ev.error = "error", ERRORS[fails[str(n)]](f"optimization of {m} #{n}")
            s.k.fault(f"optimize_{fails[str(n)]}")
            raise ev.error
        ev.outcome = "ok"
        prep = q.get("hint_prep") or ""
        prep = prep if isinstance(prep, str) else f"SET opt_{m} = {n};"
        return transform.add_clause(query, qal.Hint(prep, f"/*+ opt_{m}_{n} */"))

    def stages(self):
        return self._stages

    def target_database(self):
        return self.db

    def describe(self):
        return {"name": "scripted"}

    def __str__(self):
        return "ScriptedPipeline"
