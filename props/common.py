"""Shared pieces of the property checks: the data set, marked queries, and oracles over the simulated server's log."""
from __future__ import annotations

import math
import random
import re

from dst import boot, simmp, simpg
from dst.kernel import MS, SEC, US, Violation

import postbound as pb
from postbound import postgres as pg
from postbound import qal, transform
from postbound.db import simplify_result_set

# the runtime changeable settings of postbound at the pinned commit (the contract of "session settings")
RUNTIME_SETTINGS = {
    'backend_flush_after', 'constraint_exclusion', 'cpu_index_tuple_cost', 'cpu_operator_cost', 'cpu_tuple_cost',
    'cursor_tuple_fraction', 'default_statistics_target', 'effective_cache_size', 'effective_io_concurrency',
    'enable_async_append', 'enable_bitmapscan', 'enable_gathermerge', 'enable_hashagg', 'enable_hashjoin',
    'enable_incremental_sort', 'enable_indexonlyscan', 'enable_indexscan', 'enable_material', 'enable_memoize',
    'enable_mergejoin', 'enable_nestloop', 'enable_parallel_append', 'enable_parallel_hash', 'enable_partition_pruning',
    'enable_partitionwise_aggregate', 'enable_partitionwise_join', 'enable_presorted_aggregate', 'enable_seqscan',
    'enable_sort', 'enable_tidscan', 'from_collapse_limit', 'geqo', 'geqo_effort', 'geqo_generations', 'geqo_pool_size',
    'geqo_seed', 'geqo_selection_bias', 'geqo_threshold', 'hash_mem_multiplier', 'jit', 'jit_above_cost',
    'jit_inline_above_cost', 'jit_optimize_above_cost', 'join_collapse_limit', 'logical_decoding_work_mem',
    'maintenance_io_concurrency', 'maintenance_work_mem', 'max_parallel_maintenance_workers', 'max_parallel_workers',
    'max_parallel_workers_per_gather', 'max_stack_depth', 'min_parallel_index_scan_size', 'min_parallel_table_scan_size',
    'parallel_leader_participation', 'parallel_setup_cost', 'parallel_tuple_cost', 'plan_cache_mode', 'random_page_cost',
    'recursive_worktable_factor', 'seq_page_cost', 'temp_buffers', 'temp_file_limit', 'vacuum_buffer_usage_limit',
    'vacuum_cost_delay', 'vacuum_cost_limit', 'vacuum_cost_page_dirty', 'vacuum_cost_page_hit', 'vacuum_cost_page_miss',
    'work_mem'}
BOOL_SETTINGS = sorted(s for s in RUNTIME_SETTINGS if simpg.SESSION_SETTINGS.get(s) in ("on", "off"))
NUM_SETTINGS = sorted(s for s in RUNTIME_SETTINGS if re.fullmatch(r"\d+(\.\d+)?", simpg.SESSION_SETTINGS.get(s, "")))

SCHEMA = """
CREATE TABLE r(id INTEGER PRIMARY KEY, a INTEGER, b INTEGER, name TEXT);
CREATE TABLE s(id INTEGER PRIMARY KEY, r_id INTEGER REFERENCES r(id) ON DELETE CASCADE, c INTEGER NOT NULL);
CREATE TABLE t(id INTEGER PRIMARY KEY, s_id INTEGER REFERENCES s(id) ON DELETE CASCADE, d INTEGER);
CREATE TABLE u(id INTEGER PRIMARY KEY, r_id INTEGER REFERENCES r(id) ON DELETE CASCADE, e INTEGER);
CREATE INDEX s_r_idx ON s(r_id);
CREATE INDEX t_s_idx ON t(s_id);
"""


def dataset(seed: int = 7, rows: int = 12) -> str:
    rng = random.Random(seed)
    out = [SCHEMA]
    for i in range(1, rows + 1):
        b = "NULL" if rng.random() < 0.2 else rng.randrange(5)
        out.append(f"INSERT INTO r VALUES ({i},{rng.randrange(8)},{b},'n{rng.randrange(4)}');")
    for i in range(1, rows + 6):
        out.append(f"INSERT INTO s VALUES ({i},{rng.randrange(1, rows + 1)},{rng.randrange(6)});")
    for i in range(1, rows + 9):
        out.append(f"INSERT INTO t VALUES ({i},{rng.randrange(1, rows + 6)},{rng.randrange(4)});")
    for i in range(1, rows):
        out.append(f"INSERT INTO u VALUES ({i},{rng.randrange(1, rows + 1)},{rng.randrange(9)});")
    return "\n".join(out)


MARK = 900_000
TEMPLATES = [
    ("SELECT COUNT(*) FROM r WHERE r.id < {m} AND r.a < {x}", ["r"]),
    ("SELECT r.a, r.name FROM r WHERE r.id < {m} AND r.a = {x}", ["r"]),
    ("SELECT r.id FROM r WHERE r.id < {m} AND r.a > {x}", ["r"]),
    ("SELECT COUNT(*) FROM r, s WHERE r.id = s.r_id AND r.id < {m} AND s.c < {x}", ["r", "s"]),
    ("SELECT r.id, s.c FROM r, s WHERE r.id = s.r_id AND r.id < {m} AND s.c = {x}", ["r", "s"]),
    ("SELECT MIN(r.b) FROM r, s, t WHERE r.id = s.r_id AND s.id = t.s_id AND r.id < {m} AND t.d < {x}", ["r", "s", "t"]),
    ("SELECT s.id, t.d FROM s, t WHERE s.id = t.s_id AND s.id < {m} AND t.d = {x}", ["s", "t"]),
    ("SELECT COUNT(*) FROM r, s, t, u WHERE r.id = s.r_id AND s.id = t.s_id AND r.id = u.r_id AND r.id < {m} AND u.e < {x}",
     ["r", "s", "t", "u"]),
    ("SELECT r.id FROM r WHERE r.id < {m} AND r.a < 0", ["r"]),
]


def marked(i: int, template: int, x: int) -> str:
    return TEMPLATES[template % len(TEMPLATES)][0].format(m=MARK + i, x=x)


def tables_of(template: int) -> list[str]:
    return TEMPLATES[template % len(TEMPLATES)][1]


def marker_of(sql: str) -> int | None:
    m = re.search(r"\b9\d{5}\b", sql)
    return int(m.group(0)) - MARK if m else None


def parse(sql: str):
    return pb.parse_query(sql, bind_columns=False)


def with_hints(query, prep: str = "", hints: str = ""):
    return transform.add_clause(query, qal.Hint(prep, hints))


def norm_sql(sql: str) -> str:
    return re.sub(r"\s+", " ", sql).strip().rstrip(";").strip()


def rows_equal(a, b) -> bool:
    return typed(a) == typed(b)


def typed(v):
    """Value with its type, so that 1, 1.0 and True or lists and tuples are told apart. NaN equals itself."""
    if isinstance(v, (list, tuple)):
        return (type(v).__name__, tuple(typed(x) for x in v))
    if isinstance(v, float) and math.isnan(v):
        return ("float", "nan")
    return (type(v).__name__, v)


def make_server(ctx, sc, **kw) -> simpg.Server:
    server = simpg.Server(ctx.k, dataset(sc.get("data", 7), sc.get("rows", 12)), **kw)
    simpg.install(server)
    return server


class Faults:
    """Applies the scenario's fault list to server and processes. Kinds:

    kill_worker {worker, step} / lose {app, nth, when: before|after} / crash {app, nth, down_ms} / refuse {app, nth} /
    terminate {app, at_ms} / error {app, nth, kind}
    """

    APPS = {"main": "PostBOUND", "worker": "PostBOUND Timeout Worker", "watchdog": "PostBOUND Timeout Watchdog"}

    def __init__(self, ctx, server: simpg.Server, faults: list[dict], queries: dict[int, dict]) -> None:
        self.ctx, self.server, self.faults, self.queries = ctx, server, faults, queries
        server.on_statement = self.on_statement
        server.on_connect = self.on_connect
        simmp.reset()
        simmp.on_process_start = self.on_process_start
        self.armed = True
        self.last_fault = 0
        self.fired: list[str] = []  # applications hit by a connection fault, in order
        for f in faults:
            if f["kind"] == "terminate":
                ctx.k.at(f["at_ms"] * MS, lambda f=f: self.terminate(f))

    def terminate(self, f) -> None:
        if not self.armed:
            return
        for s in self.server.alive_sessions():
            if self.matches(f["app"], s.app):
                self.ctx.k.fault(f"terminate_{f['app']}")
                self.last_fault = self.ctx.k.now
                self.fired.append(s.app)
                self.server.terminate_session(s.pid)

    def matches(self, short: str, app: str) -> bool:
        return app == self.APPS.get(short, short) or (short == "parallel" and app.startswith("PostBOUND parallel"))

    def on_process_start(self, k, proc, sim, n) -> None:
        for f in self.faults:
            if f["kind"] == "kill_worker" and f["worker"] == n - 1 and self.armed:
                sim.kill_at = f["step"]

    def on_connect(self, app, nth):
        for f in self.faults:
            if f["kind"] == "refuse" and self.matches(f["app"], app) and f["nth"] == nth and self.armed:
                self.last_fault = self.ctx.k.now
                self.fired.append(app)
                return "refuse"
        return None

    def on_statement(self, session, stmt):
        spec = {}
        m = marker_of(stmt.sql)
        q = self.queries.get(m) if m is not None and not stmt.sql.lstrip().upper().startswith(("SET", "EXPLAIN (FORMAT")) else None
        if q is not None:
            if q.get("dur_us") is not None:
                spec["dur"] = q["dur_us"] * US
            if q.get("fail"):
                spec["fail"] = q["fail"]
            if q.get("fetch_us"):
                spec["fetch"] = q["fetch_us"] * US
            if q.get("big"):
                spec["rows"] = [(i, "x" * 90) for i in range(q["big"])]
        if self.armed:
            count = self.server.statement_count[session.app]
            for f in self.faults:
                if f["kind"] in ("lose", "crash", "error") and self.matches(f["app"], session.app) and f["nth"] == count:
                    self.last_fault = self.ctx.k.now
                    self.fired.append(session.app)
                    if f["kind"] == "lose":
                        spec["fail" if f.get("when") != "after" else "then"] = "lose"
                    elif f["kind"] == "crash":
                        spec["fail"] = "crash"
                        spec["down_for"] = f.get("down_ms", 0) * MS
                    else:
                        spec["fail"] = f["error"]
        return spec


def call(fn, *args, **kw):
    """(kind, value): ("ok", result) | ("timeout", e) | ("error", e). Simulator exceptions pass through."""
    from dst.kernel import HarnessError
    try:
        return "ok", fn(*args, **kw)
    except (Violation, HarnessError):
        raise
    except TimeoutError as e:
        return "timeout", e
    except Exception as e:  # noqa: BLE001
        return "error", e


def short(e) -> str:
    return f"{type(e).__name__}: {str(e)[:300]}"
