B = "postbound/bench.py"
P = "postbound/postgres.py"
HEAD = '''
import os, sys, time, warnings, math, tempfile, shutil
import fakedb
from fakedb import *
from postbound import bench
'''
PG = '''
import os, sys, time, math
import fakepg
from fakepg import Hooks, statements, log
import psycopg
import postbound as pb
from postbound import postgres as pg
'''

PLANTS = [
 dict(id="b01-index-counts-requested", property="S08",
  needs="error_action='ignore' and a query whose executions fail only in some of several repetitions, followed by another query",
  breaks="the execution index advances by the requested instead of the recorded executions, so the result has gaps",
  edits=[(B, "            self._execution_counter += last_sample.num_executions()\n", "            self._execution_counter += self.query_reps\n")],
  demo=HEAD + '''
def behave(sql, n):
    if "= 0" in sql and n == 2:
        raise RuntimeError("broken")
    return [(n,)]
df = bench.execute_workload(workload(3), FakeDB(behave), per_query_repetitions=3, error_action="ignore")
got = list(df["exec_index"])
assert got == list(range(1, 9)), got
'''),
 dict(id="b02-narrow-except", property="S09",
  needs="a failure during execution that is not one of PostBOUND's own database errors",
  breaks="such a failure aborts the whole benchmark although errors shall be logged",
  edits=[(B, "    except Exception as e:\n        return _FailedExecution(error=e)\n", "    except (DatabaseServerError, DatabaseUserError, TimeoutError) as e:\n        return _FailedExecution(error=e)\n"),
         (B, "    Database,\n    DatabasePool,\n", "    Database,\n    DatabasePool,\n    DatabaseServerError,\n    DatabaseUserError,\n")],
  demo=HEAD + '''
def behave(sql, n):
    if "= 1" in sql:
        raise ValueError("year 10000 is out of range")
    return [(n,)]
df = bench.execute_workload(workload(3), FakeDB(behave), error_action="log")
assert list(df["status"]) == ["ok", "execution-error", "ok"], list(df["status"])
'''),
 dict(id="b03-opt-error-wrapped", property="S09",
  needs="error_action='raise' and a query whose optimization fails",
  breaks="the caller receives a generic error instead of the one that was raised by the optimizer",
  edits=[(B, "                    assert err is not None\n                    raise err\n", "                    assert err is not None\n                    raise RuntimeError(f\"Could not optimize query {label}: {err}\") from err\n")],
  demo=HEAD + '''
class Special(ValueError): pass
def optimize(q):
    raise Special("no plan")
try:
    bench.execute_workload(workload(2), pipeline(FakeDB(), optimize), error_action="raise")
    raise SystemExit("no error")
except Special:
    pass
'''),
 dict(id="b04-callback-before-output", property="S10",
  needs="progressive output together with an execution callback that fails (or a crash while it runs)",
  breaks="the measurement of an execution is only written after its callback, so it is lost if the process ends there",
  edits=[(B, '''    if cfg.output and sample.last_successful():
        sample.write_progressive(cfg.output, cfg.output_args)

    if cfg.exec_callback and sample.last_successful():
        cfg.exec_callback(sample.last_result())
''', '''    if not sample.last_successful():
        return
    if cfg.exec_callback:
        cfg.exec_callback(sample.last_result())
    if cfg.output:
        sample.write_progressive(cfg.output, cfg.output_args)
''')],
  demo=HEAD + '''
import pandas as pd
d = tempfile.mkdtemp()
try:
    out = os.path.join(d, "res.csv")
    seen = []
    def cb(res):
        seen.append(res)
        if len(seen) == 3:
            raise KeyboardInterrupt()
    try:
        bench.execute_workload(workload(4), FakeDB(), exec_callback=cb, progressive_output=out)
    except KeyboardInterrupt:
        pass
    got = list(pd.read_csv(out)["label"])
    assert got == ["q0", "q1", "q2"], got
finally:
    shutil.rmtree(d)
'''),
 dict(id="b05-completed-too-early", property="S11",
  needs="a repetition callback that fails in the last repetition, or a crash in it",
  breaks="the experiment log says completed although the benchmark raised an error",
  edits=[(B, '''            if repetition_callback:
                repetition_callback(i + 1)
''', '''            if i + 1 == workload_repetitions:
                _finalize_benchmark_log(name, cfg=cfg)
            if repetition_callback:
                repetition_callback(i + 1)
'''), (B, '''    _finalize_benchmark_log(name, cfg=cfg)
    return results.to_df()
''', '''    return results.to_df()
''')],
  demo=HEAD + '''
import json
d = tempfile.mkdtemp()
try:
    out = os.path.join(d, "res.csv")
    def cb(i):
        if i == 2:
            raise ValueError("upload failed")
    try:
        bench.execute_workload(workload(2), FakeDB(), repetition_callback=cb, workload_repetitions=2, progressive_output=out)
    except ValueError:
        pass
    log = json.load(open(os.path.join(d, "experiment_log.json")))
    assert [e["status"] for e in log] == ["failed"], log
finally:
    shutil.rmtree(d)
'''),
 dict(id="b06-feedback-misaligned", property="S12",
  needs="a pipeline that learns online and a query of which an earlier repetition fails while a later one succeeds",
  breaks="the feedback for the later execution carries result and runtime of the earlier one",
  edits=[(B, '''        for i, status in enumerate(self.status):
            if status in ["optimization-error", "execution-error"]:
                continue

''', '''        finished = [s for s in self.status if not s.endswith("-error")]
        for i, status in enumerate(finished):
''')],
  demo=HEAD + '''
def behave(sql, n):
    if n == 1:
        raise RuntimeError("broken")
    return [(n,)]
seen = []
bench.execute_workload(workload(1), pipeline(FakeDB(behave), learn=lambda q, rs, t: seen.append((rs, t))), per_query_repetitions=3)
assert [rs for rs, t in seen] == [[(2,)], [(3,)]], seen
assert all(t == t for _, t in seen), seen
'''),
 dict(id="b07-prep-stmts-cached", property="S13",
  needs="a database with enabled query cache and preparatory statements for more than one execution",
  breaks="preparatory statements are answered from the cache and not sent to the server from the second execution on",
  edits=[(B, "            on.execute_query(stmt, cache_enabled=False)\n", "            on.execute_query(stmt)\n")],
  demo=HEAD + '''
db = FakeDB(lambda sql, n: [], cache_enabled=True)
bench.execute_workload(workload(3), db, query_preparation={"preparatory_statements": ["SET a = 1;"]})
assert sum("SET a" in s for s in db.log) == 3, db.log
'''),
 dict(id="b08-wallclock-optimization", property="S14",
  needs="a wall clock that jumps while a query is being optimized",
  breaks="optimization times are differences of wall clock times and become negative or huge if the clock is adjusted",
  edits=[(B, '''        opt_start = time.perf_counter_ns()
        optimized_query = pipeline.optimize_query(query)
        opt_end = time.perf_counter_ns()
        optimization_time = (opt_end - opt_start) / 10**9  # convert to seconds
''', '''        opt_start = datetime.now()
        optimized_query = pipeline.optimize_query(query)
        optimization_time = (datetime.now() - opt_start).total_seconds()
''')],
  demo=HEAD + '''
import datetime as dt
shift = [0]
class Jumping(dt.datetime):
    @classmethod
    def now(cls, tz=None):
        return dt.datetime.fromtimestamp(time.time() + shift[0], tz)
real_time, real_ns = time.time, time.time_ns
bench.datetime = Jumping
time.time = lambda: real_time() + shift[0]
time.time_ns = lambda: real_ns() + shift[0] * 10**9
def optimize(q):
    time.sleep(0.01)
    shift[0] -= 3600
    return q
df = bench.execute_workload(workload(3), pipeline(FakeDB(), optimize))
assert all(0.009 < t < 5 for t in df["optimization_time"]), list(df["optimization_time"])
'''),
 dict(id="p01-timeout-covers-transfer", property="S01",
  needs="a query that finishes in time, but whose result takes longer than the timeout to be fetched and transferred",
  breaks="a query that finished within the timeout is reported as a timeout",
  edits=[(P, '''            return _timeout_worker_await_result(
                status_pipe, backend_pid=backend_pid, executor=executor
            )
''', '''            if not status_pipe.poll(timeout):
                return _timeout_worker_timeout(
                    timeout, backend_pid=backend_pid, executor=executor
                )
            return _timeout_worker_await_result(
                status_pipe, backend_pid=backend_pid, executor=executor
            )
''')],
  demo=PG + '''
db = pg.PostgresInterface("host=fake")
Hooks.fetch_delay = 1.0
Hooks.rows = [(1, 2)]
assert db.execute_query("SELECT slow_result", timeout=0.4, raw=True) == [(1, 2)]
'''),
 dict(id="p02-config-snapshot", property="S03",
  needs="two timed queries on the same interface with a change of a session setting between them",
  breaks="the second timed query runs with the settings that the session had at the first one",
  edits=[(P, '''        return {
            "connect_string": self._pg_instance.connect_string,
            "cache_enabled": self._pg_instance.cache_enabled,
            "config": self._pg_instance.current_configuration(
                runtime_changeable_only=True
            ),
        }
''', '''        if self._fingerprint is None:
            self._fingerprint = {
                "connect_string": self._pg_instance.connect_string,
                "cache_enabled": self._pg_instance.cache_enabled,
                "config": self._pg_instance.current_configuration(
                    runtime_changeable_only=True
                ),
            }
        return self._fingerprint
'''), (P, "        self._timeout_watchdog = None\n        self._query_worker", "        self._timeout_watchdog = None\n        self._fingerprint: Optional[dict] = None\n        self._query_worker")],
  demo=PG + '''
db = pg.PostgresInterface("host=fake")
db.execute_query("SELECT 1", timeout=20)
db.execute_query("SET enable_nestloop = 'off'")
db.execute_query("SELECT 2", timeout=20)
run = [e for e in log() if e["sql"] == "SELECT 2"]
assert len(run) == 1 and run[0]["settings"]["enable_nestloop"] == "off", run
'''),
 dict(id="p03-watchdog-kept-after-close", property="S02",
  needs="a timed query, then a reset of the connection, then another query that exceeds its timeout",
  breaks="the closed watchdog connection is used again, so the timed-out query cannot be stopped on the server",
  edits=[(P, '''            self._timeout_watchdog.close()
            self._timeout_watchdog = None
''', '''            self._timeout_watchdog.close()
''')],
  demo=PG + '''
db = pg.PostgresInterface("host=fake")
db.execute_query("SELECT 1", timeout=20)
db.reset_connection()
try:
    db.execute_query("SELECT sleep 20", timeout=0.3)
    raise SystemExit("no timeout")
except TimeoutError:
    pass
assert any("pg_terminate_backend" in s or "pg_cancel_backend" in s for s in statements("PostBOUND Timeout Watchdog"))
'''),
 dict(id="p04-cancel-is-timeout", property="S04",
  needs="a parallel query that is cancelled by somebody else (administrator, recovery conflict) rather than by its timeout",
  breaks="the error of the cancelled query is swallowed and it is reported as a timeout",
  edits=[(P, '''            return query, None
        else:
            raise e

    result_set''', '''        else:
            log(f"Query {query} was cancelled: {e}")
        return query, None

    result_set'''), (P, '''[worker id={threading.get_ident()}, ts={util.timestamp()}] Query {query} timed out"
            )
''', '''[worker id={threading.get_ident()}, ts={util.timestamp()}] Query {query} timed out"
            )
''')],
  demo=PG + '''
def on_execute(conn, sql):
    if "two" in sql:
        raise psycopg.errors.QueryCanceled("canceling statement due to user request")
Hooks.on_execute = on_execute
ex = pg.ParallelQueryExecutor("host=fake", 2, timeout=5)
for q in ("SELECT one", "SELECT two", "SELECT three"):
    ex.queue_query(q)
try:
    ex.drain_queue()
    raise SystemExit("the error was swallowed")
except psycopg.errors.QueryCanceled:
    pass
finally:
    ex.close()
'''),
 dict(id="p05-stopwatch-includes-prep", property="S13",
  needs="an optimized query with its own preparatory statements on Postgres without timeout, where these statements take time",
  breaks="the reported runtime includes the preparatory statements of the query",
  edits=[(P, """        query = self._apply_query_hints(
            query,
            plan,
            join_order=join_order,
            physical_operators=physical_operators,
            plan_parameters=plan_parameters,
        )

        try:
            if timeout""", """        query = self._apply_query_hints(
            query,
            plan,
            join_order=join_order,
            physical_operators=physical_operators,
            plan_parameters=plan_parameters,
        )
        start_time = time.perf_counter_ns()

        try:
            if timeout"""), (P, """            start_time = time.perf_counter_ns()
            self._cursor.execute(query)  # type: ignore
""", """            self._cursor.execute(query)  # type: ignore
""")],
  demo=PG + '''
from postbound import qal, transform
db = pg.PostgresInterface("host=fake")
q = pb.parse_query("SELECT R.a FROM R", bind_columns=False)
q = transform.add_clause(q, qal.Hint("SET geqo = 'sleep';", "/*+ SeqScan(R) */"))
def on_execute(conn, sql):
    if "geqo" in sql:
        time.sleep(0.5)
Hooks.on_execute = on_execute
db.execute_query(q)
assert db.last_query_runtime() < 0.4, db.last_query_runtime()
'''),
]
