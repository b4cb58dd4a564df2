From 17ffd3b977aa67f913485ca326fe80bc4a55c243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 01/74] fix: timed Postgres queries survive dying workers and
 lost connections and leave no query behind

If the worker process died, the parent waited forever because it kept its own copy of the pipe's write end open. On a
timeout, the backend was cancelled while the worker was still alive, so the worker could submit the query afterwards.
A lost watchdog connection was never re-established.
---
 postbound/postgres.py | 67 ++++++++++++++++++++++++++++++++++---------
 1 file changed, 54 insertions(+), 13 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5e3c750..41f42d9 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3513,10 +3513,23 @@ class _ResultEvent:
         return _ResultEvent("failure", None, math.nan, error=error)
 
 
+def _timeout_worker_recv(status_pipe: mp_conn.Connection) -> Any:
+    """Receives the next event from the timeout worker.
+
+    If the worker died without telling us why, an appropriate error event is generated on behalf of the worker.
+    """
+    try:
+        return status_pipe.recv()
+    except (EOFError, OSError) as e:
+        return _WorkerErrorEvent(
+            DatabaseServerError("Timeout worker terminated unexpectedly", e)
+        )
+
+
 def _timeout_worker_ctl(
     status_pipe: mp_conn.Connection, *, timeout: float, executor: TimeoutQueryExecutor
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _timeout_worker_recv(status_pipe)
     match event:
         case _BackendConnectedEvent(pid):
             return _timeout_worker_prep(
@@ -3535,7 +3548,7 @@ def _timeout_worker_prep(
     backend_pid: int,
     executor: TimeoutQueryExecutor,
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _timeout_worker_recv(status_pipe)
     match event:
         case _QueryReadyEvent():
             return _timeout_worker_run_query(
@@ -3561,7 +3574,7 @@ def _timeout_worker_run_query(
             timeout, backend_pid=backend_pid, executor=executor
         )
 
-    event = status_pipe.recv()
+    event = _timeout_worker_recv(status_pipe)
     match event:
         case _QueryFinishedEvent():
             return _timeout_worker_await_result(
@@ -3577,7 +3590,7 @@ def _timeout_worker_run_query(
 def _timeout_worker_await_result(
     status_pipe: mp_conn.Connection, *, backend_pid: int, executor: TimeoutQueryExecutor
 ) -> _ResultEvent:
-    event = status_pipe.recv()
+    event = _timeout_worker_recv(status_pipe)
     match event:
         case _ResultEvent():
             return event
@@ -3729,6 +3742,7 @@ class TimeoutQueryExecutor:
             else DatabasePool.get_instance().current_database()
         )
         self._timeout_watchdog = None
+        self._query_worker: Optional[mp.Process] = None
 
     def execute_query(self, query: SqlQuery | str, timeout: float, **kwargs) -> Any:
         """Runs a query on the database connection, cancelling if it takes longer than a specific timeout.
@@ -3764,6 +3778,7 @@ class TimeoutQueryExecutor:
         if cached_query:
             return self._pg_instance._query_cache[str(query)]
 
+        self._pg_instance._last_query_runtime = math.nan
         self._init_watchdog()
 
         # We implement the timeout mechanism in a separate worker process. The main process keeps track of the progress of that
@@ -3806,15 +3821,21 @@ class TimeoutQueryExecutor:
         )
 
         query_worker.start()
-        result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
-        timed_out = result.status == "timeout"
-        if timed_out:
-            query_worker.terminate()
-
-        query_worker.join()
-        query_worker.close()
+        # From now on, the write end belongs exclusively to the worker. If we kept our copy open, we would never be notified
+        # if the worker died.
         status_send.close()
-        status_recv.close()
+        self._query_worker = query_worker
+        try:
+            result = _timeout_worker_ctl(status_recv, timeout=timeout, executor=self)
+        except BaseException:
+            query_worker.terminate()
+            raise
+        finally:
+            self._query_worker = None
+            query_worker.join()
+            query_worker.close()
+            status_recv.close()
+        timed_out = result.status == "timeout"
 
         match result.status:
             case "success" | "timeout":
@@ -3869,9 +3890,29 @@ class TimeoutQueryExecutor:
         )
 
     def _abort_backend(self, pid: int) -> None:
+        # We have to stop the worker before its backend. Otherwise, the worker could still submit the query after the backend
+        # has been stopped. For the same reason we terminate the backend instead of just cancelling its current query: the
+        # query might already be on its way to the server, but not have arrived, yet.
+        if self._query_worker is not None:
+            self._query_worker.terminate()
+            self._query_worker.join()
+
+        try:
+            self._terminate_backend(pid)
+        except psycopg.Error:
+            # the watchdog might have lost its connection since we last used it
+            self.close()
+            try:
+                self._terminate_backend(pid)
+            except psycopg.Error as e:
+                self.close()
+                raise DatabaseServerError(f"Could not terminate backend {pid}", e)
+
+    def _terminate_backend(self, pid: int) -> None:
+        self._init_watchdog()
         assert self._timeout_watchdog is not None
         with self._timeout_watchdog.cursor() as cursor:
-            cursor.execute(f"SELECT pg_cancel_backend({pid});")  # type: ignore
+            cursor.execute(f"SELECT pg_terminate_backend({pid});")  # type: ignore
         self._timeout_watchdog.rollback()
 
     def __call__(self, query: SqlQuery | str, timeout: float, **kwargs) -> Any:
-- 
2.43.0


From b2b1e7afd0948585cdd297ab8689703a220584c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:21 +0000
Subject: [PATCH 02/74] fix: treat recursive_worktable_factor as a
 runtime-changeable setting

A missing comma fused it with autovacuum, so neither was known and the setting was not applied to timed queries.
---
 postbound/postgres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 41f42d9..44e0f6b 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -182,7 +182,7 @@ _SignificantPostgresSettings = {
     "jit",
     "join_collapse_limit",
     "plan_cache_mode",
-    "recursive_worktable_factor"
+    "recursive_worktable_factor",
     # Automatic Vacuuming (https://www.postgresql.org/docs/current/runtime-config-autovacuum.html)
     "autovacuum",
     "autovacuum_max_workers",
@@ -219,6 +219,7 @@ All settings are up-to-date as of Postgres version 16.
 _RuntimeChangeablePostgresSettings = {
     setting for setting in _SignificantPostgresSettings
 } - {
+    "autovacuum",
     "autovacuum_max_workers",
     "autovacuum_naptime",
     "autovacuum_threshold",
-- 
2.43.0


From 0eb796edddbee9fac6c56999719b97e711ca9176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:26 +0000
Subject: [PATCH 03/74] fix: ParallelQueryExecutor reports each query exactly
 once and survives failing queries

The callback received (query, (query, result)), draining twice repeated results and callbacks, the first failing query
discarded the results of all others, and a timeout message with context information was not recognised.
---
 postbound/postgres.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 44e0f6b..4780bdf 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -3314,7 +3314,8 @@ def _parallel_query_worker(
             f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Executed query {query}"
         )
     except psycopg.errors.QueryCanceled as e:
-        if "canceling statement due to statement timeout" in e.args:
+        # the message can be followed by additional context information
+        if "canceling statement due to statement timeout" in str(e):
             log(
                 f"[worker id={threading.get_ident()}, ts={util.timestamp()}] Query {query} timed out"
             )
@@ -3435,16 +3436,30 @@ class ParallelQueryExecutor:
         ------
         TimeoutError or concurrent.futures.TimeoutError
             If some queries have not completed after the given `timeout`.
-        """
-        for future in concurrent.futures.as_completed(self._tasks, timeout=timeout):
-            result_set = future.result()
-            self._results.append(result_set)
 
-            if not callback:
+        Notes
+        -----
+        If some of the queries fail, the remaining queries are still processed. Afterwards, the (first) error is raised.
+        """
+        failed: list[concurrent.futures.Future] = []
+        for future in concurrent.futures.as_completed(
+            list(self._queries), timeout=timeout
+        ):
+            if future.exception() is not None:
+                failed.append(future)
                 continue
 
-            query = self._queries[future]
-            callback(query, result_set)
+            # each query is only handled once, even if the queue is drained multiple times
+            del self._queries[future]
+            query, result_set = future.result()
+            self._results.append((query, result_set))
+            if callback:
+                callback(query, result_set)
+
+        for future in failed:
+            del self._queries[future]
+        if failed:
+            raise failed[0].exception()
 
     def result_set(self) -> dict[str | SqlQuery, ResultSet | None]:
         """Provides the results of all queries that have terminated already, mapping query -> result set
-- 
2.43.0


From a589a8e6f620e5646b131d7c24800e401c86865d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:13 +0000
Subject: [PATCH 04/74] fix: a failing query no longer corrupts or aborts a
 benchmark

Ignored execution errors left a timestamp behind (different column lengths), repeated the previous measurement in callback
and progressive output, and ignored optimization errors made the execution index skip numbers. Errors while preparing a
query or describing the database were not covered by the error handling at all. A benchmark without any results raised.
---
 postbound/bench.py | 68 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 56 insertions(+), 12 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 6e9eba7..09f4fe5 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -542,10 +542,10 @@ def _execute_query(
     if timeout and not isinstance(on, TimeoutSupport):
         raise ValueError(f"Database system {on} does not provide timeout support")
 
-    if query_prep:
-        query = query_prep.prepare_query(query, on=on)
-
     try:
+        if query_prep:
+            query = query_prep.prepare_query(query, on=on)
+
         if timeout:
             exec_start = time.perf_counter_ns()
             result_set = on.execute_with_timeout(query, timeout=timeout)  # type: ignore[arg-type]
@@ -627,6 +627,25 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+_ResultColumns = [
+    "exec_index",
+    "label",
+    "timestamp",
+    "workload_repetition",
+    "query_repetition",
+    "query",
+    "status",
+    "query_result",
+    "exec_time",
+    "failure_reason",
+    "db_config",
+    "query_preparation",
+    "optimization_time",
+    "optimization_pipeline",
+    "optimized_query",
+]
+
+
 class _ResultSample:
     """A result sample corresponds to all executions of a single query within one workload repetition.
 
@@ -653,6 +672,7 @@ class _ResultSample:
 
         # collected data
         self.timestamps: list[datetime | None] = []
+        self.query_reps: list[int] = []
         self.status: list[ExecStatus] = []
         self.optimization_time: float = np.nan
         self.optimization_pipeline: OptimizationPipeline | None = None
@@ -666,6 +686,7 @@ class _ResultSample:
         self._max_query_reps = max_query_reps
         self._optimization_failure: Exception | None = None
         self._initial_idx = initial_exec_idx
+        self._current_query_rep = 0
 
     def optimization_results(
         self,
@@ -684,6 +705,7 @@ class _ResultSample:
         self._optimization_failure = reason
         self.optimization_pipeline = pipeline
         self.timestamps += [None] * self._max_query_reps
+        self.query_reps += range(1, self._max_query_reps + 1)
         self.status += ["optimization-error"] * self._max_query_reps  # type: ignore[list-item]]
         self.failure_reasons += [str(reason)] * self._max_query_reps
         self.result_sets += [None] * self._max_query_reps
@@ -691,8 +713,15 @@ class _ResultSample:
         self.db_configs += [{}] * self._max_query_reps
 
     def start_execution(self) -> None:
+        self._current_query_rep += 1
+        self.query_reps.append(self._current_query_rep)
         self.timestamps.append(datetime.now())
 
+    def discard_execution(self) -> None:
+        """Forgets about the execution that was started last. It must not have produced any results, yet."""
+        self.query_reps.pop()
+        self.timestamps.pop()
+
     def add_exec_sample(
         self, result_set: ResultSet, *, exec_time: float, db_config: util.jsondict
     ) -> None:
@@ -750,7 +779,7 @@ class _ResultSample:
                 "label": [self.label],
                 "timestamp": [self.timestamps[-1]],
                 "workload_repetition": [self.current_workload_rep],
-                "query_repetition": [n_samples],
+                "query_repetition": [self.query_reps[-1]],
                 "query": [self.query],
                 "status": [self.status[-1]],
                 "query_result": [result_set],
@@ -768,7 +797,7 @@ class _ResultSample:
                 "label": [self.label] * n_samples,
                 "timestamp": self.timestamps,
                 "workload_repetition": [self.current_workload_rep] * n_samples,
-                "query_repetition": [i + 1 for i in range(n_samples)],
+                "query_repetition": self.query_reps,
                 "query": [self.query] * n_samples,
                 "status": self.status,
                 "query_result": [simplify_result_set(rs) for rs in self.result_sets],
@@ -909,10 +938,15 @@ class _ExecutionResults:
         if not self._samples:
             raise ValueError("No samples to scratch")
         self._samples.pop()
+        if self._samples:
+            # next_query() is going to account for the new last sample (again)
+            self._execution_counter -= self._samples[-1].num_executions()
 
     def to_df(self) -> pd.DataFrame:
         """Provides all results as a single data frame. This is the final output of the benchmarking process."""
-        samples = [sample.to_df() for sample in self._samples]
+        samples = [sample.to_df() for sample in self._samples if len(sample)]
+        if not samples:
+            return pd.DataFrame(columns=_ResultColumns)
         return pd.concat(samples, ignore_index=True)
 
 
@@ -930,11 +964,20 @@ def _exec_ctl_loop(
     """
     cfg.log.next_query_rep()
 
-    db_config = cfg.target_db.describe()
-    sample.start_execution()
-    match _execute_query(
-        query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
-    ):
+    db_config: util.jsondict = {}
+    exec_result: _InternalExecResult
+    try:
+        db_config = cfg.target_db.describe()
+    except Exception as e:
+        sample.start_execution()
+        exec_result = _FailedExecution(error=e)
+    else:
+        sample.start_execution()
+        exec_result = _execute_query(
+            query, on=cfg.target_db, timeout=cfg.timeout, query_prep=cfg.query_prep
+        )
+
+    match exec_result:
         case _SuccessfullExecution(result_set, exec_time):
             sample.add_exec_sample(result_set, exec_time=exec_time, db_config=db_config)
         case _TimeoutExecution(exec_time):
@@ -944,7 +987,8 @@ def _exec_ctl_loop(
         case _FailedExecution(err) if cfg.error_action == "raise":
             raise err
         case _FailedExecution(_) if cfg.error_action == "ignore":
-            pass
+            sample.discard_execution()
+            return
         case _FailedExecution(_):
             raise ValueError(f"Unknown error action: {cfg.error_action}")
         case _ as other:
-- 
2.43.0


From 72925b56d0151119bbe48bda62f05f0e891d1d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:28 +0000
Subject: [PATCH 05/74] fix: timeouts do not break benchmarks of
 online-learning pipelines

A query that timed out has no result set. Providing it as feedback failed an assertion and aborted the entire benchmark.
---
 postbound/bench.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 09f4fe5..4d14047 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -1053,7 +1053,9 @@ def _workload_ctl_loop(
             continue
 
         for exec_result in sample.to_execution_results():
-            assert exec_result.query_result is not None
+            if exec_result.status == "timeout":
+                # there is no result set to learn from
+                continue
             exec_time = 1000 * exec_result.execution_time
             pipeline.learn_from_feedback(
                 query, exec_result.query_result, exec_time=exec_time
-- 
2.43.0


From 8b79c7a0e2c9fbc693861cf4ace7fca5a81b3c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:43 +0000
Subject: [PATCH 06/74] fix: progressive benchmark output is never lost and
 works for JSON and Parquet

JSON output always raised (index=False), Parquet output raised for optimized queries and for results of different types.
Results with decimals could not be exported at all. A crash or full disk while writing destroyed all earlier measurements
of a JSON/Parquet file, and the remains of a partial CSV row swallowed the next row.
---
 postbound/bench.py        | 97 ++++++++++++++++++++++++++++++++++++---
 postbound/util/jsonize.py |  8 ++++
 2 files changed, 98 insertions(+), 7 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 4d14047..68bdd0b 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -2,7 +2,10 @@
 
 from __future__ import annotations
 
+import csv
+import io
 import json
+import os
 import time
 import warnings
 from collections.abc import Callable, Iterable
@@ -367,6 +370,17 @@ class _BenchmarkConfig:
     start_time: datetime | None = None
 
 
+def _replace_file(file: Path, write: Callable[[Path], None]) -> None:
+    """Writes a new version of a file such that there always is a complete version of it, even if writing fails midway."""
+    tmp_file = file.with_name(f".tmp_{file.name}")
+    try:
+        write(tmp_file)
+        os.replace(tmp_file, file)
+    except BaseException:
+        tmp_file.unlink(missing_ok=True)
+        raise
+
+
 def _init_benchmark_log(experiment: str, *, cfg: _BenchmarkConfig) -> None:
     if not cfg.output:
         return
@@ -627,6 +641,45 @@ class _TqdmLogger:
 _LoggerImpl = _NoOpLogger | _CustomLogger | _TqdmLogger
 
 
+def _result_as_json(result: Any) -> Optional[str]:
+    if result is None or isinstance(result, str):
+        return result
+    return util.to_json(result)
+
+
+def _repair_csv_output(file: Path, *, writer_args: dict) -> None:
+    """Removes the incomplete row that remains if a previous benchmark was killed while writing to its output file."""
+    content = file.read_bytes()
+    quotechar = writer_args.get("quotechar", '"')
+    separator = writer_args.get("sep", ",")
+
+    current_pos, last_row, in_quotes = 0, 0, False
+    header: bytes = b""
+    for line in io.BytesIO(content):
+        current_pos += len(line)
+        if line.count(quotechar.encode()) % 2:
+            in_quotes = not in_quotes
+        if line.endswith(b"\n") and not in_quotes:
+            header = header or content[:current_pos]
+            last_row = current_pos
+    if last_row == len(content):
+        return
+
+    def n_columns(row: bytes) -> int:
+        text = row.decode("utf-8", errors="replace")
+        reader = csv.reader(
+            text.splitlines(keepends=True), delimiter=separator, quotechar=quotechar
+        )
+        return len(next(reader, []))
+
+    partial_row = content[last_row:]
+    if header and not in_quotes and n_columns(partial_row) == n_columns(header):
+        with open(file, "ab") as f:
+            f.write(b"\n")
+    else:
+        os.truncate(file, last_row)
+
+
 _ResultColumns = [
     "exec_index",
     "label",
@@ -846,24 +899,36 @@ class _ResultSample:
                 self._write_json(df, file, writer_args=output_args)
 
     def _write_csv(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
-        if file.is_file():
-            df.to_csv(file, mode="a", header=False, index=False, **writer_args)
+        if file.is_file() and (current_size := file.stat().st_size):
+            try:
+                df.to_csv(file, mode="a", header=False, index=False, **writer_args)
+            except BaseException:
+                # don't leave parts of the row behind, later rows would be appended to them
+                os.truncate(file, current_size)
+                raise
             return
 
         # We are the first sample to write to the output file. Create it with headers
         file.parent.mkdir(parents=True, exist_ok=True)
-        df.to_csv(file, index=False, **writer_args)
+        _replace_file(file, lambda f: df.to_csv(f, index=False, **writer_args))
 
     def _write_parquet(
         self, df: pd.DataFrame, file: Path, *, writer_args: dict
     ) -> None:
+        # Parquet requires all values of a column to have the same type
+        df["query_result"] = df["query_result"].map(_result_as_json)
+
         if file.is_file():
             existing_results = pd.read_parquet(file)
+            if not pd.api.types.is_string_dtype(existing_results["query_result"]):
+                existing_results["query_result"] = existing_results["query_result"].map(
+                    _result_as_json
+                )
             df = pd.concat([existing_results, df], ignore_index=True)
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
 
-        df.to_parquet(file, index=False, **writer_args)
+        _replace_file(file, lambda f: df.to_parquet(f, index=False, **writer_args))
 
     def _write_hdf(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
         if "key" not in writer_args:
@@ -882,13 +947,24 @@ class _ResultSample:
             df.to_hdf(file, mode="w", index=False, **writer_args)
 
     def _write_json(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
+        writer_args = {"orient": "records", "date_format": "iso"} | writer_args
         if file.is_file():
-            existing_results = pd.read_json(file)
-            df = pd.concat([existing_results, df], ignore_index=True)
+            existing_results = pd.read_json(
+                file,
+                orient=writer_args["orient"],
+                lines=writer_args.get("lines", False),
+                dtype=False,
+                convert_dates=False,
+                precise_float=True,
+            )
+            df = pd.concat(
+                [existing_results.astype(object), df.astype(object)],
+                ignore_index=True,
+            )
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
 
-        df.to_json(file, index=False, **writer_args)
+        _replace_file(file, lambda f: df.to_json(f, **writer_args))
 
     def __len__(self) -> int:
         return self.num_executions()
@@ -1245,6 +1321,8 @@ def execute_workload(
         query_reps=per_query_repetitions, query_prep=query_preparation
     )
 
+    if cfg.output and cfg.output.suffix == ".csv" and cfg.output.is_file():
+        _repair_csv_output(cfg.output, writer_args=cfg.output_args)
     _init_benchmark_log(name, cfg=cfg)
 
     # The overall control flow looks rougly like this:
@@ -1309,6 +1387,11 @@ def prepare_export(results_df: pd.DataFrame) -> pd.DataFrame:
         return results_df
 
     prepared_df = results_df.copy()
+    if "optimization_pipeline" in prepared_df.columns:
+        prepared_df["optimization_pipeline"] = [
+            str(pipeline) if isinstance(pipeline, OptimizationPipeline) else pipeline
+            for pipeline in prepared_df["optimization_pipeline"]
+        ]
 
     example_result = prepared_df.iloc[0]
     for col in example_result.index:
diff --git a/postbound/util/jsonize.py b/postbound/util/jsonize.py
index a631b7d..7f4d728 100644
--- a/postbound/util/jsonize.py
+++ b/postbound/util/jsonize.py
@@ -15,8 +15,10 @@ import dataclasses
 import enum
 import json
 from datetime import date, datetime, time, timedelta
+from decimal import Decimal
 from pathlib import Path
 from typing import IO, Any, Protocol, runtime_checkable
+from uuid import UUID
 
 type jsondict = object
 """Type alias for a JSON-izeable dictionary."""
@@ -49,6 +51,12 @@ class JsonizeEncoder(json.JSONEncoder):
             return o.isoformat()
         elif isinstance(o, timedelta):
             return o.total_seconds()
+        elif isinstance(o, Decimal):
+            return float(o)
+        elif isinstance(o, UUID):
+            return str(o)
+        elif isinstance(o, (bytes, bytearray, memoryview)):
+            return bytes(o).hex()
         elif "__json__" in dir(o):
             return o.__json__()
         elif dataclasses.is_dataclass(o):
-- 
2.43.0


From 3a6645b6a98bf56015f57e98acd9abba778a1368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:50 +0000
Subject: [PATCH 07/74] fix: the experiment log survives crashes, full disks
 and clock jumps

The log was rewritten in place, so dying (or running out of disk space) midway destroyed the entries of all experiments.
Experiments that started at the same wall-clock time overwrote each other's outcome, and an error while updating the log hid
the error that stopped the benchmark.
---
 postbound/bench.py | 77 +++++++++++++++++++++++++++-------------------
 1 file changed, 45 insertions(+), 32 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 68bdd0b..41360d9 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -411,16 +411,33 @@ def _init_benchmark_log(experiment: str, *, cfg: _BenchmarkConfig) -> None:
         }
 
     log_file = out_dir / "experiment_log.json"
-    if not log_file.exists():
-        with open(log_file, "w", encoding="utf-8") as f:
-            util.to_json_dump([log_data], f)
-        return
+    existing_logs: list[dict] = []
+    if log_file.exists():
+        with open(log_file, "r", encoding="utf-8") as f:
+            existing_logs = json.load(f)
+    _write_benchmark_log(log_file, existing_logs + [log_data])
+
+
+def _write_benchmark_log(log_file: Path, entries: list[dict]) -> None:
+    def write(file: Path) -> None:
+        with open(file, "w", encoding="utf-8") as f:
+            util.to_json_dump(entries, f, indent=2)
 
-    with open(log_file, "r+", encoding="utf-8") as f:
+    _replace_file(log_file, write)
+
+
+def _update_benchmark_log(
+    log_file: Path, experiment: str, *, start_time: datetime, **updates
+) -> None:
+    with open(log_file, "r", encoding="utf-8") as f:
         existing_logs = json.load(f)
-        complete_log = existing_logs + [log_data]
-        f.seek(0)
-        util.to_json_dump(complete_log, f, indent=2)
+    for log_entry in reversed(existing_logs):
+        same_experiment = log_entry["experiment"] == experiment
+        same_iteration = log_entry["start_time"] == start_time.isoformat()
+        if same_experiment and same_iteration and log_entry["status"] == "running":
+            log_entry.update(updates)
+            break
+    _write_benchmark_log(log_file, existing_logs)
 
 
 def _finalize_benchmark_log(experiment: str, *, cfg: _BenchmarkConfig) -> None:
@@ -433,17 +450,13 @@ def _finalize_benchmark_log(experiment: str, *, cfg: _BenchmarkConfig) -> None:
             f"Malformed experiment log '{log_file}': start time is missing!"
         )
 
-    with open(log_file, "r+", encoding="utf-8") as f:
-        existing_logs = json.load(f)
-        for log_entry in existing_logs:
-            same_experiment = log_entry["experiment"] == experiment
-            same_iteration = log_entry["start_time"] == cfg.start_time.isoformat()
-            if not same_experiment or not same_iteration:
-                continue
-            log_entry["end_time"] = datetime.now().isoformat()
-            log_entry["status"] = "completed"
-        f.seek(0)
-        json.dump(existing_logs, f, indent=2)
+    _update_benchmark_log(
+        log_file,
+        experiment,
+        start_time=cfg.start_time,
+        end_time=datetime.now().isoformat(),
+        status="completed",
+    )
 
 
 def _failed_benchmark_log(
@@ -458,18 +471,14 @@ def _failed_benchmark_log(
             f"Malformed experiment log '{log_file}': start time is missing!"
         )
 
-    with open(log_file, "r+", encoding="utf-8") as f:
-        existing_logs = json.load(f)
-        for log_entry in existing_logs:
-            same_experiment = log_entry["experiment"] == experiment
-            same_iteration = log_entry["start_time"] == cfg.start_time.isoformat()
-            if not same_experiment or not same_iteration:
-                continue
-            log_entry["end_time"] = datetime.now().isoformat()
-            log_entry["status"] = "failed"
-            log_entry["error"] = {"type": type(error).__name__, "message": str(error)}
-        f.seek(0)
-        json.dump(existing_logs, f, indent=2)
+    _update_benchmark_log(
+        log_file,
+        experiment,
+        start_time=cfg.start_time,
+        end_time=datetime.now().isoformat(),
+        status="failed",
+        error={"type": type(error).__name__, "message": str(error)},
+    )
 
 
 ExecutionTarget = Database | OptimizationPipeline | OptimizationStage
@@ -1349,7 +1358,11 @@ def execute_workload(
             if repetition_callback:
                 repetition_callback(i + 1)
     except Exception as e:
-        _failed_benchmark_log(name, cfg=cfg, error=e)
+        try:
+            _failed_benchmark_log(name, cfg=cfg, error=e)
+        except Exception as log_error:
+            # the original error is the more important one
+            warnings.warn(f"Could not update the experiment log: {log_error}")
         raise e
 
     log.next_workload_iter()  # to finalize progress bars
-- 
2.43.0


From 066a721314b90d1271fc376f839ad9442954eb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:09 +0000
Subject: [PATCH 08/74] fix: progressive JSON and Parquet output keeps earlier
 rows exactly as they are

---
 postbound/bench.py | 45 +++++++++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/postbound/bench.py b/postbound/bench.py
index 41360d9..d512317 100644
--- a/postbound/bench.py
+++ b/postbound/bench.py
@@ -934,6 +934,8 @@ class _ResultSample:
                     _result_as_json
                 )
             df = pd.concat([existing_results, df], ignore_index=True)
+            if df["label"].map(type).nunique() > 1:
+                df["label"] = df["label"].astype(str)
         else:
             file.parent.mkdir(parents=True, exist_ok=True)
 
@@ -957,22 +959,37 @@ class _ResultSample:
 
     def _write_json(self, df: pd.DataFrame, file: Path, *, writer_args: dict) -> None:
         writer_args = {"orient": "records", "date_format": "iso"} | writer_args
-        if file.is_file():
-            existing_results = pd.read_json(
-                file,
-                orient=writer_args["orient"],
-                lines=writer_args.get("lines", False),
-                dtype=False,
-                convert_dates=False,
-                precise_float=True,
-            )
-            df = pd.concat(
-                [existing_results.astype(object), df.astype(object)],
-                ignore_index=True,
-            )
-        else:
+
+        if not file.is_file():
             file.parent.mkdir(parents=True, exist_ok=True)
+            _replace_file(file, lambda f: df.to_json(f, **writer_args))
+            return
 
+        if writer_args["orient"] == "records":
+            # add the new row to the text, such that the existing rows are kept exactly as they are
+            existing = file.read_text(encoding="utf-8").strip()
+            new = df.to_json(**writer_args).strip()
+            if writer_args.get("lines", False):
+                content = f"{existing}\n{new}\n" if existing else f"{new}\n"
+            elif existing.startswith("[") and existing.endswith("]"):
+                rows = [rows for part in (existing, new) if (rows := part[1:-1].strip())]
+                content = f"[{','.join(rows)}]"
+            else:
+                raise ValueError(f"Not a JSON list of results: '{file}'")
+            _replace_file(file, lambda f: f.write_text(content, encoding="utf-8"))
+            return
+
+        existing_results = pd.read_json(
+            file,
+            orient=writer_args["orient"],
+            dtype=False,
+            convert_dates=False,
+            precise_float=True,
+        )
+        df = pd.concat(
+            [existing_results.astype(object), df.astype(object)],
+            ignore_index=True,
+        )
         _replace_file(file, lambda f: df.to_json(f, **writer_args))
 
     def __len__(self) -> int:
-- 
2.43.0


From c5c0bc0031974f043455b424100c6e9b86853cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:43 +0000
Subject: [PATCH 09/74] fix: the query cache file is replaced atomically and
 preserves all values

---
 postbound/db/_db.py | 149 ++++++++++++++++++++++++++++++++++++++------
 1 file changed, 130 insertions(+), 19 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 7199ce8..6b1caab 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -20,9 +20,11 @@ import abc
 import atexit
 import bisect
 import collections
+import decimal
 import json
 import os
 import textwrap
+import uuid
 import warnings
 from collections.abc import Iterable, Iterator, Mapping, Sequence
 from dataclasses import dataclass
@@ -287,6 +289,22 @@ def simplify_result_set(result_set: ResultSet | None) -> Any:
 
 
 class _DBCacheJsonEncoder(json.JSONEncoder):
+    @staticmethod
+    def prepare(o: Any) -> Any:
+        """Converts all values that JSON would silently change (i.e. nested tuples and special dictionaries)."""
+        if isinstance(o, tuple):
+            return {"$tuple": [_DBCacheJsonEncoder.prepare(val) for val in o]}
+        elif isinstance(o, list):
+            return [_DBCacheJsonEncoder.prepare(val) for val in o]
+        elif isinstance(o, dict):
+            items = [(key, _DBCacheJsonEncoder.prepare(val)) for key, val in o.items()]
+            if all(isinstance(key, str) and key[:1] != "$" for key in o):
+                return dict(items)
+            return {
+                "$dict": [[_DBCacheJsonEncoder.prepare(key), val] for key, val in items]
+            }
+        return o
+
     def default(self, o: Any) -> Any:
         if isinstance(o, datetime):
             return {"$datetime": o.isoformat()}
@@ -295,7 +313,13 @@ class _DBCacheJsonEncoder(json.JSONEncoder):
         elif isinstance(o, time):
             return {"$time": o.isoformat()}
         elif isinstance(o, timedelta):
-            return {"$timedelta": o.total_seconds()}
+            return {"$timedelta": [o.days, o.seconds, o.microseconds]}
+        elif isinstance(o, decimal.Decimal):
+            return {"$decimal": str(o)}
+        elif isinstance(o, (bytes, bytearray, memoryview)):
+            return {"$bytes": bytes(o).hex()}
+        elif isinstance(o, uuid.UUID):
+            return {"$uuid": str(o)}
         return super().default(o)
 
 
@@ -315,7 +339,22 @@ class _DBCacheJsonDecoder(json.JSONDecoder):
         elif "$time" in obj:
             return time.fromisoformat(obj["$time"])
         elif "$timedelta" in obj:
-            return timedelta(seconds=obj["$timedelta"])
+            raw_delta = obj["$timedelta"]
+            return (
+                timedelta(*raw_delta)
+                if isinstance(raw_delta, list)
+                else timedelta(seconds=raw_delta)
+            )
+        elif "$decimal" in obj:
+            return decimal.Decimal(obj["$decimal"])
+        elif "$bytes" in obj:
+            return bytes.fromhex(obj["$bytes"])
+        elif "$uuid" in obj:
+            return uuid.UUID(obj["$uuid"])
+        elif "$tuple" in obj:
+            return tuple(obj["$tuple"])
+        elif "$dict" in obj:
+            return {key: val for key, val in obj["$dict"]}
         return obj
 
 
@@ -366,6 +405,8 @@ class Database(abc.ABC):
 
         self._cache_enabled = cache_enabled
         self._query_cache: dict[str, ResultSet] = {}
+        self._cache_inflated = False
+        self._cache_was_reset = False
         if self._cache_enabled:
             self._inflate_query_cache()
         atexit.register(self.close)
@@ -575,6 +616,7 @@ class Database(abc.ABC):
     def reset_cache(self) -> None:
         """Removes all results from the query cache. Useful for debugging purposes."""
         self._query_cache = {}
+        self._cache_was_reset = True
 
     @abc.abstractmethod
     def cursor(self) -> Cursor:
@@ -622,7 +664,7 @@ class Database(abc.ABC):
         enabled : bool
             Whether caching should be enabled
         """
-        if enabled and not self._query_cache:
+        if enabled:
             self._inflate_query_cache()
         self._cache_enabled = enabled
 
@@ -636,41 +678,110 @@ class Database(abc.ABC):
         """Tries to read the query cache for this database.
 
         This reads a JSON file that contains all cached queries and their result sets. It should not be edited
-        manually.
+        manually. The file is only read once.
         """
-        if self._query_cache:
+        if self._cache_inflated:
             return
-        query_cache_name = self._query_cache_name()
+        # the working directory might have changed by the time the cache is stored
+        query_cache_name = os.path.abspath(self._query_cache_name())
+        self._cache_inflated = True
         if os.path.isfile(query_cache_name):
-            with open(query_cache_name, "r") as cache_file:
-                try:
-                    self._query_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
-                except json.JSONDecodeError as e:
-                    warnings.warn(
-                        f"Could not read query cache: {e}",
-                        category=QueryCacheWarning,
-                        stacklevel=4,
-                    )
-                    self._query_cache = {}
+            try:
+                stored_results = self._read_query_cache(query_cache_name)
+            except (OSError, ValueError) as e:
+                warnings.warn(
+                    f"Could not read query cache: {e}",
+                    category=QueryCacheWarning,
+                    stacklevel=4,
+                )
+                stored_results = {}
         else:
             warnings.warn(
                 f"Could not read query cache: File {query_cache_name} does not exist",
                 category=QueryCacheWarning,
                 stacklevel=4,
             )
-            self._query_cache = {}
+            stored_results = {}
+        if not self._cache_was_reset:
+            self._query_cache = stored_results | self._query_cache
         atexit.register(self._store_query_cache, query_cache_name)
 
+    def _read_query_cache(self, query_cache_name: str) -> dict[str, ResultSet]:
+        """Loads all queries and result sets from a cache file.
+
+        Parameters
+        ----------
+        query_cache_name : str
+            The path to the cache file.
+
+        Returns
+        -------
+        dict[str, ResultSet]
+            The contents of the cache file
+
+        Raises
+        ------
+        OSError
+            If the file cannot be read
+        ValueError
+            If the file does not contain a valid query cache
+        """
+        with open(query_cache_name, "r") as cache_file:
+            try:
+                raw_cache = json.load(cache_file, cls=_DBCacheJsonDecoder)
+                # JSON has no tuples, hence we need to restore the rows of the result sets
+                return {
+                    query: None if rows is None else [tuple(row) for row in rows]
+                    for query, rows in raw_cache.items()
+                }
+            except (AttributeError, TypeError, ArithmeticError, RecursionError) as e:
+                raise ValueError(f"Malformed query cache: {e}") from e
+
     def _store_query_cache(self, query_cache_name: str) -> None:
         """Stores the query cache into a JSON file.
 
+        The file is replaced as a whole. If anything goes wrong, the former contents are left as they are. Results that have
+        been added to the file in the meantime (e.g. by another connection to the same database) are retained.
+
         Parameters
         ----------
         query_cache_name : str
             The path where to write the file to. If it exists, it will be overwritten.
         """
-        with open(query_cache_name, "w") as cache_file:
-            json.dump(self._query_cache, cache_file, cls=_DBCacheJsonEncoder)
+        contents = self._query_cache
+        if not self._cache_was_reset:
+            try:
+                contents = self._read_query_cache(query_cache_name) | contents
+            except (OSError, ValueError):
+                pass
+
+        encoder = _DBCacheJsonEncoder()
+        entries: list[str] = []
+        for query, rows in contents.items():
+            if rows is not None:
+                rows = [[encoder.prepare(val) for val in row] for row in rows]
+            try:
+                entries.append(f"{encoder.encode(query)}: {encoder.encode(rows)}")
+            except (TypeError, ValueError) as e:
+                warnings.warn(
+                    f"Could not store result set in query cache: {e}",
+                    category=QueryCacheWarning,
+                    stacklevel=2,
+                )
+
+        temp_name = f"{query_cache_name}.{os.getpid()}.tmp"
+        try:
+            with open(temp_name, "w") as cache_file:
+                cache_file.write("{" + ", ".join(entries) + "}")
+            os.replace(temp_name, query_cache_name)
+        except OSError as e:
+            if os.path.exists(temp_name):
+                os.remove(temp_name)
+            warnings.warn(
+                f"Could not store query cache: {e}",
+                category=QueryCacheWarning,
+                stacklevel=2,
+            )
 
     def _query_cache_name(self) -> str:
         """Provides a normalized file name for the query cache.
-- 
2.43.0


From c6f8dfcc97fada85641e17fbc225c3d4cf14d8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:50 +0000
Subject: [PATCH 10/74] fix: cached results equal live results in every
 execution mode

---
 postbound/db/_db.py   | 32 ++++++++++++++++++++++++++++++++
 postbound/duckdb.py   | 11 ++++++-----
 postbound/mysql.py    | 10 +++++-----
 postbound/postgres.py | 32 +++++++++++++++++++++-----------
 4 files changed, 64 insertions(+), 21 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 6b1caab..72e24e7 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -20,6 +20,7 @@ import abc
 import atexit
 import bisect
 import collections
+import copy
 import decimal
 import json
 import os
@@ -674,6 +675,37 @@ class Database(abc.ABC):
     If caching should be enabled later on and no cached data exists, the cache will be inflated from disk.
     """
 
+    def _lookup_cached_result(self, query: str) -> tuple[bool, Optional[ResultSet]]:
+        """Provides the cached result set of a query.
+
+        Parameters
+        ----------
+        query : str
+            The query, exactly as it is sent to the database server
+
+        Returns
+        -------
+        tuple[bool, Optional[ResultSet]]
+            Whether the result is contained in the cache, along with the result itself. The result can be modified freely.
+        """
+        self._inflate_query_cache()
+        if query not in self._query_cache:
+            return False, None
+        return True, copy.deepcopy(self._query_cache[query])
+
+    def _cache_result(self, query: str, result_set: Optional[ResultSet]) -> None:
+        """Adds a result set to the cache. Later modifications of the result set do not affect the cache.
+
+        Parameters
+        ----------
+        query : str
+            The query, exactly as it was sent to the database server
+        result_set : Optional[ResultSet]
+            The (raw) result set of the query
+        """
+        self._inflate_query_cache()
+        self._query_cache[query] = copy.deepcopy(result_set)
+
     def _inflate_query_cache(self) -> None:
         """Tries to read the query cache for this database.
 
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index e46a99d..f020141 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -64,8 +64,6 @@ class DuckDBInterface(Database):
         system_name: str = "DuckDB",
         cache_enabled: bool = False,
     ) -> None:
-        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
-
         self._dbfile = db
 
         self._cur = quacklab.connect(db)
@@ -78,6 +76,8 @@ class DuckDBInterface(Database):
 
         self._timeout_executor = concurrent.futures.ThreadPoolExecutor(max_workers=1)
 
+        super().__init__(system_name=system_name, cache_enabled=cache_enabled)
+
     def schema(self) -> DuckDBSchema:
         return self._schema
 
@@ -111,9 +111,10 @@ class DuckDBInterface(Database):
         elif isinstance(query, UserString):
             query = str(query)
 
+        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         if cache_enabled:
-            cached_res = self._query_cache.get(query)
-            if cached_res is not None:
+            cached, cached_res = self._lookup_cached_result(query)
+            if cached:
                 return cached_res if raw else simplify_result_set(cached_res)
 
         if timeout is not None:
@@ -131,7 +132,7 @@ class DuckDBInterface(Database):
             ) / 10**9  # convert to seconds
 
         if cache_enabled:
-            self._query_cache[query] = raw_result
+            self._cache_result(query, raw_result)
 
         return raw_result if raw else simplify_result_set(raw_result)
 
diff --git a/postbound/mysql.py b/postbound/mysql.py
index acba9c2..37bac89 100644
--- a/postbound/mysql.py
+++ b/postbound/mysql.py
@@ -173,14 +173,14 @@ class MysqlInterface(Database):
         cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         query = self._prepare_query_execution(query)
 
-        if cache_enabled and query in self._query_cache:
-            query_result = self._query_cache[query]
-        else:
+        cached, query_result = (
+            self._lookup_cached_result(query) if cache_enabled else (False, None)
+        )
+        if not cached:
             self._cur.execute(query)
             query_result = self._cur.fetchall()
             if cache_enabled:
-                self._inflate_query_cache()
-                self._query_cache[query] = query_result
+                self._cache_result(query, query_result)
 
         if raw:
             return query_result
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 4780bdf..fb610bf 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -730,9 +730,10 @@ class PostgresInterface(Database):
             query = _apply_preparatory_statements(query, cur=self._cursor)
             query = self._hinting_backend.format_query(query)
 
-        if cache_enabled and query in self._query_cache:
-            query_result = self._query_cache[query]
-            return query_result if raw else simplify_result_set(query_result)
+        if cache_enabled:
+            cached, query_result = self._lookup_cached_result(query)
+            if cached:
+                return query_result if raw else simplify_result_set(query_result)
 
         try:
             start_time = time.perf_counter_ns()
@@ -746,8 +747,7 @@ class PostgresInterface(Database):
                 self._cursor.fetchall() if self._cursor.rowcount >= 0 else None
             )
             if cache_enabled:
-                self._inflate_query_cache()
-                self._query_cache[query] = query_result
+                self._cache_result(query, query_result)
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
                 [
@@ -3787,12 +3787,15 @@ class TimeoutQueryExecutor:
         PostgresInterface.execute_query
         PostgresInterface.reset_connection
         """
-        cached_query: bool = (
-            kwargs.get("cache_enabled", False)
-            and query in self._pg_instance._query_cache
-        )
-        if cached_query:
-            return self._pg_instance._query_cache[str(query)]
+        cache_enabled = kwargs.get("cache_enabled", False)
+        if cache_enabled or (cache_enabled is None and self._pg_instance.cache_enabled):
+            cached, cached_result = self._pg_instance._lookup_cached_result(
+                self._normalize_query(query)
+            )
+            if cached and kwargs.get("raw", False):
+                return cached_result
+            elif cached:
+                return simplify_result_set(cached_result)
 
         self._pg_instance._last_query_runtime = math.nan
         self._init_watchdog()
@@ -3885,6 +3888,13 @@ class TimeoutQueryExecutor:
             self._timeout_watchdog.close()
             self._timeout_watchdog = None
 
+    def _normalize_query(self, query: SqlQuery | str) -> str:
+        """Provides the text under which the result of a query is cached by `PostgresInterface.execute_query`."""
+        if not isinstance(query, SqlQuery):
+            return str(query)
+        query = transform.drop_hints(query, preparatory_statements_only=True)
+        return self._pg_instance.hinting().format_query(query)
+
     def _pg_fingerprint(self) -> dict:
         """Generate a pickable representation of the current Postgres connection."""
         return {
-- 
2.43.0


From b716befcd2eef59173bfb7ff9ff0988ccd2ddd88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:58 +0000
Subject: [PATCH 11/74] fix: every failure of a query is classified and
 resetting always closes the old connection

---
 postbound/postgres.py | 64 ++++++++++++++++++++++++-------------------
 1 file changed, 36 insertions(+), 28 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index fb610bf..f719026 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -714,28 +714,30 @@ class PostgresInterface(Database):
             plan_parameters=plan_parameters,
         )
 
-        if timeout is not None and timeout > 0:
-            return self._timeout_executor.execute_query(
-                query, timeout=timeout, cache_enabled=cache_enabled, raw=raw
+        try:
+            if timeout is not None and timeout > 0:
+                return self._timeout_executor.execute_query(
+                    query, timeout=timeout, cache_enabled=cache_enabled, raw=raw
+                )
+
+            cache_enabled = cache_enabled or (
+                cache_enabled is None and self._cache_enabled
             )
+            if isinstance(query, UserString):
+                query = str(query)
+            elif isinstance(query, SqlQuery):
+                # If there are any preparatory statements we must execute them now. If we would simply include them in the
+                # query, psycopg would use the first statement to determine the result type of the entire query. If this were a
+                # SET statement, no results could be fetched. _apply_preparatory_statements takes care of these and gives a
+                # cleaned-up query to execute.
+                query = _apply_preparatory_statements(query, cur=self._cursor)
+                query = self._hinting_backend.format_query(query)
 
-        cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
-        if isinstance(query, UserString):
-            query = str(query)
-        elif isinstance(query, SqlQuery):
-            # If there are any preparatory statements we must execute them now. If we would simply include them in the query,
-            # psycopg would use the first statement to determine the result type of the entire query. If this were a SET
-            # statement, no results could be fetched. _apply_preparatory_statements takes care of these and gives a cleaned-up
-            # query to execute.
-            query = _apply_preparatory_statements(query, cur=self._cursor)
-            query = self._hinting_backend.format_query(query)
-
-        if cache_enabled:
-            cached, query_result = self._lookup_cached_result(query)
-            if cached:
-                return query_result if raw else simplify_result_set(query_result)
+            if cache_enabled:
+                cached, query_result = self._lookup_cached_result(query)
+                if cached:
+                    return query_result if raw else simplify_result_set(query_result)
 
-        try:
             start_time = time.perf_counter_ns()
             self._cursor.execute(query)  # type: ignore
             end_time = time.perf_counter_ns()
@@ -744,7 +746,9 @@ class PostgresInterface(Database):
             ) / 10**9  # convert to seconds
 
             query_result = (
-                self._cursor.fetchall() if self._cursor.rowcount >= 0 else None
+                self._cursor.fetchall()
+                if self._cursor.description is not None
+                else None
             )
             if cache_enabled:
                 self._cache_result(query, query_result)
@@ -889,13 +893,17 @@ class PostgresInterface(Database):
         return base_info
 
     def reset_connection(self) -> int:
-        try:
-            self._timeout_executor.close()
-            self._connection.cancel()
-            self._cursor.close()
-            self._connection.close()
-        except psycopg.Error:
-            pass
+        for cleanup in (
+            self._timeout_executor.close,
+            self._connection.cancel,
+            self._cursor.close,
+            self._connection.close,
+        ):
+            # the connection has to be closed even if (for example) its current query can no longer be cancelled
+            try:
+                cleanup()
+            except psycopg.Error:
+                pass
         return self._init_connection()
 
     def cursor(self) -> psycopg.Cursor:
@@ -3715,7 +3723,7 @@ def _timeout_query_worker(
         runtime = (end_time - start_time) / 10**9
         pg_instance._last_query_runtime = runtime
 
-        raw_result_set = cursor.fetchall()
+        raw_result_set = cursor.fetchall() if cursor.description is not None else None
         if kwargs.get("raw", False):
             result = raw_result_set
         else:
-- 
2.43.0


From 11a05eaed72d5bfe7b8b3251c24309181ece0254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:06 +0000
Subject: [PATCH 12/74] fix: EXPLAIN ANALYZE plans of DuckDB can be parsed

---
 postbound/duckdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index f020141..8709e57 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -629,8 +629,9 @@ class DuckDBOptimizer(OptimizerInterface):
         assert len(result_set) == 2
 
         raw_explain = result_set[1]
+        # in contrast to plain EXPLAIN plans, ANALYZE plans are not wrapped in a list
         parsed = json.loads(raw_explain)
-        return parse_duckdb_plan(parsed[0], query=query)
+        return parse_duckdb_plan(parsed, query=query)
 
     def parse_plan(self, plan: Any, *, query: Optional[SqlQuery] = None) -> QueryPlan:
         # Similar to the Postgres implementation of parse_plan(), we try to be gracefull
-- 
2.43.0


From 5fb7195b73d85bd420af8bae7661867b389d42c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:12 +0000
Subject: [PATCH 13/74] fix: system settings are valid preparatory statements
 on DuckDB

---
 postbound/duckdb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 8709e57..817ccc5 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -900,7 +900,7 @@ class DuckDBHintService(HintService):
             else:
                 val_txt = str(val)
 
-            global_settings.append(f"{param} = {val_txt};")
+            global_settings.append(f"SET {param} = {val_txt};")
 
         return HintParts(global_settings, hints)
 
-- 
2.43.0


From e86206a88c03dcb276fb1d6b05ff93d49ff19580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 14/74] fix: DuckDB timeouts cover the entire query and always
 interrupt it

---
 postbound/duckdb.py | 84 ++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 39 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 817ccc5..06f78f2 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -8,7 +8,6 @@ import math
 import textwrap
 import time
 import warnings
-from collections import UserString
 from collections.abc import Iterable, Sequence
 from dataclasses import dataclass
 from pathlib import Path
@@ -98,18 +97,7 @@ class DuckDBInterface(Database):
         raw: bool = False,
         timeout: Optional[float] = None,
     ) -> Any:
-        if (
-            isinstance(query, SqlQuery)
-            and query.hints
-            and query.hints.preparatory_statements
-        ):
-            for preparatory_statement in query.hints.preparatory_statements:
-                self._cur.execute(preparatory_statement)
-            query = transform.drop_hints(query, preparatory_statements_only=True)
-        if isinstance(query, SqlQuery):
-            query = self._hinting.format_query(query)
-        elif isinstance(query, UserString):
-            query = str(query)
+        query = self._prepare_query_execution(query)
 
         cache_enabled = cache_enabled or (cache_enabled is None and self._cache_enabled)
         if cache_enabled:
@@ -118,18 +106,11 @@ class DuckDBInterface(Database):
                 return cached_res if raw else simplify_result_set(cached_res)
 
         if timeout is not None:
-            raw_result = self.execute_with_timeout(query, timeout=timeout)
+            raw_result = self._execute_with_interrupt(query, timeout=timeout)
             if raw_result is None:
                 raise TimeoutError(query)
         else:
-            start_time = time.perf_counter_ns()
-            self._cur.execute(query)
-            end_time = time.perf_counter_ns()
-
-            raw_result = self._cur.fetchall()
-            self._last_query_runtime = (
-                end_time - start_time
-            ) / 10**9  # convert to seconds
+            raw_result = self._execute_and_measure(query)
 
         if cache_enabled:
             self._cache_result(query, raw_result)
@@ -139,22 +120,8 @@ class DuckDBInterface(Database):
     def execute_with_timeout(
         self, query: SqlQuery | str, *, timeout: float = 60.0
     ) -> Optional[ResultSet]:
-        if isinstance(query, SqlQuery):
-            query = self._hinting.format_query(query)
-
-        promise = self._timeout_executor.submit(self._execute_worker, query)
-        try:
-            promise.result(timeout=timeout)
-            result_set = self._cur.fetchall()
-            return result_set
-        except concurrent.futures.TimeoutError:
-            self._cur.interrupt()
-            promise.result()
-
-            # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
-            # the runtime itself. This way we overwrite any measurement that the worker might have produced.
-            self._last_query_runtime = math.inf
-            return None
+        query = self._prepare_query_execution(query)
+        return self._execute_with_interrupt(query, timeout=timeout)
 
     def last_query_runtime(self) -> float:
         return self._last_query_runtime
@@ -228,11 +195,50 @@ class DuckDBInterface(Database):
         base_info["schema_info"] = schema_info
         return base_info
 
-    def _execute_worker(self, query: str) -> None:
+    def _prepare_query_execution(self, query: SqlQuery | str) -> str:
+        """Applies all preparatory statements of the query and provides the text of the actual query."""
+        if (
+            isinstance(query, SqlQuery)
+            and query.hints
+            and query.hints.preparatory_statements
+        ):
+            self._cur.execute(query.hints.preparatory_statements)
+            query = transform.drop_hints(query, preparatory_statements_only=True)
+        if isinstance(query, SqlQuery):
+            return self._hinting.format_query(query)
+        return str(query)
+
+    def _execute_with_interrupt(
+        self, query: str, *, timeout: float
+    ) -> Optional[ResultSet]:
+        """Executes a query, but interrupts it once the timeout (in seconds) is exceeded. In this case, *None* is returned."""
+        promise = self._timeout_executor.submit(self._execute_and_measure, query)
+        concurrent.futures.wait([promise], timeout=timeout)
+        if promise.done():
+            return promise.result()
+
+        while not promise.done():
+            # DuckDB ignores interrupts if the worker did not begin to execute the query, yet. Therefore, we need to retry.
+            self._cur.interrupt()
+            concurrent.futures.wait([promise], timeout=0.05)
+
+        # Make sure to update the last query runtime just now, the worker might terminate while we try to cancel and update
+        # the runtime itself. This way we overwrite any measurement that the worker might have produced.
+        self._last_query_runtime = math.inf
+        return None
+
+    def _execute_and_measure(self, query: str) -> ResultSet:
+        """Executes a query and updates the last query runtime.
+
+        DuckDB computes large parts of the result set while it is being fetched. Therefore, fetching is part of the execution.
+        """
+        self._last_query_runtime = math.nan
         start_time = time.perf_counter_ns()
         self._cur.execute(query)
+        result_set = self._cur.fetchall()
         end_time = time.perf_counter_ns()
         self._last_query_runtime = (end_time - start_time) / 10**9  # convert to seconds
+        return result_set
 
 
 class DuckDBSchema(DatabaseSchema):
-- 
2.43.0


From c2d245b1d8708a1fd8e9b80c9023eb30d15aca7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:56 +0000
Subject: [PATCH 15/74] fix: workloads keep every readable query under its own
 label

---
 postbound/workloads.py | 42 ++++++++++++++++++++++--------------------
 1 file changed, 22 insertions(+), 20 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index 01eb024..a168c22 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -194,8 +194,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
 
         for query_file_path in matching_files:
             with open(query_file_path, "r", encoding=file_encoding) as query_file:
-                raw_contents = query_file.readlines()
-            query_contents = "\n".join([line for line in raw_contents])
+                query_contents = query_file.read()
 
             try:
                 parsed_query = parser.parse_query(
@@ -215,6 +214,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
                         )
                     case "ignore":
                         pass
+                continue
 
             query_label = query_file_path.stem
             queries[label_prefix + query_label] = parsed_query
@@ -714,8 +714,7 @@ def read_workload(
 
     for query_file_path in matching_files:
         with open(query_file_path, "r", encoding=file_encoding) as query_file:
-            raw_contents = query_file.readlines()
-        query_contents = "\n".join([line for line in raw_contents])
+            query_contents = query_file.read()
 
         try:
             parsed_query = parser.parse_query(
@@ -733,8 +732,9 @@ def read_workload(
                     )
                 case "ignore":
                     pass
+            continue
 
-        query_label = query_file_path.stem
+        query_label = query_label_prefix + query_file_path.stem
         queries[query_label] = parsed_query
 
     base_workload = Workload(queries, name=name, root=root)
@@ -749,12 +749,13 @@ def read_workload(
             if query_label_prefix and not query_label_prefix.endswith("/")
             else query_label_prefix
         )
-        subdir_prefix += subdir.stem + "/"
+        subdir_prefix += subdir.name + "/"
         subdir_workload = read_workload(
             subdir,
             query_file_pattern=query_file_pattern,
             recurse_subdirectories=True,
             query_label_prefix=subdir_prefix,
+            file_encoding=file_encoding,
             bind_columns=bind_columns,
             include_hints=include_hints,
             on_error=on_error,
@@ -794,7 +795,7 @@ def read_batch_workload(
     name = name if name else filepath.stem
     with open(filename, "r", encoding=file_encoding) as query_file:
         raw_queries = query_file.readlines()
-        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw]
+        parsed_queries = [parser.parse_query(raw) for raw in raw_queries if raw.strip()]
         return generate_workload(parsed_queries, name=name, workload_root=filepath)
 
 
@@ -855,24 +856,26 @@ def read_csv_workload(
     else:
         pd_args = {}
 
+    converters = {query_column: parser.parse_query}
+    if label_column:
+        # labels have to be used as-is, e.g. "01" is not a number and "NA" is not a missing value
+        converters[label_column] = str
+
     workload_df = pd.read_csv(
         filepath,
         usecols=columns,
-        converters={query_column: parser.parse_query},
+        converters=converters,
         encoding=file_encoding,
         **pd_args,
     )
 
     queries = workload_df[query_column].tolist()
-    if label_column:
-        labels = workload_df[label_column].tolist()
-        label_provider = dict(zip(queries, labels))
-    else:
-        label_provider = None
+    if not label_column:
+        return generate_workload(queries, name=name, workload_root=filepath)
 
-    return generate_workload(
-        queries, name=name, labels=label_provider, workload_root=filepath
-    )
+    # We cannot use generate_workload here, because the same query might be contained under multiple labels
+    labels = workload_df[label_column].tolist()
+    return Workload(dict(zip(labels, queries)), name, filepath)
 
 
 def generate_workload(
@@ -914,10 +917,9 @@ def generate_workload(
     )
     name = name if name else (workload_root.stem if workload_root else "")
     if not labels:
-        labels: dict[SqlQuery, int] = {
-            query: idx + 1 for idx, query in enumerate(queries)
-        }
-    workload_contents = util.dicts.invert(labels)
+        workload_contents = {idx + 1: query for idx, query in enumerate(queries)}
+    else:
+        workload_contents = util.dicts.invert(labels)
     return Workload(workload_contents, name, workload_root)
 
 
-- 
2.43.0


From 4aeba7b037d310ca49fc473140e634a504ccbdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 16/74] fix: last(0) yields an empty workload

---
 postbound/workloads.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index a168c22..dac99de 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -378,7 +378,7 @@ class Workload(UserDict[LabelType, SqlQuery]):
         Workload[LabelType]
             A workload consisting of the last `n` queries of the current workload
         """
-        last_n_labels = self._sorted_labels[-n:]
+        last_n_labels = self._sorted_labels[-n:] if n else []
         sub_workload = {label: self.data[label] for label in last_n_labels}
         return Workload(sub_workload, self._name, self._root)
 
-- 
2.43.0


From 7a9fcd5ca1144a59b6491c3b97839584f2cea5f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:11 +0000
Subject: [PATCH 17/74] fix: interrupted workload downloads are not mistaken
 for complete workloads

---
 postbound/workloads.py | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/postbound/workloads.py b/postbound/workloads.py
index dac99de..e2e864a 100644
--- a/postbound/workloads.py
+++ b/postbound/workloads.py
@@ -24,6 +24,7 @@ from __future__ import annotations
 
 import random
 import shutil
+import tempfile
 import typing
 import urllib.request
 import warnings
@@ -58,27 +59,40 @@ def _fetch_workload(name: str) -> Path:
     workload_dir = pbdir / "workloads" / name
     if workload_dir.exists():
         return workload_dir
-    workload_dir.mkdir(parents=True, exist_ok=True)
 
     archive_url = _WorkloadSources.get(name)
     if not archive_url:
+        workload_dir.mkdir(parents=True, exist_ok=True)
         raise ValueError(
             f"Could not automatically load queries for workload '{name}': no known data source. "
             f"Please insert the queries manually at {workload_dir} and re-run the operation."
         )
 
-    archive_file = workload_dir.parent / f"{name}.zip"
-    urllib.request.urlretrieve(archive_url, archive_file)
+    # The workload is prepared in a temporary directory and only moved to its final place once it is complete. Otherwise, an
+    # interrupted download would be mistaken for the entire workload later on.
+    workload_dir.parent.mkdir(parents=True, exist_ok=True)
+    with tempfile.TemporaryDirectory(
+        dir=workload_dir.parent, prefix=f".{name}-", ignore_cleanup_errors=True
+    ) as download_dir:
+        archive_file = Path(download_dir) / f"{name}.zip"
+        urllib.request.urlretrieve(archive_url, archive_file)
 
-    with zipfile.ZipFile(archive_file, "r") as zip:
-        zip.extractall(workload_dir)
+        contents_dir = Path(download_dir) / "contents"
+        with zipfile.ZipFile(archive_file, "r") as zip:
+            zip.extractall(contents_dir)
 
-    temp_dir = workload_dir / name
-    for file in temp_dir.iterdir():
-        shutil.move(file, workload_dir)
-    temp_dir.rmdir()
+        temp_dir = contents_dir / name
+        for file in temp_dir.iterdir():
+            shutil.move(file, contents_dir)
+        temp_dir.rmdir()
+
+        try:
+            contents_dir.rename(workload_dir)
+        except OSError:
+            if not workload_dir.exists():
+                raise
+            # another process was faster
 
-    archive_file.unlink()
     return workload_dir
 
 
-- 
2.43.0


From 0933f02c7a9c433fda084386dea9e409945e75d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:18 +0000
Subject: [PATCH 18/74] fix: AtomicInt operations do not deadlock on their own
 lock

---
 postbound/util/num.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/postbound/util/num.py b/postbound/util/num.py
index 49ac513..9f60f9f 100644
--- a/postbound/util/num.py
+++ b/postbound/util/num.py
@@ -21,10 +21,11 @@ class AtomicInt(numbers.Integral):
     """An atomic int allows for multi-threaded access to the integer value."""
 
     def __init__(self, value: int = 0):
-        self._value = value
+        self._value = self._unwrap_atomic(value)
         self._lock = threading.Lock()
 
     def increment(self, by: int = 1) -> None:
+        by = self._unwrap_atomic(by)
         with self._lock:
             self._value += by
 
@@ -37,6 +38,7 @@ class AtomicInt(numbers.Integral):
             return self._value
 
     def _set_value(self, value: int) -> None:
+        value = self._unwrap_atomic(value)
         with self._lock:
             self._value = value
 
@@ -129,9 +131,10 @@ class AtomicInt(numbers.Integral):
 
     def __pos__(self) -> Any:
         with self._lock:
-            return +self.value
+            return +self._value
 
     def __pow__(self, exponent: Any, modulus: Any | None = ...) -> AtomicInt:
+        exponent = self._unwrap_atomic(exponent)
         with self._lock:
             res = self._value**exponent
             if res != int(res):
@@ -148,7 +151,7 @@ class AtomicInt(numbers.Integral):
     def __rand__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
         with self._lock:
-            return other + self._value
+            return other & self._value
 
     def __rfloordiv__(self, other: Any) -> Any:
         other = self._unwrap_atomic(other)
-- 
2.43.0


From aef202ff68da9af57f815346654ff28408d2e86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:25 +0000
Subject: [PATCH 19/74] fix: run_cmd does not change the working directory of
 the process

---
 postbound/util/proc.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/postbound/util/proc.py b/postbound/util/proc.py
index d88e560..9229d76 100644
--- a/postbound/util/proc.py
+++ b/postbound/util/proc.py
@@ -68,7 +68,7 @@ def run_cmd(
 ) -> ProcResult:
     """Executes an arbitrary external command.
 
-    The command can be executed in an different working directory. After execution the working directory is restored.
+    The command can be executed in an different working directory. This does not affect the current working directory.
 
     This function delegates to `subprocess.run`. Therefore, most arguments accepted by this function follow the same rules
     as the `run` function.
@@ -79,8 +79,8 @@ def run_cmd(
         The program to execute. Can be either a single invocation, or a list of the program name and its arguments.
     work_dir : Optional[str  |  pathlib.Path], optional
         The working directory where the process should be executed. If `None`, the current working directory is used.
-        Otherwise, the current working directory is changed to the desired directory for the duration of the process execution
-        and restored afterwards.
+        Otherwise, the process is executed in the desired directory. The working directory of the calling process does not
+        change.
     *args
         Additional arguments to be passed to the command.
     **kwargs
@@ -93,15 +93,16 @@ def run_cmd(
         other hand, if the command cannot be executed at all (e.g. because it is not found or the user does not have the
         required permissions), an error is raised.
     """
-    work_dir = os.getcwd() if work_dir is None else str(work_dir)
-    current_dir = os.getcwd()
+    if work_dir is not None:
+        # We must not change the working directory of our own process: it would not be restored if the command cannot be
+        # executed and it is shared with all other threads.
+        kwargs["cwd"] = os.path.join(work_dir, kwargs.get("cwd") or "")
 
     if isinstance(cmd, Iterable) and not isinstance(cmd, str):
-        cmd, args = str(cmd[0]), cmd[1:] + list(args)
+        cmd, *cmd_args = cmd
+        cmd, args = str(cmd), cmd_args + list(args)
     invocation = [cmd] + [str(arg) for arg in args]
 
-    os.chdir(work_dir)
     res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
-    os.chdir(current_dir)
 
     return ProcResult(res.stdout, res.stderr, res.returncode)
-- 
2.43.0


From 68f04e51743d5491d32ab9112a17ba7fc51eb627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:33 +0000
Subject: [PATCH 20/74] fix: sub-queries and bound tables of explicit joins are
 collected from both sides

---
 postbound/qal/_qal.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2299ebf..2bd946d 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -8104,11 +8104,8 @@ def _collect_subqueries_in_table_source(table_source: TableSource) -> set[SqlQue
     if isinstance(table_source, SubqueryTableSource):
         return {table_source.query}
     elif isinstance(table_source, JoinTableSource):
-        source_subqueries = _collect_subqueries_in_table_source(table_source.source)
-        nested_subqueries = util.set_union(
-            _collect_subqueries_in_table_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        source_subqueries = _collect_subqueries_in_table_source(table_source.left)
+        nested_subqueries = _collect_subqueries_in_table_source(table_source.right)
         condition_subqueries = (
             util.set_union(
                 collect_subqueries_in_expression(cond_expr)
@@ -8225,11 +8222,8 @@ def _collect_bound_tables_from_source(table_source: TableSource) -> set[TableRef
     elif isinstance(table_source, SubqueryTableSource):
         return _collect_bound_tables(table_source.query.from_clause)
     elif isinstance(table_source, JoinTableSource):
-        direct_tables = _collect_bound_tables_from_source(table_source.source)
-        nested_tables = util.set_union(
-            _collect_bound_tables_from_source(nested_join)
-            for nested_join in table_source.joined_table
-        )
+        direct_tables = _collect_bound_tables_from_source(table_source.left)
+        nested_tables = _collect_bound_tables_from_source(table_source.right)
         return direct_tables | nested_tables
 
 
-- 
2.43.0


From b892bcbfd5c939df30cb54e5753cf3440129d0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:39 +0000
Subject: [PATCH 21/74] fix: plans built from operator assignments keep
 operators, tables and predicates

---
 postbound/_hints.py       |  4 ++--
 postbound/opt/_helpers.py | 41 +++++++++++++++++++++++++++++----------
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index a78e5fe..dc4660f 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -459,7 +459,7 @@ class PhysicalOperatorAssignment:
 
         intermediate_set = frozenset(intermediate)
         return (
-            self.scan_operators.get(intermediate)
+            self.scan_operators.get(util.simplify(intermediate_set), default)
             if len(intermediate_set) == 1
             else self.join_operators.get(intermediate_set, default)
         )
@@ -555,7 +555,7 @@ class PhysicalOperatorAssignment:
 
         items = frozenset(item)
         return (
-            item in self.scan_operators
+            util.simplify(items) in self.scan_operators
             if len(items) == 1
             else items in self.join_operators
         )
diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index ef3df24..dfc1e11 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -347,11 +347,17 @@ def _make_simple_plan(
         operator = scan_op
         children = []
 
+    base_table = join_tree.base_table if join_tree.is_scan() else None
     if query is None:
-        return QueryPlan(operator, children=children, estimated_cardinality=cardinality)
+        return QueryPlan(
+            operator,
+            children=children,
+            base_table=base_table,
+            estimated_cardinality=cardinality,
+        )
 
     predicates = query.predicates()
-    filter_condition = (
+    filter_predicate = (
         predicates.joins_between(
             join_tree.outer_child.tables(), join_tree.inner_child.tables()
         )
@@ -361,8 +367,9 @@ def _make_simple_plan(
     return QueryPlan(
         operator,
         children=children,
+        base_table=base_table,
         estimated_cardinality=cardinality,
-        filter_condition=filter_condition,
+        filter_predicate=filter_predicate,
     )
 
 
@@ -395,7 +402,8 @@ def _make_custom_plan(
         plan_params.parallel_workers.get(tables, None) if plan_params else None
     )
 
-    operator = physical_ops.get(tables)
+    assignment = physical_ops.get(tables)
+    operator = assignment.operator if assignment else None
     if not operator and len(tables) == 1:
         operator = fallback_scan_op
     elif not operator and len(tables) > 1:
@@ -404,26 +412,38 @@ def _make_custom_plan(
         raise ValueError("No operator assignment found for join: " + str(tables))
 
     if join_tree.is_join():
-        outer_plan = _make_simple_plan(
-            join_tree.outer_child, physical_ops=physical_ops, plan_params=plan_params
+        outer_plan = _make_custom_plan(
+            join_tree.outer_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
-        inner_plan = _make_simple_plan(
-            join_tree.inner_child, physical_ops=physical_ops, plan_params=plan_params
+        inner_plan = _make_custom_plan(
+            join_tree.inner_child,
+            physical_ops=physical_ops,
+            query=query,
+            plan_params=plan_params,
+            fallback_scan_op=fallback_scan_op,
+            fallback_join_op=fallback_join_op,
         )
         children = (outer_plan, inner_plan)
     else:
         children = []
 
+    base_table = join_tree.base_table if join_tree.is_scan() else None
     if query is None:
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
             parallel_workers=par_workers,
         )
     else:
         predicates = query.predicates()
-        filter_condition = (
+        filter_predicate = (
             predicates.joins_between(
                 join_tree.outer_child.tables(), join_tree.inner_child.tables()
             )
@@ -433,8 +453,9 @@ def _make_custom_plan(
         plan = QueryPlan(
             operator,
             children=children,
+            base_table=base_table,
             estimated_cardinality=cardinality,
-            filter_condition=filter_condition,
+            filter_predicate=filter_predicate,
             parallel_workers=par_workers,
         )
 
-- 
2.43.0


From 5a596c34080278a6b689a18e17c2b0579e00d449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:47 +0000
Subject: [PATCH 22/74] fix: random plans and enumerations cover tables without
 join predicates

---
 postbound/opt/enumeration.py | 28 +++++++++++++++++-----------
 postbound/opt/randomized.py  | 18 ++++++++++++------
 postbound/validation.py      | 22 +++++++++++++++++++++-
 3 files changed, 50 insertions(+), 18 deletions(-)

diff --git a/postbound/opt/enumeration.py b/postbound/opt/enumeration.py
index 1b56dec..869497d 100644
--- a/postbound/opt/enumeration.py
+++ b/postbound/opt/enumeration.py
@@ -23,6 +23,7 @@ from .._qep import QueryPlan
 from ..db import Database, DatabasePool
 from ..qal import SqlQuery
 from ..util import nx as nx_utils
+from ..validation import _complete_join_graph
 from ._helpers import to_query_plan
 
 
@@ -153,11 +154,7 @@ class ExhaustiveJoinOrderEnumerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        if self._tree_structure == "left-deep" or self._tree_structure == "right-deep":
-            self._linear_join_orders(query)
-            return
-
-        join_graph = query.predicates().join_graph()
+        join_graph = _complete_join_graph(query)
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
@@ -171,7 +168,11 @@ class ExhaustiveJoinOrderEnumerator:
             )
 
         join_order_hashes = set()
-        join_order_generator = _enumerate_join_graph(query, join_graph)
+        join_order_generator = (
+            _enumerate_join_graph(query, join_graph)
+            if self._tree_structure == "bushy"
+            else self._linear_join_orders(query, join_graph)
+        )
         for join_order in join_order_generator:
             current_hash = hash(join_order)
             if current_hash in join_order_hashes:
@@ -180,7 +181,9 @@ class ExhaustiveJoinOrderEnumerator:
             join_order_hashes.add(current_hash)
             yield join_order
 
-    def _linear_join_orders(self, query: SqlQuery) -> Generator[JoinTree, None, None]:
+    def _linear_join_orders(
+        self, query: SqlQuery, join_graph: nx.Graph
+    ) -> Generator[JoinTree, None, None]:
         """Handler method to generate left-deep or right-deep join orders.
 
         The specific kind of join order is inferred based on the `_tree_structure` attribute.
@@ -189,13 +192,14 @@ class ExhaustiveJoinOrderEnumerator:
         ----------
         query : SqlQuery
             The query to "optimize"
+        join_graph : nx.Graph
+            The join graph of the query to optimize
 
         Yields
         ------
         Generator[JoinTree]
             A generator that produces all possible join orders for the input query.
         """
-        join_graph = query.predicates().join_graph()
         direction = "inner" if self._tree_structure == "left-deep" else "outer"
 
         for join_path in nx_utils.nx_frontier_walks(join_graph):
@@ -294,9 +298,11 @@ class ExhaustiveOperatorEnumerator:
             will they specify join directions or parallization data.
         """
         if not self._include_scans:
-            return self._all_join_assignments_for(query, join_order)
+            yield from self._all_join_assignments_for(query, join_order)
+            return
         elif not self._include_joins:
-            return self._all_scan_assignments_for(query)
+            yield from self._all_scan_assignments_for(query, join_order)
+            return
 
         tables = list(query.tables())
         scan_ops = [list(self.allowed_scan_ops)] * len(tables)
@@ -430,4 +436,4 @@ class ExhaustivePlanEnumerator:
             ) in self._operator_generator.all_operator_assignments_for(
                 query, join_order
             ):
-                yield to_query_plan(join_order, operator_assignment)
+                yield to_query_plan(join_order, physical_ops=operator_assignment)
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 5859d4c..1b1d4d3 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -25,7 +25,12 @@ from .._stages import (
 from ..db import Database, DatabasePool
 from ..qal import SqlQuery
 from ..util import nx as nx_utils
-from ..validation import CompoundCheck, CrossProductPreCheck, SupportedHintCheck
+from ..validation import (
+    CompoundCheck,
+    CrossProductPreCheck,
+    SupportedHintCheck,
+    _complete_join_graph,
+)
 from ._helpers import to_query_plan
 
 
@@ -187,14 +192,16 @@ class RandomJoinOrderGenerator:
         --------
         For now, the underlying algorithm is limited to queries without cross-products.
         """
-        join_graph = query.predicates().join_graph()
+        join_graph = _complete_join_graph(query)
         if len(join_graph.nodes) == 0:
             return
         elif len(join_graph.nodes) == 1:
             base_table = list(join_graph.nodes)[0]
             join_tree = JoinTree.scan(base_table)
-            while True:
+            yield join_tree
+            while not self._eliminate_duplicates:
                 yield join_tree
+            return
         elif not nx.is_connected(join_graph):
             raise ValueError(
                 "Cross products are not yet supported for random join order generation!"
@@ -559,8 +566,7 @@ class RandomPlanGenerator:
         """
         join_order_generator = self._join_order_generator.random_join_orders_for(query)
         plan_hashes = set()
-        while True:
-            join_order = next(join_order_generator)
+        for join_order in join_order_generator:
             operator_generator = (
                 self._operator_generator.random_operator_assignments_for(
                     query, join_order
@@ -568,7 +574,7 @@ class RandomPlanGenerator:
             )
             physical_operators = next(operator_generator)
 
-            query_plan = to_query_plan(join_order, physical_operators)
+            query_plan = to_query_plan(join_order, physical_ops=physical_operators)
             if self._eliminate_duplicates:
                 current_plan_hash = hash(query_plan)
                 if current_plan_hash in plan_hashes:
diff --git a/postbound/validation.py b/postbound/validation.py
index 5e62baa..2995e8b 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -431,6 +431,25 @@ class ImplicitQueryPreCheck(OptimizationPreCheck):
         return {"name": "implicit_query"}
 
 
+def _complete_join_graph(query: SqlQuery) -> nx.Graph:
+    """Provides the join graph for a query, including all tables that do not appear in any predicate.
+
+    Such tables are isolated nodes in the join graph.
+    """
+    nested_queries = list(query.subqueries())
+    if query.cte_clause:
+        nested_queries += [cte.query for cte in query.cte_clause.queries]
+    nested_tables = util.set_union(nested.tables() for nested in nested_queries)
+
+    join_graph = query.predicates().join_graph().copy()
+    join_graph.add_nodes_from(
+        table
+        for table in query.tables() - nested_tables
+        if table not in join_graph.nodes
+    )
+    return join_graph
+
+
 class CrossProductPreCheck(OptimizationPreCheck):
     """Check to assert that a query does not contain any cross products."""
 
@@ -438,7 +457,8 @@ class CrossProductPreCheck(OptimizationPreCheck):
         super().__init__("no-cross-products")
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        no_cross_products = nx.is_connected(query.predicates().join_graph())
+        join_graph = _complete_join_graph(query)
+        no_cross_products = len(join_graph.nodes) == 0 or nx.is_connected(join_graph)
         failure_reason = "" if no_cross_products else CrossProductFailure
         return PreCheckResult(no_cross_products, failure_reason)
 
-- 
2.43.0


From e3e44d279c482548285e22be41c274d7b58041ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:55 +0000
Subject: [PATCH 23/74] fix: data shifts only remove the requested rows and
 close the vacuum connection

---
 postbound/postgres.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index f719026..88f2cb0 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -4670,7 +4670,8 @@ class WorkloadShifter:
                                                LIMIT {cnt}
                                            )
                                            DELETE FROM {table}
-                                           WHERE EXISTS (SELECT 1 FROM delete_samples WHERE sample_id = {col})
+                                           WHERE EXISTS (SELECT 1 FROM delete_samples
+                                                         WHERE delete_samples.sample_id = {table}.{col})
                                            """)
         removal_query = removal_template.format(
             table=table_name, col=pk_column.name, cnt=n_rows
@@ -5010,12 +5011,14 @@ class WorkloadShifter:
         if vacuum:
             # We can't use the with-syntax here because VACUUM cannot be executed inside a transaction
             conn = self.pg_instance.obtain_new_local_connection()
-            conn.autocommit = True
-            cursor = conn.cursor()
-            # We really need a full vacuum due to cascading deletes
-            cursor.execute("VACUUM FULL ANALYZE;")
-            cursor.close()
-            conn.close()
+            try:
+                conn.autocommit = True
+                cursor = conn.cursor()
+                # We really need a full vacuum due to cascading deletes
+                cursor.execute("VACUUM FULL ANALYZE;")
+                cursor.close()
+            finally:
+                conn.close()
 
     def _determine_row_cnt(
         self, table: str, n_rows: Optional[int], row_pct: Optional[float]
-- 
2.43.0


From 066b94ac60523971a24a9a5373bdeef88e820381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:52 +0000
Subject: [PATCH 24/74] fix: refreshed DuckDB connections do not replace the
 pooled one

---
 postbound/duckdb.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 06f78f2..741b2e0 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -973,6 +973,11 @@ def connect(
     duckdb_instance = DuckDBInterface(db)
 
     if not private:
+        orig_name = name
+        instance_idx = 2
+        while name in db_pool:
+            name = f"{orig_name} - {instance_idx}"
+            instance_idx += 1
         db_pool.register_database(name, duckdb_instance)
 
     return duckdb_instance
-- 
2.43.0


From 394ba4e3c6d5419bbbdc580ba4fe0d46f5e79106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:58 +0000
Subject: [PATCH 25/74] fix: a failed set-up does not leave the Postgres
 connection open

---
 postbound/postgres.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 88f2cb0..84967d8 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -674,9 +674,13 @@ class PostgresInterface(Database):
         self._client_encoding = client_encoding
         self._init_connection()
 
-        self._db_stats = PostgresStatisticsInterface(self)
-        self._db_schema = PostgresSchemaInterface(self)
-        self._hinting_backend = PostgresHintService(self)
+        try:
+            self._db_stats = PostgresStatisticsInterface(self)
+            self._db_schema = PostgresSchemaInterface(self)
+            self._hinting_backend = PostgresHintService(self)
+        except Exception:
+            self._connection.close()
+            raise
 
         self._timeout_executor = TimeoutQueryExecutor(self)
         self._last_query_runtime = math.nan
-- 
2.43.0


From 814fa854f65bab68d088c802a313373052c2460c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:05 +0000
Subject: [PATCH 26/74] fix: connection parameters from files and the
 environment are used literally

---
 postbound/postgres.py | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 84967d8..5ede0bc 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -35,6 +35,7 @@ from pathlib import Path
 from typing import Any, Literal, Optional, TextIO, get_args, overload
 
 import psycopg
+import psycopg.conninfo
 import psycopg.rows
 import psycopg.types.datetime as psycopg_datetime
 
@@ -2989,7 +2990,7 @@ def _reconnect(name: str, *, pool: DatabasePool) -> PostgresInterface:
 
 
 def _ini_config_reader(file: TextIO, *, path: Path) -> dict[str, str]:
-    config = configparser.ConfigParser()
+    config = configparser.ConfigParser(interpolation=None)
     config.read_file(file)
     if len(config.sections()) != 1:
         raise ValueError(
@@ -3003,7 +3004,7 @@ def _read_connection_from_file(config_file: Path) -> str:
     extension = config_file.suffix.lower()
     if extension == "":
         with open(config_file, "r") as f:
-            return f.readline().strip()
+            return f.read().strip()
 
     match extension:
         case ".toml":
@@ -3027,8 +3028,7 @@ def _read_connection_from_file(config_file: Path) -> str:
 
     with open(config_file, mode) as f:
         config_data = reader(f)
-    parts = (f"{param} = '{value}'" for param, value in config_data.items())
-    return " ".join(parts)
+    return psycopg.conninfo.make_conninfo(**config_data)
 
 
 def connect(
@@ -3139,8 +3139,7 @@ def connect(
             )
         connect_string = _read_connection_from_file(config_file)
     elif Path(".psycopg_connection").is_file():
-        with open(".psycopg_connection", "r") as f:
-            connect_string = f.readline().strip()
+        connect_string = _read_connection_from_file(Path(".psycopg_connection"))
     elif os.getenv("PGDATABASE"):
         warnings.warn(
             "Using environment variables to construct connection string.", stacklevel=2
@@ -3153,13 +3152,13 @@ def connect(
             "PGPASSWORD": "password",
             "PGPASSFILE": "passfile",
         }
-        components: list[str] = []
+        components: dict[str, str] = {}
         for var, key in env_vars.items():
             val = os.getenv(var)
             if not val:
                 continue
-            components.append(f"{key} = '{val}'")
-        connect_string = " ".join(components)
+            components[key] = val
+        connect_string = psycopg.conninfo.make_conninfo(**components)
     else:
         raise ValueError(
             "Failed to obtain a database connection. Please either supply the connect string directly to the "
-- 
2.43.0


From dcaab80d172a8db4c25c5eb6252b3d4b795eaadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 27/74] fix: statistics describe the table that was asked
 about, and are computed from consistent values

---
 postbound/db/_db.py   | 38 +++++++++++++++++++++++-----------
 postbound/postgres.py | 47 ++++++++++++++++++++++---------------------
 2 files changed, 50 insertions(+), 35 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 72e24e7..70d9921 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -46,6 +46,7 @@ from .._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from .._hints import (
     HintType,
@@ -1761,7 +1762,10 @@ class MostCommonValues[T]:
 
     def __init__(self, mcvs: Iterable[tuple[T, int]]) -> None:
         self.mcvs: Sequence[tuple[T, int]] = list(mcvs)
-        self.mcvs.sort(key=lambda pair: (pair[1], pair[0]), reverse=True)
+        # NULLs cannot be compared to other values
+        self.mcvs.sort(
+            key=lambda pair: (pair[1], pair[0] is not None, pair[0]), reverse=True
+        )
         self._mcv_map = dict(self.mcvs)
         if self.mcvs:
             self._min_freq = self.mcvs[-1][1]
@@ -1895,6 +1899,11 @@ def _infer_histogram_bounds[T](
         buckets.append(cumulative_freq)
         cumulative_freq = 0
 
+    if cumulative_freq:
+        # the final values do not fill an entire bucket, but they still belong to the histogram
+        bounds.append(frequencies[-1][0])
+        buckets.append(cumulative_freq)
+
     return frequencies[0][0], bounds, buckets
 
 
@@ -2857,7 +2866,9 @@ class DatabaseStatistics(abc.ABC):
         int
             The total number of rows in the table.
         """
-        query_template = "SELECT COUNT(*) FROM {tab}".format(tab=table.full_name)
+        query_template = "SELECT COUNT(*) FROM {tab}".format(
+            tab=table.qualified_name()
+        )
         return self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
@@ -2885,7 +2896,7 @@ class DatabaseStatistics(abc.ABC):
             The number of distinct values in the column
         """
         query_template = "SELECT COUNT(DISTINCT {col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2914,7 +2925,7 @@ class DatabaseStatistics(abc.ABC):
             A tuple of *(min, max)*
         """
         query_template = "SELECT MIN({col}), MAX({col}) FROM {tab}".format(
-            col=column.name, tab=column.table.full_name
+            col=quote(column.name), tab=column.table.qualified_name()
         )
         return self._db.execute_query(
             query_template,
@@ -2959,7 +2970,7 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}""".format(
-                col=column.name, tab=column.table.full_name
+                col=quote(column.name), tab=column.table.qualified_name()
             )
         else:
             query_template = textwrap.dedent(
@@ -2968,7 +2979,11 @@ class DatabaseStatistics(abc.ABC):
                 FROM {tab}
                 GROUP BY {col}
                 ORDER BY n DESC, {col}
-                LIMIT {k}""".format(col=column.name, tab=column.table.full_name, k=k)
+                LIMIT {k}""".format(
+                    col=quote(column.name),
+                    tab=column.table.qualified_name(),
+                    k=k,
+                )
             )
 
         return self._db.execute_query(
@@ -2985,23 +3000,22 @@ class DatabaseStatistics(abc.ABC):
         interpolation: HistogramApproximation,
         cache_enabled: Optional[bool] = None,
     ) -> Optional[Histogram]:
-        n_rows = self._calculate_total_rows(column.table)
-        if n_rows == 0:
-            return None
-
         query_template = """
             SELECT {col}, COUNT(*) AS n
             FROM {tab}
+            WHERE {col} IS NOT NULL
             GROUP BY {col}
             ORDER BY {col}
-            """.format(col=column.name, tab=column.table.full_name)
+            """.format(col=quote(column.name), tab=column.table.qualified_name())
         result_set = self._db.execute_query(
             query_template,
             cache_enabled=self._determine_caching_behavior(cache_enabled),
             raw=True,
         )
-        assert result_set
+        if not result_set:
+            return None
 
+        n_rows = sum(freq for _, freq in result_set)
         lo, bounds, buckets = _infer_histogram_bounds(
             result_set, n_bins=n_bins, n_rows=n_rows
         )
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 5ede0bc..368e1dc 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -51,6 +51,7 @@ from ._core import (
     TableReference,
     UnboundColumnError,
     VirtualTableError,
+    quote,
 )
 from ._hints import (
     HintType,
@@ -1697,7 +1698,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 AND relnamespace = %s::regnamespace
         """
 
-        self._db.cursor().execute(query_template, (table.full_name, schema))
+        self._db.cursor().execute(query_template, (table.qualified_name(), schema))
         result_set = self._db.cursor().fetchone()
         if result_set is None:
             raise ValueError(f"Relation not found: {table}")
@@ -1812,11 +1813,12 @@ class PostgresStatisticsInterface(DatabaseStatistics):
             columns = util.set_union(self._db.schema().columns(tab) for tab in tables)
 
         assert columns is not None
-        columns: Iterable[ColumnReference] = util.enlist(columns)
+        columns: Sequence[ColumnReference] = (
+            [columns] if isinstance(columns, ColumnReference) else list(columns)
+        )
         columns_map: dict[TableReference, list[str]] = util.dicts.generate_multi(
             (col.table, col.name) for col in columns
         )
-        distinct_values: dict[ColumnReference, int] = {}
 
         if perfect_mcv or perfect_n_distinct:
             for column in columns:
@@ -1831,13 +1833,19 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 assert raw is not None
                 n_distinct = round(raw)
                 if perfect_n_distinct:
-                    distinct_values[column] = n_distinct
+                    # the setting takes effect at the next ANALYZE
+                    distinct_update_query = textwrap.dedent(f"""
+                                                            ALTER TABLE {column.table.qualified_name()}
+                                                            ALTER COLUMN {quote(column.name)}
+                                                            SET (n_distinct = {n_distinct});
+                                                            """)
+                    self._db.cursor().execute(distinct_update_query)
                 if not perfect_mcv:
                     continue
 
                 stats_target_query = textwrap.dedent(f"""
-                                                     ALTER TABLE {column.table.full_name}
-                                                     ALTER COLUMN {column.name}
+                                                     ALTER TABLE {column.table.qualified_name()}
+                                                     ALTER COLUMN {quote(column.name)}
                                                      SET STATISTICS {n_distinct};
                                                      """)
                 # This query might issue a warning if the requested stats target is larger than the allowed maximum value
@@ -1847,11 +1855,11 @@ class PostgresStatisticsInterface(DatabaseStatistics):
                 self._db.cursor().execute(stats_target_query)
 
         columns_str = {
-            table: ", ".join(col for col in columns)
+            table: ", ".join(quote(col) for col in columns)
             for table, columns in columns_map.items()
         }
         tables_and_columns = ", ".join(
-            f"{table.full_name}({cols})" for table, cols in columns_str.items()
+            f"{table.qualified_name()}({cols})" for table, cols in columns_str.items()
         )
 
         util.logging.print_if(
@@ -1864,24 +1872,16 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         query_template = f"ANALYZE {tables_and_columns}"
         self._db.cursor().execute(query_template)
 
-        for column, n_distinct in distinct_values.items():
-            assert column.table is not None, "Unbound table"
-            distinct_update_query = textwrap.dedent(f"""
-                                                    ALTER TABLE {column.table.full_name}
-                                                    ALTER COLUMN {column.name}
-                                                    SET (n_distinct = {n_distinct});
-                                                    """)
-            self._db.cursor().execute(distinct_update_query)
-
     def _retrieve_total_rows_from_stats(self, table: TableReference) -> Optional[int]:
         schema = table.schema or "public"
         count_query = "SELECT reltuples FROM pg_class WHERE oid = %s::regclass AND relnamespace = %s::regnamespace"
-        self._db.cursor().execute(count_query, (table.full_name, schema))
+        self._db.cursor().execute(count_query, (table.qualified_name(), schema))
         result_set = self._db.cursor().fetchone()
         if not result_set:
             return None
-        count = result_set[0]
-        return int(count)
+        count = int(result_set[0])
+        # negative counts indicate that the table has never been analyzed
+        return count if count >= 0 else None
 
     def _retrieve_distinct_values_from_stats(
         self, column: BoundColumnReference
@@ -1915,7 +1915,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         n_rows = self._retrieve_total_rows_from_stats(column.table)
         assert n_rows is not None, "Could not retrieve total row count for table"
 
-        return int(-1 * n_rows * dist_values)
+        return round(-1 * n_rows * dist_values)
 
     def _retrieve_min_max_values_from_stats(
         self, column: BoundColumnReference
@@ -1923,7 +1923,7 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         # Postgres does not keep track of min/max values, so we need to determine them manually
         if not self.enable_emulation_fallback:
             raise UnsupportedDatabaseFeatureError(self._db, "min/max value statistics")
-        return self._calculate_min_max_values(column, cache_enabled=True)
+        return self._calculate_min_max_values(column)
 
     def _retrieve_most_common_values_from_stats(
         self, column: BoundColumnReference, k: int | None
@@ -1953,7 +1953,8 @@ class PostgresStatisticsInterface(DatabaseStatistics):
         # NB: we have to repeat a few parameters here. Unfortunately, it seems that psycopg
         # does not support casts for named parameters - %(tab)s::regclass does not work
         self._db.cursor().execute(
-            mcv_query, (table.full_name, schema, table.full_name, column.name, schema)
+            mcv_query,
+            (table.qualified_name(), schema, table.full_name, column.name, schema),
         )
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
-- 
2.43.0


From c7ae4ab4601ac4b2559ac286bc18e7e0efd84ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:09 +0000
Subject: [PATCH 28/74] fix: schema look-ups describe the tables that were
 asked about, in their schema and with compound keys

---
 postbound/db/_db.py   | 68 +++++++++++++++++++++++++++++++------------
 postbound/duckdb.py   | 27 ++++++++---------
 postbound/postgres.py | 63 ++++++++++++++++++++-------------------
 3 files changed, 96 insertions(+), 62 deletions(-)

diff --git a/postbound/db/_db.py b/postbound/db/_db.py
index 70d9921..8e7f1f9 100644
--- a/postbound/db/_db.py
+++ b/postbound/db/_db.py
@@ -1032,18 +1032,25 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if isinstance(table, TableReference) and table.virtual:
             raise VirtualTableError(table)
-        table = table if isinstance(table, str) else table.full_name
+        table = table if isinstance(table, TableReference) else TableReference(table)
         db_name = self._db.database_name()
+        schema_placeholder = (
+            self._prep_placeholder if table.schema else "current_schema()"
+        )
 
         query_template = textwrap.dedent(f"""
             SELECT table_type
             FROM information_schema.tables
             WHERE table_catalog = {self._prep_placeholder}
                 AND table_name = {self._prep_placeholder}
-                AND table_catalog = current_database()
+                AND table_schema = {schema_placeholder}
             """)
+        params = [db_name, table.full_name]
+        if table.schema:
+            params.append(table.schema)
+
         cur = self._db.cursor()
-        cur.execute(query_template, (db_name, table))
+        cur.execute(query_template, params)
         result_set = cur.fetchall()
 
         assert result_set is not None
@@ -1086,9 +1093,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         **Hint for implementors:** the default implementation of this method (transitively) relies on the
         *information_schema.columns* view.
         """
+        column_name = column.name if isinstance(column, ColumnReference) else column
+        candidate_tables = list(candidate_tables)
         for candidate in candidate_tables:
             candidate_cols = self.columns(candidate)
-            if column in candidate_cols:
+            if any(col.name == column_name for col in candidate_cols):
                 return candidate
 
         if expect_match:
@@ -1124,6 +1133,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1138,21 +1149,22 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     AND tc.table_name = ccu.table_name
                     AND tc.constraint_catalog = ccu.constraint_catalog
             WHERE tc.table_name = {self._prep_placeholder}
-                AND ccu.column_name = {self._prep_placeholder}
                 AND tc.constraint_type = 'PRIMARY KEY'
                 AND tc.table_catalog = current_database()
                 AND tc.table_schema = {schema_placeholder};
             """)
 
-        params = [table.full_name, column.name]
+        params = [table.full_name]
         if table.schema:
             params.append(table.schema)
 
         cur = self._db.cursor()
         cur.execute(query_template, params)
-        result_set = cur.fetchone()
+        result_set = cur.fetchall()
+        assert result_set is not None
 
-        return result_set is not None
+        # compound primary keys contain multiple columns
+        return [row[0] for row in result_set] == [column.name]
 
     def primary_key_column(
         self, table: TableReference | str
@@ -1245,6 +1257,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1327,6 +1341,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1361,8 +1377,11 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0], schema=table.schema))
-            for row in result_set
+            BoundColumnReference(
+                column_name,
+                TableReference(table_name, schema=schema if table.schema else ""),
+            )
+            for schema, table_name, column_name in result_set
         }
 
     def has_index(self, column: ColumnReference) -> bool:
@@ -1424,6 +1443,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1508,6 +1529,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1558,6 +1581,8 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
         """
         if (table := column.table) is None:
             raise UnboundColumnError(column)
+        if table.virtual:
+            raise VirtualTableError(table)
 
         schema_placeholder = (
             self._prep_placeholder if table.schema else "current_schema()"
@@ -1605,7 +1630,7 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
 
             cols = self.columns(table)
             dtypes = {col: self.datatype(col) for col in cols}
-            pkey = self.primary_key_column(table)
+            pkey = next((col for col in cols if self.is_primary_key(col)), None)
             g.add_node(table, columns=cols, data_type=dtypes, primary_key=pkey)
 
             all_columns |= set(cols)
@@ -1688,18 +1713,24 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     primary_key=self.is_primary_key(key),
                 )
             case TableReference():
-                schema_graph = self.as_graph()
                 col_infos = [self[col] for col in self.columns(key)]
+                if not col_infos:
+                    raise KeyError(f"Table '{key}' not found in database schema")
+                schema_graph = self.as_graph()
+                # views are not part of the graph
+                nodes = [key] if key in schema_graph else []
                 outgoing_fks = set_union(
-                    edge[2] for edge in schema_graph.out_edges(key, data="foreign_keys")
+                    edge[2] for edge in schema_graph.out_edges(nodes, data="foreign_keys")
                 )
                 incoming_fks = set_union(
-                    edge[2] for edge in schema_graph.in_edges(key, data="foreign_keys")
+                    edge[2] for edge in schema_graph.in_edges(nodes, data="foreign_keys")
                 )
                 return TableInfo(
                     table=key,
                     columns=col_infos,
-                    primary_key=self.primary_key_column(key),
+                    primary_key=next(
+                        (col.column for col in col_infos if col.primary_key), None
+                    ),
                     outgoing_foreign_keys=outgoing_fks,
                     incoming_foreign_keys=incoming_fks,
                 )
@@ -1711,10 +1742,9 @@ class DatabaseSchema(abc.ABC, Mapping[TableReference, TableInfo]):
                     pass
 
                 try:
-                    col, tab = key.split(".", 1)
-                    ref = ColumnReference(col, TableReference(tab))
-                    return self[ref]
-                except KeyError:
+                    tab, col = key.split(".", 1)
+                    return self[TableReference(tab)][col]
+                except (KeyError, ValueError):
                     raise KeyError(f"Key '{key}' not found in database schema")
             case _:
                 raise KeyError(
diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index 741b2e0..d49a288 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -26,6 +26,7 @@ from ._core import (
     ScanOperator,
     TableReference,
     UnboundColumnError,
+    VirtualTableError,
 )
 from ._hints import (
     HintType,
@@ -244,12 +245,8 @@ class DuckDBInterface(Database):
 class DuckDBSchema(DatabaseSchema):
     def __init__(self, db: DuckDBInterface) -> None:
         super().__init__(db, prep_placeholder="?")
-        self._tables: set[TableReference] = set()
 
     def tables(self, *, include_system_tables: bool = False) -> set[TableReference]:
-        if self._tables:
-            return self._tables
-
         cur = self._db.cursor()
         cur.execute(
             """
@@ -262,13 +259,13 @@ class DuckDBSchema(DatabaseSchema):
         result_set = cur.fetchall()
         assert result_set is not None
 
-        tables = {TableReference(row[0]) for row in result_set}
-        self._tables = tables
-        return self._tables
+        return {TableReference(row[0]) for row in result_set}
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -276,12 +273,13 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND list_contains(['[' || ? || ']', '[''"' || ? || '"'']'], ddbi.expressions)
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             """)
 
-        params = [column.table.full_name, column.name]
+        # the names of quoted columns are stored with their quotes
+        params = [column.table.full_name, column.name, column.name]
         if column.table.schema:
             params.append(column.table.schema)
 
@@ -294,6 +292,8 @@ class DuckDBSchema(DatabaseSchema):
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
 
@@ -307,7 +307,7 @@ class DuckDBSchema(DatabaseSchema):
             SELECT ddbi.index_name
             FROM duckdb_indexes() ddbi
             WHERE ddbi.table_name = ?
-                AND ltrim(rtrim(ddbi.expressions, ']'), '[') = ?
+                AND list_contains(['[' || ? || ']', '[''"' || ? || '"'']'], ddbi.expressions)
                 AND ddbi.database_name = current_database()
                 AND ddbi.schema_name = {schema_placeholder}
             UNION
@@ -328,7 +328,7 @@ class DuckDBSchema(DatabaseSchema):
         # Due to the UNION query, we need to repeat the placeholders. While the implementation is definitely not elegant,
         # this solution is arguably better than relying on named parameters which might or might not be supported by the
         # target database.
-        params = [column.table.full_name, column.name]
+        params = [column.table.full_name, column.name, column.name]
         if column.table.schema:
             params.append(column.table.schema)
         params.extend([column.table.full_name, column.name])
@@ -345,6 +345,8 @@ class DuckDBSchema(DatabaseSchema):
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not ColumnReference.assert_bound(column):
             raise UnboundColumnError(column)
+        if column.table.virtual:
+            raise VirtualTableError(column.table)
 
         schema_placeholder = "?" if column.table.schema else "current_schema()"
         query_template = f"""
@@ -383,8 +385,7 @@ class DuckDBSchema(DatabaseSchema):
             column_names = column_names[:1]
             referenced_column = column_names[0]
             table = TableReference(table_name, schema=column.table.schema)
-            column = BoundColumnReference(referenced_column, table)
-            foreign_keys.add(column)
+            foreign_keys.add(BoundColumnReference(referenced_column, table))
 
         return foreign_keys
 
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 368e1dc..79c3a0c 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -28,7 +28,7 @@ import time
 import tomllib
 import warnings
 from collections import UserString
-from collections.abc import Callable, Generator, Iterable, Sequence, Sized
+from collections.abc import Callable, Generator, Iterable, Sequence
 from dataclasses import dataclass
 from multiprocessing import connection as mp_conn
 from pathlib import Path
@@ -1362,14 +1362,10 @@ class PostgresSchemaInterface(DatabaseSchema):
 
     def __init__(self, postgres_db: PostgresInterface) -> None:
         super().__init__(postgres_db)
-        self._tables: set[TableReference] = set()
 
     def tables(
         self, *, include_system_tables: bool = False, schema: str = "public"
     ) -> set[TableReference]:
-        if self._tables:
-            return self._tables
-
         query_template = textwrap.dedent("""
                                          SELECT table_name
                                          FROM information_schema.tables
@@ -1378,11 +1374,13 @@ class PostgresSchemaInterface(DatabaseSchema):
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        tables = {TableReference(row[0]) for row in result_set}
+        tables = {
+            TableReference(row[0], schema=schema if schema != "public" else "")
+            for row in result_set
+        }
         if not include_system_tables:
             tables = {tab for tab in tables if not tab.full_name.startswith("pg_")}
-        self._tables = tables
-        return self._tables
+        return tables
 
     def lookup_column(
         self,
@@ -1391,13 +1389,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         *,
         expect_match: bool = False,
     ) -> Optional[TableReference]:
-        if not isinstance(candidate_tables, Sized):
-            candidate_tables = list(candidate_tables)
-        candidate_tables = (
-            set(candidate_tables)
-            if len(candidate_tables) > 5
-            else list(candidate_tables)
-        )
+        candidate_tables = list(dict.fromkeys(candidate_tables))
         column = column.name if isinstance(column, ColumnReference) else column
         lower_col = column.lower()
 
@@ -1419,7 +1411,7 @@ class PostgresSchemaInterface(DatabaseSchema):
         if column.table.virtual:
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
-        return index_map.get(column.name, False)
+        return True in index_map.get(column.name, set())
 
     def has_secondary_index(self, column: ColumnReference) -> bool:
         if not column.table:
@@ -1428,12 +1420,8 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         index_map = self._fetch_indexes(column.table)
 
-        # The index map contains an entry for each attribute that actually has an index. The value is True, if the
-        # attribute (which is known to be indexed), is even the Primary Key
-        # Our method should return False in two cases: 1) the attribute is not indexed at all; and 2) the attribute
-        # actually is the Primary key. Therefore, by assuming it is the PK in case of absence, we get the correct
-        # value.
-        return not index_map.get(column.name, True)
+        # The index map contains the indexes of each attribute. Primary key indexes are marked with True.
+        return False in index_map.get(column.name, set())
 
     def indexes_on(self, column: ColumnReference) -> set[str]:
         if not column.table:
@@ -1481,6 +1469,7 @@ class PostgresSchemaInterface(DatabaseSchema):
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid AND rel.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
+            ORDER BY array_position(idx.indkey::int2[], att.attnum)
         """)
 
         self._db.cursor().execute(query_template, (index, schema))
@@ -1497,7 +1486,8 @@ class PostgresSchemaInterface(DatabaseSchema):
             result_set = result_set[:1]
 
         col, tab = result_set[0]
-        return ColumnReference.create(col, table=tab)
+        table = TableReference(tab, schema=schema if schema != "public" else "")
+        return BoundColumnReference(col, table)
 
     def foreign_keys_on(self, column: ColumnReference) -> set[BoundColumnReference]:
         if not column.table:
@@ -1506,14 +1496,14 @@ class PostgresSchemaInterface(DatabaseSchema):
             raise VirtualTableError(column.table)
         schema = column.table.schema or "public"
         query_template = textwrap.dedent("""
-            SELECT target.table_name, target.column_name
+            SELECT target.table_schema, target.table_name, target.column_name
             FROM information_schema.key_column_usage AS fk_sources
                 JOIN information_schema.table_constraints AS all_constraints
                 ON fk_sources.constraint_name = all_constraints.constraint_name
                     AND fk_sources.table_schema = all_constraints.table_schema
                 JOIN information_schema.constraint_column_usage AS target
                 ON fk_sources.constraint_name = target.constraint_name
-                    AND fk_sources.table_schema = target.table_schema
+                    AND fk_sources.constraint_schema = target.constraint_schema
             WHERE fk_sources.table_name = %s
                 AND fk_sources.column_name = %s
                 AND fk_sources.table_schema = %s
@@ -1527,7 +1517,16 @@ class PostgresSchemaInterface(DatabaseSchema):
         assert result_set is not None
 
         return {
-            BoundColumnReference(row[1], TableReference(row[0])) for row in result_set
+            BoundColumnReference(
+                column_name,
+                TableReference(
+                    table_name,
+                    schema=target_schema
+                    if column.table.schema or target_schema != "public"
+                    else "",
+                ),
+            )
+            for target_schema, table_name, column_name in result_set
         }
 
     def datatype(self, column: ColumnReference) -> str:
@@ -1595,7 +1594,7 @@ class PostgresSchemaInterface(DatabaseSchema):
 
         return [col[0] for col in result_set]
 
-    def _fetch_indexes(self, table: TableReference) -> dict[str, bool]:
+    def _fetch_indexes(self, table: TableReference) -> dict[str, set[bool]]:
         """Retrieves all index structures for a given table based on the PG metadata catalogs.
 
         Parameters
@@ -1606,8 +1605,9 @@ class PostgresSchemaInterface(DatabaseSchema):
         Returns
         -------
         dict
-            Contains a key for each column that has an index. The column keys map to booleans that indicate whether
-            the corresponding index is a primary key index. Columns without any index do not appear in the dictionary.
+            Contains a key for each column that has an index of its own. The column keys map to booleans that indicate whether
+            the corresponding indexes are primary key indexes. Columns without any index and columns that are only part of
+            compound indexes do not appear in the dictionary.
 
         Raises
         ------
@@ -1627,13 +1627,16 @@ class PostgresSchemaInterface(DatabaseSchema):
                 JOIN pg_namespace nsp ON cls.relnamespace = nsp.oid
             WHERE cls.relname = %s
                 AND nsp.nspname = %s
+                AND idx.indnkeyatts = 1
         """)
 
         self._db.cursor().execute(index_query, (table_name, schema))
         result_set = self._db.cursor().fetchall()
         assert result_set is not None
 
-        index_map = dict(result_set)
+        index_map: dict[str, set[bool]] = {}
+        for column, is_primary in result_set:
+            index_map.setdefault(column, set()).add(bool(is_primary))
         return index_map
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 1747f65eea29b95789138f2a66aed06ed210e7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:11 +0000
Subject: [PATCH 29/74] fix: training reaches the stage it is meant for, with
 exactly the samples that stage asked for

---
 postbound/_pipelines.py   |  7 +++++--
 postbound/_stages.py      | 43 +++++++++++++++++++++++++++++++++++++++
 postbound/train/_train.py | 36 ++++++++++++++------------------
 3 files changed, 63 insertions(+), 23 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 4f7511b..31ae486 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -244,10 +244,13 @@ class OptimizationPipeline(abc.ABC):
             if not stage.requires_sample_training() or stage.sample_fit_completed():
                 continue
 
+            required_spec = stage.sample_spec()
             if isinstance(samples, TrainingDataRepository):
-                current_sample = samples.retrieve_merged(stage.sample_spec())
+                current_sample = samples.retrieve_merged(required_spec)
+            elif samples.satisfies(required_spec):
+                current_sample = samples.conform_to(required_spec)
             else:
-                current_sample = samples
+                current_sample = None
 
             if current_sample is None:
                 raise ValueError(
diff --git a/postbound/_stages.py b/postbound/_stages.py
index 8dce952..d3849fa 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1040,6 +1040,49 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
         )
         return self.database.optimizer().query_plan(hinted_query)
 
+    # Training is the business of the actual stage. Since the requirements depend on that specific stage, they cannot be derived
+    # from our own class.
+
+    def fit_database(self, database: Database) -> TrainingMetrics:
+        return self.stage().fit_database(database)
+
+    def database_fit_completed(self) -> bool:
+        return self.stage().database_fit_completed()
+
+    def requires_data_training(self) -> bool:
+        return self.stage().requires_data_training()
+
+    def fit_workload(self, queries: Workload, database: Database) -> TrainingMetrics:
+        return self.stage().fit_workload(queries, database)
+
+    def workload_fit_completed(self) -> bool:
+        return self.stage().workload_fit_completed()
+
+    def requires_workload_training(self) -> bool:
+        return self.stage().requires_workload_training()
+
+    def fit_samples(self, samples: TrainingData) -> TrainingMetrics:
+        return self.stage().fit_samples(samples)
+
+    def sample_spec(self) -> TrainingSpec:
+        return self.stage().sample_spec()
+
+    def sample_fit_completed(self) -> bool:
+        return self.stage().sample_fit_completed()
+
+    def requires_sample_training(self) -> bool:
+        return self.stage().requires_sample_training()
+
+    def learn_from_feedback(
+        self, query: SqlQuery, result_set: ResultSet, *, exec_time: TimeMs
+    ) -> TrainingMetrics:
+        return self.stage().learn_from_feedback(
+            query, result_set, exec_time=exec_time
+        )
+
+    def uses_online_feedback(self) -> bool:
+        return self.stage().uses_online_feedback()
+
     def describe(self) -> jsondict:
         return self.stage().describe()
 
diff --git a/postbound/train/_train.py b/postbound/train/_train.py
index 6b57d53..d9e639d 100644
--- a/postbound/train/_train.py
+++ b/postbound/train/_train.py
@@ -288,7 +288,7 @@ class TrainingData:
         feature_map: dict[TrainingFeature, str] = {feat: feat for feat in df.columns}
         query_col = feature_map.get("query")
         if query_col:
-            df[query_col] = df[query_col].map(parse_query)
+            df = df.assign(**{query_col: df[query_col].map(parse_query)})
 
         return TrainingData(df, source=source, feature_map=feature_map)
 
@@ -302,11 +302,10 @@ class TrainingData:
         will contain the features required by the spec and nothing more.
         If any of the input datasets does not satisfy the spec, an error is raised.
         """
-        datasets = list(datasets)
-        merged, *rest = datasets
+        merged, *rest = [ds.conform_to(according_to) for ds in datasets]
         for ds in rest:
             merged = merged.merge_with(ds)
-        return merged.conform_to(according_to)
+        return merged
 
     def __init__(
         self,
@@ -395,12 +394,11 @@ class TrainingData:
         if not self._spec.satisfies(spec):
             raise ValueError("Requested spec is not compatible with the training data")
         reduced_spec: dict[TrainingFeature, str] = {
-            feature: col
-            for feature, col in self._feature_map.items()
-            if spec.requires(feature)
+            feature: self._feature_map[feature] for feature in spec.features
         }
+        columns = list(dict.fromkeys(reduced_spec.values()))
         return TrainingData(
-            self._samples, source=self._source, feature_map=reduced_spec
+            self._samples[columns], source=self._source, feature_map=reduced_spec
         )
 
     def as_df(self, requested_spec: Optional[TrainingSpec] = None) -> pd.DataFrame:
@@ -409,16 +407,15 @@ class TrainingData:
         Columns of the data frame are automatically aligned with the features of the given spec. If no spec is given, the
         columns of the data frame are the original columns, but renamed according to the feature map.
         """
-        renamings = {target: col for target, col in self._feature_map.items()}
-
         if requested_spec is None:
+            renamings = {col: feature for feature, col in self._feature_map.items()}
             return self._samples.rename(columns=renamings)
 
         if not self._spec.satisfies(requested_spec):
             raise ValueError("Requested spec is not compatible with the training data")
 
         columns = [self._feature_map[feature] for feature in requested_spec.features]
-        return self._samples[columns].rename(columns=renamings, errors="ignore")
+        return self._samples[columns].set_axis(requested_spec.features, axis="columns")
 
     def merge_with(
         self,
@@ -436,20 +433,20 @@ class TrainingData:
                 f"the other dataset is missing the following features: {violations.missing_features}"
             )
 
+        own_samples = self.as_df(self._spec)
         other_samples = other.as_df(self._spec)
-        merged_samples = pd.concat([self._samples, other_samples])
-        return TrainingData(merged_samples, source=None, feature_map=self._feature_map)
+        merged_samples = pd.concat([own_samples, other_samples], ignore_index=True)
+        feature_map = {feature: feature for feature in self._spec}
+        return TrainingData(merged_samples, source=None, feature_map=feature_map)
 
     def __len__(self) -> int:
         return len(self._samples)
 
     def __iter__(self):
-        return iter(self._samples)
+        return (self[idx] for idx in range(len(self)))
 
     def __getitem__(self, idx) -> list:
-        sample = self._samples.iloc[idx]
-        remapped = sample[self._feature_map.values()]
-        return list(remapped)
+        return [self._samples[col].iloc[idx] for col in self._feature_map.values()]
 
     def __repr__(self) -> str:
         return str(self)
@@ -498,7 +495,4 @@ class TrainingDataRepository:
         matching = self.retrieve_all(spec)
         if not matching:
             return None
-        elif len(matching) == 1:
-            return matching[0]
-        else:
-            return TrainingData.merge(matching, according_to=spec)
+        return TrainingData.merge(matching, according_to=spec)
-- 
2.43.0


From 3bcac37c0d894fe5b7ee31e8cdde4b5ffceb2b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:41 +0000
Subject: [PATCH 30/74] fix: failed optimizations leave their stages cleaned up
 and usable

---
 postbound/_pipelines.py         | 12 +++---
 postbound/_stages.py            | 23 +++++++---
 postbound/opt/_cardinalities.py |  8 ++++
 postbound/opt/dynprog.py        | 75 +++++++++++++++++++--------------
 postbound/opt/native.py         |  2 +-
 postbound/opt/ues.py            | 26 +++++++++---
 6 files changed, 97 insertions(+), 49 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index 31ae486..e6fe092 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -1010,11 +1010,13 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
             # To support this, we manually call these methods to prevent weird errors on the user side.
             if isinstance(self._plan_parameterization, CardinalityEstimator):
                 self._plan_parameterization.initialize(self._target_db, query)
-            plan_parameters = self._plan_parameterization.generate_plan_parameters(
-                query, join_order, physical_operators
-            )
-            if isinstance(self._plan_parameterization, CardinalityEstimator):
-                self._plan_parameterization.cleanup()
+            try:
+                plan_parameters = self._plan_parameterization.generate_plan_parameters(
+                    query, join_order, physical_operators
+                )
+            finally:
+                if isinstance(self._plan_parameterization, CardinalityEstimator):
+                    self._plan_parameterization.cleanup()
 
         return self._target_db.hinting().generate_hints(
             query,
diff --git a/postbound/_stages.py b/postbound/_stages.py
index d3849fa..6b42336 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -1027,11 +1027,7 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
             if self._operator_selection is not None
             else None
         )
-        plan_params = (
-            self._plan_parameterization.generate_plan_parameters(query, None, None)
-            if self._plan_parameterization is not None
-            else None
-        )
+        plan_params = self._generate_plan_parameters(query)
         hinted_query = self.database.hinting().generate_hints(
             query,
             join_order=join_order,
@@ -1083,6 +1079,23 @@ class _CompleteAlgorithmEmulator(CompleteOptimizationAlgorithm):
     def uses_online_feedback(self) -> bool:
         return self.stage().uses_online_feedback()
 
+    def _generate_plan_parameters(self, query: SqlQuery) -> Optional[PlanParameterization]:
+        if self._plan_parameterization is None:
+            return None
+        if not isinstance(self._plan_parameterization, CardinalityEstimator):
+            return self._plan_parameterization.generate_plan_parameters(
+                query, None, None
+            )
+
+        # cardinality estimators require additional setup and cleanup for each query
+        self._plan_parameterization.initialize(self.database, query)
+        try:
+            return self._plan_parameterization.generate_plan_parameters(
+                query, None, None
+            )
+        finally:
+            self._plan_parameterization.cleanup()
+
     def describe(self) -> jsondict:
         return self.stage().describe()
 
diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 39075ab..6102dcf 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -339,6 +339,14 @@ class CardinalityDistortion(CardinalityEstimator):
         self.distortion_factor = distortion_factor
         self.distortion_strategy = distortion_strategy
 
+    def initialize(self, target_db: Database, query: SqlQuery) -> None:
+        super().initialize(target_db, query)
+        self.estimator.initialize(target_db, query)
+
+    def cleanup(self) -> None:
+        self.estimator.cleanup()
+        super().cleanup()
+
     def describe(self) -> dict:
         return {
             "name": "cardinality-distortion",
diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 3dd90c9..bc91777 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import collections
+import contextlib
 import itertools
 import math
 import warnings
@@ -156,24 +157,25 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
     def generate_execution_plan(
         self, query, *, cost_model, cardinality_estimator
     ) -> QueryPlan:
-        self.predicates = query.predicates()
-        cost_model.initialize(self._target_db, query)
-        cardinality_estimator.initialize(self._target_db, query)
-
-        dp_table = self._determine_base_access_paths(
-            query, cost_model=cost_model, cardinality_estimator=cardinality_estimator
-        )
-        final_plan = self._build_join_paths(
-            query,
-            dp_table=dp_table,
-            cost_model=cost_model,
-            cardinality_estimator=cardinality_estimator,
-        )
-
-        cost_model.cleanup()
-        cardinality_estimator.cleanup()
-        self.predicates = None
-        return final_plan
+        with contextlib.ExitStack() as cleanup:
+            self.predicates = query.predicates()
+            cleanup.callback(setattr, self, "predicates", None)
+            cost_model.initialize(self._target_db, query)
+            cleanup.callback(cost_model.cleanup)
+            cardinality_estimator.initialize(self._target_db, query)
+            cleanup.callback(cardinality_estimator.cleanup)
+
+            dp_table = self._determine_base_access_paths(
+                query,
+                cost_model=cost_model,
+                cardinality_estimator=cardinality_estimator,
+            )
+            return self._build_join_paths(
+                query,
+                dp_table=dp_table,
+                cost_model=cost_model,
+                cardinality_estimator=cardinality_estimator,
+            )
 
     def pre_check(self) -> OptimizationPreCheck:
         return merge_checks(
@@ -662,14 +664,29 @@ class PostgresDynProg(PlanEnumerator):
     def generate_execution_plan(
         self, query, *, cost_model, cardinality_estimator
     ) -> QueryPlan:
-        self.query = transform.add_ec_predicates(query)
-        self.predicates = self.query.predicates()
-
-        cardinality_estimator.initialize(self.target_db, query)
-        cost_model.initialize(self.target_db, query)
-        self.cardinality_estimator = cardinality_estimator
-        self.cost_model = cost_model
+        with contextlib.ExitStack() as cleanup:
+            cleanup.callback(self._reset)
+            self.query = transform.add_ec_predicates(query)
+            self.predicates = self.query.predicates()
+
+            cardinality_estimator.initialize(self.target_db, query)
+            cleanup.callback(cardinality_estimator.cleanup)
+            cost_model.initialize(self.target_db, query)
+            cleanup.callback(cost_model.cleanup)
+            self.cardinality_estimator = cardinality_estimator
+            self.cost_model = cost_model
+
+            return self._determine_cheapest_plan()
+
+    def _reset(self) -> None:
+        """Removes all state that belongs to the current query."""
+        self.query = None
+        self.predicates = None
+        self.cost_model = None
+        self.cardinality_estimator = None
 
+    def _determine_cheapest_plan(self) -> QueryPlan:
+        """Runs the actual enumeration for the current query."""
         base_rels = self._init_base_rels()
         self._set_base_rel_pathlists(base_rels)
 
@@ -678,7 +695,7 @@ class PostgresDynProg(PlanEnumerator):
             "No valid plan found for the given query."
         )
 
-        if self._is_pg_cost(cost_model):
+        if self._is_pg_cost(self.cost_model):
             # This seems weird at first, so let's explain what is going on here:
             # If we use the actual PG cost model, we can be make better decisions about what the optimal plan is.
             # The reason is that PG might parallelize a portion of the upper operators (anything that happens after the final
@@ -696,12 +713,6 @@ class PostgresDynProg(PlanEnumerator):
         else:
             cheapest_plan = final_rel.cheapest_path
 
-        cost_model.cleanup()
-        cardinality_estimator.cleanup()
-        self.query = None
-        self.predicates = None
-        self.cost_model = None
-        self.cardinality_estimator = None
         return cheapest_plan
 
     def describe(self) -> jsondict:
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index f404546..a108970 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -515,7 +515,7 @@ class NativePlanParameterization(ParameterGeneration):
                 query, join_order=join_order, physical_operators=operator_assignment
             )
         query_plan = self.db_instance.optimizer().query_plan(query)
-        parameters_from_plan(query_plan)
+        return parameters_from_plan(query_plan)
 
     def describe(self) -> jsondict:
         return {"name": "native", "database_system": self.db_instance.describe()}
diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 226c343..61e54cb 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -393,6 +393,10 @@ class BaseTableEstimator(abc.ABC):
         """
         raise NotImplementedError
 
+    def cleanup(self) -> None:
+        """Enables the estimator to release all data structures that belong to the current query."""
+        pass
+
     @abc.abstractmethod
     def estimate_for(self, table: TableReference) -> Cardinality:
         """Calculates the cardinality for an arbitrary base table of the query.
@@ -561,6 +565,10 @@ class _CardinalityEstimatorWrapper(BaseTableEstimator):
         self.query = query
         self.estimator.initialize(self.target_db, query)
 
+    def cleanup(self) -> None:
+        self.estimator.cleanup()
+        self.query = None
+
     def estimate_for(self, table: TableReference) -> Cardinality:
         return self.estimator.calculate_estimate(self.query, table)
 
@@ -578,12 +586,12 @@ class _CardinalityEstimatorWrapper(BaseTableEstimator):
             from_clause=ImplicitFromClause.create_for(table),
         )
         self.estimator.initialize(self.target_db, star_query)
-        cardinality = self.estimator.calculate_estimate(star_query, table)
-
-        # Lastly, undo all of our temporary changes
-        self.estimator.cleanup()
-        self.estimator.initialize(self.target_db, self.query)
-        return cardinality
+        try:
+            return self.estimator.calculate_estimate(star_query, table)
+        finally:
+            # Lastly, undo all of our temporary changes
+            self.estimator.cleanup()
+            self.estimator.initialize(self.target_db, self.query)
 
     def describe(self) -> util.jsondict:
         return self.estimator.describe()
@@ -1041,6 +1049,12 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
             return None
 
         self.base_table_estimation.setup_for_query(query)
+        try:
+            return self._optimize(query)
+        finally:
+            self.base_table_estimation.cleanup()
+
+    def _optimize(self, query: ImplicitSqlQuery) -> Optional[LogicalJoinTree]:
         self.stats_container.setup_for_query(query, self.base_table_estimation)
         self.join_estimation.setup_for_query(query)
         self.join_estimation.setup_for_stats(self.stats_container)
-- 
2.43.0


From 77751fc67908e1062dac6726bda31420dec2b733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:49 +0000
Subject: [PATCH 31/74] fix: every pre-check is asked, and pipelines are ready
 only after building with their components

---
 postbound/_pipelines.py     | 15 +++++++------
 postbound/opt/dynprog.py    |  2 ++
 postbound/opt/randomized.py |  8 +++++--
 postbound/validation.py     | 45 +++++++++++++++++++++++++++++--------
 4 files changed, 52 insertions(+), 18 deletions(-)

diff --git a/postbound/_pipelines.py b/postbound/_pipelines.py
index e6fe092..23a3ca2 100644
--- a/postbound/_pipelines.py
+++ b/postbound/_pipelines.py
@@ -393,6 +393,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
             The current pipeline to allow for easy method-chaining.
         """
         self._optimization_algorithm = algorithm
+        self._build = False
         return self
 
     def use(self, algorithm: CompleteOptimizationAlgorithm) -> Self:
@@ -430,7 +431,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         if pre_check is not None:
             pre_check.check_supported_database_system(
                 self._target_db
-            ).ensure_all_passed()
+            ).ensure_all_passed(self._target_db)
         self._build = True
         return self
 
@@ -443,7 +444,7 @@ class IntegratedOptimizationPipeline(OptimizationPipeline):
         assert self.optimization_algorithm is not None
         pre_check = self.optimization_algorithm.pre_check()
         if pre_check is not None:
-            pre_check.check_supported_query(query).ensure_all_passed()
+            pre_check.check_supported_query(query).ensure_all_passed(query)
 
         physical_qep = self.optimization_algorithm.optimize_query(query)
         return physical_qep
@@ -724,6 +725,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
     def __init__(self, target_db: Database) -> None:
         self._target_db = target_db
         self._pre_check: OptimizationPreCheck | None = EmptyPreCheck()
+        self._support_check: OptimizationPreCheck = EmptyPreCheck()
         self._join_order_enumerator: JoinOrderOptimization | None = None
         self._physical_operator_selection: PhysicalOperatorSelection | None = None
         self._plan_parameterization: ParameterGeneration | None = None
@@ -959,9 +961,9 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         if self.plan_parameterization is not None:
             all_checks.append(self.plan_parameterization.pre_check())
 
-        self._pre_check = merge_checks(all_checks)
+        self._support_check = merge_checks(all_checks)
 
-        db_check_result = self._pre_check.check_supported_database_system(
+        db_check_result = self._support_check.check_supported_database_system(
             self._target_db
         )
         if not db_check_result.passed:
@@ -984,8 +986,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
 
     def optimize_query(self, query: SqlQuery) -> SqlQuery:
         self._assert_is_build()
-        assert self._pre_check is not None
-        supported_query_check = self._pre_check.check_supported_query(query)
+        supported_query_check = self._support_check.check_supported_query(query)
         if not supported_query_check.passed:
             raise UnsupportedQueryError(query, supported_query_check.failure_reason)
 
@@ -1039,7 +1040,7 @@ class MultiStageOptimizationPipeline(OptimizationPipeline):
         return {
             "name": "multi_stage_pipeline",
             "database_system": self._target_db.describe(),
-            "query_pre_check": self._pre_check.describe() if self._pre_check else None,
+            "query_pre_check": self._support_check.describe(),
             "join_ordering": self._join_order_enumerator.describe()
             if self._join_order_enumerator
             else None,
diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index bc91777..1f88c25 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -127,6 +127,7 @@ class DynamicProgrammingEnumerator(PlanEnumerator):
         supported_join_ops: Optional[set[JoinOperator]] = None,
         target_db: Optional[Database] = None,
     ) -> None:
+        super().__init__()
         target_db = (
             target_db
             if target_db is not None
@@ -585,6 +586,7 @@ class PostgresDynProg(PlanEnumerator):
         target_db: Optional[PostgresInterface] = None,
         verbose: bool = False,
     ) -> None:
+        super().__init__()
         target_db = (
             target_db
             if target_db is not None
diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 1b1d4d3..67c1832 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -652,6 +652,10 @@ class RandomPlanOptimizer(CompleteOptimizationAlgorithm):
 
     def pre_check(self) -> OptimizationPreCheck:
         return CompoundCheck(
-            CrossProductPreCheck(),
-            SupportedHintCheck(self._generator._operator_generator.necessary_hints()),
+            [
+                CrossProductPreCheck(),
+                SupportedHintCheck(
+                    self._generator._operator_generator.necessary_hints()
+                ),
+            ]
         )
diff --git a/postbound/validation.py b/postbound/validation.py
index 2995e8b..3bc8c73 100644
--- a/postbound/validation.py
+++ b/postbound/validation.py
@@ -99,13 +99,15 @@ class PreCheckResult:
             The merged check result
         """
         failures: list[str] = []
+        all_passed = True
         for check in checks:
             if check.passed:
                 continue
+            all_passed = False
             failures.extend(util.enlist(check.failure_reason))
         return (
             PreCheckResult.with_all_passed()
-            if not failures
+            if all_passed
             else PreCheckResult.with_failure(failures)
         )
 
@@ -338,14 +340,17 @@ class CompoundCheck(OptimizationPreCheck):
         ]
 
     def check_supported_query(self, query: SqlQuery) -> PreCheckResult:
-        check_results = [check.check_supported_query(query) for check in self.checks]
-        aggregated_passed = all(check_result.passed for check_result in check_results)
-        aggregated_failures = (
-            util.flatten(check_result.failure_reason for check_result in check_results)
-            if not aggregated_passed
-            else []
+        return PreCheckResult.merge(
+            check.check_supported_query(query) for check in self.checks
+        )
+
+    def check_supported_database_system(
+        self, database_instance: Database
+    ) -> PreCheckResult:
+        return PreCheckResult.merge(
+            check.check_supported_database_system(database_instance)
+            for check in self.checks
         )
-        return PreCheckResult(aggregated_passed, aggregated_failures)
 
     def describe(self) -> dict:
         return {"multiple_checks": [check.describe() for check in self.checks]}
@@ -702,7 +707,7 @@ class SupportedHintCheck(OptimizationPreCheck):
         self, database_instance: Database
     ) -> PreCheckResult:
         failures = [
-            hint
+            str(hint)
             for hint in self._features
             if not database_instance.hinting().supports_hint(hint)
         ]
@@ -712,6 +717,14 @@ class SupportedHintCheck(OptimizationPreCheck):
     def describe(self) -> dict:
         return {"name": "database_operator_support", "features": self._features}
 
+    def __eq__(self, other: object) -> bool:
+        return isinstance(other, type(self)) and set(self._features) == set(
+            other._features
+        )
+
+    def __hash__(self) -> int:
+        return hash((self.name, frozenset(self._features)))
+
 
 class CustomCheck(OptimizationPreCheck):
     """Check to quickly implement arbitrary one-off checks.
@@ -752,3 +765,17 @@ class CustomCheck(OptimizationPreCheck):
         if self._db_check is None:
             return PreCheckResult.with_all_passed()
         return self._db_check(database_instance)
+
+    def describe(self) -> dict:
+        return {"name": self.name}
+
+    def __eq__(self, other: object) -> bool:
+        return (
+            isinstance(other, type(self))
+            and self.name == other.name
+            and self._query_check == other._query_check
+            and self._db_check == other._db_check
+        )
+
+    def __hash__(self) -> int:
+        return hash((self.name, self._query_check, self._db_check))
-- 
2.43.0


From bd7f7e04ae70d90450aa4bc2c4946978efa17513 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:56 +0000
Subject: [PATCH 32/74] fix: hinted settings apply to exactly the query they
 belong to, also when its plan is asked for

---
 postbound/postgres.py | 87 ++++++++++++++++++++++++++++---------------
 1 file changed, 58 insertions(+), 29 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 79c3a0c..8f7a5c4 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -13,6 +13,7 @@ import collections
 import concurrent
 import concurrent.futures
 import configparser
+import contextlib
 import datetime
 import functools
 import json
@@ -630,12 +631,36 @@ class _PsycopgIntervalLoader(psycopg_datetime.IntervalLoader):
         return super().load(data)
 
 
-def _apply_preparatory_statements(query: SqlQuery, *, cur: psycopg.Cursor) -> SqlQuery:
+def _split_preparatory_statements(query: SqlQuery) -> tuple[str, SqlQuery]:
+    """Extracts the preparatory statements of a query, if there are any."""
     if not query.hints or not query.hints.preparatory_statements:
-        return query
+        return "", query
+
+    prep_statements = query.hints.preparatory_statements
+    return prep_statements, transform.drop_hints(
+        query, preparatory_statements_only=True
+    )
 
-    cur.execute(query.hints.preparatory_statements)  # type: ignore
-    return transform.drop_hints(query, preparatory_statements_only=True)
+
+@contextlib.contextmanager
+def _preparatory_statements(
+    statements: str, *, cur: psycopg.Cursor
+) -> Generator[None, None, None]:
+    """Applies the preparatory statements of a query.
+
+    The query itself has to be executed while the context is active. It runs in the same transaction as the preparatory
+    statements, because *SET LOCAL* does not have any effect otherwise.
+    """
+    if not statements:
+        yield
+        return
+
+    already_open = (
+        cur.connection.info.transaction_status != psycopg.pq.TransactionStatus.IDLE
+    )
+    with contextlib.nullcontext() if already_open else cur.connection.transaction():
+        cur.execute(statements)  # type: ignore
+        yield
 
 
 class PostgresInterface(Database):
@@ -720,6 +745,7 @@ class PostgresInterface(Database):
             plan_parameters=plan_parameters,
         )
 
+        prep_statements = ""
         try:
             if timeout is not None and timeout > 0:
                 return self._timeout_executor.execute_query(
@@ -734,9 +760,9 @@ class PostgresInterface(Database):
             elif isinstance(query, SqlQuery):
                 # If there are any preparatory statements we must execute them now. If we would simply include them in the
                 # query, psycopg would use the first statement to determine the result type of the entire query. If this were a
-                # SET statement, no results could be fetched. _apply_preparatory_statements takes care of these and gives a
+                # SET statement, no results could be fetched. _split_preparatory_statements takes care of these and gives a
                 # cleaned-up query to execute.
-                query = _apply_preparatory_statements(query, cur=self._cursor)
+                prep_statements, query = _split_preparatory_statements(query)
                 query = self._hinting_backend.format_query(query)
 
             if cache_enabled:
@@ -744,18 +770,19 @@ class PostgresInterface(Database):
                 if cached:
                     return query_result if raw else simplify_result_set(query_result)
 
-            start_time = time.perf_counter_ns()
-            self._cursor.execute(query)  # type: ignore
-            end_time = time.perf_counter_ns()
-            self._last_query_runtime = (
-                end_time - start_time
-            ) / 10**9  # convert to seconds
-
-            query_result = (
-                self._cursor.fetchall()
-                if self._cursor.description is not None
-                else None
-            )
+            with _preparatory_statements(prep_statements, cur=self._cursor):
+                start_time = time.perf_counter_ns()
+                self._cursor.execute(query)  # type: ignore
+                end_time = time.perf_counter_ns()
+                self._last_query_runtime = (
+                    end_time - start_time
+                ) / 10**9  # convert to seconds
+
+                query_result = (
+                    self._cursor.fetchall()
+                    if self._cursor.description is not None
+                    else None
+                )
             if cache_enabled:
                 self._cache_result(query, query_result)
         except (psycopg.InternalError, psycopg.OperationalError) as e:
@@ -2865,7 +2892,6 @@ class PostgresOptimizer(OptimizerInterface):
     def query_plan(self, query: SqlQuery | str) -> QueryPlan:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         raw_query_plan: list = self._pg_instance.execute_query(
@@ -2920,7 +2946,6 @@ class PostgresOptimizer(OptimizerInterface):
     def cardinality_estimate(self, query: SqlQuery | str) -> Cardinality:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
@@ -2930,7 +2955,6 @@ class PostgresOptimizer(OptimizerInterface):
     def cost_estimate(self, query: SqlQuery | str) -> float:
         if isinstance(query, SqlQuery):
             query = transform.as_explain(query)
-            query = self._pg_instance._hinting_backend.format_query(query)
         else:
             query = self._explainify(query)
         query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
@@ -2957,7 +2981,7 @@ class PostgresOptimizer(OptimizerInterface):
                 f"Cannot configure operator {operator} as it is not supported by Postgres"
             )
         status = "on" if enabled else "off"
-        self._pg_instance.cursor.execute(f"SET {setting_name} TO {status}")  # type: ignore
+        self._pg_instance.cursor().execute(f"SET {setting_name} TO {status}")  # type: ignore
 
     def uses_geqo(self, query: SqlQuery) -> bool:
         pass
@@ -3686,8 +3710,9 @@ def _timeout_query_worker(
         status_pipe.send(_BackendConnectedEvent(pg_instance.backend_pid()))
         pg_instance.apply_configuration(pg_config["config"])
         cursor = pg_instance.cursor()
+        prep_statements = ""
         if isinstance(query, SqlQuery):
-            query = _apply_preparatory_statements(query, cur=cursor)
+            prep_statements, query = _split_preparatory_statements(query)
             query = pg_instance._hinting_backend.format_query(query)
         elif isinstance(query, UserString):
             query = str(query)
@@ -3699,11 +3724,16 @@ def _timeout_query_worker(
         # simplification in the timeout measurement, which is not desired.
 
         try:
-            status_pipe.send(_QueryReadyEvent())
-            start_time = time.perf_counter_ns()
-            cursor.execute(query)  # type: ignore
-            end_time = time.perf_counter_ns()
-            status_pipe.send(_QueryFinishedEvent())
+            with _preparatory_statements(prep_statements, cur=cursor):
+                status_pipe.send(_QueryReadyEvent())
+                start_time = time.perf_counter_ns()
+                cursor.execute(query)  # type: ignore
+                end_time = time.perf_counter_ns()
+                status_pipe.send(_QueryFinishedEvent())
+
+                raw_result_set = (
+                    cursor.fetchall() if cursor.description is not None else None
+                )
         except (psycopg.InternalError, psycopg.OperationalError) as e:
             msg = "\n".join(
                 [
@@ -3730,7 +3760,6 @@ def _timeout_query_worker(
         runtime = (end_time - start_time) / 10**9
         pg_instance._last_query_runtime = runtime
 
-        raw_result_set = cursor.fetchall() if cursor.description is not None else None
         if kwargs.get("raw", False):
             result = raw_result_set
         else:
-- 
2.43.0


From 2b08091aade4fb6c389f5982fd8b13244d3952d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:20 +0000
Subject: [PATCH 33/74] fix: cardinalities are those of the intermediate as of
 now, and look-up tables stay usable

---
 postbound/opt/_cardinalities.py | 85 +++++++++++++++++++++++++--------
 postbound/opt/native.py         |  4 +-
 postbound/parser.py             |  2 +-
 3 files changed, 69 insertions(+), 22 deletions(-)

diff --git a/postbound/opt/_cardinalities.py b/postbound/opt/_cardinalities.py
index 6102dcf..0c88dfa 100644
--- a/postbound/opt/_cardinalities.py
+++ b/postbound/opt/_cardinalities.py
@@ -1,8 +1,10 @@
 from __future__ import annotations
 
 import json
+import os
 import random
 from collections.abc import Iterable
+from pathlib import Path
 from typing import Literal, Optional
 
 import pandas as pd
@@ -13,10 +15,25 @@ from .._stages import (
     CardinalityEstimator,
 )
 from ..db import Database, DatabasePool
-from ..qal import SqlQuery
+from ..qal import GroupBy, Having, Limit, OrderBy, SqlQuery
 from ..workloads import Workload
 
 
+def _intermediate_query(
+    query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
+) -> Optional[SqlQuery]:
+    """Provides the query that computes exactly the rows of an intermediate result.
+
+    Aggregations, groupings, orderings and limits are not part of the fragment since they only apply to the final result of
+    the query.
+    """
+    fragment = transform.extract_query_fragment(query, intermediate)
+    if fragment is None:
+        return None
+    fragment = transform.drop_clause(fragment, [GroupBy, Having, OrderBy, Limit])
+    return transform.as_star_query(fragment)
+
+
 class PreciseCardinalities(CardinalityEstimator):
     """Cardinality "estimator" that calculates exact cardinalities.
 
@@ -64,12 +81,17 @@ class PreciseCardinalities(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
+        subquery = _intermediate_query(query, intermediate)
         subquery = transform.as_count_star_query(subquery)
-        if subquery in self._cardinality_cache:
+        if self.cache_enabled and subquery in self._cardinality_cache:
             return self._cardinality_cache[subquery]
-        cardinality = Cardinality(self.database.execute_query(subquery))
-        self._cardinality_cache[subquery] = cardinality
+
+        # We must not use the query cache of the database here: our cardinalities should reflect the current data
+        cardinality = Cardinality(
+            self.database.execute_query(subquery, cache_enabled=False)
+        )
+        if self.cache_enabled:
+            self._cardinality_cache[subquery] = cardinality
         return cardinality
 
     def reset_cache(self) -> None:
@@ -176,7 +198,9 @@ class PreComputedCardinalities(CardinalityEstimator):
         self._save_life_fallback = save_live_fallback_results
 
         self._true_card_df = pd.read_csv(
-            lookup_table_path, converters={tables_col: _parse_tables}
+            lookup_table_path,
+            converters={tables_col: _parse_tables},
+            dtype={label_col: str},
         )
 
     def calculate_estimate(
@@ -185,7 +209,7 @@ class PreComputedCardinalities(CardinalityEstimator):
         tables = frozenset(util.enlist(tables))
         label = self._workload.label_of(query)
         relevant_samples = self._true_card_df[
-            self._true_card_df[self._label_col] == label
+            self._true_card_df[self._label_col] == str(label)
         ]
         cardinality_sample = relevant_samples[
             relevant_samples[self._tables_col] == tables
@@ -202,11 +226,13 @@ class PreComputedCardinalities(CardinalityEstimator):
             )
 
         fallback_value = self._attempt_fallback_estimate(n_samples, query, tables)
-        if fallback_value is None and self._error_on_missing_card:
+        if fallback_value is not None:
+            return fallback_value
+        if self._error_on_missing_card:
             raise ValueError(
                 f"No matching sample found for join {tables_debug} in query {label}"
             )
-        return fallback_value
+        return Cardinality.unknown()
 
     def describe(self) -> dict:
         return {
@@ -217,7 +243,7 @@ class PreComputedCardinalities(CardinalityEstimator):
 
     def _attempt_fallback_estimate(
         self, n_samples: int, query: SqlQuery, tables: frozenset[TableReference]
-    ) -> Cardinality:
+    ) -> Optional[Cardinality]:
         """Tries to infer the fallback value for a specific estimate, if this is necessary.
 
         The inference strategy applies the following rules:
@@ -238,8 +264,8 @@ class PreComputedCardinalities(CardinalityEstimator):
 
         Returns
         -------
-        Cardinality
-            The fallback value if it could be inferred, otherwise *NaN*.
+        Optional[Cardinality]
+            The fallback value if it could be inferred, otherwise *None*.
         """
         if n_samples == 1:
             # If we found exactly one sample, we did not need to fall back at all
@@ -248,11 +274,11 @@ class PreComputedCardinalities(CardinalityEstimator):
         if self._default_card is not None:
             return self._default_card
         if self._live_db is None:
-            return Cardinality.unknown()
+            return None
 
-        query_fragment = transform.extract_query_fragment(query, tables)
+        query_fragment = _intermediate_query(query, tables)
         if not query_fragment:
-            return Cardinality.unknown()
+            return None
 
         if self._live_fallback_style == "actual":
             true_card_query = transform.as_count_star_query(query_fragment)
@@ -284,8 +310,8 @@ class PreComputedCardinalities(CardinalityEstimator):
             The computed cardinality
         """
         result_row = {}
-        result_row[self._label_col] = [self._workload.label_of(query)]
-        result_row[self._tables_col] = [util.to_json(tables)]
+        result_row[self._label_col] = [str(self._workload.label_of(query))]
+        result_row[self._tables_col] = [set(tables)]
 
         if "query" in self._true_card_df.columns:
             result_row["query"] = [str(query)]
@@ -294,13 +320,34 @@ class PreComputedCardinalities(CardinalityEstimator):
                 str(transform.extract_query_fragment(query, tables))
             ]
 
-        result_row[self._card_col] = [cardinality]
+        result_row[self._card_col] = [
+            cardinality.value if cardinality.is_valid() else cardinality.get()
+        ]
         result_df = pd.DataFrame(result_row)
 
         self._true_card_df = pd.concat(
             [self._true_card_df, result_df], ignore_index=True
         )
-        self._true_card_df.to_csv(self._lookup_df_path, index=False)
+        self._write_lookup_table()
+
+    def _write_lookup_table(self) -> None:
+        """Stores the lookup table such that it can be loaded again.
+
+        There always is a complete version of the file, even if writing fails midway.
+        """
+        lookup_df = self._true_card_df.copy()
+        lookup_df[self._tables_col] = lookup_df[self._tables_col].map(
+            lambda tables: util.to_json(sorted(tables))
+        )
+
+        lookup_path = Path(self._lookup_df_path)
+        tmp_file = lookup_path.with_name(f".tmp_{lookup_path.name}")
+        try:
+            lookup_df.to_csv(tmp_file, index=False)
+            os.replace(tmp_file, lookup_path)
+        except BaseException:
+            tmp_file.unlink(missing_ok=True)
+            raise
 
 
 class CardinalityDistortion(CardinalityEstimator):
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index a108970..120ce95 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -48,6 +48,7 @@ from ..db import Database, DatabaseServerError, DatabaseUserError
 from ..postgres import PostgresInterface
 from ..qal import ColumnExpression, OrderBy, SqlQuery
 from ..util import jsondict
+from ._cardinalities import _intermediate_query
 
 
 class CostEstimationWarning(UserWarning):
@@ -421,8 +422,7 @@ class NativeCardinalityEstimator(CardinalityEstimator):
         self, query: SqlQuery, intermediate: TableReference | Iterable[TableReference]
     ) -> Cardinality:
         intermediate = util.enlist(intermediate)
-        subquery = transform.extract_query_fragment(query, intermediate)
-        subquery = transform.as_star_query(subquery)
+        subquery = _intermediate_query(query, intermediate)
         return self._target_db.optimizer().cardinality_estimate(subquery)
 
     def describe(self) -> jsondict:
diff --git a/postbound/parser.py b/postbound/parser.py
index ba756a0..d80dfb8 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -2396,7 +2396,7 @@ def load_table_json(json_data):
         json_data.get("full_name", ""),
         json_data.get("alias", ""),
         virtual=json_data.get("virtual", False),
-        schema=json_data.get("schemaname", None),
+        schema=json_data.get("schema"),
     )
 
 
-- 
2.43.0


From 092043cf5e0da4741011a05c10514097e5eaf285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:27 +0000
Subject: [PATCH 34/74] fix: references to a table are not bound to an aliased
 occurrence of the same table

---
 postbound/parser.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index d80dfb8..205f604 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -274,10 +274,17 @@ class QueryNamespace:
         """Namespaces that are induced by CTEs. Entries map alias -> CTE."""
 
         self._table_sources: dict[str, TableReference] = {}
-        """The tables that are part of the FROM clause of the query. Entries map alias -> table.
+        """The tables that are part of the FROM clause of the query. Entries map identifier -> table.
 
-        Tables can be contained in this dictionary multiple times: once for each relevant identifier. If a table has both an
-        alias as well as a full name, both keys will be present.
+        The identifier is the alias of the table, or its full name if the table does not have an alias. See `_aliased_sources`
+        for the full names of aliased tables.
+        """
+
+        self._aliased_sources: dict[str, TableReference] = {}
+        """The aliased tables that are part of the FROM clause of the query. Entries map full name -> table.
+
+        Strictly speaking, the alias hides the full name of a table. Therefore, full names are only used if there is no table
+        that is actually visible under that name (in the current namespace or in one of the outer namespaces).
         """
 
         self._output_shape: list[str] = []
@@ -382,7 +389,9 @@ class QueryNamespace:
         self._current_ctx.append(table)
         if table.alias:
             self._table_sources[table.alias] = table
-        if table.full_name:
+            if table.full_name:
+                self._aliased_sources[table.full_name] = table
+        elif table.full_name:
             self._table_sources[table.full_name] = table
 
     def provides_column(self, name: str) -> bool:
@@ -444,6 +453,10 @@ class QueryNamespace:
         The table can be either provided by this namespace (as a physical table in the *FROM* clause, or defined through a
         subquery/CTE), or by an outer namspace.
         """
+        return self._resolve_visible_table(key) or self._resolve_aliased_table(key)
+
+    def _resolve_visible_table(self, key: str) -> Optional[TableReference]:
+        """Searches for the table that is visible under a specific name."""
         sourced_table = self._table_sources.get(key)
         if sourced_table:
             return sourced_table
@@ -451,7 +464,15 @@ class QueryNamespace:
         if key in self._cte_sources:
             return TableReference.create_virtual(key)
 
-        return self._parent.resolve_table(key) if self._parent else None
+        return self._parent._resolve_visible_table(key) if self._parent else None
+
+    def _resolve_aliased_table(self, key: str) -> Optional[TableReference]:
+        """Searches for an aliased table with a specific full name."""
+        aliased_table = self._aliased_sources.get(key)
+        if aliased_table:
+            return aliased_table
+
+        return self._parent._resolve_aliased_table(key) if self._parent else None
 
     def open_nested(
         self,
-- 
2.43.0


From ecfc51fb96430cde4cb8f761924504d0d7d829a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 35/74] fix: base tables without predicates receive cardinality
 estimates

---
 postbound/_stages.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/postbound/_stages.py b/postbound/_stages.py
index 6b42336..5072f60 100644
--- a/postbound/_stages.py
+++ b/postbound/_stages.py
@@ -712,8 +712,10 @@ class CardinalityEstimator(ParameterGeneration, abc.ABC):
                 not candidate_join
             ):  # skip empty set (which is an artefact of the powerset method)
                 continue
-            if not self.allow_cross_products and not query.predicates().joins_tables(
-                candidate_join
+            if (
+                len(candidate_join) > 1  # base tables are always available
+                and not self.allow_cross_products
+                and not query.predicates().joins_tables(candidate_join)
             ):
                 continue
             yield frozenset(candidate_join)
-- 
2.43.0


From 8f447d65b271c5016e090a83ece111367307efb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:41 +0000
Subject: [PATCH 36/74] fix: arithmetic expressions keep their brackets when
 they are formatted

---
 postbound/qal/_qal.py | 51 +++++++++++++++++++++++++++++--------------
 1 file changed, 35 insertions(+), 16 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 2bd946d..61d5ee2 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -648,27 +648,38 @@ class MathExpression(SqlExpression):
     ) -> VisitorResult:
         return visitor.visit_math_expr(self, *args, **kwargs)
 
-    def _requires_brackets(self, child: SqlExpression) -> bool:
-        """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order."""
-        if not isinstance(child, MathExpression):
+    def _requires_brackets(self, child: SqlExpression, *, first: bool) -> bool:
+        """Checks, whether some expression must be wrapped in brackets to ensure correct evaluation order.
+
+        Parameters
+        ----------
+        child : SqlExpression
+            The argument to check
+        first : bool
+            Whether the argument is the first (left) one. Since the operators are left-associative, chains of the same
+            operator only need brackets around the second argument.
+        """
+        if isinstance(child, AbstractPredicate):
+            return True
+        if not isinstance(child, MathExpression) or child.is_unary():
             return False
         if child.operator == self.operator:
-            return False
+            return not first
         if (
             self.operator == MathOperator.Concatenate
             or child.operator == MathOperator.Concatenate
         ):
             return True
 
-        lazy_ops = {MathOperator.Add, MathOperator.Multiply, MathOperator.Modulo}
-        eager_ops = {MathOperator.Subtract, MathOperator.Divide}
-
-        strict_brackets = self.operator in eager_ops and child.operator in lazy_ops
-
-        # these brackets are not really required, but we still use them for better readability
-        pretty_brackets = self.operator in lazy_ops and child.operator in eager_ops
-
-        return strict_brackets or pretty_brackets
+        additive_ops = {MathOperator.Add, MathOperator.Subtract}
+        if self.operator in additive_ops:
+            # Multiplications etc. bind stronger than additions and subtractions.
+            # We still use brackets around mixed additions and subtractions for better readability, even if they are the first
+            # argument
+            return child.operator in additive_ops or child.operator in {
+                MathOperator.Divide
+            }
+        return True
 
     __hash__ = SqlExpression.__hash__
 
@@ -683,20 +694,28 @@ class MathExpression(SqlExpression):
     def __str__(self) -> str:
         operator_str = self.operator.value
         if not self.second_arg:
-            return f"{operator_str}{self.first_arg}"
+            # we also need brackets around negative numbers, because "--" would start a comment
+            is_atomic = not isinstance(
+                self.first_arg, (MathExpression, AbstractPredicate)
+            ) and not str(self.first_arg).startswith("-")
+            return (
+                f"{operator_str}{self.first_arg}"
+                if is_atomic
+                else f"{operator_str}({self.first_arg})"
+            )
         if isinstance(self.second_arg, tuple):
             all_args = [self.first_arg] + list(self.second_arg)
             return operator_str.join(f"({arg})" for arg in all_args)
         first_str = (
             f"({self.first_arg})"
-            if self._requires_brackets(self.first_arg)
+            if self._requires_brackets(self.first_arg, first=True)
             else str(self.first_arg)
         )
 
         assert isinstance(self.second_arg, SqlExpression)
         second_str = (
             f"({self.second_arg})"
-            if self._requires_brackets(self.second_arg)
+            if self._requires_brackets(self.second_arg, first=False)
             else str(self.second_arg)
         )
         return f"{first_str} {operator_str} {second_str}"
-- 
2.43.0


From 7525c07ae3da179c4c621c869c52422f3082b863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:47 +0000
Subject: [PATCH 37/74] fix: negated conjunctions and compared predicates keep
 their brackets when they are formatted

---
 postbound/qal/_qal.py | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 61d5ee2..bdc1229 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -2645,7 +2645,12 @@ class BinaryPredicate(BasePredicate):
         )
 
     def __str__(self) -> str:
-        return f"{self.first_argument} {self.operation.value} {self.second_argument}"
+        # comparisons are not associative, e.g. (a < b) = (c < d) requires brackets
+        first_str, second_str = (
+            f"({arg})" if isinstance(arg, AbstractPredicate) else str(arg)
+            for arg in (self.first_argument, self.second_argument)
+        )
+        return f"{first_str} {self.operation.value} {second_str}"
 
 
 class BetweenPredicate(BasePredicate):
@@ -3368,9 +3373,16 @@ class CompoundPredicate(AbstractPredicate):
                 raise ValueError(f"Unknown operation: '{self.operation}'")
 
     def _stringify_not(self) -> str:
-        if not isinstance(self.children, InPredicate):
-            return f"NOT {self.children}"
-        return f"{self.children.column} NOT IN {self.children._stringify_values()}"
+        child = self.children
+        if isinstance(child, InPredicate):
+            return f"{child.column} NOT IN {child._stringify_values()}"
+        if (
+            isinstance(child, CompoundPredicate)
+            and child.operation == CompoundOperator.And
+        ):
+            # NOT binds stronger than AND. ORs already come with their own brackets
+            return f"NOT ({child})"
+        return f"NOT {child}"
 
     __hash__ = AbstractPredicate.__hash__
 
-- 
2.43.0


From 0de4244bc9b002ed4c35acc1d30cc078fd2775e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:54 +0000
Subject: [PATCH 38/74] fix: set operations and quantified subqueries are
 formatted as valid SQL with their brackets

---
 postbound/qal/_qal.py | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index bdc1229..c94422c 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -1625,7 +1625,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ANY expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.Any)
@@ -1635,7 +1635,7 @@ class QuantifierExpression(SqlExpression):
         """Create an ALL expression."""
         expression = (
             SubqueryExpression(expression)
-            if isinstance(expression, SqlQuery)
+            if isinstance(expression, (SqlQuery, SetQuery))
             else expression
         )
         return QuantifierExpression(expression, quantifier=QuantifierOperator.All)
@@ -1693,6 +1693,9 @@ class QuantifierExpression(SqlExpression):
         )
 
     def __str__(self) -> str:
+        if isinstance(self.expression, SubqueryExpression):
+            # subqueries already contain brackets, adding more of them would turn the subquery into a scalar one
+            return f"{self.quantifier.value} {self.expression}"
         return f"{self.quantifier.value} ({self.expression})"
 
 
@@ -7689,6 +7692,19 @@ class Limit(BaseClause):
         return ""
 
 
+def _stringify_set_input(query: SelectStatement) -> str:
+    """Provides the text of a query that is used as input to a set operation.
+
+    Nested set operations, as well as clauses that would otherwise be applied to the result of the set operation are wrapped in
+    brackets.
+    """
+    query_str = query.stringify(trailing_delimiter=False)
+    requires_brackets = isinstance(query, SetQuery) or (
+        query.cte_clause or query.orderby_clause or query.limit_clause
+    )
+    return f"({query_str})" if requires_brackets else query_str
+
+
 class UnionClause(BaseClause):
     """The *UNION* or *UNION ALL* clause of a query.
 
@@ -7811,8 +7827,8 @@ class UnionClause(BaseClause):
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_input(self._lhs)
+        rhs_str = _stringify_set_input(self._rhs)
         union_str = "UNION ALL" if self._union_all else "UNION"
         return f"{lhs_str} {union_str} {rhs_str}"
 
@@ -7886,12 +7902,13 @@ class ExceptClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_input(self._lhs)
+        rhs_str = _stringify_set_input(self._rhs)
         return f"{lhs_str} EXCEPT {rhs_str}"
 
 
@@ -7981,12 +7998,13 @@ class IntersectClause(BaseClause):
     def __eq__(self, other: object) -> bool:
         return (
             isinstance(other, type(self))
-            and self._partner_query == other._partner_query
+            and self._lhs == other._lhs
+            and self._rhs == other._rhs
         )
 
     def __str__(self) -> str:
-        lhs_str = self._lhs.stringify(trailing_delimiter=False)
-        rhs_str = self._rhs.stringify(trailing_delimiter=True)
+        lhs_str = _stringify_set_input(self._lhs)
+        rhs_str = _stringify_set_input(self._rhs)
         return f"{lhs_str} INTERSECT {rhs_str}"
 
 
@@ -9988,9 +10006,7 @@ class SetQuery:
         """
         delim = ";" if trailing_delimiter else ""
         return (
-            "".join(
-                _stringify_clause(clause).rstrip("; ") for clause in self.clauses()
-            ).rstrip()
+            "".join(_stringify_clause(clause) for clause in self.clauses()).rstrip()
             + delim
         )
 
-- 
2.43.0


From 92afd07f527f51acdb8a9e3bc03e62ed81bafd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:00 +0000
Subject: [PATCH 39/74] fix: LIMIT 0 and OFFSET 0 are kept, LIMIT ALL does not
 restrict the result set

---
 postbound/parser.py         | 23 +++++++++++++++--------
 postbound/postgres.py       |  6 +++---
 postbound/qal/_formatter.py | 18 ++++++++++++------
 3 files changed, 30 insertions(+), 17 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 205f604..1e5bb94 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -1886,17 +1886,24 @@ def _pglast_parse_limit(
     raw_offset: Optional[dict] = pglast_data.get("limitOffset", None)
     if raw_limit is None and raw_offset is None:
         return None
+    if pglast_data["limitOption"] == "LIMIT_OPTION_WITH_TIES":
+        raise ParserError("FETCH ... WITH TIES is not yet supported")
 
     if raw_limit is not None:
-        # for LIMIT ALL there is no second ival, but instead an "isnull" member that is set to true
-        raw_limit = raw_limit["A_Const"]["ival"]
-        nrows: int | None = raw_limit["ival"] if "ival" in raw_limit else None
+        # for LIMIT ALL there is no ival, but instead an "isnull" member that is set to true
+        # for LIMIT 0 there is no second ival, because zeros are not serialized
+        raw_limit = raw_limit["A_Const"]
+        nrows: int | None = (
+            None if raw_limit.get("isnull") else raw_limit["ival"].get("ival", 0)
+        )
     else:
         nrows = None
     if raw_offset is not None:
         offset: int = raw_offset["A_Const"]["ival"].get("ival", 0)
     else:
         offset = None
+    if nrows is None and offset is None:
+        return None
 
     normalized_query = query_txt.lower()
     contains_standard_limit = (
@@ -1981,7 +1988,7 @@ def _pglast_parse_setop(
     else:
         order_clause = None
 
-    if pglast_data["limitOption"] == "LIMIT_OPTION_COUNT":
+    if pglast_data["limitOption"] != "LIMIT_OPTION_DEFAULT":
         limit_clause = _pglast_parse_limit(
             pglast_data, namespace=parent_namespace, query_txt=query_txt
         )
@@ -2109,13 +2116,13 @@ def _pglast_parse_query(
         )
         clauses.append(order_clause)
 
-    if stmt["limitOption"] == "LIMIT_OPTION_COUNT":
+    if stmt["limitOption"] != "LIMIT_OPTION_DEFAULT":
         limit_clause = _pglast_parse_limit(
             stmt, namespace=namespace, query_txt=query_txt
         )
-        if limit_clause is None:
-            raise ParserError(f"Malformed LIMIT/OFFSET clause for query {query_txt}")
-        clauses.append(limit_clause)
+        if limit_clause is not None:
+            # LIMIT ALL does not restrict the result set, so there is no clause
+            clauses.append(limit_clause)
 
     return build_query(clauses)
 
diff --git a/postbound/postgres.py b/postbound/postgres.py
index 8f7a5c4..ab676cb 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2225,11 +2225,11 @@ class PostgresLimitClause(Limit):
         if self.fetch_direction != "first":
             return super().__str__()
 
-        if self.limit and self.offset:
+        if self.limit is not None and self.offset is not None:
             return f"LIMIT {self.limit} OFFSET {self.offset}"
-        elif self.limit:
+        elif self.limit is not None:
             return f"LIMIT {self.limit}"
-        elif self.offset:
+        elif self.offset is not None:
             return f"OFFSET {self.offset}"
         else:
             return ""
diff --git a/postbound/qal/_formatter.py b/postbound/qal/_formatter.py
index 80b7118..288c06f 100644
--- a/postbound/qal/_formatter.py
+++ b/postbound/qal/_formatter.py
@@ -588,24 +588,30 @@ def _quick_format_limit(limit_clause: Limit, *, flavor: SqlDialect) -> list[str]
     match flavor:
         case "vanilla":
             fetch_direction = limit_clause.fetch_direction.upper()
-            if limit_clause.limit and limit_clause.offset:
+            if (
+                limit_clause.limit is not None
+                and limit_clause.offset is not None
+            ):
                 return [
                     f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY",
                     f"OFFSET {limit_clause.offset} ROWS",
                 ]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"FETCH {fetch_direction} {limit_clause.limit} ROWS ONLY"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset} ROWS"]
             else:
                 return []
 
         case "postgres" if limit_clause.fetch_direction in {"first", "next"}:
-            if limit_clause.limit and limit_clause.offset:
+            if (
+                limit_clause.limit is not None
+                and limit_clause.offset is not None
+            ):
                 return [f"LIMIT {limit_clause.limit}", f"OFFSET {limit_clause.offset}"]
-            elif limit_clause.limit:
+            elif limit_clause.limit is not None:
                 return [f"LIMIT {limit_clause.limit}"]
-            elif limit_clause.offset:
+            elif limit_clause.offset is not None:
                 return [f"OFFSET {limit_clause.offset}"]
             return []
 
-- 
2.43.0


From ac4b275c094a4842c92f45ab8e6ff504f7fd3217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:07 +0000
Subject: [PATCH 40/74] fix: the parser refuses syntax that it would drop
 silently

---
 postbound/parser.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/postbound/parser.py b/postbound/parser.py
index 1e5bb94..c5fddfc 100644
--- a/postbound/parser.py
+++ b/postbound/parser.py
@@ -695,6 +695,9 @@ def _pglast_parse_const(pglast_data: dict) -> StaticValueExpression:
             raise ParserError("Unknown constant type: " + str(pglast_data))
 
 
+_PglastDefaultWindowFrame: int = 1058
+"""The value that pglast uses for window functions without an explicit frame (see *FRAMEOPTION_DEFAULTS* in Postgres)."""
+
 _PglastOperatorMap: dict[str, SqlOperator] = {
     "=": LogicalOperator.Equal,
     "<": LogicalOperator.Less,
@@ -1027,6 +1030,8 @@ def _pglast_parse_expression(
             "over" not in pglast_data["FuncCall"]
         ):  # normal functions, aggregates and UDFs
             expression: dict = pglast_data["FuncCall"]
+            if "agg_order" in expression or expression.get("agg_within_group", False):
+                raise ParserError("Ordered aggregates are not yet supported")
             funcname = ".".join(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
@@ -1060,13 +1065,22 @@ def _pglast_parse_expression(
                 elem["String"]["sval"] for elem in expression["funcname"]
             )
 
-            args = [
-                _pglast_parse_expression(arg, namespace=namespace, query_txt=query_txt)
-                for arg in expression.get("args", [])
-            ]
+            if expression.get("agg_star", False):
+                args = [StarExpression()]
+            else:
+                args = [
+                    _pglast_parse_expression(
+                        arg, namespace=namespace, query_txt=query_txt
+                    )
+                    for arg in expression.get("args", [])
+                ]
             fn = FunctionExpression(funcname, args)
 
             window_spec: dict = expression["over"]
+            if "name" in window_spec or "refname" in window_spec:
+                raise ParserError("Named windows are not yet supported")
+            if window_spec["frameOptions"] != _PglastDefaultWindowFrame:
+                raise ParserError("Window frames are not yet supported")
 
             if "partitionClause" in window_spec:
                 partition = [
@@ -1152,11 +1166,11 @@ def _pglast_parse_expression(
                 return InPredicate.subquery(testexpr, subquery)
 
             if sublink_type == "ANY_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.any(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             elif sublink_type == "ALL_SUBLINK":
-                operator = _PglastOperatorMap[expression["operName"]]
+                operator = _pglast_parse_operator(expression["operName"])
                 subquery_expression = QuantifierExpression.all(subquery)
                 return BinaryPredicate(operator, testexpr, subquery_expression)
             else:
@@ -1494,6 +1508,9 @@ def _pglast_parse_from_entry(
 
         case "JoinExpr":
             join_expr: dict = pglast_data["JoinExpr"]
+            if join_expr.get("isNatural", False) or "usingClause" in join_expr:
+                # the join condition is only implicit in these cases and we don't have the required schema information
+                raise ParserError("NATURAL JOIN and JOIN USING are not yet supported")
             match join_expr["jointype"]:
                 case "JOIN_INNER" if "quals" in join_expr:
                     join_type = JoinType.InnerJoin
-- 
2.43.0


From 797102a80f7e943d51ad5535ae88c066db55f19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:13 +0000
Subject: [PATCH 41/74] fix: query fragments keep negated predicates,
 equivalence classes contain only equal columns and keep the other predicates

---
 postbound/qal/_qal.py  | 11 +++++++----
 postbound/transform.py | 32 +++++++++++++++++++++++++-------
 2 files changed, 32 insertions(+), 11 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index c94422c..9043142 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3618,11 +3618,14 @@ def determine_join_equivalence_classes(
 
     equivalence_graph = nx.Graph()
     for predicate in join_predicates:
-        columns = predicate.columns()
-        if not len(columns) == 2:
+        first_arg, second_arg = predicate.first_argument, predicate.second_argument
+        if not (
+            isinstance(first_arg, ColumnExpression)
+            and isinstance(second_arg, ColumnExpression)
+        ):
+            # a predicate such as a = b + 1 does not make a and b equal
             continue
-        col_a, col_b = columns
-        equivalence_graph.add_edge(col_a, col_b)
+        equivalence_graph.add_edge(first_arg.column, second_arg.column)
 
     equivalence_classes: set[frozenset[ColumnReference]] = set()
     for equivalence_class in nx.connected_components(equivalence_graph):
diff --git a/postbound/transform.py b/postbound/transform.py
index 98d31c7..a0f7e7f 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -276,6 +276,10 @@ def _get_predicate_fragment(
         return predicate if predicate.tables().issubset(referenced_tables) else None
 
     compound_predicate: CompoundPredicate = predicate
+    if compound_predicate.operation == CompoundOperator.Not:
+        # the negation of a fragment is not a fragment of the negation, so we can only use negations as a whole
+        return predicate if predicate.tables().issubset(referenced_tables) else None
+
     child_fragments = [
         _get_predicate_fragment(child, referenced_tables)
         for child in compound_predicate.children
@@ -283,10 +287,7 @@ def _get_predicate_fragment(
     child_fragments = [fragment for fragment in child_fragments if fragment]
     if not child_fragments:
         return None
-    elif (
-        len(child_fragments) == 1
-        and compound_predicate.operation != CompoundOperator.Not
-    ):
+    elif len(child_fragments) == 1:
         return child_fragments[0]
     else:
         return CompoundPredicate(compound_predicate.operation, child_fragments)
@@ -658,12 +659,29 @@ def add_ec_predicates(query: ImplicitSqlQuery) -> ImplicitSqlQuery:
     """
     if not query.where_clause:
         return query
-    predicates = query.predicates()
+    current_predicate = flatten_and_predicate(query.where_clause.predicate)
+    current_predicates = (
+        current_predicate.children
+        if isinstance(current_predicate, CompoundPredicate)
+        and current_predicate.operation == CompoundOperator.And
+        else [current_predicate]
+    )
 
-    ec_classes = determine_join_equivalence_classes(predicates.joins())
+    ec_classes = determine_join_equivalence_classes(current_predicates)
     ec_predicates = generate_predicates_for_equivalence_classes(ec_classes)
+    ec_columns = {frozenset(pred.columns()) for pred in ec_predicates}
+
+    # we need to retain all predicates that are not part of an equivalence class, e.g. non-equi joins
+    remaining_predicates = [
+        pred
+        for pred in current_predicates
+        if not (
+            determine_join_equivalence_classes([pred])
+            and frozenset(pred.columns()) in ec_columns
+        )
+    ]
 
-    all_predicates = list(ec_predicates) + list(predicates.filters())
+    all_predicates = list(ec_predicates) + remaining_predicates
     updated_where_clause = Where(CompoundPredicate.create_and(all_predicates))
 
     return replace_clause(query, updated_where_clause)
-- 
2.43.0


From ba6f85a2fd8e3718a5f9776abd22688a4085aac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:19 +0000
Subject: [PATCH 42/74] fix: CASE, window and aggregate expressions report all
 columns they use

---
 postbound/qal/_qal.py  | 44 ++++++++++++++----------------------------
 postbound/transform.py | 12 ++++++++----
 2 files changed, 22 insertions(+), 34 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 9043142..a03452f 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -601,7 +601,7 @@ class MathExpression(SqlExpression):
 
     def tables(self) -> set[TableReference]:
         all_tables = set(self.first_arg.tables())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, (list, tuple)):
             all_tables |= util.set_union(expr.tables() for expr in self.second_arg)
         elif isinstance(self.second_arg, SqlExpression):
             all_tables |= self.second_arg.tables()
@@ -609,7 +609,7 @@ class MathExpression(SqlExpression):
 
     def columns(self) -> set[ColumnReference]:
         all_columns = set(self.first_arg.columns())
-        if isinstance(self.second_arg, list):
+        if isinstance(self.second_arg, (list, tuple)):
             for expression in self.second_arg:
                 all_columns |= expression.columns()
         elif isinstance(self.second_arg, SqlExpression):
@@ -1016,7 +1016,8 @@ class FunctionExpression(SqlExpression):
         return all_columns
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        return list(self.arguments)
+        filter_children = [self._filter_expr] if self._filter_expr else []
+        return list(self.arguments) + filter_children
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1418,22 +1419,14 @@ class WindowExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        function_children = self.window_function.iterchildren()
-        partitioning_children = util.flatten(
-            expr.iterchildren() for expr in self.partitioning
-        )
         ordering_children = self.ordering.iterexpressions() if self.ordering else []
-        filter_children = (
-            self.filter_condition.iterexpressions() if self.filter_condition else []
-        )
-        return util.flatten(
-            [
-                function_children,
-                partitioning_children,
-                ordering_children,
-                filter_children,
-            ]
-        )
+        filter_children = [self.filter_condition] if self.filter_condition else []
+        return [
+            self.window_function,
+            *self.partitioning,
+            *ordering_children,
+            *filter_children,
+        ]
 
     def accept_visitor(
         self, visitor: SqlExpressionVisitor[VisitorResult], *args, **kwargs
@@ -1557,18 +1550,9 @@ class CaseExpression(SqlExpression):
         return util.flatten(expr.itercolumns() for expr in self.iterchildren())
 
     def iterchildren(self) -> Iterable[SqlExpression]:
-        case_children = util.flatten(
-            list(pred.iterchildren()) + list(expr.iterchildren())
-            for pred, expr in self.cases
-        )
-        expression_children = (
-            list(self.simple_expression.iterchildren())
-            if self.simple_expression
-            else []
-        )
-        else_children = (
-            list(self.else_expression.iterchildren()) if self.else_expression else []
-        )
+        case_children: list[SqlExpression] = util.flatten(self.cases)
+        expression_children = [self.simple_expression] if self.simple_expression else []
+        else_children = [self.else_expression] if self.else_expression else []
         return case_children + expression_children + else_children
 
     def accept_visitor(
diff --git a/postbound/transform.py b/postbound/transform.py
index a0f7e7f..06591d4 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -208,7 +208,8 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
             ):
                 join_working_set.append(current_table_source.left)
                 join_working_set.append(current_table_source.right)
-                additional_predicates.append(current_table_source.join_condition)
+                if current_table_source.join_condition:
+                    additional_predicates.append(current_table_source.join_condition)
             case _:
                 raise ValueError(
                     "Unsupported table source type: " + str(type(current_table_source))
@@ -220,11 +221,14 @@ def explicit_to_implicit(source_query: ExplicitSqlQuery) -> ImplicitSqlQuery:
         final_predicate = CompoundPredicate.create_and(
             [source_query.where_clause.predicate] + additional_predicates
         )
-    else:
+    elif additional_predicates:
         final_predicate = CompoundPredicate.create_and(additional_predicates)
+    else:
+        final_predicate = None
 
-    final_predicate = flatten_and_predicate(final_predicate)
-    final_where_clause = Where(final_predicate)
+    final_where_clause = (
+        Where(flatten_and_predicate(final_predicate)) if final_predicate else None
+    )
 
     return ImplicitSqlQuery(
         select_clause=source_query.select_clause,
-- 
2.43.0


From 7f0d32a9c7c0371e5a2cd80b24f76b01d2f4092c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:24 +0000
Subject: [PATCH 43/74] fix: renaming tables and columns keeps ORDER BY,
 quantifiers and filtered aggregates

---
 postbound/transform.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 06591d4..01496b1 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1547,8 +1547,14 @@ def rename_columns_in_expression(
             rename_columns_in_expression(arg, available_renamings)
             for arg in expression.arguments
         ]
+        renamed_filter = rename_columns_in_predicate(
+            expression.filter_where, available_renamings
+        )
         return FunctionExpression(
-            expression.function, renamed_arguments, distinct=expression.distinct
+            expression.function,
+            renamed_arguments,
+            distinct=expression.distinct,
+            filter_where=renamed_filter,
         )
     elif isinstance(expression, SubqueryExpression):
         return SubqueryExpression(
@@ -2074,7 +2080,7 @@ class _TableReferenceRenamer(
                 )
             )
 
-        return renamed_orderings
+        return OrderBy(renamed_orderings)
 
     def visit_limit_clause(self, clause: Limit, *args, **kwargs) -> Limit:
         return clause
@@ -2263,7 +2269,7 @@ class _TableReferenceRenamer(
         self, expr: QuantifierExpression, *args, **kwargs
     ) -> QuantifierExpression:
         renamed_child = expr.expression.accept_visitor(self)
-        return QuantifierExpression(expr.quantifier, quantifier=renamed_child)
+        return QuantifierExpression(renamed_child, quantifier=expr.quantifier)
 
     def visit_array_expr(
         self, expr: ArrayExpression, *args, **kwargs
@@ -2275,7 +2281,7 @@ class _TableReferenceRenamer(
         self, expr: ArrayAccessExpression, *args, **kwargs
     ) -> ArrayAccessExpression:
         renamed_array = expr.array.accept_visitor(self)
-        renamed_idx = expr.lower_index.accept_visitor(self) if expr.index else None
+        renamed_idx = expr.index.accept_visitor(self) if expr.index else None
         renamed_lower = (
             expr.lower_index.accept_visitor(self) if expr.lower_index else None
         )
-- 
2.43.0


From 374bfee4c39a41f23cf46332c3ea6c1ec3f9bb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:47 +0000
Subject: [PATCH 44/74] fix: parse DuckDB plans with empty results and with
 several scan filters

---
 postbound/duckdb.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/postbound/duckdb.py b/postbound/duckdb.py
index d49a288..4248aa5 100644
--- a/postbound/duckdb.py
+++ b/postbound/duckdb.py
@@ -489,7 +489,10 @@ def _bind_node_to_table(
         candidate: "".join(pred.split()) for candidate, pred in query_filters.items()
     }
 
-    plan_filter: str = scan_node.get("extra_info", {}).get("Filters", "")
+    plan_filter: str | list[str] = scan_node.get("extra_info", {}).get("Filters", "")
+    if isinstance(plan_filter, list):
+        # multiple filters are provided as individual entries
+        plan_filter = " AND ".join(plan_filter)
     plan_filter = "".join(plan_filter.split())
 
     node_trigram = set(stats.trigrams(plan_filter))
@@ -555,7 +558,13 @@ def parse_duckdb_plan(
             "SEQ_SCAN" | "SEQ_SCAN "  # DuckDB has a weird typo in the SEQ_SCAN label
         ) if extras.get("Type", "") == "Index Scan":
             node_type = ScanOperator.IndexScan
-        case "PROJECTION" | "FILTER" | "UNGROUPED_AGGREGATE" | "PERFECT_HASH_GROUP_BY":
+        case (
+            "PROJECTION"
+            | "FILTER"
+            | "UNGROUPED_AGGREGATE"
+            | "PERFECT_HASH_GROUP_BY"
+            | "EMPTY_RESULT"
+        ):
             pass
         case _:
             warnings.warn(f"Unknown node type: {node_type}, ({extras})")
@@ -568,8 +577,10 @@ def parse_duckdb_plan(
     else:
         base_table = None
 
+    # DuckDB does not annotate intermediates that are empty for sure
+    default_card = 0 if node_type == "EMPTY_RESULT" else math.nan
     card_est = float(
-        extras.get("Estimated Cardinality", math.nan)
+        extras.get("Estimated Cardinality", default_card)
     )  # Estimated Cardinality is a string for some reason..
     card_act = raw_plan.get("operator_cardinality", math.nan)
 
-- 
2.43.0


From bcf26c930e6ff8f99c36ace030be7a3758880eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:53 +0000
Subject: [PATCH 45/74] fix: random operator assignments for queries without a
 join order

---
 postbound/opt/randomized.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/postbound/opt/randomized.py b/postbound/opt/randomized.py
index 67c1832..06a7151 100644
--- a/postbound/opt/randomized.py
+++ b/postbound/opt/randomized.py
@@ -399,7 +399,7 @@ class RandomOperatorGenerator:
         )
 
     def random_operator_assignments_for(
-        self, query: SqlQuery, join_order: JoinTree
+        self, query: SqlQuery, join_order: Optional[JoinTree]
     ) -> Generator[PhysicalOperatorAssignment, None, None]:
         """Produces a generator for random operator assignments of the allowed operators.
 
@@ -410,8 +410,9 @@ class RandomOperatorGenerator:
         ----------
         query : SqlQuery
             The query to "optimize"
-        join_order : jointree.JoinTree
-            The join sequence to use. This contains all required tables to be scanned and joins to be performed.
+        join_order : Optional[jointree.JoinTree]
+            The join sequence to use. This contains all required tables to be scanned and joins to be performed. If there is
+            no join order, the intermediates are not known and only scan operators are assigned.
 
         Yields
         ------
@@ -422,11 +423,12 @@ class RandomOperatorGenerator:
         allowed_scans = list(self.allowed_scan_ops) if self._include_scans else []
         allowed_joins = list(self.allowed_join_ops) if self._include_joins else []
         assignment_hashes = set()
+        tables = join_order.tables() if join_order is not None else query.tables()
 
         while True:
             current_assignment = PhysicalOperatorAssignment()
 
-            if self._include_joins:
+            if self._include_joins and join_order is not None:
                 for join in join_order.iterjoins():
                     selected_operator = random.choice(allowed_joins)
                     current_assignment.set_join_operator(
@@ -434,7 +436,7 @@ class RandomOperatorGenerator:
                     )
 
             if self._include_scans:
-                for table in join_order.tables():
+                for table in tables:
                     selected_operator = random.choice(allowed_scans)
                     current_assignment.set_scan_operator(
                         ScanOperatorAssignment(selected_operator, table)
-- 
2.43.0


From fb220b574cf139652e925781c2a6e57c3e1d9f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:00 +0000
Subject: [PATCH 46/74] fix: UES handles all join graphs, filters over several
 tables and 1:1 joins

Tables that can only be reached via PK/FK joins after the last n:m join are no longer lost, cross products may contain
single tables, predicates over several tables are not evaluated on base tables and 1:1 joins have no upper bound.
---
 postbound/opt/_joingraph.py |   9 +--
 postbound/opt/ues.py        | 154 +++++++++++++++++++++++++-----------
 2 files changed, 113 insertions(+), 50 deletions(-)

diff --git a/postbound/opt/_joingraph.py b/postbound/opt/_joingraph.py
index e7425fe..545d328 100644
--- a/postbound/opt/_joingraph.py
+++ b/postbound/opt/_joingraph.py
@@ -491,14 +491,11 @@ class JoinGraph(Mapping[TableReference, TableInfo]):
             Whether there are still n:m joins with at least one free table.
         """
         is_first_join = self.initial()
-        for first_tab, second_tab, predicate in self._graph.edges.data("predicate"):
+        for first_tab, second_tab in self._graph.edges:
             if not self.is_available_join(first_tab, second_tab) and not is_first_join:
                 continue
-            for first_col, second_col in predicate.join_partners():
-                if not self._index_structures[first_col].can_pk_fk_join(
-                    self._index_structures[second_col]
-                ):
-                    return True
+            if self.is_n_m_join(first_tab, second_tab):
+                return True
         return False
 
     def count_consumed_tables(self) -> int:
diff --git a/postbound/opt/ues.py b/postbound/opt/ues.py
index 61e54cb..1370118 100644
--- a/postbound/opt/ues.py
+++ b/postbound/opt/ues.py
@@ -50,11 +50,13 @@ from ..db import Database, DatabasePool, DatabaseStatistics
 from ..qal import (
     AbstractPredicate,
     BaseProjection,
+    CompoundPredicate,
     ImplicitFromClause,
     ImplicitSqlQuery,
     Select,
     SqlQuery,
     Where,
+    collect_subqueries_in_expression,
 )
 from ..validation import (
     DependentSubqueryPreCheck,
@@ -463,6 +465,39 @@ class BaseTableEstimator(abc.ABC):
         return f"BaseTableCardinalityEstimator[{self.name}]"
 
 
+def _base_table_filters(
+    query: SqlQuery, table: TableReference
+) -> Optional[AbstractPredicate]:
+    """Provides the filter predicates that can be evaluated on a single base table.
+
+    In contrast to `QueryPredicates.filters_for`, filters that also reference other tables (e.g. *R.a = 1 OR S.b = 2*) are not
+    included, since these can only be evaluated for a join of the tables.
+
+    Parameters
+    ----------
+    query : SqlQuery
+        The query to retrieve the filters from
+    table : TableReference
+        The table to retrieve the filters for
+
+    Returns
+    -------
+    Optional[AbstractPredicate]
+        A (conjunction of) the filter predicates, or *None* if there are none.
+    """
+    filters: list[AbstractPredicate] = []
+    for predicate in query.predicates().filters():
+        subquery_tables = util.set_union(
+            subquery.tables()
+            for expression in predicate.iterexpressions()
+            for subquery in collect_subqueries_in_expression(expression)
+        )
+        outer_tables = predicate.tables() - subquery_tables
+        if outer_tables == {table}:
+            filters.append(predicate)
+    return CompoundPredicate.create_and(filters) if filters else None
+
+
 class NativeCardinalityEstimator(BaseTableEstimator):
     """Provides cardinality estimates for base tables using the optimizer of some database system.
 
@@ -481,7 +516,7 @@ class NativeCardinalityEstimator(BaseTableEstimator):
         self.query = query
 
     def estimate_for(self, table: TableReference) -> Cardinality:
-        filters = self.query.predicates().filters_for(table)
+        filters = _base_table_filters(self.query, table)
         if not filters:
             return self.estimate_total_rows(table)
 
@@ -529,7 +564,7 @@ class PreciseCardinalityEstimator(BaseTableEstimator):
         select_clause = Select(BaseProjection.count_star())
         from_clause = ImplicitFromClause.create_for(table)
 
-        filters = self.query.predicates().filters_for(table)
+        filters = _base_table_filters(self.query, table)
         where_clause = Where(filters) if filters else None
 
         emulated_query = ImplicitSqlQuery(
@@ -944,19 +979,21 @@ class UESSubqueryPolicy(BranchingPolicy):
         stats_container = self.stats_container
         for first_col, second_col in join.join_partners():
             first_tab, second_tab = first_col.table, second_col.table
-            if join_graph.is_pk_fk_join(first_tab, second_tab):
-                joined_table = first_tab
-            elif join_graph.is_pk_fk_join(second_tab, first_tab):
-                joined_table = second_tab
-            else:
-                continue
-
-            generate_subquery = (
-                stats_container.upper_bounds[joined_table]
-                < stats_container.base_table_estimates[joined_table]
-            )
-            if generate_subquery:
-                return True
+            for joined_table, partner_table in [
+                (first_tab, second_tab),
+                (second_tab, first_tab),
+            ]:
+                if not join_graph.is_pk_fk_join(joined_table, partner_table):
+                    continue
+
+                # 1:1 joins are primary key/foreign key joins in both directions, but there is only an upper bound for the
+                # n:m join partner
+                base_estimate = stats_container.base_table_estimates[joined_table]
+                upper_bound = stats_container.upper_bounds.get(
+                    joined_table, base_estimate
+                )
+                if upper_bound < base_estimate:
+                    return True
 
         return False
 
@@ -1064,20 +1101,27 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         join_graph = JoinGraph(query, self.database.schema())
 
-        if len(query.tables()) == 2:
+        if len(query.tables()) == 2 and not join_graph.contains_cross_products():
             final_join_tree = self._binary_join_optimization(query, join_graph)
         elif join_graph.contains_cross_products():
             # cross-product query is reduced to multiple independent optimization passes
             optimized_components: list[LogicalJoinTree] = []
             for component in join_graph.join_components():
-                # FIXME: join components might consist of single tables!
+                if len(component.query.tables()) == 1:
+                    table = util.simplify(component.query.tables())
+                    base_cardinality = self.stats_container.base_table_estimates[table]
+                    optimized_components.append(
+                        LogicalJoinTree.scan(table, annotation=base_cardinality)
+                    )
+                    continue
+
                 optimized_component = self._clone().optimize_join_order(component.query)
                 if not optimized_component:
                     raise JoinOrderOptimizationError(component.query)
                 optimized_components.append(optimized_component)
 
             # insert cross-products such that the smaller partitions are joined first
-            sorted(optimized_components, key=operator.attrgetter("annotation"))
+            optimized_components.sort(key=operator.attrgetter("annotation"))
             final_join_tree, *remaining_joins = optimized_components
             for remaining_join in remaining_joins:
                 output_cardinality = (
@@ -1133,17 +1177,17 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
         -------
         LogicalJoinTree
             The resulting join tree
-
-        Raises
-        ------
-        AssertionError
-            If the iterative construction failed. This indicates a bug in the implementation of the algorithm, not a mistake by
-            the user.
         """
         self._log_information("Using default UES optimizer")
         join_tree = LogicalJoinTree.empty()
 
-        while join_graph.contains_free_n_m_joins():
+        while join_graph.contains_free_tables():
+            if not join_graph.contains_free_n_m_joins():
+                # The remaining tables can only be reached via primary key/foreign key joins, e.g. because the intermediate
+                # contains a primary key table, but not (yet) its foreign key partner.
+                join_tree = self._insert_cheapest_join(query, join_graph, join_tree)
+                continue
+
             # Update the current upper bounds
             lowest_bound = np.inf
             lowest_bound_table = None
@@ -1269,8 +1313,6 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
                 join_tree, candidate_table, selected_candidate.join_condition
             )
 
-        if join_graph.contains_free_tables():
-            raise AssertionError("Join graph still has free tables remaining!")
         return join_tree
 
     def _binary_join_optimization(
@@ -1361,26 +1403,50 @@ class UESJoinOrderOptimizer(JoinOrderOptimization):
 
         # join partner selection
         while join_graph.contains_free_tables():
-            lowest_bound = np.inf
-            lowest_bound_join = None
-            for candidate_join in join_graph.available_join_paths():
-                current_bound = self.join_estimation.estimate_for(
-                    candidate_join.join_condition, join_graph
-                )
-                if current_bound < lowest_bound:
-                    lowest_bound = current_bound
-                    lowest_bound_join = candidate_join
-
-            join_tree = self._apply_pk_fk_join(
-                query,
-                lowest_bound_join,
-                join_bound=lowest_bound,
-                join_graph=join_graph,
-                current_join_tree=join_tree,
-            )
+            join_tree = self._insert_cheapest_join(query, join_graph, join_tree)
 
         return join_tree
 
+    def _insert_cheapest_join(
+        self,
+        query: ImplicitSqlQuery,
+        join_graph: JoinGraph,
+        current_join_tree: LogicalJoinTree,
+    ) -> LogicalJoinTree:
+        """Joins the next table, selecting the available join with the smallest upper bound.
+
+        Parameters
+        ----------
+        query : ImplicitSqlQuery
+            The query that is being optimized
+        join_graph : JoinGraph
+            The join graph of the query. This structure is mutated as part of the update
+        current_join_tree : LogicalJoinTree
+            The join order that has been determined so far
+
+        Returns
+        -------
+        LogicalJoinTree
+            An updated join tree that includes the selected join as the last (i.e. top-most) join.
+        """
+        lowest_bound = np.inf
+        lowest_bound_join = None
+        for candidate_join in join_graph.available_join_paths():
+            current_bound = self.join_estimation.estimate_for(
+                candidate_join.join_condition, join_graph
+            )
+            if current_bound < lowest_bound:
+                lowest_bound = current_bound
+                lowest_bound_join = candidate_join
+
+        return self._apply_pk_fk_join(
+            query,
+            lowest_bound_join,
+            join_bound=lowest_bound,
+            join_graph=join_graph,
+            current_join_tree=current_join_tree,
+        )
+
     def _table_base_cardinality_ordering(
         self, table: TableReference, join_edge: dict
     ) -> int:
-- 
2.43.0


From e23f5c69565e32e69d09f1e56425143876cd3911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:07 +0000
Subject: [PATCH 47/74] fix: consider merge joins in the Postgres dynamic
 programming optimizer

A binary equi-join has exactly one pair of join partners. Sort keys contain expressions rather than column references,
and partial paths must be built from the partial outer path.
---
 postbound/_qep.py        | 2 +-
 postbound/opt/dynprog.py | 6 +++---
 postbound/opt/native.py  | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/_qep.py b/postbound/_qep.py
index 029066d..1b2de0c 100644
--- a/postbound/_qep.py
+++ b/postbound/_qep.py
@@ -134,7 +134,7 @@ class SortKey:
         For single column references, this essentially checks whether the column is part of the key's equivalence class.
         """
         if isinstance(other, ColumnReference):
-            return other in self._members
+            return ColumnExpression(other) in self._members
 
         if self.ascending != other.ascending:
             return False
diff --git a/postbound/opt/dynprog.py b/postbound/opt/dynprog.py
index 1f88c25..07d675f 100644
--- a/postbound/opt/dynprog.py
+++ b/postbound/opt/dynprog.py
@@ -73,7 +73,7 @@ def _collect_used_columns(
         if table not in star_expression.tables():
             continue
 
-        columns |= schema.columns(table)
+        columns |= set(schema.columns(table))
     return columns
 
 
@@ -1040,7 +1040,7 @@ class PostgresDynProg(PlanEnumerator):
                     continue
 
                 outer_path = (
-                    outer_path
+                    outer_partial
                     if self._is_sorted_by(outer_partial, outer_col)
                     else self._create_sort_path(outer_partial, sort_key=outer_col)
                 )
@@ -1743,7 +1743,7 @@ class PostgresDynProg(PlanEnumerator):
         This method assumes that we indeed only perform a binary equi-join and will break otherwise.
         """
         partners = join_key.join_partners()
-        if len(partners) != 2:
+        if len(partners) != 1:
             # TODO: in all further processing, we ignore the case where a path might be sorted by more than one join key
             # already this should occur very rarely, but it might provide a decent performance boost in those situations
             return None, None
diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 120ce95..35458cf 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -399,7 +399,7 @@ class NativeCostModel(CostModel):
                     and col.column in target_columns
                 )
             )
-            orderby_cols.append(col)
+            orderby_cols.append(col.column)
         orderby_clause = OrderBy.create_for(orderby_cols)
         query_fragment = transform.add_clause(query_fragment, orderby_clause)
 
-- 
2.43.0


From 30852d4fce9bfe58a8078e9fb94e1518c7b4ae86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:14 +0000
Subject: [PATCH 48/74] fix: query fragments without projections of other
 tables' columns and without grouping for SELECT *

---
 postbound/transform.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 01496b1..0c27c03 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -411,6 +411,11 @@ def extract_query_fragment(
         case "keep":
             select_fragment = []
             for target in source_query.select_clause:
+                if isinstance(
+                    target.expression, StarExpression
+                ) and not target.tables().issubset(referenced_tables):
+                    # R.* does not contain any columns, but it cannot be evaluated without R either
+                    continue
                 if target.tables() == referenced_tables or not target.columns():
                     select_fragment.append(target)
 
@@ -451,7 +456,11 @@ def extract_query_fragment(
     else:
         where_clause = None
 
-    if source_query.groupby_clause:
+    # SELECT * does not provide any grouping columns, hence a star projection (no matter whether it was requested or there is
+    # nothing else to select) cannot be combined with the grouping
+    can_group = not select_clause.is_star()
+
+    if source_query.groupby_clause and can_group:
         group_column_fragment = [
             col
             for col in source_query.groupby_clause.group_columns
@@ -466,7 +475,7 @@ def extract_query_fragment(
     else:
         groupby_clause = None
 
-    if source_query.having_clause:
+    if source_query.having_clause and can_group:
         having_fragment = _get_predicate_fragment(
             source_query.having_clause.condition, referenced_tables
         )
-- 
2.43.0


From 649f291754739cb4ea2045881333e6e5a5b06f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:22 +0000
Subject: [PATCH 49/74] fix: join partners of compound predicates with filters

---
 postbound/qal/_qal.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index a03452f..4dbdcd1 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -3335,7 +3335,10 @@ class CompoundPredicate(AbstractPredicate):
         return util.flatten(child.iterexpressions() for child in self._children)
 
     def join_partners(self) -> set[tuple[ColumnReference, ColumnReference]]:
-        return util.set_union(child.join_partners() for child in self._children)
+        self._assert_join_predicate()
+        return util.set_union(
+            child.join_partners() for child in self._children if child.is_join()
+        )
 
     def base_predicates(self) -> Iterable[AbstractPredicate]:
         return util.set_union(set(child.base_predicates()) for child in self._children)
-- 
2.43.0


From e97e40440e674000e4f501519667bc6da1c0ab2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:19 +0000
Subject: [PATCH 50/74] fix: GEQO and parallel worker hints for pg_hint_plan

The genetic optimizer already takes over when the number of tables reaches geqo_threshold. Parallel hints are only valid for
base tables, hence worker hints of an intermediate are set on all of its tables. Only actual worker hints count as additional
ones and workers from the operator assignment take precedence over the plan parameters.
---
 postbound/_hints.py   |  3 +++
 postbound/postgres.py | 22 +++++++++++++++++-----
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index dc4660f..ad5ab8e 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -379,6 +379,9 @@ class PhysicalOperatorAssignment:
                 )
             elif not operator:
                 continue
+            elif not math.isnan(operator.parallel_workers):
+                # workers of the operator assignment take precedence
+                continue
 
             match operator:
                 case ScanOperatorAssignment(op, tab):
diff --git a/postbound/postgres.py b/postbound/postgres.py
index ab676cb..8bb9700 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2265,7 +2265,7 @@ def _generate_pghintplan_hints(
     used_parallel: bool = False
 
     geqo_thresh: str = pg_instance.config["geqo_threshold"]
-    if len(query.tables()) > int(geqo_thresh):
+    if len(query.tables()) >= int(geqo_thresh):
         warnings.warn(
             "Temporarily disabling GEQO. pg_hint_plan only works with the DP optimizer.",
             category=HintWarning,
@@ -2285,7 +2285,7 @@ def _generate_pghintplan_hints(
             if scan.parallel_workers > 1 and not used_parallel:
                 hints.append(f"Parallel({tab} {scan.parallel_workers} hard)")
                 used_parallel = True
-            elif used_parallel:
+            elif scan.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2307,7 +2307,8 @@ def _generate_pghintplan_hints(
                     hints.append(
                         f"Parallel({tab.identifier()} {join.parallel_workers} hard)"
                     )
-            elif used_parallel:
+                used_parallel = True
+            elif join.parallel_workers > 1:
                 warnings.warn(
                     "Cannot set multiple parallel hints for Postgres. Ignoring additional hints.",
                     category=HintWarning,
@@ -2347,6 +2348,10 @@ def _generate_pghintplan_hints(
             hints.append(f"Rows({intermediate} #{card.value})")
 
         for tabs, workers in plan_params.parallel_workers.items():
+            assigned = phys_ops.get(tabs) if phys_ops else None
+            if assigned and not math.isnan(assigned.parallel_workers):
+                # workers of the operator assignment take precedence
+                continue
             if workers == 1:
                 continue
             elif used_parallel:
@@ -2357,8 +2362,15 @@ def _generate_pghintplan_hints(
                 )
                 continue
 
-            intermediate = " ".join(tab.identifier() for tab in tabs)
-            hints.append(f"Parallel({intermediate} {workers} hard)")
+            if len(tabs) > 1:
+                warnings.warn(
+                    "Cannot directly set parallel workers on a join with pg_hint_plan. "
+                    "Setting on all base tables instead.",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+            for tab in tabs:
+                hints.append(f"Parallel({tab.identifier()} {workers} hard)")
             used_parallel = True
 
         for setting, val in plan_params.system_settings.items():
-- 
2.43.0


From ab9f42e2e2c1d7cdd50103453aa9d80eda3cfade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:25 +0000
Subject: [PATCH 51/74] fix: keep operator hints without workers and ignore
 sorts in pg_lab hints

---
 postbound/postgres.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 8bb9700..626007f 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -2449,6 +2449,7 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({table})"
             else:
                 hint = f"{op}({table})"
             hints.append(hint)
@@ -2466,12 +2467,20 @@ def _generate_pglab_hints(
                     category=HintWarning,
                     stacklevel=3,
                 )
+                hint = f"{op}({intermediate})"
             else:
                 hint = f"{op}({intermediate})"
             hints.append(hint)
 
         for tabs, intermediate_op in phys_ops.intermediate_operators.items():
-            op = PGLabOptimizerHints[intermediate_op]
+            op = PGLabOptimizerHints.get(intermediate_op)
+            if not op:
+                warnings.warn(
+                    f"Cannot enforce operator {intermediate_op} with pg_lab. Ignoring this hint",
+                    category=HintWarning,
+                    stacklevel=3,
+                )
+                continue
             intermediate = " ".join(tab.identifier() for tab in tabs)
             hints.append(f"{op}({intermediate})")
 
-- 
2.43.0


From 3d86ab2619e9184e35a004683c77f223a9ea1e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:32 +0000
Subject: [PATCH 52/74] fix: keep the execution mode when merging parameters
 and drop assignments of disabled operators

---
 postbound/_hints.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index ad5ab8e..1d321e2 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -153,13 +153,13 @@ class PhysicalOperatorAssignment:
                 self.scan_operators = {
                     table: current_setting
                     for table, current_setting in self.scan_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case JoinOperator():
                 self.join_operators = {
                     join: current_setting
                     for join, current_setting in self.join_operators.items()
-                    if current_setting != operator
+                    if current_setting.operator != operator
                 }
             case IntermediateOperator():
                 self.intermediate_operators = {
@@ -829,6 +829,11 @@ class PlanParameterization:
         merged_params.system_settings = (
             self.system_settings | other_parameters.system_settings
         )
+        merged_params.execution_mode = (
+            other_parameters.execution_mode
+            if other_parameters.execution_mode is not None
+            else self.execution_mode
+        )
         return merged_params
 
     def drop_workers(self) -> PlanParameterization:
-- 
2.43.0


From 288b71a6da5aefacaa9e2ee88905ce9ccfc7e9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:40 +0000
Subject: [PATCH 53/74] fix: extract hints of plans with bitmap scans, subplans
 and auxiliary operators

Bitmap index scans and other nodes without a known operator no longer break the extraction. Intermediates consist of the
scanned tables only and auxiliary nodes do not contribute their own cardinalities. Workers are also extracted for children.
---
 postbound/_hints.py | 41 ++++++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 1d321e2..15abc4f 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -1795,6 +1795,18 @@ def jointree_from_plan(
         return jointree_from_plan(plan.input_node, card_source=card_source)
 
 
+def _intermediate_of(plan: QueryPlan | LogicalJoinTree) -> frozenset[TableReference]:
+    """Determines the base tables that are combined by a plan node.
+
+    In contrast to `QueryPlan.tables`, this ignores all tables that are only referenced by subplans or by predicates.
+    """
+    if isinstance(plan, LogicalJoinTree):
+        return frozenset(plan.tables())
+    if plan.is_scan():
+        return frozenset([plan.base_table])
+    return frozenset(util.set_union(_intermediate_of(child) for child in plan.children))
+
+
 def parameters_from_plan(
     query_plan: QueryPlan | LogicalJoinTree,
     *,
@@ -1810,6 +1822,7 @@ def parameters_from_plan(
     `fallback_estimated` is set.
     """
     params = PlanParameterization()
+    intermediate = _intermediate_of(query_plan)
 
     if isinstance(query_plan, LogicalJoinTree):
         card = query_plan.annotation
@@ -1825,12 +1838,19 @@ def parameters_from_plan(
                 if query_plan.actual_cardinality.is_valid()
                 else query_plan.estimated_cardinality
             )
+        if query_plan.is_auxiliary():
+            # the output of auxiliary nodes (e.g. aggregations) is not the result of the intermediate
+            card = Cardinality.unknown()
         parallel_workers = query_plan.params.parallel_workers
 
     if not math.isnan(card):
-        params.add_cardinality(query_plan.tables(), card)
-    if parallel_workers:
-        params.set_workers(query_plan.tables(), parallel_workers)
+        params.add_cardinality(intermediate, card)
+    if parallel_workers and intermediate:
+        params.set_workers(intermediate, parallel_workers)
+
+    if not isinstance(query_plan, LogicalJoinTree) and query_plan.is_scan():
+        # children of scan nodes are implementation details, e.g. the index lookups of a bitmap scan
+        return params
 
     for child in query_plan.children:
         child_params = parameters_from_plan(
@@ -1853,7 +1873,9 @@ def operators_from_plan(
     """
     assignment = PhysicalOperatorAssignment()
     if not query_plan.operator and query_plan.input_node:
-        return operators_from_plan(query_plan.input_node)
+        return operators_from_plan(
+            query_plan.input_node, include_workers=include_workers
+        )
 
     workers = query_plan.parallel_workers if include_workers else math.nan
     match query_plan.operator:
@@ -1863,18 +1885,19 @@ def operators_from_plan(
                 query_plan.base_table,
                 workers,
             )
-            assignment.add(operator)
+            # children of scan nodes are implementation details, e.g. the index lookups of a bitmap scan
+            return assignment.add(operator)
         case JoinOperator():
             operator = JoinOperatorAssignment(
                 query_plan.operator,
-                query_plan.tables(),
+                _intermediate_of(query_plan),
                 parallel_workers=workers,
             )
             assignment.add(operator)
-        case _:
-            assignment.add(query_plan.operator, query_plan.tables())
+        case IntermediateOperator():
+            assignment.add(query_plan.operator, _intermediate_of(query_plan))
 
     for child in query_plan.children:
-        child_assignment = operators_from_plan(child)
+        child_assignment = operators_from_plan(child, include_workers=include_workers)
         assignment = assignment.merge_with(child_assignment)
     return assignment
-- 
2.43.0


From 68d078b8cb36b4ec5cd192c7820f2b2c55dfd4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:48 +0000
Subject: [PATCH 54/74] fix: attach the workers of a Gather to its own subplan
 in pg_lab plan hints

Cardinalities are only hinted for scans and joins.
---
 postbound/postgres.py | 40 +++++++++++++++++++++++++++-------------
 1 file changed, 27 insertions(+), 13 deletions(-)

diff --git a/postbound/postgres.py b/postbound/postgres.py
index 626007f..e8f515f 100644
--- a/postbound/postgres.py
+++ b/postbound/postgres.py
@@ -59,6 +59,7 @@ from ._hints import (
     JoinTree,
     PhysicalOperatorAssignment,
     PlanParameterization,
+    _intermediate_of,
     jointree_from_plan,
     operators_from_plan,
     parameters_from_plan,
@@ -2536,12 +2537,19 @@ def _extract_plan_join_order(plan: QueryPlan) -> str:
     return f"({outer} {inner})"
 
 
-def _iter_plan_bfs(plan: QueryPlan) -> Generator[QueryPlan, None, None]:
-    queue = collections.deque([plan])
+def _iter_plan_bfs(
+    plan: QueryPlan,
+) -> Generator[tuple[QueryPlan, Optional[QueryPlan]], None, None]:
+    """Provides all nodes of the plan along with their parent."""
+    queue: collections.deque[tuple[QueryPlan, Optional[QueryPlan]]] = collections.deque(
+        [(plan, None)]
+    )
     while queue:
-        node = queue.popleft()
-        queue.extend(node.children)
-        yield node
+        node, parent = queue.popleft()
+        if not node.is_scan():
+            # children of scan nodes are implementation details, e.g. the index lookups of a bitmap scan
+            queue.extend((child, node) for child in node.children)
+        yield node, parent
 
 
 def _generate_pglab_plan(
@@ -2553,13 +2561,15 @@ def _generate_pglab_plan(
 
     used_parallel = False
     in_upperrel = True
-    par_workers: Optional[int] = None
-    for node in _iter_plan_bfs(plan):
+    pending_workers: dict[int, int] = {}  # workers for the child nodes of a Gather
+    for node, parent in _iter_plan_bfs(plan):
         if node.is_scan() or node.is_join():
             in_upperrel = False
 
         par_workers = (
-            node.parallel_workers if node.parallel_workers > 0 else par_workers
+            node.parallel_workers
+            if node.parallel_workers > 0
+            else pending_workers.get(id(parent))
         )
         if in_upperrel and par_workers and not used_parallel:
             hints.append(f"Result(workers={par_workers})")
@@ -2571,17 +2581,19 @@ def _generate_pglab_plan(
                 category=HintWarning,
                 stacklevel=3,
             )
+            par_workers = None
 
-        if node.operator is None:
-            continue
-        operator = PGLabOptimizerHints.get(node.operator)
+        if node.is_auxiliary() and par_workers:
+            pending_workers[id(node)] = par_workers
+            par_workers = None
+
+        operator = PGLabOptimizerHints.get(node.operator) if node.operator else None
         if not operator:
             continue
-        intermediate = " ".join(tab.identifier() for tab in node.tables())
+        intermediate = " ".join(tab.identifier() for tab in _intermediate_of(node))
 
         if par_workers and not used_parallel:
             metadata = f" (workers={par_workers})"
-            par_workers = None
             used_parallel = True
         elif par_workers and used_parallel:
             metadata = ""
@@ -2594,6 +2606,8 @@ def _generate_pglab_plan(
             metadata = ""
         hints.append(f"{operator}({intermediate}{metadata})")
 
+        if node.is_auxiliary():
+            continue
         card = node.actual_cardinality or node.estimated_cardinality
         if card.is_valid():
             hints.append(f"Card({intermediate} #{card})")
-- 
2.43.0


From e3b101fcfb822e078db4f1572c832c4f8181fa53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:55 +0000
Subject: [PATCH 55/74] fix: update and explode query plans

Updating a plan requires plain dictionaries of its parameters as well as operators rather than operator assignments.
Exploding a plan by its estimates no longer annotates the join tree with actual cardinalities.
---
 postbound/opt/_helpers.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/postbound/opt/_helpers.py b/postbound/opt/_helpers.py
index dfc1e11..687bcf3 100644
--- a/postbound/opt/_helpers.py
+++ b/postbound/opt/_helpers.py
@@ -21,6 +21,7 @@ from .._hints import (
     PhysicalOperatorAssignment,
     PlanParameterization,
     ScanOperatorAssignment,
+    _intermediate_of,
     jointree_from_plan,
     operators_from_plan,
     parameters_from_plan,
@@ -212,37 +213,38 @@ def update_plan(
     """
     query_plan = query_plan.canonical() if simplify else query_plan
 
-    updated_operator = (
-        operators.get(query_plan.tables(), query_plan.operator)
-        if operators
-        else query_plan.operator
+    intermediate = _intermediate_of(query_plan)
+
+    assignment = (
+        operators.get(intermediate)
+        if operators and not query_plan.is_auxiliary()
+        else None
     )
+    updated_operator = assignment.operator if assignment else query_plan.operator
     updated_card_est = (
-        params.cardinalities.get(query_plan.tables(), query_plan.estimated_cardinality)
+        params.cardinalities.get(intermediate, query_plan.estimated_cardinality)
         if params
         else query_plan.estimated_cardinality
     )
     updated_workers = (
-        params.parallel_workers.get(
-            query_plan.tables(), query_plan.params.parallel_workers
-        )
+        params.parallel_workers.get(intermediate, query_plan.params.parallel_workers)
         if params
         else query_plan.params.parallel_workers
     )
 
     updated_params = PlanParams(
-        **(query_plan.params.items() | {"parallel_workers": updated_workers})
+        **(dict(query_plan.params.items()) | {"parallel_workers": updated_workers})
     )
     updated_estimates = PlanEstimates(
-        **(query_plan.estimates.items() | {"estimated_cardinality": updated_card_est})
+        **(dict(query_plan.estimates.items()) | {"cardinality": updated_card_est})
     )
     updated_children = [
-        update_plan(child, operators=operators, params=params)
+        update_plan(child, operators=operators, params=params, simplify=simplify)
         for child in query_plan.children
     ]
 
     return QueryPlan(
-        query_plan.node_type,
+        assignment.operator if assignment else query_plan.node_type,
         operator=updated_operator,
         children=updated_children,
         plan_params=updated_params,
@@ -705,7 +707,10 @@ def explode_query_plan(
         The different components of the query plan
     """
     return (
-        jointree_from_plan(query_plan, card_source=card_source),
+        jointree_from_plan(
+            query_plan,
+            card_source="actual" if card_source == "actual" else "estimates",
+        ),
         operators_from_plan(query_plan),
         parameters_from_plan(query_plan, target_cardinality=card_source),
     )
-- 
2.43.0


From 27b75e675b7b43abcae99dadb457577ba7aa000e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:03 +0000
Subject: [PATCH 56/74] fix: textual form of assignments with intermediate
 operators

---
 postbound/_hints.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/postbound/_hints.py b/postbound/_hints.py
index 15abc4f..8ad3dba 100644
--- a/postbound/_hints.py
+++ b/postbound/_hints.py
@@ -615,11 +615,11 @@ class PhysicalOperatorAssignment:
         )
 
         intermediates_keys = (
-            (intermediate, " ⨝ ".join(tab.identifier() for tab in intermediate))
-            for intermediate in self.intermediate_operators.keys()
+            (operator, " ⨝ ".join(tab.identifier() for tab in intermediate))
+            for intermediate, operator in self.intermediate_operators.items()
         )
         intermediates_str = ", ".join(
-            f"{key}: {intermediate.value}" for intermediate, key in intermediates_keys
+            f"{key}: {operator.value}" for operator, key in intermediates_keys
         )
 
         return f"global=[{global_str}] scans=[{scans_str}] joins=[{joins_str}] intermediates=[{intermediates_str}]"
-- 
2.43.0


From 25e3a438ea1c0522dec54e4a335d47451d401311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 57/74] fix: keep the filter of randomly generated queries with
 exactly one filter

---
 postbound/experiments/querygen.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 98c0593..eb81ef8 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -323,7 +323,7 @@ def generate_query(
                 case CompoundPredicate(op, children) if op == CompoundOperator.And:
                     where_parts.extend(children)
                 case _:
-                    where_parts.append(join_predicates)
+                    where_parts.append(predicates)
 
         where_clause = (
             Where(CompoundPredicate.create_and(where_parts)) if where_parts else None
-- 
2.43.0


From 9e5f79f6689197ed3c6403b12cd25bc2a31b8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 58/74] fix: select filter values of random queries from all
 non-NULL values of quoted columns

---
 postbound/experiments/querygen.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index eb81ef8..ca72b1c 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -9,7 +9,7 @@ from typing import Optional
 import networkx as nx
 
 from .. import postgres, util
-from .._core import ColumnReference, TableReference
+from .._core import ColumnReference, TableReference, quote
 from ..db import Database, DatabasePool, ForeignKeyRef
 from ..qal import (
     AbstractPredicate,
@@ -111,23 +111,25 @@ def _generate_filter(
     # For all other databases, we need to compute the entire result set.
     # In either case, we should never cache the results of this query, even if this might be way more efficient for continuous
     # sampling of queries. The reason is that the number of distinct values can be huge and we don't want to overload the cache
-    estimated_n_rows = target_db.statistics().total_rows(column.table, emulated=False)
-    if isinstance(target_db, postgres.PostgresInterface) and estimated_n_rows > 1000:
-        distinct_template = (
-            """SELECT DISTINCT {col} FROM {tab} TABLESAMPLE BERNOULLI(1)"""
+    sample_clause = ""
+    if isinstance(target_db, postgres.PostgresInterface):
+        # tables that have never been analyzed do not have a row estimate
+        estimated_n_rows = target_db.statistics().total_rows(
+            column.table, emulated=False
         )
-    else:
-        distinct_template = """SELECT DISTINCT {col} FROM {tab}"""
+        if estimated_n_rows is not None and estimated_n_rows > 1000:
+            sample_clause = " TABLESAMPLE BERNOULLI(1)"
 
-    candidate_values = target_db.execute_query(
-        distinct_template.format(col=column.name, tab=column.table.full_name),
+    col, tab = quote(column.name), column.table.qualified_name()
+    candidate_rows = target_db.execute_query(
+        f"SELECT DISTINCT {col} FROM {tab}{sample_clause} WHERE {col} IS NOT NULL",
         cache_enabled=False,
+        raw=True,
     )
-    if not candidate_values:
+    if not candidate_rows:
         return None
-    candidate_values = util.enlist(candidate_values)
 
-    selected_value = random.choice(candidate_values)
+    selected_value = random.choice([row[0] for row in candidate_rows])
     selected_operator = random.choice(candidate_operators)
     filter_predicate = as_predicate(column, selected_operator, selected_value)
     return filter_predicate
-- 
2.43.0


From 51771a7647ba1542941fa61e588331af80318764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 59/74] fix: recognise the numeric types of DuckDB in the
 random query generator

---
 postbound/experiments/querygen.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index ca72b1c..1cdd300 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -137,12 +137,23 @@ def _generate_filter(
 
 def _is_numeric(data_type: str) -> bool:
     """Checks, whether a data type is numeric."""
+    # some systems use upper-case names, or include the precision
+    data_type = data_type.lower().split("(")[0].strip()
     return data_type in {
         "integer",
         "smallint",
+        "tinyint",
         "bigint",
+        "hugeint",
+        "utinyint",
+        "usmallint",
+        "uinteger",
+        "ubigint",
+        "uhugeint",
         "date",
+        "double",
         "double precision",
+        "float",
         "real",
         "numeric",
         "decimal",
-- 
2.43.0


From e844ea9c6b6c8a1c8768a0c2b058f4164e9337fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 60/74] fix: honour the bounds on tables and filters of random
 queries

---
 postbound/experiments/querygen.py | 75 ++++++++++++++++++-------------
 1 file changed, 45 insertions(+), 30 deletions(-)

diff --git a/postbound/experiments/querygen.py b/postbound/experiments/querygen.py
index 1cdd300..c771789 100644
--- a/postbound/experiments/querygen.py
+++ b/postbound/experiments/querygen.py
@@ -247,55 +247,70 @@ def generate_query(
         ]
         schema_graph.remove_nodes_from(nodes_to_remove)
 
-    min_tables = min_tables or 1
-    if not min_tables:
+    undirected_graph = schema_graph.to_undirected()
+    components = list(nx.connected_components(undirected_graph))
+    largest_component = max((len(component) for component in components), default=0)
+
+    min_tables = 1 if min_tables is None else min_tables
+    if min_tables < 1:
         raise ValueError("min_tables must be at least 1")
-    max_tables = max_tables or len(schema_graph.nodes)
-    max_tables = min(max_tables, len(schema_graph.nodes))
+    max_tables = largest_component if max_tables is None else max_tables
+    max_tables = min(max_tables, largest_component)
     if max_tables < min_tables:
         raise ValueError(
             f"max_tables must be at least as large as min_tables. Got {max_tables} (max) and {min_tables} (min)."
         )
 
-    filter_columns = util.flatten(
-        cols for __, cols in schema_graph.nodes(data="columns")
-    )
+    def is_filterable(column: ColumnReference) -> bool:
+        if not filter_key_columns and (
+            db_schema.is_primary_key(column) or db_schema.foreign_keys_on(column)
+        ):
+            return False
+        return not numeric_filters or _is_numeric(
+            schema_graph.nodes[column.table]["data_type"][column]
+        )
+
+    filter_columns: dict[TableReference, list[ColumnReference]] = {
+        tab: [col for col in cols if is_filterable(col)]
+        for tab, cols in schema_graph.nodes(data="columns")
+    }
+
+    # Joins can only be performed within a connected component
+    candidate_tables: list[TableReference] = []
+    max_available_filters = 0
+    for component in components:
+        if len(component) < min_tables:
+            continue
+        candidate_tables.extend(tab for tab in schema_graph.nodes if tab in component)
+        n_columns = sorted((len(filter_columns[tab]) for tab in component), reverse=True)
+        max_available_filters = max(max_available_filters, sum(n_columns[:max_tables]))
+
     min_filters = min_filters or 0
-    max_filters = max_filters or len(filter_columns)
+    max_filters = max_available_filters if max_filters is None else max_filters
+    if min(max_filters, max_available_filters) < min_filters:
+        raise ValueError(
+            f"Cannot generate {min_filters} filters. At most {min(max_filters, max_available_filters)} are possible."
+        )
 
     select_clause = Select.count_star() if count_star else Select.star()
 
     # We generate new queries until the user asks us to stop.
     while True:
-        n_tables = random.randint(min_tables, max_tables)
-
         # We ensure that we always generate a connected join graph by performing a random walk through the schema graph.
         # This way, we can terminate the walk at any point if we have visited enough tables.
-        table_walk = nx_utils.nx_random_walk(schema_graph.to_undirected())
+        first_table = random.choice(candidate_tables)
+        n_reachable = len(nx.node_connected_component(undirected_graph, first_table))
+        n_tables = random.randint(min_tables, min(max_tables, n_reachable))
+        table_walk = nx_utils.nx_random_walk(
+            undirected_graph, starting_node=first_table
+        )
         joined_tables: list[TableReference] = [
             next(table_walk) for _ in range(n_tables)
         ]
 
         available_columns: list[ColumnReference] = util.flatten(
-            [
-                cols
-                for tab, cols in schema_graph.nodes(data="columns")
-                if tab in set(joined_tables)
-            ]
+            [filter_columns[tab] for tab in joined_tables]
         )
-        if not filter_key_columns:
-            available_columns = [
-                col
-                for col in available_columns
-                if not db_schema.is_primary_key(col)
-                and not db_schema.foreign_keys_on(col)
-            ]
-        if numeric_filters:
-            available_columns = [
-                col
-                for col in available_columns
-                if _is_numeric(schema_graph.nodes[col.table]["data_type"][col])
-            ]
 
         from_clause = ImplicitFromClause.create_for(joined_tables)
         join_predicates = (
@@ -305,7 +320,7 @@ def generate_query(
         )
 
         current_max_filters = min(max_filters, len(available_columns))
-        if current_max_filters <= min_filters:
+        if current_max_filters < min_filters:
             # too few columns available, let's just try again
             continue
         else:
-- 
2.43.0


From 71252f6cee3f73e6d4522f62ec90454a83b95dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 61/74] fix: dependency graphs provide a task after all of its
 dependencies

---
 postbound/util/misc.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/postbound/util/misc.py b/postbound/util/misc.py
index 188138d..792d638 100644
--- a/postbound/util/misc.py
+++ b/postbound/util/misc.py
@@ -192,22 +192,24 @@ class DependencyGraph(Generic[T]):
 
     def __iter__(self) -> Generator[T, Any, None]:
         provided_nodes: set[int] = set()
-        for node_id in self._source_nodes:
-            yield self._nodes[node_id]
-
-            provided_nodes.add(node_id)
-            dependency_stack = list(self._dependencies[node_id])
+        open_dependencies = collections.Counter(
+            node_id for nodes in self._dependencies.values() for node_id in nodes
+        )
+        node_stack = list(self._source_nodes)
 
-            while dependency_stack:
-                dep_id = dependency_stack.pop()
-                if dep_id in provided_nodes:
-                    continue
+        # a node may only be provided once all tasks that it depends on have been provided
+        while node_stack:
+            node_id = node_stack.pop()
+            if node_id in provided_nodes:
+                continue
 
-                yield self._nodes[dep_id]
+            yield self._nodes[node_id]
+            provided_nodes.add(node_id)
 
-                provided_nodes.add(dep_id)
-                dependency_stack.extend(self._dependencies[dep_id])
-        provided_nodes = set()
+            for dep_id in self._dependencies.get(node_id, []):
+                open_dependencies[dep_id] -= 1
+                if not open_dependencies[dep_id]:
+                    node_stack.append(dep_id)
 
     def __repr__(self) -> str:
         return str(self)
-- 
2.43.0


From 77f09df3e7693707f38c0763c7de8b5d16010171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 62/74] fix: redraw all placeholders of a template if a
 predicate cannot be satisfied

---
 postbound/experiments/ceb.py | 86 ++++++++++++++----------------------
 1 file changed, 32 insertions(+), 54 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 61191d2..a13a5ef 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -197,6 +197,13 @@ class PredicateGenerator:
 
         self._selected_values: list = []
 
+    @property
+    def max_tries(self) -> int:
+        """How often all placeholders may be drawn in order to obtain a valid value for this predicate."""
+        if self._max_tries is None:
+            return self._parent_generator.max_tries
+        return self._max_tries
+
     @property
     def placeholders(self) -> Iterable[PlaceholderName]:
         """Provides all placeholder keys that are computed by this predicate."""
@@ -208,35 +215,13 @@ class PredicateGenerator:
         Raises
         ------
         SamplingError
-            If no valid value passing all constraints could be found within the maximum number of tries.
+            If no valid value passing all constraints could be found for the current values of the dependencies.
         """
-        if self._max_tries is None:
-            self._max_tries = self._parent_generator.max_tries
-
-        selected_value: list[PlaceHolderValue] | None = None
-        current_try = 0
-        redraw_dependent_values = False
-        while current_try < self._max_tries:
-            current_try += 1
-            try:
-                selected_value = self._next_predicate_value(redraw_dependent_values)
-            except SamplingError:
-                # if we did not find any value, retry but make sure to also refresh all dependent values.
-                redraw_dependent_values = True
-                selected_value = None
-                continue
-
-            if not all(
-                self._value_passes_constraints(key, selected_value)
-                for key in self._key_lookup.keys()
-            ):
-                redraw_dependent_values = True
-                selected_value = None
-                continue
-            else:
-                break
-
-        if not selected_value:
+        selected_value = self._next_predicate_value()
+        if not all(
+            self._value_passes_constraints(key, selected_value)
+            for key in self._key_lookup.keys()
+        ):
             raise SamplingError(
                 f"Did not find a valid value for predicate '{self.name}'"
             )
@@ -278,26 +263,16 @@ class PredicateGenerator:
         value_idx = self._key_lookup[key]
         return self.pred_type[value_idx]
 
-    def _next_predicate_value(
-        self, redraw_dependent_values: bool
-    ) -> tuple[PlaceHolderValue]:
+    def _next_predicate_value(self) -> tuple[PlaceHolderValue]:
         """Calculates the next (tuple of) placeholder values based on the specified selection strategy.
 
         This is the main workhorse method which delegates to all further more specialized methods, e.g. to actually draw
         a value from SQL, or to select a value with weighted propabilities, etc.
-
-        Parameters
-        ----------
-        redraw_dependent_values : bool
-            Whether all predicates that supply dependent values to this predicates should select new values. This is important
-            if we already tried to select a new value but it did not pass all of our constraints.
         """
         if self._template_type == "list" and self._list_allowed_values is not None:
             candidate_values = self._list_allowed_values
         elif self._template_type == "sql":
-            candidate_values = self._collect_candidate_values_from_sql(
-                redraw_dependent_values
-            )
+            candidate_values = self._collect_candidate_values_from_sql()
         else:
             raise ValueError(f"Unknown template type: '{self._template_type}'")
 
@@ -312,19 +287,11 @@ class PredicateGenerator:
             selected_value = [selected_value]
         return selected_value
 
-    def _collect_candidate_values_from_sql(
-        self, redraw_dependent_values: bool
-    ) -> list[tuple[PlaceHolderValue]]:
+    def _collect_candidate_values_from_sql(self) -> list[tuple[PlaceHolderValue]]:
         """Provides all possible candidate values based on an SQL query.
 
         This method is also responsible for generating an adequate SQL query by subsituting all dependent values.
 
-        Parameters
-        ----------
-        redraw_dependent_values : bool
-            Whether all predicates that supply dependent values to this predicates should select new values. This is important
-            if we already tried to select a new value but it did not pass all of our constraints.
-
         Raises
         ------
         SamplingError
@@ -334,9 +301,7 @@ class PredicateGenerator:
         sql_query = self._sql_query
 
         for dep in self.dependencies:
-            dependent_values = self._parent_generator.selected_values(
-                dep, refresh=redraw_dependent_values
-            )
+            dependent_values = self._parent_generator.selected_values(dep)
             sql_query = self._parent_generator.substitute_placeholders(
                 sql_query, dependent_values
             )
@@ -610,8 +575,21 @@ class QueryTemplate:
             )
             dep_graph.add_task(generator, depends_on=dependencies)
 
-        for generator in dep_graph:
-            generator.choose_predicate_values()
+        # Other predicates might depend on the same values as a predicate that cannot be satisfied. To keep the values
+        # consistent, we need to start over with all predicates.
+        failed_tries: collections.Counter[PredicateName] = collections.Counter()
+        complete = False
+        while not complete:
+            complete = True
+            for generator in dep_graph:
+                try:
+                    generator.choose_predicate_values()
+                except SamplingError:
+                    failed_tries[generator.name] += 1
+                    if failed_tries[generator.name] >= generator.max_tries:
+                        raise
+                    complete = False
+                    break
 
         final_query = self.base_query
         for generator in self._predicate_generators.values():
-- 
2.43.0


From 5f3bdba62b3065be0299966c6f5b6be2b6d6abe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 63/74] fix: insert placeholder values as proper literals

---
 postbound/experiments/ceb.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index a13a5ef..75bde14 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -16,6 +16,7 @@ References
 from __future__ import annotations
 
 import collections
+import numbers
 import pathlib
 import random
 import tomllib
@@ -633,12 +634,17 @@ class QueryTemplate:
             value_text = ", ".join(escaped_values)
             return f"({value_text})"
 
-        if dtype in {"text", "varchar", "char", "character varying"}:
-            if pred_type == "LIKE" or pred_type == "ILIKE":
-                value = f"'%{value}%'"
-            return f"'{value}'"
+        if value is None:
+            return "NULL"
 
-        return str(value)
+        is_text = dtype.lower().startswith(("text", "varchar", "char"))
+        if pred_type == "LIKE" or pred_type == "ILIKE":
+            value = f"%{value}%"
+        elif isinstance(value, numbers.Number) and not is_text:
+            return str(value)
+
+        escaped_value = str(value).replace("'", "''")
+        return f"'{escaped_value}'"
 
     def __hash__(self) -> int:
         return hash(self.label)
-- 
2.43.0


From f347df6c1678e72707fd266d64d4b3b168112641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:26 +0000
Subject: [PATCH 64/74] fix: look up unqualified columns of query templates

---
 postbound/experiments/ceb.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 75bde14..141c6d1 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -609,7 +609,7 @@ class QueryTemplate:
         if "." not in colname:
             tables_without_alias = [
                 TableReference(tab)
-                for tab, alias in self._table_aliases
+                for alias, tab in self._table_aliases.items()
                 if tab == alias
             ]
             target_table = self._db_conn.schema().lookup_column(
-- 
2.43.0


From 6873bcbfd24525f316df708d4d35ede253460dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 65/74] fix: read the weights column of template predicates

---
 postbound/experiments/ceb.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 141c6d1..a7a4120 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -692,6 +692,7 @@ def _parse_template_toml(
             ],
             in_pred_min_samples=raw_predicate.get("min_samples", 1),
             in_pred_max_samples=raw_predicate.get("max_samples"),
+            count_column_idx=raw_predicate.get("weights_column"),
             dependencies=[
                 PredicateName(d) for d in raw_predicate.get("dependencies", [])
             ],
-- 
2.43.0


From e3592da2265f0e8f21d73e371403e6873b1f079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 66/74] fix: sample the values of IN predicates

---
 postbound/experiments/ceb.py | 69 ++++++++++++++++++++----------------
 1 file changed, 39 insertions(+), 30 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index a7a4120..0227aa1 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -353,9 +353,10 @@ class PredicateGenerator:
         self, candidate_values: list[tuple[PlaceHolderValue]]
     ) -> tuple[PlaceHolderValue]:
         """Selects placeholder values for *IN* predicates according to the specified sampling strategy."""
-        if len(candidate_values[0]) != 1 or (
-            self._count_col_idx and len(candidate_values[0]) != 2
-        ):
+        pre_weighted = (
+            self._sampling_method == "weighted" and self._count_col_idx is not None
+        )
+        if len(candidate_values[0]) != (2 if pre_weighted else 1):
             raise ValueError(
                 "IN predicates must only compute a single placeholder value"
             )
@@ -365,47 +366,54 @@ class PredicateGenerator:
         if self._sampling_method == "uniform":
             # Uniform sampling is easy: we just need to determine which unique values are available and then choose a
             # correctly-sized subset from them
-            candidate_values = list(set(candidate_values))
-
-            max_values = (
-                len(candidate_values)
-                if self._in_pred_max_samples is None
-                else min(self._in_pred_max_samples, len(candidate_values))
-            )
-            n_values = random.randint(min_values, max_values)
-
-            selected_val = random.sample(candidate_values, k=n_values)
+            population = list({val[0]: None for val in candidate_values})
+            n_values = self._draw_num_values(min_values, len(population))
+            selected_val = random.sample(population, k=n_values)
             return [tuple(selected_val)]
 
         if self._count_col_idx is not None:
             # If weights are already supplied, we just need to extract them
             val_idx = 0 if self._count_col_idx == 1 else 1
-            population, weights = zip(
-                *[(val[val_idx], val[self._count_col_idx]) for val in candidate_values]
-            )
+            weighted_values = {
+                val[val_idx]: val[self._count_col_idx]
+                for val in candidate_values
+                if val[self._count_col_idx] > 0
+            }
         else:
             # Otherwise we calculate our own weights based on the number of occurences of each value
-            counter = collections.Counter([val[0] for val in candidate_values])
-            population, weights = zip(*counter.items())
+            weighted_values = collections.Counter(val[0] for val in candidate_values)
 
-        max_values = (
-            len(population)
-            if self._in_pred_max_samples is None
-            else min(self._in_pred_max_samples, len(population))
-        )
-        n_values = random.randint(min_values, max_values)
+        population, weights = list(weighted_values.keys()), list(weighted_values.values())
+        n_values = self._draw_num_values(min_values, len(population))
 
         # We use numpy's random module here because it supports sampling from a population with custom weights as well as
         # without replacement.
         # But numpy expects propabilities instead of weights, so we need calculate them first
-        weights = np.array(weights)
+        weights = np.array(weights, dtype=float)
         weights = weights / weights.sum()
 
         rng = np.random.default_rng()
-        selected_val: list[PlaceHolderValue] = rng.choice(
-            population, size=n_values, p=weights, replace=False
+        selected_idx = rng.choice(
+            len(population), size=n_values, p=weights, replace=False
+        )
+        return [tuple(population[i] for i in selected_idx)]
+
+    def _draw_num_values(self, min_values: int, n_candidates: int) -> int:
+        """Selects the number of values for an *IN* predicate, based on the number of available candidates.
+
+        Raises
+        ------
+        SamplingError
+            If there are not enough candidates.
+        """
+        max_values = (
+            n_candidates
+            if self._in_pred_max_samples is None
+            else min(self._in_pred_max_samples, n_candidates)
         )
-        return [tuple(selected_val)]
+        if max_values < min_values:
+            raise SamplingError(f"Not enough values found for predicate '{self.name}'")
+        return random.randint(min_values, max_values)
 
     def _value_passes_constraints(
         self, key: PlaceholderName, value: list[PlaceHolderValue]
@@ -414,12 +422,13 @@ class PredicateGenerator:
         if self.predicate_for(key) != "IN":
             return True
 
+        n_values = len(value[self._key_lookup[key]])
         max_allowed_values = (
             self._in_pred_max_samples
             if self._in_pred_max_samples is not None
-            else len(value)
+            else n_values
         )
-        return self._in_pred_min_samples <= len(value) <= max_allowed_values
+        return self._in_pred_min_samples <= n_values <= max_allowed_values
 
     def _assert_values_available(self) -> None:
         """Raises an error if no values have been selected yet."""
-- 
2.43.0


From 641d22107cf62c4324d2ee03a5f3810bc887573c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:27 +0000
Subject: [PATCH 67/74] fix: never generate fewer template queries than
 requested

---
 postbound/experiments/ceb.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/postbound/experiments/ceb.py b/postbound/experiments/ceb.py
index 0227aa1..7f83a34 100644
--- a/postbound/experiments/ceb.py
+++ b/postbound/experiments/ceb.py
@@ -768,14 +768,14 @@ def generate_raw_workload(
     workload_queries: dict[str, str] = {}
     for template in templates:
         generated_count, num_tries = 0, 0
-        while generated_count < queries_per_template and num_tries <= max_tries:
+        while generated_count < queries_per_template:
+            if num_tries >= max_tries:
+                raise SamplingError(
+                    f"Could not generate enough unique queries for template {template.label}"
+                )
             num_tries += 1
             query = template.generate_raw_query()
             if query in generated_queries:
-                if num_tries == max_tries:
-                    raise SamplingError(
-                        "Could not generate enough unique queries for template {template.label}"
-                    )
                 continue
             else:
                 generated_queries.add(query)
-- 
2.43.0


From 2d562188aeb6c90dcd094df63f6b38c7c85b08db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 68/74] fix: estimate the cost of sort nodes without final
 clauses

The fragment whose order is costed kept the HAVING clause and the LIMIT of
the entire query, although its aggregates are not part of the fragment. The
resulting queries were refused by the server, or too cheap.
---
 postbound/opt/native.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 35458cf..b922273 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -231,10 +231,7 @@ class NativeCostModel(CostModel):
         )
 
         # Based on the plan we need to construct a suitable query and retrieve its execution plan.
-        query_fragment = transform.extract_query_fragment(
-            query, plan.tables() | {topped_table}
-        )
-        query_fragment = transform.as_star_query(query_fragment)
+        query_fragment = _intermediate_query(query, plan.tables() | {topped_table})
         topped_query = self.target_db.hinting().generate_hints(
             query_fragment, topped_plan
         )
@@ -337,10 +334,7 @@ class NativeCostModel(CostModel):
         )
 
         # Based on the plan we need to construct a suitable query and retrieve its execution plan.
-        query_fragment = transform.extract_query_fragment(
-            query, plan.tables() | {topped_table}
-        )
-        query_fragment = transform.as_star_query(query_fragment)
+        query_fragment = _intermediate_query(query, plan.tables() | {topped_table})
         topped_query = self.target_db.hinting().generate_hints(
             query_fragment, topped_plan
         )
@@ -383,8 +377,7 @@ class NativeCostModel(CostModel):
         # We just need to be a bit careful because the sort column might not be referenced in the plan, yet, nor must it be
         # present in the query (e.g. for cheap merge joins).
 
-        query_fragment = transform.extract_query_fragment(query, plan.tables())
-        query_fragment = transform.as_star_query(query_fragment)
+        query_fragment = _intermediate_query(query, plan.tables())
         target_columns: set[ColumnReference] = util.set_union(
             [self.target_db.schema().columns(tab) for tab in plan.tables()]
         )
-- 
2.43.0


From ac01867b659fe118a9493719d2c1c4e169dd7633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:53:45 +0000
Subject: [PATCH 69/74] fix: keep the projected columns of query fragments

Columns of some of the fragment's tables were dropped, unless they referenced
all of its tables at once.
---
 postbound/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 0c27c03..4e27199 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -416,7 +416,7 @@ def extract_query_fragment(
                 ) and not target.tables().issubset(referenced_tables):
                     # R.* does not contain any columns, but it cannot be evaluated without R either
                     continue
-                if target.tables() == referenced_tables or not target.columns():
+                if target.tables().issubset(referenced_tables):
                     select_fragment.append(target)
 
             if select_fragment:
-- 
2.43.0


From fd8cd137f1d95ab4ae0025c47befb7f0941f44d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 70/74] fix: find the costs of materialize and memoize nodes

---
 postbound/opt/native.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index b922273..5d50195 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -246,8 +246,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Materialize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Materialize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
@@ -349,8 +349,8 @@ class NativeCostModel(CostModel):
 
         # Finally, we need to extract the cost estimate of the materialize node.
         intermediate_node = topped_explain.find_first_node(
-            lambda node: node.node_type == IntermediateOperator.Memoize
-            and node.tables == plan.tables()
+            lambda node: node.operator == IntermediateOperator.Memoize
+            and node.tables() == plan.tables()
         )
         if not intermediate_node:
             warnings.warn(
-- 
2.43.0


From f87915065a026082e7ba12efcddda28d0715fa9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 71/74] fix: price sorts by expressions as infinite instead of
 raising StopIteration

---
 postbound/opt/native.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/postbound/opt/native.py b/postbound/opt/native.py
index 5d50195..8333ae2 100644
--- a/postbound/opt/native.py
+++ b/postbound/opt/native.py
@@ -390,8 +390,15 @@ class NativeCostModel(CostModel):
                     for col in sort_key.equivalence_class
                     if isinstance(col, ColumnExpression)
                     and col.column in target_columns
-                )
+                ),
+                None,
             )
+            if col is None:
+                warnings.warn(
+                    "Can only estimate the cost of sort nodes for plain columns. Returning infinite costs.",
+                    category=CostEstimationWarning,
+                )
+                return math.inf
             orderby_cols.append(col.column)
         orderby_clause = OrderBy.create_for(orderby_cols)
         query_fragment = transform.add_clause(query_fragment, orderby_clause)
-- 
2.43.0


From 3828bc049e41906a8cc6109a1c9f717dc22d6873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 72/74] fix: rename columns and tables of set queries

rename_columns_in_query accessed the HAVING clause of set queries and passed
the set operation as a positional argument. The table renamer passed the
dictionaries of visited clauses to the set clauses instead of queries.
---
 postbound/transform.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 4e27199..6e5d4c8 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1388,7 +1388,6 @@ def rename_columns_in_query[T: SelectStatement](
         was added later on.
     """
     renamed_cte = rename_columns_in_clause(query.cte_clause, available_renamings)
-    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
     renamed_orderby = rename_columns_in_clause(
         query.orderby_clause, available_renamings
     )
@@ -1399,7 +1398,7 @@ def rename_columns_in_query[T: SelectStatement](
         return SetQuery(
             renamed_left,
             renamed_right,
-            query.set_operation,
+            set_operation=query.set_operation,
             cte_clause=renamed_cte,
             orderby_clause=renamed_orderby,
             limit_clause=query.limit_clause,
@@ -1413,6 +1412,7 @@ def rename_columns_in_query[T: SelectStatement](
     renamed_groupby = rename_columns_in_clause(
         query.groupby_clause, available_renamings
     )
+    renamed_having = rename_columns_in_clause(query.having_clause, available_renamings)
 
     if isinstance(query, ImplicitSqlQuery):
         return ImplicitSqlQuery(
@@ -2095,22 +2095,28 @@ class _TableReferenceRenamer(
         return clause
 
     def visit_union_clause(self, clause: UnionClause, *args, **kwargs) -> UnionClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(
+            clause.right_query.accept_visitor(self).values()
+        )
         return UnionClause(renamed_lhs, renamed_rhs, union_all=clause.union_all)
 
     def visit_except_clause(
         self, clause: ExceptClause, *args, **kwargs
     ) -> ExceptClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(
+            clause.right_query.accept_visitor(self).values()
+        )
         return ExceptClause(renamed_lhs, renamed_rhs)
 
     def visit_intersect_clause(
         self, clause: IntersectClause, *args, **kwargs
     ) -> IntersectClause:
-        renamed_lhs = clause.left_query.accept_visitor(self)
-        renamed_rhs = clause.right_query.accept_visitor(self)
+        renamed_lhs = build_query(clause.left_query.accept_visitor(self).values())
+        renamed_rhs = build_query(
+            clause.right_query.accept_visitor(self).values()
+        )
         return IntersectClause(renamed_lhs, renamed_rhs)
 
     def visit_binary_predicate(
-- 
2.43.0


From c0bf3a8ce74a32506993888b394b63dd13073d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 73/74] fix: rename several tables at once

With a dictionary of renamings the columns lost their table, and target tables
were dropped from the FROM clause if another target was already part of it.
---
 postbound/transform.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/postbound/transform.py b/postbound/transform.py
index 6e5d4c8..b0d283d 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -2029,17 +2029,11 @@ class _TableReferenceRenamer(
                 if not intersect:
                     return ImplicitFromClause(renamed_tables)
 
-                separate_tables = used_identifieres - intersect
-                final_tables: list[DirectTableSource] = []
+                # different tables can be mapped to the same target, we only need the target once
+                final_tables: dict[str, DirectTableSource] = {}
                 for tab in renamed_tables:
-                    if tab.identifier() in separate_tables:
-                        final_tables.append(tab)
-                        continue
-                    if tab.identifier() not in intersect:
-                        continue
-                    final_tables.append(tab)
-                    intersect.remove(tab.identifier())
-                return ImplicitFromClause(final_tables)
+                    final_tables.setdefault(tab.identifier(), tab)
+                return ImplicitFromClause(list(final_tables.values()))
 
             case ExplicitFromClause(join):
                 if intersect:
@@ -2449,7 +2443,7 @@ def rename_table[T: SelectStatement](
             if prefix_column_names
             else column.name
         )
-        necessary_renamings[column] = ColumnReference(new_column_name, target_table)
+        necessary_renamings[column] = ColumnReference(new_column_name, column.table)
 
     renamed_cols = rename_columns_in_query(source_query, necessary_renamings)
 
-- 
2.43.0


From 24531ce89ccaad899128a8230cf90d0467e57c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:03 +0000
Subject: [PATCH 74/74] fix: renaming within array accesses, VALUES CTEs and
 DISTINCT ON

The columns of VALUES CTEs could not be requested, VALUES CTEs without renamed
columns were dropped, and only the last one of several renamings was applied.
The predicates of queries without FROM clause could not be requested.
---
 postbound/qal/_qal.py  |  8 +++-----
 postbound/transform.py | 39 ++++++++++++++++++++++++++++++---------
 2 files changed, 33 insertions(+), 14 deletions(-)

diff --git a/postbound/qal/_qal.py b/postbound/qal/_qal.py
index 4dbdcd1..aef11c3 100644
--- a/postbound/qal/_qal.py
+++ b/postbound/qal/_qal.py
@@ -5571,9 +5571,7 @@ class ValuesWithQuery(WithQuery):
         return set()
 
     def columns(self) -> set[ColumnReference]:
-        if not self._columns:
-            return set()
-        return {ColumnReference(col, self.target_table) for col in self._columns}
+        return set(self._columns)
 
     def output_columns(self) -> Sequence[ColumnExpression]:
         """Provides the columns that form the result relation of this CTE.
@@ -5593,7 +5591,7 @@ class ValuesWithQuery(WithQuery):
         return util.flatten(row for row in self._values)
 
     def itercolumns(self) -> list[ColumnReference]:
-        return [ColumnReference(col, self.target_table) for col in self._columns]
+        return list(self._columns)
 
     def __eq__(self, other: object) -> bool:
         return (
@@ -8858,7 +8856,7 @@ class SqlQuery:
         if self.where_clause:
             current_predicate = current_predicate.and_(self.where_clause.predicate)
 
-        from_predicates = self.from_clause.predicates()
+        from_predicates = self.from_clause.predicates() if self.from_clause else None
         if from_predicates:
             current_predicate = current_predicate.and_(from_predicates)
 
diff --git a/postbound/transform.py b/postbound/transform.py
index b0d283d..3de7b3e 100644
--- a/postbound/transform.py
+++ b/postbound/transform.py
@@ -1547,9 +1547,9 @@ def rename_columns_in_expression(
         )
         return ArrayAccessExpression(
             renamed_array,
-            index=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            idx=renamed_idx,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
     elif isinstance(expression, FunctionExpression):
         renamed_arguments = [
@@ -1870,6 +1870,7 @@ def rename_columns_in_clause(
                 continue
 
             if not any(col.belongs_to(cte.target_table) for col in available_renamings):
+                renamed_ctes.append(cte)
                 continue
 
             renamed_cte = cte
@@ -1883,7 +1884,7 @@ def rename_columns_in_clause(
 
                 # if we found a column that should be renamed, we need to replace the whole column specification
                 # this process might be repeated multiple times, if multiple appropriate renamings exist
-                current_col_spec = cte.cols
+                current_col_spec = renamed_cte.cols
                 new_col_spec = [
                     (col if col.name != current_col.name else target_col.name)
                     for col in current_col_spec
@@ -1906,7 +1907,13 @@ def rename_columns_in_clause(
             )
             for proj in clause.targets
         ]
-        return Select(renamed_targets, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [
+                rename_columns_in_expression(expr, available_renamings)
+                for expr in distinct
+            ]
+        return Select(renamed_targets, distinct=distinct)
     elif isinstance(clause, ImplicitFromClause):
         return clause
     elif isinstance(clause, ExplicitFromClause):
@@ -2001,9 +2008,20 @@ class _TableReferenceRenamer(
         ctes: list[WithQuery] = []
 
         for cte in clause.queries:
+            target_table = self._rename_table(cte.target_table)
+            if isinstance(cte, ValuesWithQuery):
+                ctes.append(
+                    ValuesWithQuery(
+                        cte.rows,
+                        target_name=target_table,
+                        columns=cte.cols,
+                        materialized=cte.materialized,
+                    )
+                )
+                continue
+
             nested_renamings = cte.query.accept_visitor(self)
             nested_query = build_query(nested_renamings.values())
-            target_table = self._rename_table(cte.target_table)
 
             ctes.append(
                 WithQuery(nested_query, target_table, materialized=cte.materialized)
@@ -2018,7 +2036,10 @@ class _TableReferenceRenamer(
             renamed_expression = proj.expression.accept_visitor(self)
             projections.append(BaseProjection(renamed_expression, proj.target_name))
 
-        return Select(projections, distinct=clause.distinct_specifier())
+        distinct = clause.distinct_specifier()
+        if not isinstance(distinct, bool):
+            distinct = [expr.accept_visitor(self) for expr in distinct]
+        return Select(projections, distinct=distinct)
 
     def visit_from_clause(self, clause: From, *args, **kwargs) -> From:
         used_identifieres = set(tab.identifier() for tab in clause.tables())
@@ -2300,8 +2321,8 @@ class _TableReferenceRenamer(
         return ArrayAccessExpression(
             renamed_array,
             idx=renamed_idx,
-            lower_index=renamed_lower,
-            upper_index=renamed_upper,
+            lower_idx=renamed_lower,
+            upper_idx=renamed_upper,
         )
 
     def visit_predicate_expr(
-- 
2.43.0

