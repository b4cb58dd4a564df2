#!/usr/bin/env python3
"""Single source of properties.jsonl and of the not_applicable part of MANIFEST.json."""
import json, pathlib, sys
ROOT = pathlib.Path(__file__).resolve().parent.parent
P = []

def prop(id, title, statement, over, qtext, why, files, mech, observe=(), state=(), hook=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  observe=list(observe), state=list(state), hook=hook, na=na))

# ----------------------------------------------------------------------------- claimed
prop("S01", "A timed Postgres query ends in exactly one truthful outcome",
     "Running a query with a timeout on Postgres returns exactly the rows the server produced if the query finished within the timeout, reports a timeout (and nothing else) if it did not, and raises the corresponding database error if the query failed. "
     "The reported runtime of the last query agrees with that outcome: the server-side duration on success, the timeout on a timeout, not-a-number on an error. "
     "Neither a previous query's outcome nor the relative timing of worker, watchdog and server can make one query report another query's rows or runtime.",
     ["schedules", "fault_sequences", "histories"],
     "every sequence of timed and untimed queries, every query duration relative to the timeout, every interleaving of client, worker process and server, every server-side failure",
     "The repository's tests never open a database connection; the outcome depends on how three processes interleave around the deadline.",
     ["postbound/postgres.py"],
     [("worker/parent event protocol over a pipe", "postbound/postgres.py: _timeout_query_worker, _timeout_worker_ctl and successors"),
      ("mapping of the final event to result, TimeoutError or error", "postbound/postgres.py: TimeoutQueryExecutor.execute_query"),
      ("None instead of TimeoutError", "postbound/postgres.py: PostgresInterface.execute_with_timeout")],
     ["return value or exception of execute_query/execute_with_timeout", "last_query_runtime()", "simulated server's statement log"])
prop("S02", "Timed queries always come back and leave nothing running",
     "A timed Postgres query always returns control within the timeout plus a bounded overhead, even if the worker process dies at any point or a database connection is lost. "
     "Once it has returned, no server backend is still executing that query, no worker process is left behind, and the next query on the same database object works.",
     ["schedules", "fault_sequences", "crash_points"],
     "every point at which the worker process can be killed, every point at which a client connection can be severed, every interleaving",
     "Liveness under process death and connection loss cannot be observed by tests that never start the worker.",
     ["postbound/postgres.py"],
     [("cancellation through a separate watchdog connection", "postbound/postgres.py: TimeoutQueryExecutor._abort_backend"),
      ("terminate/join of the worker", "postbound/postgres.py: TimeoutQueryExecutor.execute_query"),
      ("pipe end-of-file as the death signal", "postbound/postgres.py: TimeoutQueryExecutor.execute_query")],
     ["simulated time at return", "simulated server's running backends", "simulated process table"])
prop("S03", "A timed query runs under the same session settings as an untimed one",
     "A query that is executed with a timeout runs with the runtime-changeable settings of the interactive session at that moment, after the query's own preparatory statements and with its own hint block, just like the same query without a timeout. "
     "The statements the server receives for the query are the same in both modes, and running it leaves the interactive session's settings as an untimed run of the preparatory statements on a separate session would: unchanged.",
     ["histories", "configurations", "schedules"],
     "every history of setting changes, resets and reconnects before the query, every combination of preparatory statements and hints",
     "Needs a server with per-session state and a second process; the tests have neither.",
     ["postbound/postgres.py"],
     [("configuration fingerprint shipped to the worker", "postbound/postgres.py: TimeoutQueryExecutor._pg_fingerprint, apply_configuration"),
      ("preparatory statements before the query", "postbound/postgres.py: _apply_preparatory_statements")],
     ["settings in force on the simulated backend when the query starts", "statement log"])
prop("S04", "Parallel execution attributes every result to its query exactly once",
     "Every query handed to the parallel Postgres executor is run exactly once, on a worker connection that is in autocommit mode, and its rows are reported under that query: in the final result mapping and in exactly one callback with the query and its raw rows. "
     "A query that exceeds the per-query timeout is reported with no result without affecting any other query, and a query that fails surfaces its error without losing or mixing up the results of the others.",
     ["schedules", "fault_sequences", "histories"],
     "every interleaving of worker threads, every completion order, every mix of successes, timeouts and errors, repeated queue/drain rounds",
     "Thread interleavings and completion orders are never exercised by the tests.",
     ["postbound/postgres.py"],
     [("thread pool with one connection per worker", "postbound/postgres.py: ParallelQueryExecutor, _parallel_query_initializer"),
      ("collecting completed futures", "postbound/postgres.py: ParallelQueryExecutor.drain_queue/result_set"),
      ("statement timeout mapped to no result", "postbound/postgres.py: _parallel_query_worker")],
     ["result_set() and callback invocations", "simulated server statement log"])
prop("S05", "A failing query never poisons the following ones",
     "On Postgres and DuckDB a query that fails is reported as an error of that query, and the next query on the same database object sends exactly its own preparatory statements followed by itself and returns its own rows. "
     "On Postgres, server-side failures are reported as server errors and mistakes in the query as user errors, and after the connection was lost, resetting the connection yields a working connection again without leaving the old one open.",
     ["histories", "fault_sequences"],
     "every history of succeeding, failing, cancelled and connection-breaking queries, interleaved with resets and rollbacks",
     "Needs a server that fails at chosen statements.",
     ["postbound/postgres.py", "postbound/duckdb.py", "postbound/db/_db.py"],
     [("autocommit connection", "postbound/postgres.py: _init_connection"),
      ("error classification", "postbound/postgres.py: execute_query"),
      ("reset_connection/close", "postbound/postgres.py, postbound/duckdb.py")],
     ["statement log of the simulated server", "raised error classes", "open server sessions"])
prop("S06", "The query cache never changes an answer",
     "For a Postgres or DuckDB database whose contents do not change, executing a query returns the same value whether or not caching is enabled, whether it is the first or a later execution, in raw as well as in simplified form, with and without a timeout. "
     "With caching enabled a query whose result was cached (which is the case after every untimed execution) is not sent to the server again; with caching disabled for a call the server is always asked and an answer is never taken from the cache.",
     ["histories", "configurations"],
     "every history of cached, uncached, raw, simplified, timed and failing executions of overlapping queries and every toggling of the cache switch",
     "No test executes a query, with or without the cache.",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/duckdb.py"],
     [("cache look-up and fill", "execute_query of each database interface"), ("result simplification", "postbound/db/_db.py: simplify_result_set")],
     ["return values", "simulated server statement log"])
prop("S07", "Cached query results survive restarts and crashes",
     "Results that were cached by a process which ended normally are available to later processes on the same database with identical values, including dates, times and durations. "
     "A process that is killed, or runs out of disk space, while the cache is being written never destroys the results cached earlier, and an unreadable cache file only costs the cached results, never the query.",
     ["crash_points", "fault_sequences", "histories"],
     "every sequence of process lifetimes with cached queries, every write at which a process can die or a disk error can strike",
     "Needs crashes and disk errors inside the write of the cache file at interpreter exit.",
     ["postbound/db/_db.py"],
     [("loading at start, storing at exit", "postbound/db/_db.py: _inflate_query_cache/_store_query_cache"), ("JSON encoding of temporal values", "postbound/db/_db.py: _DBCacheJsonEncoder/_DBCacheJsonDecoder")],
     ["cache file contents after each process lifetime", "answers of the following process", "statement log"])
prop("S08", "Benchmark results contain exactly one truthful row per execution",
     "Benchmarking a workload returns one row per requested execution (workload repetition x query x query repetition), in the order in which they were executed, with gapless execution indexes and the label, query, repetition numbers, status, result, runtime and failure reason of exactly that execution. "
     "This holds for every mix of succeeding, failing, timing-out and un-optimizable queries; with ignored errors the rows of the failing executions (and only those) are missing.",
     ["histories", "fault_sequences", "configurations"],
     "every workload, repetition count, shuffling, error handling mode and pattern of optimization failures, execution failures and timeouts",
     "The benchmark module is not exercised by any test.",
     ["postbound/bench.py"],
     [("per-query result samples", "postbound/bench.py: _ResultSample, _ExecutionResults"), ("control loops", "postbound/bench.py: _workload_ctl_loop, _exec_ctl_loop, _execute_query")],
     ["returned data frame", "execution log of the simulated database"])
prop("S09", "One failing query stops a benchmark only if it was told to",
     "With errors logged or ignored, no failure while optimizing, preparing or executing a query, and no timeout, prevents any other execution of the workload from taking place exactly as often and in the same order as without the failure. "
     "With errors raised, the first such failure reaches the caller unchanged, no later query is executed, and everything recorded up to then is still in the progressive output.",
     ["fault_sequences", "histories", "configurations"],
     "every position and kind of failure in every workload, all three error handling modes, with and without a pipeline, online learning, callbacks and output files",
     "The benchmark module is not exercised by any test.",
     ["postbound/bench.py"],
     [("error_action handling", "postbound/bench.py: _workload_ctl_loop, _exec_ctl_loop, _execute_query")],
     ["execution log of the simulated database", "exception seen by the caller"])
prop("S10", "Progressive output never loses a finished measurement",
     "The measurement of a finished execution is readable from the progressive output file exactly once, in execution order, for every supported tabular format, before a callback is told about it and before the next query of the benchmark is started, and rows of earlier benchmarks in the same file are kept. "
     "Whenever the process is killed or a write fails, every measurement that had been recorded earlier can still be read back.",
     ["crash_points", "fault_sequences", "histories"],
     "every file-system operation at which the process can die or an I/O error or a full disk can strike, every output format (CSV, JSON, Parquet), repeated runs into one file",
     "Needs crashes and disk errors at chosen file-system operations.",
     ["postbound/bench.py"],
     [("one write per execution", "postbound/bench.py: _ResultSample.write_progressive and its format writers"), ("export conversion", "postbound/bench.py: prepare_export")],
     ["contents of the output file at every execution and after every crash"])
prop("S11", "The experiment log keeps every experiment and its true outcome",
     "After any sequence of benchmarks into the same directory, including ones that fail or are killed at any point, the experiment log is a readable list with one entry per started benchmark in start order, and no later benchmark removes or alters the entry of another one. "
     "An entry says completed only if its benchmark finished, failed (with the error) only if it raised that error, and running otherwise.",
     ["crash_points", "fault_sequences", "histories"],
     "every sequence of benchmarks and every file-system operation at which one can die or hit a disk error",
     "Needs crashes and disk errors at chosen file-system operations.",
     ["postbound/bench.py"],
     [("log initialisation and finalisation", "postbound/bench.py: _init_benchmark_log, _finalize_benchmark_log, _failed_benchmark_log")],
     ["experiment_log.json after every process lifetime"])
prop("S12", "Callbacks and online learning see every finished execution exactly once",
     "During a benchmark the execution callback is called exactly once for each execution that finished or timed out, in execution order, with the status, result and runtimes of that execution, and the repetition callback exactly once per workload repetition. "
     "A pipeline that learns online receives feedback exactly once for each successful execution, in order, for the query that was executed and with its result and runtime, and never for failed ones.",
     ["histories", "fault_sequences", "configurations"],
     "every workload, repetition scheme and pattern of failures and timeouts",
     "The benchmark module is not exercised by any test.",
     ["postbound/bench.py", "postbound/_pipelines.py"],
     [("callback and feedback dispatch", "postbound/bench.py: _exec_ctl_loop, _workload_ctl_loop"), ("learn_from_feedback fan-out", "postbound/_pipelines.py")],
     ["recorded callback and feedback invocations versus the database's execution log"])
prop("S13", "What is measured is the prepared query, right after its preparation",
     "For each execution in a benchmark the server receives, in this order, the requested prewarming, the requested preparatory statements and the query's own preparatory statements, immediately followed by the optimized query in the requested form (projection, explain or analyze), which runs under the settings these statements made. "
     "The reported runtime covers that final query only, and the result recorded for the execution is the one the server gave for it.",
     ["histories", "configurations", "schedules"],
     "every combination of preparation settings, hints, repetitions and timeouts",
     "Needs a server-side statement log.",
     ["postbound/bench.py", "postbound/postgres.py", "postbound/transform.py"],
     [("query preparation", "postbound/bench.py: QueryPreparation.prepare_query"), ("preparatory statements of hints", "postbound/postgres.py: _apply_preparatory_statements")],
     ["simulated server statement log", "returned data frame"])
prop("S14", "Reported times are durations, whatever the wall clock does",
     "Every execution time and optimization time in benchmark results equals the duration the database or optimizer really took, for any behaviour of the wall clock (jumps forwards and backwards, time zone changes), is never negative, and never includes the time spent on anything but that step. "
     "Execution timestamps are the wall-clock start times of their executions.",
     ["schedules", "fault_sequences"],
     "every sequence of step durations and wall-clock adjustments",
     "Tests run on the real clock and measure nothing.",
     ["postbound/bench.py", "postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py"],
     [("monotonic clock around optimize and execute", "postbound/bench.py: _optimize_query, _execute_query"), ("stopwatch", "last_query_runtime of each interface")],
     ["data frame versus the simulator's own record of durations"])
prop("S15", "Training reaches every stage that needs it exactly once and in time",
     "Before a benchmark optimizes its first query, each stage of the pipeline that requires training on data, on the workload or on samples and is not trained yet has been trained exactly once with the right input, and stages that are already trained or do not require it are not trained again. "
     "Samples reach a stage with exactly the features it asked for, in that order and under those names, complete and from every suitable dataset. "
     "If required samples are missing or a training fails, this is reported before any query is optimized or executed. Stages that learn from feedback receive every executed query's result and runtime exactly once.",
     ["histories", "configurations", "fault_sequences"],
     "every pipeline shape, every combination of training requirements and prior training states, repeated benchmarks, failing training",
     "No test trains a pipeline.",
     ["postbound/_pipelines.py", "postbound/bench.py", "postbound/_stages.py", "postbound/train/_train.py"],
     [("training dispatch", "postbound/_pipelines.py: train_on_* of each pipeline"), ("requirement checks", "postbound/bench.py: execute_workload"), ("selection and merging of samples", "postbound/train/_train.py: TrainingData, TrainingDataRepository")],
     ["recorded training calls of instrumented stages"])
prop("S16", "Optimizing is side-effect free even when the database fails meanwhile",
     "If a database request fails while a query is being optimized, the error reaches the caller, no half-optimized query is returned, every stage that was initialized for the query is cleaned up, and optimizing the same query again afterwards gives the same outcome as if the failure had never happened. "
     "Optimizing never executes the query itself and never changes the session's settings.",
     ["fault_sequences", "histories"],
     "every request of every optimization at which the server can fail, followed by retries, for every pipeline kind",
     "Needs a server failing at chosen requests during optimization.",
     ["postbound/_pipelines.py", "postbound/_stages.py", "postbound/opt", "postbound/postgres.py"],
     [("pipeline optimize_query", "postbound/_pipelines.py"), ("stage initialize/cleanup", "postbound/_stages.py: CardinalityEstimator, PlanEnumerator"), ("planner introspection", "postbound/postgres.py: PostgresOptimizer")],
     ["returned query", "statement log", "initialize/cleanup calls of instrumented stages"])
prop("S17", "Optimized and rewritten queries return the same rows as the original",
     "For every query, every combination of the meaning-preserving transformations and every pipeline with whatever decisions its stages make, the resulting query, when executed on the target database system, returns the same rows (and in the same order where the query demands one) as the input query; the fragment of a query for some of its tables returns what the query restricted to these tables would, and replacing columns or tables (also several at once, also exchanging their aliases) changes exactly the references to them everywhere in the query. "
     "The input query is not changed, optimization leaves the session's settings as they were, and a statement that fails meanwhile is reported as such and does not affect the next attempt. Queries the optimizers do not support may be refused.",
     ["programs", "inputs", "schedules", "crash points"],
     "every generated query over the simulated databases, every chain of transformations, every pipeline kind with every random choice of its stages, and every failing statement",
     "Tests check individual clauses of a few queries and never execute an optimized or rewritten query.",
     ["postbound/_pipelines.py", "postbound/transform.py", "postbound/qal", "postbound/postgres.py", "postbound/duckdb.py", "postbound/opt"],
     [("query transformation", "postbound/transform.py"), ("parsing and formatting", "postbound/qal"), ("hint generation", "postbound/postgres.py: PostgresHintService; postbound/duckdb.py: DuckDBHintService"), ("join graph and optimizers", "postbound/opt")],
     ["rows returned by the engines for both queries", "session settings", "text of the input query"])
prop("S18", "Random plan generation yields complete valid plans for every random choice",
     "Whatever the random choices, every join order, operator assignment and plan drawn for a query covers exactly the query's tables, each once, joins only connected parts, respects requested tree shapes and base tables, and uses only operators that are allowed and supported; queries whose join graph is not connected are refused with an error. "
     "Drawing never ends prematurely and never alters the query or the caller's arguments, draws without duplicates are distinct, and exhaustive enumerations yield every admissible result exactly once.",
     ["schedules", "inputs", "configurations"],
     "every sequence of random choices, every join graph shape and every configuration of the generators",
     "Tests do not draw plans; a handful of draws cannot cover the choice sequences.",
     ["postbound/opt/randomized.py", "postbound/opt/enumeration.py", "postbound/opt/_joingraph.py", "postbound/util/nx.py"],
     [("random walks over the join graph", "postbound/opt/randomized.py, postbound/util/nx.py"), ("join graph state", "postbound/opt/_joingraph.py")],
     ["generated join trees, operator assignments and plans"])
prop("S19", "Workload shuffling and sampling preserve the workload",
     "For every random choice, shuffling a workload yields the same labels and queries in a possibly different order, sampling n queries yields n distinct entries of the workload, and each label keeps referring to its own query throughout, including after combining, slicing and filtering such workloads. "
     "The workload it was derived from is never changed.",
     ["schedules", "histories", "inputs"],
     "every sequence of random choices and every history of workload operations",
     "Shuffling is not tested at all, and a test sees one permutation.",
     ["postbound/workloads.py"],
     [("label order kept beside the mapping", "postbound/workloads.py: Workload")],
     ["entries, labels, queries and look-ups of derived workloads"])
prop("S20", "Loading a workload from disk yields every readable query under its own label",
     "Reading a workload from a directory, file list or table yields exactly one entry per query file or row, under its own label and with its own query, independently of the order in which the file system lists files and of how sub-directories are named. "
     "A file that cannot be parsed is reported according to the requested error handling (raise, warn or ignore), a file that cannot be read is an error, and neither ever replaces, duplicates or hides another query.",
     ["fault_sequences", "inputs", "schedules"],
     "every directory listing order, every set of broken or unreadable files, every nesting of directories and every error handling mode",
     "Tests load one fixed directory without any broken file and in one listing order.",
     ["postbound/workloads.py"],
     [("directory traversal and parsing", "postbound/workloads.py: Workload.read, read_workload, read_batch_workload, read_csv_workload")],
     ["the resulting workload's labels and queries", "errors and warnings"])
prop("S21", "DuckDB timeouts interrupt the query and nothing else",
     "Running a query with a timeout on DuckDB returns exactly the query's rows if it finished within the timeout and otherwise reports a timeout within a bounded time, whatever the relative timing of worker thread, interrupt and query. "
     "Afterwards nothing is still executing, a failing query raises its own error, and the following query runs normally and reports its own rows and runtime.",
     ["schedules", "histories", "fault_sequences"],
     "every query duration relative to the timeout, every interleaving of caller and worker thread, every history of timed and untimed queries",
     "The DuckDB backend is not tested; the outcome depends on thread timing.",
     ["postbound/duckdb.py"],
     [("worker thread plus interrupt", "postbound/duckdb.py: execute_with_timeout, _execute_worker")],
     ["return values and errors", "simulated engine's running statements"])
prop("S22", "Data shifts are applied completely or not at all",
     "Removing rows from a table (at random, in the order of a column, or as marked in a marker table) either removes exactly the requested rows and the rows depending on them or, if the removal fails on the way, leaves all data unchanged. "
     "Creating and importing marks likewise replaces the marks completely or not at all, and exported marks can be imported unchanged. In all cases no transaction or connection opened for it is left behind.",
     ["fault_sequences", "crash_points", "histories"],
     "every statement at which the server can fail or the connection can break, every request size and every history of shifts",
     "No test runs a data shift.",
     ["postbound/postgres.py"],
     [("one transaction per shift", "postbound/postgres.py: WorkloadShifter")],
     ["table contents of the simulated server", "open sessions and transactions"])
prop("S23", "Shared counters lose no update and never block",
     "When several threads increment, assign, reset or read a shared atomic counter, the counter behaves as if the operations had happened one after another; in particular no increment is lost. "
     "No operation on such a counter, alone or combined with another counter or itself, ever blocks forever.",
     ["schedules"],
     "every interleaving (at bytecode granularity) of any number of threads and operations",
     "Tests use no threads.",
     ["postbound/util/num.py"],
     [("lock around every access", "postbound/util/num.py: AtomicInt")],
     ["values read by simulated threads against a sequential model", "deadlock detection"])
prop("S24", "Statistics describe the current data, however and whenever they are asked for",
     "Statistics that are computed by querying the data (row counts, distinct values, minima and maxima, most common values, histograms) equal the true values for the current contents of exactly the table and column that were asked about, in every order of requests; cached statistics equal the values at the time they were first computed. "
     "Native statistics equal what the database system recorded at its last ANALYZE, or fall back to computed ones. A request that fails is reported, is never cached and never turns into a made-up value, and refreshing the statistics refreshes exactly those that were asked for.",
     ["histories", "fault_sequences", "configurations"],
     "every history of statistics requests, data changes, ANALYZE runs, cache switches and failing requests",
     "Statistics need a live database and are not tested.",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/duckdb.py", "postbound/mysql.py"],
     [("emulated statistics queries", "postbound/db/_db.py: DatabaseStatistics"), ("native statistics", "postbound/postgres.py: PostgresStatisticsInterface; postbound/duckdb.py: DuckDBStatistics")],
     ["returned statistics versus the reference model of the data"])
prop("S25", "The connection pool hands out exactly the live connection that was asked for",
     "Connecting under a name that is already pooled returns that connection, re-established if it was closed or its loss has been noticed, unless a fresh one is requested, in which case a new connection is registered under a new name and the existing one stays untouched. "
     "New connections use exactly the given connection parameters in the documented precedence of sources, private connections are never pooled, the current database is the single pooled one, and a failed connection attempt changes nothing and leaves no session behind.",
     ["histories", "fault_sequences"],
     "every history of connect, refresh, private, close, server restart, failed connect and selection operations",
     "No test connects to a database.",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/duckdb.py"],
     [("pool registry", "postbound/db/_db.py: DatabasePool"), ("connect/_reconnect", "postbound/postgres.py, postbound/duckdb.py")],
     ["identity of returned objects", "pool contents", "open server sessions"])
prop("S26", "External commands never leave the process in another directory",
     "Running an external command in a given directory runs it in exactly that directory and leaves the caller's working directory unchanged in every case, including commands that cannot be started, fail, time out or are interrupted, and several threads running commands in different directories at once. "
     "The reported output and exit code are those of that command.",
     ["fault_sequences", "histories", "schedules"],
     "every kind of failure of the command launch, every sequence of commands and every interleaving of threads that run commands",
     "Tests run no external commands.",
     ["postbound/util/proc.py"],
     [("chdir and restore", "postbound/util/proc.py: run_cmd")],
     ["working directory after the call", "returned result or error"])
prop("S27", "A pre-defined workload is complete or absent, never truncated",
     "Requesting one of the pre-defined workloads yields all of its queries or an error, after any sequence of earlier requests in this or previous processes, including downloads that fail or arrive truncated, full disks, crashes at any point and concurrent requests by several processes. "
     "Once downloads work again a request succeeds, and a workload that is already present completely is not downloaded again.",
     ["fault_sequences", "crash_points", "histories"],
     "every point at which a download, an extraction or a file operation fails or the process dies, over several process lifetimes",
     "Tests do not download workloads and never interrupt one.",
     ["postbound/workloads.py"],
     [("download and extraction", "postbound/workloads.py: _fetch_workload")],
     ["queries of the returned workload", "number of downloads", "errors"])

prop("S28", "Randomly generated queries obey every requested bound and run",
     "Whatever the schema, the data and the random choices: every query the random generator yields has a number of tables and filters within the requested bounds, uses none of the ignored tables, joins all of its tables along all foreign keys between them and nothing else (no cross products), filters each column at most once, only columns that the request allows, only with values that occur in the data right now, has the requested SELECT clause, and runs on the database returning exactly the rows its predicates select. "
     "A request that no set of tables can satisfy is refused with ValueError, every other draw answers after a bounded number of statements, and generating never changes the database; a fault during generation is reported.",
     ["histories", "fault_sequences", "inputs"],
     "every schema, data set, random choice, request and history of drawn queries, concurrent insertions, ANALYZE and failing statements",
     "The random query generator needs a live database and is not tested at all.",
     ["postbound/experiments/querygen.py", "postbound/util/nx.py", "postbound/db/_db.py"],
     [("random queries", "postbound/experiments/querygen.py: generate_query"), ("table walk", "postbound/util/nx.py: nx_random_walk"), ("schema graph", "postbound/db/_db.py: DatabaseSchema.as_graph")],
     ["tables, joins, filters and literals of each drawn query versus the reference model of schema and data", "rows returned by the drawn query versus rows selected by an independently built query"])

prop("S29", "Schema look-ups describe the database as it currently is",
     "Every schema look-up (tables and columns, views, data types, nullability, primary and secondary keys, indexes, foreign keys, key equivalences, the schema graph and its item access) describes exactly the table or column that was asked about, in the schema it was asked in, as of the latest schema change by any client - whatever was looked up before, however the name must be quoted and whether keys are compound. "
     "Looking up something that does not exist or a virtual table is an error, and a failed look-up is reported and leaves later answers correct.",
     ["histories", "fault_sequences"],
     "every history of schema changes by any client, look-ups, reconnections and failing requests",
     "Schema look-ups need a live database and are not tested.",
     ["postbound/db/_db.py", "postbound/postgres.py", "postbound/duckdb.py"],
     [("schema look-ups", "postbound/db/_db.py: DatabaseSchema; postbound/postgres.py: PostgresSchemaInterface; postbound/duckdb.py: DuckDBSchema")],
     ["returned schema information versus the reference model of the DDL history"])

prop("S30", "Every component's pre-check is honoured before anything runs",
     "A pipeline becomes ready only if every component in use supports the target database; otherwise building it fails with UnsupportedSystemError naming the reasons, and using it before a successful build is a StateError. "
     "Once it is ready, every query that some component rejects is refused with UnsupportedQueryError naming the reasons before any stage is invoked or any statement is sent, and every other query is optimized. "
     "Replaced components have no say, earlier builds leave nothing behind, and a check that fails because of the server is reported and leaves the pipeline not ready.",
     ["histories", "fault_sequences"],
     "every sequence of building, replacing components, re-targeting and optimizing, and every query and component check",
     "Tests never build pipelines whose components reject databases or queries.",
     ["postbound/_pipelines.py", "postbound/validation.py", "postbound/_stages.py"],
     [("pre-check composition", "postbound/validation.py: merge_checks, CompoundCheck, PreCheckResult"), ("build and readiness", "postbound/_pipelines.py: build, ensure_supported_query")],
     ["errors raised and their reasons", "stages invoked and statements sent before a refusal"])

prop("S31", "Asking the database's optimizer describes the query without running it",
     "Query plans, cardinality and cost estimates report exactly what the server's planner says for that query under exactly its own hints and settings, and never execute the query. "
     "Analyzing a plan executes the query exactly once; the answer is None exactly when it timed out, and then the server stops working on it. "
     "Failures are reported. Session settings and the state of transactions are the same afterwards as before, except that configuring an operator changes exactly that operator's setting.",
     ["histories", "fault_sequences", "schedules"],
     "every history of introspection calls, hinted queries, configuration changes, timeouts and failing statements",
     "Introspection needs a live database and is not tested.",
     ["postbound/postgres.py", "postbound/db/_db.py"],
     [("optimizer interface", "postbound/postgres.py: PostgresOptimizer"), ("hinted settings", "postbound/postgres.py: _preparatory_statements")],
     ["returned plans and estimates versus the simulated planner", "executions, settings and transaction state at the server"])

prop("S32", "Cardinality estimators report the right number, and look-up files survive",
     "A precise cardinality estimator reports how many rows the intermediate has in the database when it is asked; earlier answers are reused only from its own, enabled cache, never from the database's query cache. "
     "Looked-up cardinalities are those of the file; missing ones follow the configured default, live estimate or error, and live answers that are to be saved are saved once and survive process crashes and disk errors, with the file readable and its other columns kept. "
     "Native and distorted estimates never execute the query, distorted ones stay within their factor, and failures are reported and not remembered. "
     "A generated parameterization covers exactly the requested intermediates.",
     ["histories", "fault_sequences", "crash_points"],
     "every history of estimates, data changes, restarts, failing statements, crashes and disk errors",
     "Needs a live database whose data changes, failing statements and interrupted file writes.",
     ["postbound/opt/_cardinalities.py", "postbound/opt/native.py", "postbound/_stages.py"],
     [("precise, look-up and distorting estimators", "postbound/opt/_cardinalities.py"), ("parameterization generation", "postbound/_stages.py: CardinalityEstimator")],
     ["estimates versus the simulated database's contents", "look-up file after each life", "statements at the server"])

prop("S33", "The server receives exactly the optimizer's decisions as hints",
     "For every join order, operator assignment, plan parameterization or complete plan, however it was composed (merged, cloned, assembled, exploded, updated) and however it is handed over (hinted query, pipeline, interface arguments), "
     "the hint block that reaches the server encodes exactly these decisions: order and direction of the joins, operators, cardinalities, workers, settings and modes; nothing is added, lost or attached to other tables, and the query itself is unchanged. "
     "What a system documents as unsupported is refused or announced by a warning. Settings apply to the hinted statement only: the session is as before, also after failures and timeouts, and a retry sends the same. The decision objects remain unaltered.",
     ["inputs", "histories", "fault_sequences"],
     "every composition of decisions, backend, way of execution and failing statement",
     "What counts is the statement that arrives at a live server with a hinting extension, including after failures; no test has such a server.",
     ["postbound/_hints.py", "postbound/_qep.py", "postbound/opt/_helpers.py", "postbound/_pipelines.py", "postbound/postgres.py", "postbound/duckdb.py"],
     [("assignments, parameters and their extraction from plans", "postbound/_hints.py"), ("hint generation", "postbound/postgres.py: PostgresHintService; postbound/duckdb.py: DuckDBHintService"), ("assembly of plans", "postbound/opt/_helpers.py, postbound/_qep.py")],
     ["statements at the server, read by an independent parser of the hint dialects", "session settings", "warnings and errors"])

prop("S34", "Generated workloads instantiate their query templates",
     "Every query generated from a CEB template is the template's base query with each placeholder replaced by one literal of the column's type: the values of one predicate come together from one row of its SQL query or from one of its options, that SQL having been instantiated with exactly the values the final query contains for the predicates it depends on, whatever had to be redrawn and in whatever order predicates are listed. "
     "LIKE values become patterns, IN predicates get min_samples to max_samples different values, weights are never taken for values and values of weight zero are never drawn. "
     "A generation returns exactly the requested number of distinct, executable queries per template under their labels, or reports a SamplingError (only if some choice of values leads nowhere or queries run out) or the database's error; stored workloads contain exactly the generated queries.",
     ["histories", "fault_sequences", "inputs"],
     "every template, data set, random choice and failing statement",
     "The template-based workload generator needs a live database and is not tested at all.",
     ["postbound/experiments/ceb.py", "postbound/util/misc.py"],
     [("templates", "postbound/experiments/ceb.py: QueryTemplate, PredicateGenerator, generate_raw_workload"), ("drawing order", "postbound/util/misc.py: DependencyGraph")],
     ["placeholder literals of each generated query versus the rows of its instantiated predicate queries", "labels, number, distinctness and results of the generated queries", "stored files"])

prop("S35", "Native cost estimates are the planner's costs of exactly the given plan",
     "The native cost model asks the server's planner, without executing anything, about exactly the part of the query that the plan computes (its tables and all of their predicates, plus one joined table for the cost of a Materialize or Memoize node, or the requested order for a Sort), "
     "hinted with exactly the plan's operators, join order and cardinalities, and reports the cost of exactly that node as the planner gave it. "
     "If the planner fails or does not use the operator the costs are infinite, or an error if errors were requested; no estimate is made up, and a failure does not affect later estimates.",
     ["inputs", "fault_sequences", "histories"],
     "every query, plan, planner decision and failing request",
     "Cost estimates need a live planner and are not tested.",
     ["postbound/opt/native.py", "postbound/opt/_cardinalities.py", "postbound/transform.py", "postbound/postgres.py"],
     [("native cost model", "postbound/opt/native.py: NativeCostModel"), ("query fragments", "postbound/transform.py: extract_query_fragment")],
     ["returned cost versus the simulated planner's cost of that node", "tables, predicates and hints of the requests at the server"])

# ----------------------------------------------------------------------------- not applicable
PURE = "Pure, deterministic, single-threaded function of its input: no schedule, clock, I/O, randomness or second party for a simulator to control, so seeded fault/schedule search degenerates to plain input fuzzing. "
prop("N01", "Formatting and re-parsing a query preserves it",
     "Parsing the text produced for any supported query yields a query equal to the original, in every output flavour of the formatter that is plain SQL.",
     ["programs"], "every query the object model can express", "Tests sample a few hundred benchmark queries.",
     ["postbound/parser.py", "postbound/qal"], [("parser and formatter", "postbound/parser.py, postbound/qal/_formatter.py")],
     na=PURE + "Needs a grammar-based round-trip fuzzer or proof, not simulation.")
prop("N02", "Equality and hashing of query objects are consistent",
     "Equal query elements have equal hashes, equality is an equivalence relation, and query objects never change after construction.",
     ["inputs"], "every pair of query elements", "Tests compare a few hand-written pairs.",
     ["postbound/qal/_qal.py"], [("__eq__/__hash__ of the query model", "postbound/qal/_qal.py")], na=PURE)
prop("N03", "Query transformations change only what they promise",
     "Each query transformation alters exactly the requested clauses, tables or predicates and leaves every other part of the query untouched.",
     ["programs"], "every query and transformation argument", "Tests sample hand-written queries.",
     ["postbound/transform.py"], [("transformations", "postbound/transform.py")], na=PURE + "Its end-to-end consequence for executed queries is covered by S13 and S17.")
prop("N04", "Translation to relational algebra preserves query semantics",
     "The relational algebra tree of a query denotes the same relation as the query, and rewrites of the tree keep it.",
     ["programs"], "every supported query", "Tests compare a few trees.",
     ["postbound/relalg.py"], [("translation and rewrites", "postbound/relalg.py")], na=PURE)
prop("N05", "Dynamic programming finds a cheapest plan of its search space",
     "For any cost model and cardinalities, the exhaustive enumerators return a plan of minimal cost among the plans of the search space they are configured for.",
     ["inputs"], "every join graph, cost model and cardinality assignment", "No test runs the enumerators.",
     ["postbound/opt/dynprog.py"], [("plan enumerators", "postbound/opt/dynprog.py")], na=PURE + "An exhaustive-enumeration oracle or a proof is the right tool.")
prop("N06", "Upper-bound join ordering never underestimates",
     "Cardinality bounds computed by the upper-bound optimizer are never below the true cardinality when the input statistics are correct upper bounds.",
     ["inputs"], "every database instance and acyclic query", "No test runs the optimizer.",
     ["postbound/opt/ues.py"], [("bound computation", "postbound/opt/ues.py")], na=PURE)
prop("N07", "Plans, join orders and hints survive JSON serialisation",
     "Reading back the JSON form of any join order, operator assignment, plan parameterization, query plan or learned model yields an equal object.",
     ["inputs"], "every such object", "Tests sample few objects.",
     ["postbound/opt/_helpers.py", "postbound/_qep.py", "postbound/_hints.py", "postbound/opt/tonic.py"], [("JSON readers and writers", "postbound/opt/_helpers.py")], na=PURE)
prop("N08", "Cardinality arithmetic follows its documented algebra",
     "Arithmetic and comparisons on known, unknown and infinite cardinalities follow the documented rules and never silently produce a number from an unknown.",
     ["inputs"], "every pair of cardinalities and operators", "Tests sample few values.",
     ["postbound/_core.py"], [("Cardinality", "postbound/_core.py")], na=PURE)
prop("N09", "Plan extraction and re-assembly are inverse",
     "Decomposing a query plan into join order, operators and parameters and re-assembling these yields an equivalent plan.",
     ["inputs"], "every query plan", "Tests cover few plans.",
     ["postbound/_hints.py", "postbound/_qep.py"], [("plan conversion", "postbound/_hints.py, postbound/_qep.py")], na=PURE)
def main():
    lines = []
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        d = dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                              observe_at=p["observe"], hook_needed=p["hook"]))
        lines.append(json.dumps(d))
    (ROOT / "properties.jsonl").write_text("\n".join(lines) + "\n")
    return P

if __name__ == "__main__":
    main()
