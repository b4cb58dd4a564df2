#!/usr/bin/env python3
"""Writes DESIGN.md: the hand-written parts below plus what the checks say about themselves."""
import glob, importlib, json, os, sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
os.environ.setdefault("POSTBOUND_REPO", "/repo")
import props  # noqa: E402

HEAD = """# Deterministic simulation of PostBOUND

PostBOUND is a research framework: it optimizes queries, hints them, runs them against PostgreSQL/DuckDB/MySQL under timeouts,
and records what happened. What users rely on is that what is recorded is true, that nothing is lost or left behind when
something fails, that components are called when they have to be, and that a query still means the same afterwards. Most of
this depends on things a unit test does not control: which thread or process runs next, what the clock says, when the server
fails, dies or loses the connection, what random choices are made, and after which file operation the process dies.

All of that is put behind a simulator. The code under test is the unmodified code of `/repo/postbound`; there are no hooks in
/repo (`hooks` in MANIFEST.json only names an unused guard), because psycopg, quacklab, multiprocessing, subprocess, urllib, threading, time and
random are sufficient seams. They are replaced in the simulated process before postbound is imported.

## The simulator (`/verif/dst`)

| part | what it does |
| --- | --- |
| `kernel.py` | Tasks are real Python threads of which exactly one runs. At each synchronisation point (lock, queue, pipe, clock, network, disk, process operation) a seeded chooser picks who continues. The simulated clock jumps to the next event when nobody can run; wall clock and monotonic clock are separate, and the wall clock may jump. `install_preemption` also switches between arbitrary byte codes of selected files (S23, S22). If no task can ever run again, or a task computes without an end, that is a liveness violation. |
| `boot.py` | Installs the seams: `time`, `datetime`, `threading`/`concurrent.futures` locks, `random` and `numpy.random` (all choices come from the chooser, optionally biased to extremes), `atexit`, uuid, hash seed, directory order. |
| `simpg.py` | A PostgreSQL server: sessions, settings (SET, SET LOCAL, RESET, transaction scope), transactions, backends with pids, pg_cancel_backend/pg_terminate_backend, statement_timeout, catalogs, information_schema, EXPLAIN with a random planner, simulated durations, and SQL evaluated by an in-memory sqlite behind a translation. Behind `psycopg.connect`; the error classes and type adapters are the real ones of psycopg. |
| `simduck.py` | The real DuckDB engine (quacklab, one thread); only the duration of statements, interrupts and injected failures are simulated. |
| `simmp.py`, `simsub.py` | `multiprocessing` (pickled messages, EOF and broken pipes, termination, death at any synchronisation point) and `subprocess.Popen`. |
| `fsim.c`, `lives.py` | LD_PRELOAD shim: every file operation below a scratch directory can kill the process before, during (torn) or after it, fail with an errno once or from then on, or be short. A *life* is a forked process; the next life starts from what is on disk. Also fixes the seed native code obtains from getrandom(2). |
| `runner.py`, `check.py` | One forked child per run, in a scratch directory of its own, with a CPU and memory limit; 8 children at a time. Aggregates, minimises and replays. |

**One seed, one execution.** `VERIF_SEED` and the run index determine the run seed; it determines the scenario (a JSON value) and all
choices made while it runs. `PYTHONHASHSEED` is pinned by `check.py`, native thread pools are switched off.
`tools/determinism.sh ID` compares the event logs of the same seeds with different numbers of workers (0 differences for all checks) and
different hash seeds (where code iterates over sets, orders differ: S16, S17, S24, S29-S32, S15). DuckDB reads uninitialised memory when it
estimates cardinalities for hinted join orders; these numbers only show up in hints, which are not part of the event log.

**A violation** is minimised: first the scenario (lists are cut down, property-specific simplifications), then the recorded choices are
replaced by default ones where the same violation still shows up. The replay file contains scenario, choices, seed, message and
signature; `check.py ID --replay FILE` repeats it exactly and compares the event log's hash.

**Fault kinds** across the checks: statement failures of all psycopg error classes (internal, out of memory, undefined objects, serialization,
cancel by others, lock timeouts), failures after the effect took place, connection loss before/while/after a statement, refused
connections, server crash and restart, slow statements and slow result transfer, lost or late cancellation, worker processes killed at any
synchronisation point, fork failures, threads that cannot be started, broken pipes, wall clock jumps, disk errors (ENOSPC, EIO, EACCES), short
and torn writes, process death at any file operation, damaged, missing and outdated files, broken/short downloads, HTTP errors, interrupts of
external commands, exceptions in user callbacks and stages, unlucky random choices, catalog changes and data changes between and during
look-ups. Each run's evidence reports how often each was injected.

**What a clean run means**: nothing was found in the explored seeds; it is evidence, not proof. Quick tiers take 5-70 s with 8 workers, thorough
tiers are 20-50 times longer (bounded by wall time). Evidence files report runs, distinct non-trivial runs, seeds per hour,
simulated time, faults and states.

**Findings**: `KNOWN_FINDINGS.json` lists the defects that were repaired in /repo with `fix:` commits (`fixed`), and the ones that are
only recorded (`known`, currently none). Check code never writes that file.

"""

# id -> (oracle, why tests cannot reach it, corrected false alarms / limits)
NOTES = {
"S01": ("A history of timed and untimed queries is generated together with the truth (duration, outcome) of each. The outcome reported must be the one that took place: result rows if the server finished within the timeout (plus a tolerance for scheduling), None only if the statement really ran longer, the error only if it failed; `last_query_runtime` likewise.",
        "Result, timeout and failure race between three processes; tests only have sleeping queries.",
        "Within 3 ms around the deadline both outcomes are accepted."),
"S02": ("Every call returns within timeout + bound, afterwards no backend of this interface is active, no process or thread is left and the next query works. Bounded-step liveness is checked by the kernel.",
        "Requires the worker process to die, the connection to break or the server to crash at a particular moment.",
        "psycopg leaves a connection open after a failed COMMIT until it is collected; tolerated."),
"S03": ("The settings in force on the server while a timed query runs are compared with those an untimed query would see at this moment; after it the session settings are unchanged.",
        "Needs changes of settings in between, resets, failed transfers.", "The transfer itself takes about 70 SET statements, which count as preparation."),
"S04": ("Callbacks and the result mapping are compared with the server's log: each query exactly once, with its own rows or its own error, timeouts only when the query was over time, drain returns within its timeout.",
        "Interleaving of threads, queue and cancellation.", "ThreadPoolExecutor.shutdown of CPython hangs if initializers fail; such runs do not call it."),
"S05": ("A reference model of the session predicts for every query whether it has to fail; all others must return the reference rows. Data changed outside of transactions must be there afterwards.",
        "The history matters: failed transaction, reset, lost connection, restart.", "`lose` after a statement leaves open whether it took effect."),
"S06": ("Every answer must be equal to the reference answer for that query, whatever was cached, raw, simplified, timed or modified by a caller before; cache switches decide how many statements reach the server.",
        "Needs histories of options; tests use single calls.", "The identity of a cache is system, version and database name."),
"S07": ("Lifetimes with one crash or disk error each: every answer after a restart equals the reference, an intact and finished earlier life must be used (hits), damaged files must not prevent work.",
        "Crash points at file operations.", "Power loss (lost page cache) is out of scope."),
"S08": ("The data frame must be exactly the executions recorded by the scripted database: one row each, in order, indices dense, label, query, status, result, runtime, failure reason, settings.",
        "Product of options, error modes, repetitions and failures.", "pandas conversions (int/float, NaN/None) are tolerated. DuckDB's timeouts have inf as runtime, PostgreSQL's the timeout."),
"S09": ("A failure stops the benchmark exactly if `error_action` is raise, and the caller then sees the original exception; otherwise all other executions take place. KeyboardInterrupt and SystemExit always stop.", "Failure positions.", "deprecated arguments are mapped as documented."),
"S10": ("Before every execution and after every lifetime (crash at any file operation, disk full, short writes) the progressive output must contain each finished measurement; earlier files' rows are never lost.", "Crash points.", "A torn last CSV line is completed or dropped; the oracle (`with_tail`) knows both."),
"S11": ("After each lifetime the log must contain each experiment with start/end and its true status, older entries unchanged.", "Crash points, wall clock jumps, concurrent files.", ""),
"S12": ("Callbacks, repetition callbacks and online feedback are compared with the executions: each exactly once, in order, with the values of that execution.", "Failures in between.", ""),
"S13": ("The statements the server received for each execution are compared with the prepared query: preparatory statements in order and directly before, explain/analyze/count star, prewarming, timeout; the measured statement is the last one.", "Needs the server's log.", "db_config is taken before the preparation (left as it is)."),
"S14": ("Times reported by benchmarks, pipelines, databases and loggers are compared with the simulated monotonic clock while the wall clock jumps.", "Needs a clock that jumps.", ""),
"S15": ("Instrumented stages count their training calls: each stage that requires training data gets fitted exactly once, before its first use, with the data that was asked for; failing fits are reported and repeated.", "Histories of pipelines, wrappers and failures.", "An emulated wrapper's metrics are keyed by the wrapper's own name."),
"S16": ("While optimizing no statement other than EXPLAIN, SHOW, catalog look-ups and documented SETs reaches the server, the query and the session's settings are unchanged, every stage that was initialised is cleaned up, a failing statement surfaces as an error and a retry gives the result it would have given before.", "Failures at each statement position of an optimization.", "The simulated planner ignores hints; PostgresDynProg swallows DatabaseServerErrors in the final costing by design."),
"S17": ("Differential: a generated query (joins, self joins, outer joins, subqueries, CTEs, unions, grouping, functions) is executed as is by the engine, and after a random chain of transformations and a random pipeline by the interface under test; rows (and their order where demanded) must agree. Fragments of queries are compared with fragments built by the generator. Queries with replaced columns, with other (or exchanged) table aliases and queries over constant CTEs are compared with the same change of the text. One statement may fail during the first attempt; the second one must be unaffected.",
        "Needs executing engines, many shapes of queries, random stages and failures.",
        "Refusals (parser: NOT BETWEEN, GREATEST, row values, NATURAL/USING, window frames, ordered aggregates ...) are tolerated; the optimizers may refuse what goes beyond implicit select-project-join queries. DuckDB plans do not tell apart self-joined tables (documented), drop tables of contradictory or metadata-only queries, and the engine itself has internal errors for some hints. It even crashes the process for a few hinted queries (about one in 2,500 runs, a defect of the native engine): up to 3 runs, or 0.5 %, that end this way are counted in the evidence and give no verdict, more of them make the check fail as unusable. `move_into_subquery` with a star projection is not row-preserving by design."),
"S18": ("Every drawn join order/operator assignment/plan is checked for completeness, connectivity, requested shape, base table and allowed operators; without duplicates; exhaustive enumerations are compared with an independent enumeration.", "Random choices are driven by the chooser, including the extreme ones.", "Generators without duplicates never end once all results were drawn; the check does not ask for more."),
"S19": ("A model (list of label, query) predicts every workload operation; sources must remain unchanged.", "Histories of operations.", "`w |= x` is not tested."),
"S20": ("Directories with generated files (names, nesting, encodings, symlinks, unreadable files) are loaded; each readable file must be there under its label.", "Directory order and disk errors are decided by the simulator.", ""),
"S21": ("As S01/S02 for DuckDB: the timeout interrupts exactly its own statement, user cursors and other interfaces are unaffected, streaming included.", "Races of interrupt and completion.", "An interrupt before the statement begins is ignored by the engine."),
"S22": ("The tables after each shift are compared with the model: exactly the requested number/share/marked rows are gone or nothing at all; marks survive export/import.", "Failures and crashes at each statement.", "The row-count cache is only noticed by runs with two shifts of the same table."),
"S23": ("Linearizability: search for a sequential order that explains all values seen, with preemption between arbitrary byte codes; no deadlock.", "Interleavings.", "`counter > int` raises TypeError upstream and is not used."),
"S24": ("Every statistic is compared with the value computed from the data at this moment (or, if cached, at the time of caching).", "Changes of data between and during requests.", "Native most common values and histograms of PostgreSQL are not simulated; frequency_below/above of histograms are not covered."),
"S25": ("A model of the pool predicts which connection must be returned for each request; closed, lost, refreshed and private connections included.", "Histories with failures.", "A lost connection nobody noticed is returned as is; MySQL is not covered; YAML configurations are not covered (PyYAML is not installed)."),
"S26": ("Threads run commands in different directories; each must run in its own, and the process stays in its directory whatever happens.", "Overlap of commands, interrupts.", ""),
"S27": ("Downloads break, disks fill up, processes die at any file operation, two processes load at once: afterwards the workload is complete or is loaded again.", "Crash points.", ""),
"S28": ("The generator runs against the simulated Postgres server and real DuckDB on random schemas (quoted names, several or self-referencing foreign keys, unconnected tables) and data (NULLs, quotes, zeros, empty tables); every random choice is the seeded scheduler's, other clients insert and ANALYZE between draws, statements fail. An independent model of schema and data judges each query structurally, and an independently written parameterised query judges its result.", "Which tables, keys, columns and values are combined is decided by chained random choices over schema and data; dropped filters or endless loops need particular combinations.", "Requests that only some disconnected choice of tables could satisfy are not judged. With a row sample (large tables) a column may end up without a filter."),
"S29": ("Every look-up is compared with the simulated catalog at this moment.", "DDL between look-ups, failures.", "Compound foreign keys are not covered."),
"S30": ("Stages declare supported systems and query shapes at random; a pipeline must refuse exactly what one of its stages refuses, before anything runs.", "Histories of reconfigured pipelines with failing checks.", "Incremental pipelines only report the first refusing component's reasons."),
"S31": ("The plan/cost/cardinality returned must be the one the simulated planner would give for this query under the session's settings at this moment; the query is never executed unless analysis is asked for; the session stays as it was.", "Planner output depends on settings and hints in force; failures between SET and RESET.", "Scaling of parallel plans follows the code's heuristic."),
"S32": ("Answers of the estimators are compared with the data (or the planner's estimates, or the file they were loaded from); look-up files survive deaths and disk errors.", "Crash points and shifting data.", "One estimator per look-up file at a time."),
"S33": ("Pipelines with scripted stages decide join order, operators, parameters at random. The statement the server receives is parsed by an independent parser for each hint dialect (pg_hint_plan, pg_lab, quack_lab) and compared with the decisions; settings are compared in the session while the statement runs and afterwards; what the system cannot express has to be refused or announced by a warning.", "The decisions and the way they are passed on (merged assignments, plans, later changes) are a large product; what counts is what arrives at the server, also after failures.", ""),
"S34": ("Random templates (correlated, dependent, weighted and IN predicates over SQL or lists) are written as TOML files and generated against the simulated Postgres server and real DuckDB; random choices are the seeded scheduler's, statements fail at random points. Each generated query is matched against its base query, every literal is evaluated by the engine itself, and the predicate's SQL is instantiated with the literals found and executed on a reference connection: the drawn values must be among its rows.", "Which values are drawn together, and what is redrawn when a choice leads nowhere, depends on data, order of predicates and random choices.", "Sampling probabilities are not judged, only which values are possible. A SamplingError is accepted whenever more than one query was requested."),
"S35": ("Random queries and plans (joins, index scans, inner Materialize nodes, with Materialize, Memoize, Sort or nothing on top) are priced by NativeCostModel over the simulated Postgres server with pg_hint_plan or pg_lab. The simulated planner follows the hints or uses another operator, puts the operator elsewhere, reports random costs per node, and requests fail or lose the connection. The oracle reads each request (tables, predicates, order, hints) independently and knows which node's cost was asked for.", "Whether the planner can be brought to show the operator, and in which of several requests, depends on its decisions and failures.", "Real planners are not simulated: costs are random numbers. Memoize keys belong to the memoized side, as the enumerator creates them. When the connection is lost, an error is accepted although errors were not requested, because hints cannot be generated without a connection."),
}

TAIL = """## Not applicable

{na}

## Planted bugs

`tools/plant.py` builds each one, runs the stable tests, the demonstration on both trees and the check. "Caught" means by the quick tier.

{bugs}

Each vcheck run plants a random selection of them; all that counted so far were caught. f12 is caught late in the quick tier (about run
2,000), because two percentage-based removals from the same table have to follow each other.

## Mutation testing

`tools/mutate.py` applies small syntactic changes to functions the checks execute (`tools/cover.py`) and runs the checks which reach them.
Surviving mutants of bench.py, the query model and transformations pointed at missing scenarios, some of which were added (labels,
rewritten queries in S17); known gaps that remain: custom logger messages, HDF export, deprecated arguments of QueryPreparation, prewarming
and cool-down statements of PostgreSQL, pg_ctl.

## Corrected false alarms (summary)

The checks were wrong, and were changed, in these cases: outcomes within scheduling tolerance of a deadline (S01, S21); statements whose
connection is lost after they took effect (S05, S22); pandas conversions (S08); torn CSV tails (S10); data changing during a statistic's own
request (S24, S29); pipelines that only report the first reason (S30); hash-order dependent choices of equal-cost plans (S16); refusals of
unsupported SQL and internal errors of the DuckDB extension (S17).
"""


def main() -> None:
    titles = {}
    with open(os.path.join(ROOT, "properties.jsonl")) as f:
        for line in f:
            d = json.loads(line)
            titles[d["id"]] = d
    out = [HEAD, "## Properties and how each is decided\n"]
    modules = {}
    for pid in sorted(props.MODULES):
        p = importlib.import_module("props." + props.MODULES[pid]).PROPS[pid]
        oracle, why, limits = NOTES[pid]
        modules.setdefault(props.MODULES[pid], []).append(pid)
        out.append(f"### {pid} {titles[pid]['title']}\n")
        out.append(f"`props/{props.MODULES[pid]}.py`, {p.quick_runs} runs (quick), {p.thorough_runs} (thorough). State measure: {p.state_measure}.\n")
        rule = p.rule[0].upper() + p.rule[1:]
        out.append(f"* Run: {rule}" if rule.startswith("A run") else f"* Counted as non-trivial: {p.rule}.")
        out.append(f"* Oracle: {oracle}")
        out.append(f"* Beyond the tests: {why}")
        out.append("* Real: " + "; ".join(p.real) + ".")
        out.append("* Stub: " + "; ".join(p.stub) + ".")
        if p.assumptions:
            out.append("* Assumptions: " + " ".join(a.rstrip(".") + "." for a in p.assumptions))
        if limits:
            out.append(f"* Limits and corrected alarms: {limits}")
        out.append("")
    with open(os.path.join(ROOT, "MANIFEST.json")) as f:
        na = json.load(f)["not_applicable"]
    na_text = "\n".join(f"* {x['property']} {titles[x['property']]['title']}: {x['reason']}" for x in na)
    bugs = ["| id | property | needs | caught by |", "| --- | --- | --- | --- |"]
    for path in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        with open(path) as f:
            m = json.load(f)
        bugs.append(f"| {os.path.basename(os.path.dirname(path))} | {m['property']} | {m['needs']} | {CAUGHT.get(os.path.basename(os.path.dirname(path)), m['property'])} |")
    out.append(TAIL.format(na=na_text, bugs="\n".join(bugs)))
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out))


CAUGHT = {"f12-rowcount-cached": "S22 (late: around run 2,000 of the quick tier)"}

if __name__ == "__main__":
    main()
