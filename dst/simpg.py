"""A simulated PostgreSQL server and the psycopg facade in front of it.

The server is driven by kernel events: a statement that was sent keeps running (and takes effect) whether or not its client is
still there, exactly like a real backend. Data lives in an in-memory sqlite database, the system catalogs are ordinary tables of
it. The facade replaces `psycopg.connect`; error classes, adapters and conninfo parsing are psycopg's own.
"""
from __future__ import annotations

import json
import re
import sqlite3
import threading

import psycopg
from psycopg import errors as pge
from psycopg import pq

from .kernel import Kernel, MS, SEC, US, HarnessError

IDLE, INTX, INERROR = pq.TransactionStatus.IDLE, pq.TransactionStatus.INTRANS, pq.TransactionStatus.INERROR

# GUCs of the simulated server: those postbound treats as runtime changeable planner/executor settings plus some more.
SESSION_SETTINGS = {
    "enable_async_append": "on", "enable_bitmapscan": "on", "enable_gathermerge": "on", "enable_hashagg": "on",
    "enable_hashjoin": "on", "enable_incremental_sort": "on", "enable_indexscan": "on", "enable_indexonlyscan": "on",
    "enable_material": "on", "enable_memoize": "on", "enable_mergejoin": "on", "enable_nestloop": "on",
    "enable_parallel_append": "on", "enable_parallel_hash": "on", "enable_partition_pruning": "on",
    "enable_partitionwise_join": "off", "enable_partitionwise_aggregate": "off", "enable_seqscan": "on", "enable_sort": "on",
    "enable_tidscan": "on", "enable_group_by_reordering": "on",
    "seq_page_cost": "1", "random_page_cost": "4", "cpu_tuple_cost": "0.01", "cpu_index_tuple_cost": "0.005",
    "cpu_operator_cost": "0.0025", "parallel_setup_cost": "1000", "parallel_tuple_cost": "0.1",
    "min_parallel_table_scan_size": "1024", "min_parallel_index_scan_size": "64", "effective_cache_size": "524288",
    "jit_above_cost": "100000", "jit_inline_above_cost": "500000", "jit_optimize_above_cost": "500000",
    "geqo": "on", "geqo_threshold": "12", "geqo_effort": "5", "geqo_pool_size": "0", "geqo_generations": "0",
    "geqo_selection_bias": "2", "geqo_seed": "0",
    "constraint_exclusion": "partition", "cursor_tuple_fraction": "0.1", "from_collapse_limit": "8", "jit": "on",
    "join_collapse_limit": "8", "plan_cache_mode": "auto", "recursive_worktable_factor": "10",
    "temp_buffers": "1024", "work_mem": "4096", "hash_mem_multiplier": "2", "maintenance_work_mem": "65536",
    "logical_decoding_work_mem": "65536", "max_stack_depth": "2048", "temp_file_limit": "-1", "debug_parallel_query": "off",
    "max_parallel_workers_per_gather": "2", "max_parallel_maintenance_workers": "2", "max_parallel_workers": "8",
    "parallel_leader_participation": "on", "effective_io_concurrency": "1", "maintenance_io_concurrency": "10",
    "backend_flush_after": "0", "statement_timeout": "0", "lock_timeout": "0", "idle_in_transaction_session_timeout": "0",
    "client_encoding": "UTF8", "application_name": "", "DateStyle": "ISO, MDY", "TimeZone": "UTC", "search_path": "public",
    "default_statistics_target": "100", "enable_presorted_aggregate": "on", "vacuum_buffer_usage_limit": "2048",
    "vacuum_cost_delay": "0", "vacuum_cost_limit": "200", "vacuum_cost_page_dirty": "20", "vacuum_cost_page_hit": "1",
    "vacuum_cost_page_miss": "2",
}
SERVER_SETTINGS = {
    "shared_buffers": "16384", "huge_pages": "try", "max_worker_processes": "8", "data_directory": "/simulated/pgdata",
    "autovacuum": "on", "track_activities": "on", "track_counts": "on", "old_snapshot_threshold": "-1", "temp_file_limit": "-1",
    "max_connections": "100", "port": "5432", "server_version": "17.2",
}
_BOOL = {"true": "on", "yes": "on", "1": "on", "on": "on", "false": "off", "no": "off", "0": "off", "off": "off"}
_FKACTIONS = "CASCADE"

INTERNAL = re.compile(
    r"pg_settings|information_schema|pg_catalog|\bpg_\w+|^\s*(SET|RESET|SHOW|BEGIN|COMMIT|ROLLBACK|DISCARD|LOAD|VACUUM|ANALYZE)\b"
    r"|CURRENT_DATABASE\s*\(|\bVERSION\s*\(", re.I)


def split_statements(sql: str) -> list[str]:
    out, cur, i, n = [], [], 0, len(sql)
    while i < n:
        c = sql[i]
        if c in "'\"":
            j = i + 1
            while j < n:
                if sql[j] == c:
                    if j + 1 < n and sql[j + 1] == c:
                        j += 2
                        continue
                    break
                j += 1
            cur.append(sql[i:j + 1])
            i = j + 1
        elif sql.startswith("--", i):
            j = sql.find("\n", i)
            j = n if j < 0 else j
            cur.append(sql[i:j])
            i = j
        elif sql.startswith("/*", i):
            j = sql.find("*/", i)
            j = n if j < 0 else j + 2
            cur.append(sql[i:j])
            i = j
        elif c == ";":
            out.append("".join(cur))
            cur = []
            i += 1
        else:
            cur.append(c)
            i += 1
    out.append("".join(cur))
    return [s.strip() for s in out if strip_comments(s).strip()]


def strip_comments(sql: str) -> str:
    return re.sub(r"/\*.*?\*/|--[^\n]*", " ", sql, flags=re.S).strip()


class Stmt:
    """One statement in the server log."""

    __slots__ = ("n", "pid", "app", "sql", "start", "end", "outcome", "settings", "in_tx", "client_alive", "error", "autocommit",
                 "session")

    def __init__(self, n, session, sql, start):
        self.n, self.session, self.pid, self.app, self.sql, self.start = n, session, session.pid, session.app, sql, start
        self.end = None
        self.outcome = "running"
        self.error = None
        self.settings = None
        self.in_tx = session.tx is not IDLE
        self.client_alive = True
        self.autocommit = True

    @property
    def internal(self) -> bool:
        return bool(INTERNAL.search(strip_comments(self.sql)))

    @property
    def duration(self):
        return None if self.end is None else self.end - self.start

    def __repr__(self):
        return f"<#{self.n} pid={self.pid} {self.app!r} {self.start}-{self.end} {self.outcome} {self.sql[:120]!r}>"


class Result:
    def __init__(self, columns, rows, rowcount, tag=""):
        self.columns, self.rows, self.rowcount, self.tag = columns, rows, rowcount, tag
        self.fetch_ns = 0  # time the client spends on converting the rows


def identifiers(text: str) -> list[str] | None:
    """Splits a possibly qualified and quoted name, None if the name has no valid syntax."""
    names = re.findall(r'"([^"]+)"|([\w$]+)', text)
    if not re.fullmatch(r'\s*("[^"]+"|[^\W\d][\w$]*)(\.("[^"]+"|[^\W\d][\w$]*))*\s*', text):
        return None
    return [q or n.lower() for q, n in names]


def pg_null_order(sql: str) -> str:
    """Adds PostgreSQL's default placement of NULLs (as if larger than any other value) to ORDER BY clauses."""
    out, pos = [], 0
    for m in re.finditer(r"\bORDER\s+BY\b", sql, re.I):
        if m.start() < pos:
            continue
        depth, i, start, items = 0, m.end(), m.end(), []
        while i < len(sql):
            c = sql[i]
            if c == "'":
                i = sql.find("'", i + 1)
                i = len(sql) if i < 0 else i
            elif c == "(":
                depth += 1
            elif c == ")":
                if depth == 0:
                    break
                depth -= 1
            elif depth == 0 and c == ",":
                items.append(sql[start:i])
                start = i + 1
            elif depth == 0 and re.match(r"\b(LIMIT|OFFSET|FETCH|UNION|EXCEPT|INTERSECT|FOR|ROWS|RANGE|GROUPS)\b", sql[i:], re.I) and not (sql[i - 1].isalnum() or sql[i - 1] == "_"):
                break
            i += 1
        items.append(sql[start:i])
        fixed = []
        for item in items:
            if not re.search(r"\bNULLS\s+(FIRST|LAST)\s*$", item, re.I):
                item = item.rstrip() + (" NULLS FIRST" if re.search(r"\bDESC\s*$", item, re.I) else " NULLS LAST")
            fixed.append(item)
        out.append(sql[pos:m.end()] + ",".join(fixed) + " ")
        pos = i
    return "".join(out) + sql[pos:]


def csv_field(v) -> str:
    if v is None:
        return ""
    v = str(v)
    return '"' + v.replace('"', '""') + '"' if v == "" or re.search(r'[,"\r\n]', v) else v


def parse_csv(text: str) -> list[list]:
    """Records of a PostgreSQL CSV file: unquoted empty fields are NULL."""
    rows, row, field, quoted, inside, i = [], [], "", False, False, 0
    while i < len(text):
        c = text[i]
        if inside:
            if c == '"':
                if text[i + 1:i + 2] == '"':
                    field += c
                    i += 1
                else:
                    inside = False
            else:
                field += c
        elif c == '"':
            inside = quoted = True
        elif c in ",\n":
            row.append(field if field or quoted else None)
            field, quoted = "", False
            if c == "\n":
                rows.append(row)
                row = []
        elif c != "\r":
            field += c
        i += 1
    if inside:
        raise pge.BadCopyFileFormat("unterminated CSV quoted field")
    if row or field or quoted:
        rows.append(row + [field if field or quoted else None])
    return rows


class DB:
    """Contents of the database. Copies are made for transactions that write."""

    def __init__(self, server: "Server", source: "DB | None" = None) -> None:
        self.server = server
        self.con = sqlite3.connect(":memory:", isolation_level=None, check_same_thread=False)
        if source is not None:
            source.con.backup(self.con)
        self.con.execute("PRAGMA foreign_keys=ON")
        self.con.create_function("random", 0, lambda: server.k.chooser.delay("sqlrandom", 0, 1 << 40))
        self.con.create_function("sim_bernoulli", 1, lambda p: int(server.k.chooser.flip("bernoulli", float(p) / 100)))
        self.con.create_function("current_database", 0, lambda: server.dbname)
        self.con.create_function("current_schema", 0, lambda: "public")
        self.con.create_function("version", 0, lambda: server.version)
        self.con.create_function("pg_relation_filenode", 1, lambda x: x)
        self.con.create_function("anyin", 2, lambda x, y: str(x) in str(y or "").split())
        self.con.create_function("array_position", 2, lambda x, y: (str(x or "").split() + [str(y)]).index(str(y)))
        for schema in ("information_schema", "pg_catalog"):
            self.con.execute(f"ATTACH ':memory:' AS {schema}")
        for schema, script in server.schemas.items():  # further schemas are read-only for transactions
            self.con.execute(f"ATTACH ':memory:' AS {schema}")
            if source is None:
                self.con.executescript(script)
            else:
                for (sql,) in source.con.execute(f"SELECT sql FROM {schema}.sqlite_master WHERE sql IS NOT NULL").fetchall():
                    self.con.execute(re.sub(r"^(CREATE\s+(?:UNIQUE\s+)?(?:TABLE|INDEX)\s+)", rf"\1{schema}.", sql))
                for t in self.user_tables(schema):
                    for row in source.con.execute(f'SELECT * FROM {schema}."{t}"').fetchall():
                        self.con.execute(f'INSERT INTO {schema}."{t}" VALUES ({", ".join("?" * len(row))})', row)
        self.reltuples: dict = dict(source.reltuples) if source is not None else {}   # (schema, table) -> rows at the last ANALYZE
        self.n_distinct: dict = dict(source.n_distinct) if source is not None else {}  # (schema, table, column) -> at the last ANALYZE
        self.overrides: dict = dict(source.overrides) if source is not None else {}    # SET (n_distinct = ...), effective at the next ANALYZE
        self.stale = True

    def user_tables(self, schema: str = "main") -> list[str]:
        return [r[0] for r in self.con.execute(f"SELECT name FROM {schema}.sqlite_master WHERE type='table' AND name NOT LIKE 'sqlite_%'"
                                               " ORDER BY rowid")]

    def count(self, schema: str, table: str) -> int:
        return self.con.execute(f'SELECT COUNT(*) FROM {schema}."{table}"').fetchone()[0]

    def analyze(self, targets=None) -> None:
        """targets: [(schema or None, table, columns or None)], None for all tables."""
        import struct
        tables = [(schema, t) for schema in ["main", *self.server.schemas] for t in self.user_tables(schema)]
        if targets is None:
            targets = [(schema, t, None) for schema, t in tables]
        for schema, t, columns in targets:
            schema = {"public": "main", None: "main"}.get(schema, schema)
            if (schema, t) not in tables:
                raise pge.UndefinedTable(f'relation "{t}" does not exist')
            n = self.reltuples[schema, t] = self.count(schema, t)
            names = [r[1] for r in self.con.execute(f'PRAGMA {schema}.table_info("{t}")').fetchall()]
            for c in names if columns is None else columns:
                if c not in names:
                    raise pge.UndefinedColumn(f'column "{c}" of relation "{t}" does not exist')
                d = self.con.execute(f'SELECT COUNT(DISTINCT "{c}") FROM {schema}."{t}"').fetchone()[0]
                d = self.server.sampled(d)
                value = -d / n if n and d > 0.1 * n else float(d)
                value = self.overrides.get((schema, t, c)) or value
                if n:
                    self.n_distinct[schema, t, c] = float(f"{struct.unpack('f', struct.pack('f', value))[0]:.7g}")
        self.stale = True

    def refresh_catalog(self) -> None:
        if not self.stale:
            return
        c, db = self.con, self.server.dbname
        for schema in ("information_schema", "pg_catalog"):
            for (name,) in c.execute(f"SELECT name FROM {schema}.sqlite_master WHERE type='table'").fetchall():
                c.execute(f"DROP TABLE {schema}.{name}")
        c.executescript("""
            CREATE TABLE information_schema.tables(table_catalog, table_schema, table_name, table_type);
            CREATE TABLE information_schema.columns(table_name, table_schema, column_name, data_type, is_nullable, ordinal_position, table_catalog);
            CREATE TABLE information_schema.key_column_usage(constraint_name, table_schema, table_name, column_name, table_catalog, constraint_catalog, constraint_schema,
                ordinal_position, position_in_unique_constraint);
            CREATE TABLE information_schema.table_constraints(constraint_name, table_schema, table_name, constraint_type, table_catalog, constraint_catalog, constraint_schema);
            CREATE TABLE information_schema.constraint_column_usage(constraint_name, table_schema, table_name, column_name, table_catalog, constraint_catalog, constraint_schema);
            CREATE TABLE pg_catalog.pg_class(oid INTEGER, relname, relnamespace, reltuples, relpages);
            CREATE TABLE pg_catalog.pg_namespace(oid INTEGER, nspname);
            CREATE TABLE pg_catalog.pg_attribute(attrelid, attname, attnum);
            CREATE TABLE pg_catalog.pg_index(indexrelid, indrelid, indkey, indisprimary, indisunique, indnkeyatts);
            CREATE TABLE pg_catalog.pg_extension(extname);
            CREATE TABLE pg_catalog.pg_stats(tablename, schemaname, attname, n_distinct, null_frac, most_common_vals,
                most_common_freqs, histogram_bounds);
            INSERT INTO pg_catalog.pg_namespace VALUES (2200, 'public');
        """)
        for ext in self.server.extensions:
            c.execute("INSERT INTO pg_catalog.pg_extension VALUES (?)", (ext,))
        oid = 16000
        types = {"INTEGER": "integer", "INT": "integer", "BIGINT": "bigint", "BIGSERIAL": "bigint", "TEXT": "text", "DATE": "date",
                 "VARCHAR": "character varying", "TIMESTAMP": "timestamp without time zone", "NUMERIC": "numeric", "REAL": "real"}
        for nsp, (sq, schema) in enumerate([("main", "public")] + [(x, x) for x in self.server.schemas], 2200):
            if schema != "public":
                c.execute("INSERT INTO pg_catalog.pg_namespace VALUES (?, ?)", (nsp, schema))

            used: set = set()

            def constraint(name, kind, t, sources, target, targets):
                base, i = name, 0
                while name in used:
                    i += 1
                    name = f"{base}{i}"
                used.add(name)
                c.execute("INSERT INTO information_schema.table_constraints VALUES (?,?,?,?,?,?,?)", (name, schema, t, kind, db, db, schema))
                for i, col in enumerate(sources, 1):
                    c.execute("INSERT INTO information_schema.key_column_usage VALUES (?,?,?,?,?,?,?,?,?)",
                              (name, schema, t, col, db, db, schema, i, i if kind == "FOREIGN KEY" else None))
                for col in targets:
                    c.execute("INSERT INTO information_schema.constraint_column_usage VALUES (?,?,?,?,?,?,?)",
                              (name, schema, target, col, db, db, schema))

            pks = {}
            for t, kind in c.execute(f"SELECT name, type FROM {sq}.sqlite_master WHERE type IN ('table', 'view') AND name NOT LIKE 'sqlite_%'"
                                     " ORDER BY rowid").fetchall():
                oid += 20
                n = self.reltuples.get((sq, t), -1)
                c.execute("INSERT INTO information_schema.tables VALUES (?,?,?,?)", (db, schema, t, "VIEW" if kind == "view" else "BASE TABLE"))
                c.execute("INSERT INTO pg_catalog.pg_class VALUES (?,?,?,?,?)", (oid, t, nsp, n, max(n, 0) // 10 + 1))
                idx_oid = oid
                pk, names = [], {}
                for cid, name, typ, notnull, _d, pkpos in c.execute(f'PRAGMA {sq}.table_info("{t}")').fetchall():
                    names[name] = cid + 1
                    c.execute("INSERT INTO information_schema.columns VALUES (?,?,?,?,?,?,?)",
                              (t, schema, name, types.get(typ.upper().split("(")[0], typ.lower()), "NO" if notnull or pkpos else "YES", cid + 1, db))
                    c.execute("INSERT INTO pg_catalog.pg_attribute VALUES (?,?,?)", (oid, name, cid + 1))
                    if pkpos:
                        pk.append((pkpos, name))
                pk = pks[t] = [name for _, name in sorted(pk)]

                def index(name, cols, primary, unique):
                    nonlocal idx_oid
                    idx_oid += 1
                    c.execute("INSERT INTO pg_catalog.pg_class VALUES (?,?,?,?,1)", (idx_oid, name, nsp, n))
                    c.execute("INSERT INTO pg_catalog.pg_index VALUES (?,?,?,?,?,?)",
                              (idx_oid, oid, " ".join(str(names[x]) for x in cols), primary, unique, len(cols)))

                if pk:
                    index(f"{t}_pkey", pk, 1, 1)
                    constraint(f"{t}_pkey", "PRIMARY KEY", t, pk, t, pk)
                for row in c.execute(f'PRAGMA {sq}.index_list("{t}")').fetchall():
                    iname, unique, origin = row[1], row[2], row[3]
                    if origin == "pk":
                        continue
                    cols = [r[2] for r in c.execute(f'PRAGMA {sq}.index_info("{iname}")').fetchall()]
                    if origin == "u":
                        iname = f"{t}_{'_'.join(cols)}_key"
                        constraint(iname, "UNIQUE", t, cols, t, cols)
                    index(iname, cols, 0, unique)
            for t in self.user_tables(sq):
                fks: dict = {}
                for fid, _seq, target, src, dst in [row[:5] for row in c.execute(f'PRAGMA {sq}.foreign_key_list("{t}")').fetchall()]:
                    fks.setdefault((fid, target), []).append((src, dst))
                for (fid, target), cols in fks.items():
                    targets = [d for _, d in cols] if cols[0][1] else pks.get(target, [])
                    constraint(f"{t}_{'_'.join(x for x, _ in cols)}_fkey", "FOREIGN KEY", t, [x for x, _ in cols], target, targets)
            for (s, t, col), value in self.n_distinct.items():
                if s == sq:
                    c.execute("INSERT INTO pg_catalog.pg_stats(tablename, schemaname, attname, n_distinct) VALUES (?,?,?,?)", (t, schema, col, value))
        self.stale = False

    def dump(self) -> dict:
        return {t: sorted(self.con.execute(f"SELECT * FROM main.{t}").fetchall(), key=repr) for t in self.user_tables()}

    def translate(self, sql: str) -> str:
        s = sql.rstrip().rstrip(";")
        s = re.sub(r"(\w+(?:\.\w+)?)\s*=\s*ANY\s*\((\w+(?:\.\w+)?)\)", r"anyin(\1, \2)", s, flags=re.I)
        s = re.sub(r"'([^']*)'\s*::\s*regclass", self._regclass, s, flags=re.I)
        s = re.sub(r"'([^']*)'\s*::\s*regnamespace", r"(SELECT oid FROM pg_namespace WHERE nspname = '\1')", s, flags=re.I)
        s = re.sub(r"::\s*(int2|int|integer|bigint|text|float|numeric|date|timestamp)\b(\[\])?", "", s, flags=re.I)
        s = re.sub(r"\bBIGSERIAL\b", "INTEGER", s, flags=re.I)
        if m := re.search(r"\bTABLESAMPLE\s+BERNOULLI\s*\(\s*(-?[\d.]+)\s*\)", s, re.I):
            if not 0 <= float(m.group(1)) <= 100:
                raise pge.InvalidTablesampleArgument("sample percentage must be between 0 and 100")
        s = re.sub(r"\bFROM\s+((?:\w+\.)?(?:\w+|\"[^\"]+\"))\s+TABLESAMPLE\s+BERNOULLI\s*\(\s*([\d.]+)\s*\)(\s+WHERE\b)?",
                   lambda m: f"FROM {m.group(1)} WHERE sim_bernoulli({m.group(2)})" + (" AND" if m.group(3) else ""), s, flags=re.I)
        s = re.sub(r"(\bWITH\s+\w+\s+AS)\s*\(", r"\1 MATERIALIZED (", s, flags=re.I)
        s = pg_null_order(s)
        s = re.sub(r"^(\s*(?:WITH\b.*?\)\s*)?DELETE\s+FROM\s+(\w+))\s+(?!AS\b|WHERE\b|USING\b|RETURNING\b)(\w+)", r"\1 AS \3", s,
                   flags=re.I | re.S)
        s = re.sub(r"\bTRUE\b", "1", s, flags=re.I)
        s = re.sub(r"\bILIKE\b", "LIKE", s, flags=re.I)
        s = re.sub(r"\bOFFSET\s+(\d+)\s+ROWS?\s+FETCH\s+(?:FIRST|NEXT)\s+(\d+)\s+ROWS?\s+ONLY\b", r"LIMIT \2 OFFSET \1", s, flags=re.I)
        s = re.sub(r"\bFETCH\s+(?:FIRST|NEXT)\s+(\d+)\s+ROWS?\s+ONLY\b", r"LIMIT \1", s, flags=re.I)
        s = re.sub(r"(?<!LIMIT )(\bLIMIT\s+\d+\s+)?\bOFFSET\s+(\d+)(?:\s+ROWS?\b)?", lambda m: (m.group(1) or "LIMIT -1 ") + f"OFFSET {m.group(2)}", s, flags=re.I)
        return s

    def _regclass(self, m) -> str:
        names = identifiers(m.group(1))
        if names is None or len(names) > 2:
            raise pge.SyntaxError(f"invalid name syntax: {m.group(1)}")
        oids = self.con.execute("SELECT c.oid FROM pg_class c JOIN pg_namespace n ON n.oid = c.relnamespace WHERE c.relname = ? AND n.nspname = ?",
                                (names[-1], names[0] if len(names) == 2 else "public")).fetchall()
        if not oids:
            raise pge.UndefinedTable(f'relation "{m.group(1)}" does not exist')
        return str(oids[0][0])

    def run(self, sql: str) -> Result:
        self.refresh_catalog()
        s = self.translate(sql)
        try:
            cur = self.con.execute(s)
        except sqlite3.Error as e:
            raise self._map_error(e) from None
        if cur.description is not None:
            columns = [d[0] for d in cur.description]
            rows = [self.server.convert_row(columns, r) for r in cur.fetchall()]
            return Result(columns, rows, len(rows), f"SELECT {len(rows)}")
        if re.match(r"\s*(CREATE|DROP|ALTER)\b", s, re.I):
            self.stale = True
            return Result(None, None, -1, "DDL")
        self.stale = True
        return Result(None, None, max(cur.rowcount, 0), "DML")

    @staticmethod
    def _map_error(e: sqlite3.Error) -> Exception:
        msg = str(e)
        if "no such table" in msg:
            name = msg.split(":")[-1].strip()
            return pge.UndefinedTable(f'relation "{name}" does not exist')
        if "no such column" in msg:
            name = msg.split(":")[-1].strip()
            return pge.UndefinedColumn(f'column "{name}" does not exist')
        if "syntax error" in msg or "incomplete input" in msg or "unrecognized token" in msg:
            return pge.SyntaxError(f"syntax error: {msg}")
        if "FOREIGN KEY" in msg:
            return pge.ForeignKeyViolation(msg)
        if "UNIQUE" in msg:
            return pge.UniqueViolation(msg)
        if "no such function" in msg:
            return pge.UndefinedFunction(msg)
        return pge.InternalError(f"simulated server: {msg}")


class Session:
    """One backend of the server."""

    def __init__(self, server: "Server", pid: int, app: str, client: "SimConnection") -> None:
        self.server, self.pid, self.app, self.client = server, pid, app, client
        self.settings = dict(server.session_defaults)
        self.settings["application_name"] = app
        self.reset_settings = dict(self.settings)
        self.tx = IDLE
        self.tx_settings = None
        self.local: dict = {}    # what SET LOCAL has to restore
        self.tx_db: DB | None = None
        self.tx_base = None
        self.alive = True
        self.client_gone = False
        self.current: Stmt | None = None
        self.queue: list = []
        self.cancel = None  # pending reason while a statement is running
        self._done_event = None
        self.started = server.k.now
        self.ended = None
        self.how_ended = None

    # -- message handling (kernel context) -----------------------------------------------------------------------------
    def receive(self, sql: str, reply) -> None:
        if not self.alive:
            return
        self.queue.append((sql, reply))
        if self.current is None and len(self.queue) == 1:
            self._next()

    def _next(self) -> None:
        if not self.queue or not self.alive:
            return
        sql, reply = self.queue[0]
        stmts = split_statements(sql)
        self._batch(stmts, 0, reply, [], len(stmts) > 1)

    def _finish_message(self, reply, payload) -> None:
        self.queue.pop(0)
        self.current = None
        reply(payload)
        if self.client_gone:
            self.end("client gone")
        else:
            self._next()

    def _batch(self, stmts, i, reply, results, multi) -> None:
        if not self.alive:
            return
        if i == 0 and multi:
            self._implicit = None
            if self.tx is IDLE:
                self._implicit = (dict(self.settings),)
        if i >= len(stmts):
            if multi:
                if self._implicit is not None and self.tx is IDLE:
                    self._end_local()
                self._implicit = None
            if not results:
                results.append(Result(None, None, -1, "EMPTY"))
            self._finish_message(reply, ("ok", results))
            return
        sql = stmts[i]
        server = self.server
        stmt = Stmt(len(server.log), self, sql, server.k.now)
        stmt.client_alive = not self.client_gone
        stmt.settings = dict(self.settings)
        server.log.append(stmt)
        server.k.event(f"server pid={self.pid} start {sql[:80]!r}")
        self.current = stmt
        self.cancel = None
        spec = server.statement_spec(self, stmt) or {}
        kind = spec.get("fail")
        duration = spec.get("dur")
        if duration is None:
            duration = server.k.chooser.delay("srv.dur", server.base_dur[0], server.base_dur[1])

        def complete():
            self._done_event = None
            if not self.alive:
                return
            try:
                if self.cancel is not None:
                    raise self.cancel
                if kind == "lose":
                    server.k.fault("connection_lost")
                    stmt.outcome = "lost"
                    stmt.end = server.k.now
                    self.end("connection lost", notify=True)
                    return
                if kind == "crash":
                    server.k.fault("server_crash")
                    server.crash(spec.get("down_for", 0))
                    return
                if self.tx is INERROR and not re.match(r"(ROLLBACK|ABORT|COMMIT|END)\b", strip_comments(sql), re.I):
                    raise pge.InFailedSqlTransaction(
                        "current transaction is aborted, commands ignored until end of transaction block")
                if kind is not None:
                    server.k.fault(f"statement_{kind}")
                    raise make_error(kind, spec.get("message"))
                results.append(self.execute(sql, spec))
                stmt.outcome = "ok"
            except psycopg.Error as e:
                stmt.outcome = "canceled" if isinstance(e, pge.QueryCanceled) else "error"
                stmt.error = e
                stmt.end = server.k.now
                self.on_error()
                server.k.event(f"server pid={self.pid} {stmt.outcome} {type(e).__name__}")
                self._finish_message(reply, ("error", e))
                return
            stmt.end = server.k.now
            server.k.event(f"server pid={self.pid} done")
            if kind is None and spec.get("then") == "lose":
                server.k.fault("connection_lost_after_execution")
                self.end("connection lost", notify=True)
                return
            self._batch(stmts, i + 1, reply, results, multi)

        timeout = self._statement_timeout()
        self._complete = complete
        if timeout and duration >= timeout and kind in (None, "lose", "crash"):
            def fire():
                if self.current is stmt and self.alive:
                    server.k.probe("server_statement_timeout")
                    msg = "canceling statement due to statement timeout"
                    if server.timeout_context and server.k.chooser.flip("srv.context", 0.5):
                        msg += "\nCONTEXT:  parallel worker"
                    self.cancel = pge.QueryCanceled(msg)
                    complete()

            self._done_event = server.k.at(timeout, fire)
        else:
            self._done_event = server.k.at(duration, complete)

    def _statement_timeout(self) -> int:
        return parse_interval_ms(self.settings.get("statement_timeout", "0")) * MS

    def on_error(self) -> None:
        implicit = getattr(self, "_implicit", None)
        if implicit is not None:
            self.settings = implicit[0]
            self.local = {}
            self._implicit = None
        if self.tx is not IDLE and self.current is not None and re.match(r"\s*(COMMIT|END|ROLLBACK|ABORT)\b", self.current.sql, re.I):
            self.tx, self.tx_db, self.settings = IDLE, None, self.tx_settings    # a failed COMMIT rolls back
            self.local = {}
        elif self.tx is INTX:
            self.tx = INERROR

    def interrupt(self) -> None:
        """Effect of pg_cancel_backend once the signal is handled."""
        stmt = self.current
        if not self.alive or stmt is None or stmt.end is not None or self._done_event is None:
            self.server.k.probe("cancel_hit_idle_backend")
            return
        self._done_event[2] = None
        self._done_event = None
        self.cancel = pge.QueryCanceled("canceling statement due to user request")
        self.server.k.probe("cancel_hit_running_query")
        self._complete()

    def end(self, how: str, notify: bool = False, error: Exception | None = None) -> None:
        if not self.alive:
            return
        self.alive = False
        self.ended = self.server.k.now
        self.how_ended = how
        if self._done_event is not None:
            self._done_event[2] = None
        if self.current is not None and self.current.end is None:
            self.current.end = self.server.k.now
            if self.current.outcome == "running":
                self.current.outcome = "lost" if notify else "aborted"
        self.current = None
        self.tx_db = None
        self.tx = IDLE
        self.server.k.event(f"server pid={self.pid} ends: {how}")
        if notify and not self.client_gone:
            self.client.server_gone(error)

    def client_vanished(self, how: str = "client gone") -> None:
        """The client's socket was closed. A busy backend only notices when it is done."""
        if self.client_gone:
            return
        self.client_gone = True
        if self.alive and self.current is None:
            self.end(how)

    # -- statements -----------------------------------------------------------------------------------------------------
    def _end_local(self) -> None:
        """The transaction ends: SET LOCAL is undone."""
        self.settings.update(self.local)
        self.local = {}

    def _db(self, write: bool) -> DB:
        if self.tx_db is not None:
            return self.tx_db
        if self.tx is INTX and write:
            self.tx_base = self.server.commits
            self.tx_db = DB(self.server, self.server.db)
            return self.tx_db
        return self.server.db

    def execute(self, sql: str, spec: dict) -> Result:
        server = self.server
        bare = strip_comments(sql)
        up = bare.upper()
        cmd = Result(None, None, -1, up.split()[0])
        local = re.match(r"SET\s+LOCAL\s", bare, re.I)
        if local and self.tx is IDLE and getattr(self, "_implicit", None) is None:
            return cmd    # only a warning: SET LOCAL can only be used in transaction blocks
        m = re.match(r"SET\s+(?:SESSION\s+|LOCAL\s+)?([\w.]+)\s*(?:=|\s+TO\s+)\s*(.+)$", bare, re.I | re.S) or re.match(
            r"SET\s+([\w.]+)\s+TO\s+(.+)$", bare, re.I | re.S)
        if m:
            key = self._key(m.group(1))
            before = self.settings.get(key)
            self._set(m.group(1), m.group(2).strip())
            if local:
                self.local.setdefault(key, before)
            else:
                self.local.pop(key, None)
            return cmd
        if m := re.match(r"RESET\s+([\w.]+)$", bare, re.I):
            if m.group(1).upper() == "ALL":
                self.settings = dict(self.reset_settings)
            else:
                key = self._key(m.group(1))
                self.settings[key] = self.reset_settings[key]
            return cmd
        if up.startswith("DISCARD"):
            self.settings = dict(self.reset_settings)
            return cmd
        if m := re.match(r"SHOW\s+([\w.]+)$", bare, re.I):
            name = m.group(1)
            low = name.lower()
            allv = {x.lower(): v for x, v in {**SERVER_SETTINGS, **self.settings, **server.extra_show}.items()}
            if low not in allv:
                raise pge.UndefinedObject(f'unrecognized configuration parameter "{name}"')
            return Result([low], [(allv[low],)], 1)
        if re.match(r"(BEGIN|START\s+TRANSACTION)\b", bare, re.I):
            if self.tx is IDLE:
                self.tx = INTX
                self.tx_settings = dict(self.settings)
            return cmd
        if re.match(r"(COMMIT|END)\b", bare, re.I):
            if self.tx is INTX:
                if self.tx_db is not None:
                    if self.tx_base != server.commits:
                        raise HarnessError("concurrent writing transactions are not modelled")
                    server.db = self.tx_db
                    server.commits += 1
                    server.k.event("server commit")
                self._end_local()
            elif self.tx is INERROR:
                self.settings = self.tx_settings
            self.local = {}
            self.tx, self.tx_db = IDLE, None
            return cmd
        if re.match(r"(ROLLBACK|ABORT)\b", bare, re.I):
            if self.tx is not IDLE:
                self.settings = self.tx_settings
            self.local = {}
            self.tx, self.tx_db = IDLE, None
            return cmd
        if m := re.search(r"pg_cancel_backend\s*\(\s*(\d+)\s*\)", bare, re.I):
            return Result(["pg_cancel_backend"], [(server.signal_backend(int(m.group(1)), "cancel"),)], 1)
        if m := re.search(r"pg_terminate_backend\s*\(\s*(\d+)[^)]*\)", bare, re.I):
            return Result(["pg_terminate_backend"], [(server.signal_backend(int(m.group(1)), "terminate"),)], 1)
        if re.match(r"SELECT\s+pg_backend_pid\s*\(", bare, re.I):
            return Result(["pg_backend_pid"], [(self.pid,)], 1)
        if re.match(r"(VACUUM|ANALYZE)\b", bare, re.I):
            if self.tx is not IDLE:
                raise pge.ActiveSqlTransaction("VACUUM cannot run inside a transaction block")
            names = re.sub(r"^(VACUUM|ANALYZE|FULL|VERBOSE|\s)+", "", bare, flags=re.I)
            targets = []
            while names.strip():
                m = re.match(r"\s*((?:[\w$]+|\"[^\"]+\"|\.)+)\s*(?:\(([^)]*)\))?\s*(,|$)", names)
                table = identifiers(m.group(1)) if m else None
                columns = [identifiers(x.strip()) for x in m.group(2).split(",")] if m and m.group(2) is not None else None
                if not table or columns and not all(columns):
                    raise pge.SyntaxError(f'syntax error at or near "{names.strip()[:20]}"')
                targets.append((table[0] if len(table) == 2 else None, table[-1], columns and [x[-1] for x in columns]))
                names = names[m.end():]
            server.db.analyze(targets or None)
            return cmd
        if m := re.match(r"ALTER\s+TABLE\s+(\S.*?)\s+ALTER\s+(?:COLUMN\s+)?(\S.*?)\s+SET\s+(?:STATISTICS\s+(-?\d+)|\(\s*n_distinct\s*=\s*(-?[\d.]+)\s*\))\s*$", bare,
                         re.I | re.S):
            table, column = identifiers(m.group(1)), identifiers(m.group(2))
            if not table or not column:
                raise pge.SyntaxError("syntax error in ALTER TABLE")
            schema = {"public": "main"}.get(table[0], table[0]) if len(table) == 2 else "main"
            if (schema, table[-1]) not in [(schema, t) for t in server.db.user_tables(schema)]:
                raise pge.UndefinedTable(f'relation "{table[-1]}" does not exist')
            if m.group(4) is not None:
                if float(m.group(4)) < -1:
                    raise pge.InvalidParameterValue("value out of bounds for option n_distinct")
                server.db.overrides[schema, table[-1], column[0]] = float(m.group(4))
            return cmd
        if re.match(r"(LOAD|CREATE\s+EXTENSION|COMMENT|GRANT|ALTER\s+SYSTEM|CHECKPOINT|DEALLOCATE|LISTEN)\b", bare, re.I):
            return cmd
        if m := re.match(r"SELECT\s+set_config\s*\(\s*'([\w.]+)'\s*,\s*'([^']*)'", bare, re.I):
            self._set(m.group(1), m.group(2))
            return Result(["set_config"], [(m.group(2),)], 1)
        if re.search(r"pg_prewarm|pg_cooldown|pg_buffercache|pglab_|pg_temperature", bare, re.I):
            return Result(["n"], [(1,)], 1)
        if m := re.match(r"COPY\s+(\w+)\s*(?:\(([^)]*)\))?\s+(TO|FROM)\s+'([^']+)'", bare, re.I | re.S):
            return self._copy(*m.groups())
        if up.startswith("EXPLAIN"):
            return server.explain(self, sql)
        write = bool(re.match(r"(INSERT|UPDATE|DELETE|CREATE|DROP|ALTER|TRUNCATE|WITH\b.*\b(DELETE|INSERT|UPDATE)\b)", bare,
                              re.I | re.S))
        db = self._db(write)
        if re.search(r"\bpg_settings\b", bare, re.I):
            db.con.execute("DROP TABLE IF EXISTS temp.pg_settings")
            db.con.execute("CREATE TEMP TABLE pg_settings(name, setting)")
            db.con.executemany("INSERT INTO temp.pg_settings VALUES (?,?)",
                               sorted({**SERVER_SETTINGS, **self.settings}.items()))
        result = db.run(sql)
        if write and self.tx is IDLE:
            server.commits += 1
        if "rows" in spec:
            result = Result(result.columns or ["c"], [tuple(r) for r in spec["rows"]], len(spec["rows"]))
        result.fetch_ns = spec.get("fetch", 0)
        return result

    def _key(self, name: str) -> str:
        for k in self.settings:
            if k.lower() == name.lower():
                return k
        if name.lower() in (s.lower() for s in SERVER_SETTINGS):
            raise pge.CantChangeRuntimeParam(f'parameter "{name}" cannot be changed without restarting the server')
        if "." in name or name.lower() in ("enable_pglab",):
            return name
        raise pge.UndefinedObject(f'unrecognized configuration parameter "{name}"')

    def _set(self, name: str, value: str) -> None:
        key = self._key(name)
        value = value.strip().rstrip(";").strip()
        if value.upper() == "DEFAULT":
            self.settings[key] = self.reset_settings.get(key, "")
            return
        if value.startswith("'") and value.endswith("'"):
            value = value[1:-1].replace("''", "'")
        default = SESSION_SETTINGS.get(key)
        if default in ("on", "off"):
            if value.lower() not in _BOOL:
                raise pge.InvalidParameterValue(f'parameter "{key}" requires a Boolean value')
            value = _BOOL[value.lower()]
        elif default is not None and re.fullmatch(r"-?\d+(\.\d+)?", default):
            if not re.fullmatch(r"-?\d+(\.\d+)?(e[+-]?\d+)?\s*(kB|MB|GB|ms|s|min|h|d)?", value, re.I):
                raise pge.InvalidParameterValue(f'invalid value for parameter "{key}": "{value}"')
            mm = re.fullmatch(r"(\d+)\s*(kB|MB|GB)", value, re.I)
            if mm:
                value = str(int(mm.group(1)) * {"kb": 1, "mb": 1024, "gb": 1024 * 1024}[mm.group(2).lower()])
        self.settings[key] = value

    def _copy(self, table, columns, direction, path) -> Result:
        db = self._db(direction.upper() == "FROM")
        if not db.con.execute("SELECT 1 FROM main.sqlite_master WHERE type='table' AND name = ?", (table,)).fetchone():
            raise pge.UndefinedTable(f'relation "{table}" does not exist')
        info = [(r[1], r[2].upper()) for r in db.con.execute(f"PRAGMA main.table_info({table})")]
        names = [c.strip() for c in columns.split(",")] if columns else [n for n, _ in info]
        types = dict(info)
        for n in names:
            if n not in types:
                raise pge.UndefinedColumn(f'column "{n}" of relation "{table}" does not exist')
        if direction.upper() == "TO":
            rows = db.con.execute(f"SELECT {', '.join(names)} FROM {table}").fetchall()
            try:
                with open(path, "w", newline="") as f:
                    for r in [names, *rows]:
                        f.write(",".join(csv_field(v) for v in r) + "\n")
            except OSError as e:
                raise pge.UndefinedFile(f'could not open file "{path}" for writing: {e}') from None
            return Result(None, None, len(rows), "COPY")
        try:
            with open(path, newline="") as f:
                text = f.read()
        except OSError as e:
            raise pge.UndefinedFile(f'could not open file "{path}" for reading: {e}') from None
        rows = parse_csv(text)[1:]
        db.con.execute("SAVEPOINT sim_copy")
        try:
            self._insert_rows(db, table, names, types, rows)
        except BaseException:
            db.con.execute("ROLLBACK TO sim_copy")
            raise
        finally:
            db.con.execute("RELEASE sim_copy")
        db.stale = True
        if self.tx is IDLE:
            self.server.commits += 1
        return Result(None, None, len(rows), "COPY")

    @staticmethod
    def _insert_rows(db, table, names, types, rows) -> None:
        for r in rows:
            if len(r) != len(names):
                raise pge.BadCopyFileFormat("missing data for column" if len(r) < len(names) else "extra data after last expected column")
            for n, v in zip(names, r):
                if v is not None and "INT" in types[n] and not re.fullmatch(r"\s*[+-]?\d+\s*", v):
                    raise pge.InvalidTextRepresentation(f'invalid input syntax for type {types[n].lower()}: "{v}"')
                if v is None and n == "marker_idx":
                    raise pge.NotNullViolation(f'null value in column "{n}" violates not-null constraint')
            try:
                db.con.execute(f"INSERT INTO {table}({', '.join(names)}) VALUES ({','.join('?' * len(r))})", r)
            except sqlite3.Error as e:
                raise DB._map_error(e) from None


def parse_interval_ms(value: str) -> int:
    m = re.fullmatch(r"\s*([\d.]+)\s*(ms|s|min|h|d)?\s*", str(value))
    if not m:
        return 0
    mult = {None: 1, "ms": 1, "s": 1000, "min": 60_000, "h": 3_600_000, "d": 86_400_000}[m.group(2)]
    return int(float(m.group(1)) * mult)


ERRORS = {
    "internal": (pge.InternalError_, "simulated internal error"),
    "disk_full": (pge.DiskFull, "could not extend file: No space left on device"),
    "oom": (pge.OutOfMemory, "out of memory"),
    "io": (pge.IoError, "could not read block 3 in file: Input/output error"),
    "deadlock": (pge.DeadlockDetected, "deadlock detected"),
    "serialization": (pge.SerializationFailure, "could not serialize access"),
    "syntax": (pge.SyntaxError, 'syntax error at or near "FORM"'),
    "undefined_table": (pge.UndefinedTable, 'relation "nope" does not exist'),
    "undefined_column": (pge.UndefinedColumn, 'column "nope" does not exist'),
    "division": (pge.DivisionByZero, "division by zero"),
    "type": (pge.DatatypeMismatch, "argument of WHERE must be type boolean"),
    "cancel": (pge.QueryCanceled, "canceling statement due to user request"),
    "conflict": (pge.QueryCanceled, "canceling statement due to conflict with recovery"),
    "lock": (pge.LockNotAvailable, "canceling statement due to lock timeout"),
    "privilege": (pge.InsufficientPrivilege, "permission denied for table r"),
}
SERVER_KINDS = ("internal", "disk_full", "oom", "io", "deadlock", "serialization", "cancel", "lock")
USER_KINDS = ("syntax", "undefined_table", "undefined_column", "division", "type", "privilege")


def make_error(kind: str, message: str | None = None) -> Exception:
    cls, msg = ERRORS[kind]
    return cls(message or msg)


class Server:
    def __init__(self, k: Kernel, script: str = "", *, dbname: str = "simdb", net=(50 * US, 400 * US), base_dur=(100 * US, 2 * MS),
                 signal_delay=(20 * US, 3 * MS), connect_dur=(1 * MS, 8 * MS), schemas: dict | None = None) -> None:
        self.k = k
        self.dbname = dbname
        self.schemas = schemas or {}  # further schemas: name -> script
        self.version = "PostgreSQL 17.2 on x86_64-simulated, compiled by nobody, 64-bit"
        self.net, self.base_dur, self.signal_delay, self.connect_dur = net, base_dur, signal_delay, connect_dur
        self.session_defaults = dict(SESSION_SETTINGS)
        self.extra_show = {"pg_hint_plan.enable_hint": "on"}
        self.extensions = ["plpgsql", "pg_prewarm"]
        self.log: list[Stmt] = []
        self.sessions: dict[int, Session] = {}
        self.all_sessions: list[Session] = []
        self.connections: list["SimConnection"] = []
        self.refused_until = 0
        self.timeout_context = False
        self.connect_count: dict[str, int] = {}
        self.statement_count: dict[str, int] = {}
        self.commits = 0
        self._pid = 7000
        self.on_statement = None  # (session, stmt) -> {"dur": ns, "fail": kind, "rows": ...} | None
        self.on_connect = None  # (app, nth) -> None | "refuse" | "late_refuse"
        self.on_cancel = None  # session -> True if the cancellation request cannot be delivered
        self.row_types: dict[str, callable] = {}
        self.sampled = lambda d: d  # how ANALYZE estimates the number of distinct values
        self.db = DB(self)
        if script:
            self.db.con.executescript(script)
        self.db.analyze()

    # -- scenario hooks -------------------------------------------------------------------------------------------------
    def statement_spec(self, session: Session, stmt: Stmt):
        app = session.app
        self.statement_count[app] = self.statement_count.get(app, 0) + 1
        return self.on_statement(session, stmt) if self.on_statement else None

    def convert_row(self, columns, row):
        if not self.row_types:
            return row
        return tuple(self.row_types[c](v) if c in self.row_types and v is not None else v for c, v in zip(columns, row))

    # -- administration -------------------------------------------------------------------------------------------------
    def signal_backend(self, pid: int, what: str) -> bool:
        s = self.sessions.get(pid)
        if s is None or not s.alive:
            return False

        def deliver():
            if what == "cancel":
                s.interrupt()
            else:
                s.end("terminated", notify=True,
                      error=pge.AdminShutdown("terminating connection due to administrator command"))

        self.k.at(self.k.chooser.delay("srv.signal", *self.signal_delay), deliver)
        return True

    def terminate_session(self, pid: int) -> None:
        self.signal_backend(pid, "terminate")

    def crash(self, down_for: int = 0) -> None:
        self.refused_until = self.k.now + down_for
        for s in list(self.sessions.values()):
            s.end("server crash", notify=True)

    # -- queries over the state -------------------------------------------------------------------------------------------
    def alive_sessions(self) -> list[Session]:
        return [s for s in self.all_sessions if s.alive]

    def running(self) -> list[Stmt]:
        return [s.current for s in self.all_sessions if s.alive and s.current is not None and s.current.end is None]

    def user_statements(self, pattern: str | None = None) -> list[Stmt]:
        return [s for s in self.log if not s.internal and (pattern is None or re.search(pattern, s.sql))]

    # -- EXPLAIN --------------------------------------------------------------------------------------------------------
    def explain(self, session: Session, sql: str) -> Result:
        bare = strip_comments(sql)
        m = re.match(r"EXPLAIN\s*(?:\(([^)]*)\))?\s*(ANALYZE\s+)?(.*)$", bare, re.I | re.S)
        opts, legacy, inner = (m.group(1) or "").upper(), m.group(2), m.group(3)
        analyze = bool(legacy) or bool(re.search(r"ANALYZE(?!\s+(OFF|FALSE))", opts))
        result = session._db(False).run(inner)
        fm = re.search(r"\bFROM\b(.*?)(\bWHERE\b|\bGROUP\b|\bORDER\b|\bLIMIT\b|$)", inner, re.I | re.S)
        tabs = []
        if fm:
            for part in re.split(r",|\bJOIN\b", fm.group(1), flags=re.I):
                pm = re.match(r"[\s(]*(\w+)(?:\s+(?:AS\s+)?(?!ON\b)(\w+))?", part, re.I)
                if pm:
                    tabs.append((pm.group(1), pm.group(2) or pm.group(1)))
        counts = {}
        for t, _a in tabs:
            try:
                counts[t] = session._db(False).con.execute(f"SELECT COUNT(*) FROM {t}").fetchone()[0]
            except sqlite3.Error:
                counts[t] = 1

        def extra(rows):
            return {"Actual Startup Time": 0.01, "Actual Total Time": 0.1, "Actual Rows": rows, "Actual Loops": 1} if analyze else {}

        def scan(t, a, rel="Outer"):
            return {"Node Type": "Seq Scan", "Parent Relationship": rel, "Parallel Aware": False, "Async Capable": False,
                    "Relation Name": t, "Alias": a, "Startup Cost": 0.0, "Total Cost": 10.0 + counts[t],
                    "Plan Rows": max(1, counts[t]), "Plan Width": 8, **extra(counts[t])}

        plan = None
        rows = 1
        for t, a in tabs:
            rows = max(rows, counts[t])
            if plan is None:
                plan = scan(t, a)
            else:
                plan = {"Node Type": "Hash Join", "Parent Relationship": "Outer", "Parallel Aware": False, "Async Capable": False,
                        "Join Type": "Inner", "Startup Cost": 1.0, "Total Cost": plan["Total Cost"] + 10.0 + counts[t],
                        "Plan Rows": rows, "Plan Width": 16, **extra(rows),
                        "Plans": [plan, {**scan(t, a, "Inner")}]}
        if plan is None:
            plan = {"Node Type": "Result", "Startup Cost": 0.0, "Total Cost": 0.01, "Plan Rows": 1, "Plan Width": 4, **extra(1)}
        if re.search(r"\b(COUNT|MIN|MAX|SUM|AVG)\s*\(", inner, re.I):
            plan = {"Node Type": "Aggregate", "Strategy": "Plain", "Partial Mode": "Simple", "Parallel Aware": False,
                    "Async Capable": False, "Startup Cost": plan["Total Cost"], "Total Cost": plan["Total Cost"] + 0.1,
                    "Plan Rows": 1, "Plan Width": 8, **extra(len(result.rows or [])), "Plans": [plan]}
        out = {"Plan": plan}
        if analyze:
            out |= {"Planning Time": 0.3, "Triggers": [], "Execution Time": 1.5}
        if "JSON" in opts:
            return Result(["QUERY PLAN"], [([out],)], 1)
        text = json.dumps(out, indent=1).splitlines()
        return Result(["QUERY PLAN"], [(line,) for line in text], len(text))

    # -- client side ------------------------------------------------------------------------------------------------------
    def connect(self, conninfo: str = "", *, autocommit: bool = False, row_factory=None, application_name: str = "",
                cursor_factory=None, prepare_threshold=5, context=None, **kwargs) -> "SimConnection":
        k = self.k
        params = psycopg.conninfo.conninfo_to_dict(conninfo) if conninfo else {}
        app = application_name or params.get("application_name", "")
        nth = self.connect_count[app] = self.connect_count.get(app, 0) + 1
        k.block(None, k.chooser.delay("net.connect", *self.connect_dur), why="connect")
        verdict = self.on_connect(app, nth) if self.on_connect else None
        if k.now < self.refused_until:
            verdict = "refuse"
        if verdict == "refuse":
            k.fault("connect_refused")
            raise pge.OperationalError("connection failed: connection to server at \"127.0.0.1\", port 5432 failed: Connection refused")
        if params.get("dbname") and params["dbname"] != self.dbname:
            raise pge.OperationalError(f'connection failed: FATAL:  database "{params["dbname"]}" does not exist')
        self._pid += 1
        conn = SimConnection(self, conninfo, params, autocommit, row_factory, prepare_threshold)
        sess = Session(self, self._pid, app, conn)
        conn._session = sess
        self.sessions[self._pid] = sess
        self.all_sessions.append(sess)
        self.connections.append(conn)
        k.event(f"connect {app!r} pid={self._pid}")
        return conn


class _Info:
    def __init__(self, conn: "SimConnection") -> None:
        self._c = conn

    def _pg(self):
        if self._c.closed:
            raise pge.OperationalError("the connection is closed")

    @property
    def backend_pid(self) -> int:
        self._pg()
        return self._c._session.pid

    @property
    def status(self):
        return pq.ConnStatus.BAD if self._c.closed else pq.ConnStatus.OK

    @property
    def transaction_status(self):
        if self._c.closed:
            return pq.TransactionStatus.UNKNOWN
        if self._c._waiting:
            return pq.TransactionStatus.ACTIVE
        return self._c._session.tx

    @property
    def host(self):
        self._pg()
        return self._c._params.get("host", "localhost")

    hostaddr = host

    @property
    def port(self):
        self._pg()
        return int(self._c._params.get("port", 5432))

    @property
    def dbname(self):
        self._pg()
        return self._c._server.dbname

    @property
    def user(self):
        self._pg()
        return self._c._params.get("user", "sim")

    @property
    def dsn(self):
        self._pg()
        return self._c._conninfo

    @property
    def server_version(self):
        self._pg()
        return 170002

    @property
    def encoding(self):
        return "utf-8"

    @property
    def error_message(self):
        return ""

    def parameter_status(self, name):
        return self._c._session.settings.get(name)


class _PGconn:
    """What psycopg's Python level loaders look at."""

    def __init__(self, conn):
        self._c = conn

    @property
    def status(self):
        return self._c.info.status

    @property
    def transaction_status(self):
        return self._c.info.transaction_status

    @property
    def backend_pid(self):
        return self._c.info.backend_pid

    def parameter_status(self, name):
        return {b"DateStyle": b"ISO, MDY", b"IntervalStyle": b"postgres", b"TimeZone": b"UTC"}.get(name)


class SimConnection:
    def __init__(self, server: Server, conninfo, params, autocommit, row_factory, prepare_threshold) -> None:
        self._server = server
        self._conninfo = conninfo
        self._params = params
        self._session: Session = None
        self._autocommit = autocommit
        self._closed = False
        self._broken = False
        self._gone_error = None
        self._waiting = False
        self._last_arrival = 0
        self.lock = threading.Lock()
        self.row_factory = row_factory
        self.prepare_threshold = prepare_threshold
        self.adapters = psycopg.adapt.AdaptersMap(psycopg.adapters)
        self.info = _Info(self)
        self.pgconn = _PGconn(self)
        self._proc = server.k.me().proc
        self._proc.resources.append(self)
        self.created_by = self._proc

    # operating system: the process holding the socket is gone
    def os_close(self, proc) -> None:
        # what the client had already written reaches the server before the end of the stream does
        k = self._server.k
        when = max(k.now + k.chooser.delay("net.send", *self._server.net), self._last_arrival)
        k.at(when - k.now, lambda: self._session.client_vanished("client process ended"))

    def server_gone(self, error=None) -> None:
        """Called in kernel context when the server side of the socket was closed. Noticed at the next use."""
        self._gone_error = error or pge.OperationalError(
            "consuming input failed: server closed the connection unexpectedly\n\tThis probably means the server terminated "
            "abnormally\n\tbefore or while processing the request.")

    @property
    def closed(self) -> bool:
        return self._closed or self._broken

    @property
    def broken(self) -> bool:
        return self._broken and not self._closed

    @property
    def autocommit(self) -> bool:
        return self._autocommit

    @autocommit.setter
    def autocommit(self, value) -> None:
        self._check_idle("autocommit")
        self._autocommit = bool(value)

    def set_autocommit(self, value) -> None:
        self.autocommit = value

    def _check_idle(self, what):
        if not self.closed and self._session.tx is not IDLE:
            raise pge.ProgrammingError(f"can't change {what!r} now: connection in transaction status {self._session.tx.name}")

    def _check_ok(self) -> None:
        if self._broken and not self._closed:
            raise pge.OperationalError("the connection is closed")
        if self._closed:
            raise pge.OperationalError("the connection is closed")

    def _roundtrip(self, sql: str):
        """Sends one message to the server and waits for its complete answer."""
        k = self._server.k
        self._check_ok()
        if self._gone_error is not None:
            self._broken = True
            raise _fresh(self._gone_error)
        box: list = []
        lo, hi = self._server.net

        def reply(payload):
            # the answer travels back; if the client's socket is closed meanwhile nobody gets it
            k.at(k.chooser.delay("net.reply", lo, hi), lambda: box.append(payload))

        sess = self._session
        arrival = max(k.now + k.chooser.delay("net.send", lo, hi), self._last_arrival)
        self._last_arrival = arrival
        k.at(arrival - k.now, lambda: sess.receive(sql, reply))
        self._waiting = True
        try:
            k.block(lambda: bool(box) or self._gone_error is not None or self._closed, None, why=f"pg reply {sql[:30]!r}")
        finally:
            self._waiting = False
        if not box:
            if self._closed:
                raise pge.OperationalError("the connection is closed")
            self._broken = True
            raise _fresh(self._gone_error)
        status, payload = box[0]
        if status == "error":
            raise _fresh(payload)
        return payload

    def _command(self, sql: str) -> None:
        with self.lock:
            self._roundtrip(sql)

    def _begin_if_needed(self) -> None:
        if not self._autocommit and self._session.tx is IDLE:
            self._roundtrip("BEGIN")

    def cursor(self, name: str = "", *, row_factory=None, **_kw) -> "SimCursor":
        self._check_ok()
        return SimCursor(self, row_factory or self.row_factory)

    def execute(self, query, params=None, **kw) -> "SimCursor":
        return self.cursor().execute(query, params)

    def commit(self) -> None:
        with self.lock:
            self._check_ok()
            if self._session.tx is not IDLE:
                self._roundtrip("COMMIT")

    def rollback(self) -> None:
        with self.lock:
            self._check_ok()
            if self._session.tx is not IDLE:
                self._roundtrip("ROLLBACK")

    def cancel(self) -> None:
        if self.closed:
            return
        k = self._server.k
        k.yield_point("pg-cancel")
        if k.now < self._server.refused_until or (self._server.on_cancel and self._server.on_cancel(self._session)):
            k.fault("cancel_request_refused")
            raise pge.OperationalError("cancellation failed: connection refused")
        self._server.signal_backend(self._session.pid, "cancel")

    def cancel_safe(self, *, timeout: float = 30.0) -> None:
        self.cancel()

    def close(self) -> None:
        if self._closed:
            return
        self._closed = True
        k = self._server.k
        sess = self._session
        if self in self._proc.resources:
            self._proc.resources.remove(self)
        when = max(k.now + k.chooser.delay("net.send", *self._server.net), self._last_arrival)
        k.at(when - k.now, lambda: sess.client_vanished("closed"))
        k.event(f"client closes pid={sess.pid}")
        k.yield_point("pg-close")

    def transaction(self, *a, **kw):
        return _Transaction(self)

    def __enter__(self):
        return self

    def __exit__(self, exc_type, exc, tb) -> None:
        if self.closed:
            return
        if exc_type:
            try:
                self.rollback()
            except Exception:  # psycopg logs a warning
                pass
        else:
            self.commit()
        self.close()

    def __del__(self):
        pass

    def __reduce__(self):
        raise TypeError("cannot pickle 'psycopg.Connection' object")


class _Transaction:
    def __init__(self, conn):
        self.conn = conn

    def __enter__(self):
        if self.conn._session.tx is not IDLE:
            raise HarnessError("nested transactions are not modelled")
        self.conn._command("BEGIN")
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.conn._command("COMMIT")
        else:
            try:
                self.conn._command("ROLLBACK")
            except Exception:  # psycopg logs a warning
                pass
        return False


def _fresh(e: Exception) -> Exception:
    return type(e)(*e.args)


class SimCursor:
    arraysize = 1

    def __init__(self, conn: SimConnection, row_factory) -> None:
        self._conn = conn
        self.connection = conn
        self._row_factory = row_factory
        self._closed = False
        self._reset()

    def _reset(self) -> None:
        self._results: list[Result] = []
        self._i = 0
        self._pos = 0
        self._rowcount = -1
        self._query = None

    def execute(self, query, params=None, *, prepare=None, binary=None) -> "SimCursor":
        from psycopg import sql as psql
        conn = self._conn
        with conn.lock:
            if self._closed:
                raise pge.InterfaceError("the cursor is closed")
            self._reset()
            conn._check_ok()
            conn._begin_if_needed()
            if isinstance(query, bytes):
                query = query.decode()
            elif isinstance(query, psql.Composable):
                query = query.as_string(None)
            elif not isinstance(query, str):
                raise TypeError(f"expected bytes, {type(query).__name__} found")
            if params is not None:
                query = bind(query, params)
                if params and len(split_statements(query)) > 1:
                    raise pge.SyntaxError("cannot insert multiple commands into a prepared statement")
            self._query = query
            results = conn._roundtrip(query)
            self._results = results
            self._select(0)
        return self

    def executemany(self, query, params_seq, *, returning=False) -> None:
        for p in params_seq:
            self.execute(query, p)

    def _select(self, i) -> None:
        self._i, self._pos = i, 0
        self._rowcount = self._results[i].rowcount
        res = self._results[i]
        if res.rows is not None and not getattr(res, "loaded", False):
            res.rows = [self._load(r) for r in res.rows]
            res.loaded = True

    def _load(self, row):
        row = tuple(load_value(self._conn, v) for v in row)
        if self._row_factory is None:
            return row
        return self._row_factory(self)(row)

    @property
    def rowcount(self) -> int:
        return self._rowcount

    @property
    def description(self):
        if not self._results or self._results[self._i].columns is None:
            return None
        return [_Column(c) for c in self._results[self._i].columns]

    @property
    def statusmessage(self):
        return self._results[self._i].tag if self._results else None

    @property
    def pgresult(self):
        return self._results[self._i] if self._results else None

    def nextset(self):
        if self._i < len(self._results) - 1:
            self._select(self._i + 1)
            return True
        return None

    def _rows(self):
        if self._closed:
            raise pge.InterfaceError("the cursor is closed")
        if not self._results:
            raise pge.ProgrammingError("no result available")
        rows = self._results[self._i].rows
        if rows is None:
            raise pge.ProgrammingError("the last operation didn't produce records (command status: "
                                       f"{self._results[self._i].tag})")
        return rows

    def fetchall(self):
        rows = self._rows()
        if fetch_ns := self._results[self._i].fetch_ns:
            self._results[self._i].fetch_ns = 0
            k = self._conn._server.k
            k.fault("slow_fetch")
            k.sleep(fetch_ns / 1e9)
        out = rows[self._pos:]
        self._pos = len(rows)
        return list(out)

    def fetchone(self):
        rows = self._rows()
        if self._pos >= len(rows):
            return None
        self._pos += 1
        return rows[self._pos - 1]

    def fetchmany(self, size=0):
        rows = self._rows()
        out = rows[self._pos:self._pos + (size or 1)]
        self._pos += len(out)
        return list(out)

    def __iter__(self):
        while (row := self.fetchone()) is not None:
            yield row

    @property
    def closed(self):
        return self._closed

    def close(self) -> None:
        self._closed = True
        self._results = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


class _Column(tuple):
    def __new__(cls, name):
        self = super().__new__(cls, (name, None, None, None, None, None, None))
        return self

    @property
    def name(self):
        return self[0]


class Raw:
    """A value as it is on the wire: (type name, text). Loaded with the adapters registered at the connection."""

    def __init__(self, typename: str, text: str) -> None:
        self.typename, self.text = typename, text


class _AdaptContext:
    def __init__(self, conn):
        self.adapters, self.connection = conn.adapters, conn


def load_value(conn, v):
    if isinstance(v, list):
        return [load_value(conn, x) for x in v]
    if not isinstance(v, Raw):
        return v
    oid = psycopg.adapters.types[v.typename].oid
    loader = conn.adapters.get_loader(oid, pq.Format.TEXT)
    if not loader.__module__.startswith("psycopg_binary"):
        return loader(oid, _AdaptContext(conn)).load(v.text.encode())
    import psycopg.types.datetime as ptd
    import decimal
    py = {"date": ptd.DateLoader, "timestamp": ptd.TimestampLoader, "timestamptz": ptd.TimestamptzLoader,
          "interval": ptd.IntervalLoader, "time": ptd.TimeLoader}.get(v.typename)
    if py is not None:
        return py(oid, _AdaptContext(conn)).load(v.text.encode())
    if v.typename == "numeric":
        return decimal.Decimal(v.text)
    return v.text


def bind(query: str, params) -> str:
    def lit(v):
        if v is None:
            return "NULL"
        if isinstance(v, bool):
            return "TRUE" if v else "FALSE"
        if isinstance(v, (int, float)):
            return repr(v)
        return "'" + str(v).replace("'", "''") + "'"

    if isinstance(params, dict):
        return re.sub(r"%\((\w+)\)s", lambda m: lit(params[m.group(1)]), query).replace("%%", "%")
    it = iter(params)
    out = re.sub(r"%s|%%", lambda m: "%" if m.group(0) == "%%" else lit(next(it)), query)
    return out


_real_connect = psycopg.connect


def install(server: Server) -> None:
    """All connections of the run go to this server (connect strings pick the database only)."""
    psycopg.connect = server.connect
    psycopg.Connection.connect = classmethod(lambda cls, *a, **k: server.connect(*a, **k))
