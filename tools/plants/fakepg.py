"""A tiny stand-in for a PostgreSQL server: patches psycopg.connect. Statements are appended to a log file (shared by all processes)."""
import json, os, re, tempfile, time
import psycopg

LOG = tempfile.mktemp(prefix="fakepg_")
SETTINGS = {"enable_nestloop": "on", "enable_hashjoin": "on", "geqo": "on", "work_mem": "4096", "statement_timeout": "0", "jit": "on"}


def log():
    if not os.path.exists(LOG):
        return []
    return [json.loads(line) for line in open(LOG)]


def statements(app=None):
    return [e["sql"] for e in log() if app is None or e["app"] == app]


class Hooks:
    rows = [(1,)]          # result rows of ordinary queries
    fetch_delay = 0.0      # delay of fetchall
    on_execute = None      # callable(conn, sql) -> None or rows, may raise


class Cursor:
    def __init__(self, conn):
        self.conn, self.result, self.rowcount, self.closed, self.description = conn, None, -1, False, None

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def close(self):
        self.closed = True

    def execute(self, sql, params=None):
        if self.conn.closed:
            raise psycopg.OperationalError("the connection is closed")
        sql = str(sql)
        with open(LOG, "a") as f:
            f.write(json.dumps({"pid": self.conn.pid, "app": self.conn.app, "sql": sql, "settings": self.conn.settings,
                                "autocommit": self.conn.autocommit, "params": [str(p) for p in params or []]}) + "\n")
        self.result = self.answer(sql, params)
        self.rowcount = len(self.result) if self.result is not None else -1
        self.description = [("col",)] if self.result is not None else None
        return self

    def answer(self, sql, params):
        low = re.sub(r"/\*.*?\*/", " ", sql.strip().lower(), flags=re.S).strip()
        if Hooks.on_execute is not None:
            res = Hooks.on_execute(self.conn, sql)
            if res is not None:
                return res
        out = None
        for part in [p.strip() for p in low.split(";") if p.strip()]:
            if m := re.match(r"set (\w+)\s*(?:=|to)\s*'?([^']*)'?$", part):
                self.conn.settings[m.group(1)] = m.group(2).strip()
            elif "pg_settings" in part:
                out = [(k, v) for k, v in self.conn.settings.items()]
            elif part.startswith("show pg_hint_plan"):
                out = [("on",)]
            elif m := re.match(r"show (\w+)", part):
                out = [(self.conn.settings.get(m.group(1), "x"),)]
            elif "version()" in part:
                out = [("PostgreSQL 16.1 (fake)",)]
            elif "current_database()" in part:
                out = [("fake",)]
            elif m := re.search(r"sleep (\d+(?:\.\d+)?)", part):
                time.sleep(float(m.group(1)))
                out = list(Hooks.rows)
            elif part.startswith(("select", "explain", "with")):
                out = list(Hooks.rows)
        return out

    def fetchall(self):
        if Hooks.fetch_delay:
            time.sleep(Hooks.fetch_delay)
        if self.result is None:
            raise psycopg.ProgrammingError("the last operation didn't produce a result")
        return list(self.result)

    def fetchone(self):
        return self.result[0] if self.result else None


class _Info:
    def __init__(self, conn):
        self.backend_pid, self.status = conn.pid, psycopg.pq.ConnStatus.OK
        self.server_version = 160001
        self.dsn = conn.dsn
        self.hint_plan = True


class Connection:
    n = 0

    def __init__(self, dsn, application_name=""):
        Connection.n += 1
        self.pid = os.getpid() * 1000 + Connection.n
        self.dsn, self.app, self.autocommit, self.closed = dsn, application_name, False, False
        self.settings = dict(SETTINGS)
        self.info = _Info(self)
        self.prepare_threshold = None
        class A:
            def register_loader(self, *a): pass
            def register_dumper(self, *a): pass
        self.adapters = A()

    def cursor(self):
        return Cursor(self)

    def rollback(self): pass
    def commit(self): pass
    def cancel(self): pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def connect(dsn="", **kw):
    return Connection(dsn, application_name=kw.get("application_name", ""))


psycopg.connect = connect
