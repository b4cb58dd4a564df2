D = "postbound/db/_db.py"
P = "postbound/postgres.py"
W = "postbound/workloads.py"
K = "postbound/duckdb.py"
R = "postbound/opt/randomized.py"
PG = '''
import os, sys, time, math
import fakepg
from fakepg import Hooks, statements, log
import psycopg
import postbound as pb
from postbound import postgres as pg
'''
WL = '''
import os, sys, random, tempfile, shutil, pathlib
import postbound as pb
from postbound import workloads
from postbound.workloads import Workload
def parse(sql): return pb.parse_query(sql, bind_columns=False)
'''
RP = '''
import itertools, random
import networkx as nx
import postbound as pb
from postbound.opt import randomized, enumeration
from postbound.util import nx as nxu
def parse(sql): return pb.parse_query(sql, bind_columns=False)
chain = parse("SELECT * FROM A, B, C, D WHERE A.x = B.x AND B.y = C.y AND C.z = D.z")
'''

PLANTS = [
 dict(id="f01-autocommit-first-connection", property="S05",
  needs="a connection that was reset (for example after its loss), followed by a query that fails and another query",
  breaks="only the first connection is in autocommit mode, after a reset one failing query makes all later ones fail",
  edits=[(P, '''        self._connection.autocommit = (
            True  # pg_hint_plan hinting backend currently relies on autocommit!
        )
''', ""), (P, "        self._init_connection()\n\n        try:\n            self._db_stats", "        self._init_connection()\n        self._connection.autocommit = True\n\n        try:\n            self._db_stats")],
  demo=PG + '''
db = pg.PostgresInterface("dbname=x")
db.reset_connection()
db.execute_query("SELECT 7 + 1", raw=True)
e = [x for x in log() if "7 + 1" in x["sql"]][-1]
assert e["autocommit"], e
'''),
 dict(id="f02-cache-loses-microseconds", property="S07",
  needs="a cached timestamp with a fractional second that is read in a later process",
  breaks="cached timestamps lose their fractional seconds over a restart",
  edits=[(D, '            return {"$datetime": o.isoformat()}\n', '            return {"$datetime": o.isoformat(timespec="seconds")}\n')],
  demo='''
import datetime, json
from postbound.db._db import _DBCacheJsonEncoder, _DBCacheJsonDecoder
v = datetime.datetime(2020, 1, 2, 3, 4, 5, 678900)
back = json.loads(json.dumps([v], cls=_DBCacheJsonEncoder), cls=_DBCacheJsonDecoder)
assert back == [v], back
'''),
 dict(id="f03-date-before-datetime", property="S07",
  needs="a cached timestamp that is read in a later process",
  breaks="timestamps are written as dates because a datetime is a date as well",
  edits=[(D, '''        if isinstance(o, datetime):
            return {"$datetime": o.isoformat()}
        elif isinstance(o, date):
            return {"$date": o.isoformat()}
''', '''        if isinstance(o, date):
            return {"$date": o.strftime("%Y-%m-%d")}
        elif isinstance(o, datetime):
            return {"$datetime": o.isoformat()}
''')],
  demo='''
import datetime, json
from postbound.db._db import _DBCacheJsonEncoder, _DBCacheJsonDecoder
v = datetime.datetime(2020, 1, 2, 3, 4, 5)
back = json.loads(json.dumps([v], cls=_DBCacheJsonEncoder), cls=_DBCacheJsonDecoder)
assert back == [v], back
'''),
 dict(id="f04-linear-walk-no-shell", property="S18",
  needs="a random linear join order on a join graph in which a walk reaches a dead end",
  breaks="the random walk forgets tables it could also have continued with, so it jumps to unconnected tables (cross products)",
  edits=[("postbound/util/nx.py", '''        shell_nodes |= set(
            n for n in graph.adj[current_node].keys() if n not in visited_nodes
        )
        if not shell_nodes:
            # we have''', '''        shell_nodes = set(
            n for n in graph.adj[current_node].keys() if n not in visited_nodes
        )
        if not shell_nodes:
            # we have''')],
  demo=RP + '''
for seed in range(300):
    random.seed(seed)
    gen = randomized.RandomJoinOrderGenerator(tree_structure="left-deep")
    g = nx.Graph([(0, 1), (0, 2), (2, 3), (0, 4)])
    seen = []
    for n in nxu.nx_random_walk(g):
        assert not seen or any(m in g.adj[n] for m in seen), (seen, n)
        seen.append(n)
'''),
 dict(id="f05-contracted-edge-lost", property="S18",
  needs="a random bushy join order with a requested base table on a query of at least three tables",
  breaks="a requested base table is only respected in the first join order that is drawn",
  edits=[(R, '''        while True:
            yield _sample_join_graph(query, join_graph, base_table=base_table)
''', '''        while True:
            yield _sample_join_graph(query, join_graph, base_table=base_table)
            base_table = None
''')],
  demo=RP + '''
from postbound import TableReference
random.seed(1)
base = [t for t in chain.tables() if t.full_name.lower() == "a"][0]
gen = randomized.RandomJoinOrderGenerator().random_join_orders_for(chain, base_table=base)
for t in itertools.islice(gen, 40):
    joins = [j for j in t.iterjoins() if base in j.tables()]
    first = min(joins, key=lambda j: len(j.tables()))
    assert len(first.tables()) == 2, t
'''),
 dict(id="f06-entries-by-query", property="S19",
  needs="a workload that contains the same query under two labels",
  breaks="entries() reports both occurrences of a query under the same label",
  edits=[(W, "        return list(zip(self._sorted_labels, self._sorted_queries))\n", "        return [(self._label_mapping[query], query) for query in self._sorted_queries]\n")],
  demo=WL + '''
w = Workload({"a": parse("SELECT * FROM R"), "b": parse("SELECT * FROM R"), "c": parse("SELECT * FROM S")})
assert [l for l, _ in w.entries()] == ["a", "b", "c"], w.entries()
'''),
 dict(id="f07-shuffle-shares-order", property="S19",
  needs="a shuffled workload whose source is used again afterwards",
  breaks="shuffling also changes the order of the workload it was derived from",
  edits=[(W, '''        shuffled_workload._sorted_labels = random.sample(
            self._sorted_labels, k=len(self)
        )
''', '''        shuffled_workload._sorted_labels = self._sorted_labels
        random.shuffle(shuffled_workload._sorted_labels)
''')],
  demo=WL + '''
w = Workload({i: parse(f"SELECT * FROM R WHERE R.a = {i}") for i in range(12)})
random.seed(3)
w.shuffle()
assert list(w.labels()) == list(range(12)), w.labels()
'''),
 dict(id="f08-subtract-by-query", property="S19",
  needs="two workloads that contain the same query under different labels",
  breaks="subtracting and filtering removes queries whose label is not contained in the other workload",
  edits=[(W, '''        return Workload(
            util.dicts.difference(self.data, other.data),
            name=self._name,
            root=self._root,
        )
''', '''        obsolete = set(other.data.values())
        remaining = {lab: q for lab, q in self.data.items() if q not in obsolete}
        return Workload(remaining, name=self._name, root=self._root)
''')],
  demo=WL + '''
w = Workload({"a": parse("SELECT * FROM R"), "b": parse("SELECT * FROM R"), "c": parse("SELECT * FROM S")})
assert list((w - w.with_labels(["a"])).labels()) == ["b", "c"]
'''),
 dict(id="f09-label-first-dot", property="S20",
  needs="query files whose names contain several dots and share their first part",
  breaks="several files receive the same label and replace each other",
  edits=[(W, "            query_label = query_file_path.stem\n", "            query_label = query_file_path.name.split(\".\")[0]\n")],
  demo=WL + '''
d = pathlib.Path(tempfile.mkdtemp())
try:
    (d / "q1.a.sql").write_text("SELECT * FROM R")
    (d / "q1.b.sql").write_text("SELECT * FROM S")
    w = Workload.read(d, bind_columns=False)
    assert sorted(w.labels()) == ["q1.a", "q1.b"], w.labels()
finally:
    shutil.rmtree(d)
'''),
 dict(id="f11-duck-shared-measurement", property="S21",
  needs="a query on DuckDB that times out, followed by a look at the last runtime (or a failing query)",
  breaks="the runtime of the last query is measured by the caller including the time spent waiting for the worker",
  edits=[(K, "            if raw_result is None:\n                raise TimeoutError(query)\n", "            if raw_result is None:\n                self._last_query_runtime = timeout\n                raise TimeoutError(query)\n            if not raw_result:\n                raise TimeoutError(query)\n")],
  demo='''
import postbound as pb
from postbound import duckdb
db = duckdb.DuckDBInterface(":memory:") if hasattr(duckdb, "DuckDBInterface") else None
res = db.execute_query("SELECT 1 WHERE 1 = 0", timeout=60.0, raw=True)
assert res == [], res
'''),
 dict(id="f12-rowcount-cached", property="S22",
  needs="two percentage-based removals from the same table in a row",
  breaks="the number of rows to remove is computed from a cached row count",
  edits=[(P, "            TableReference(table), cache_enabled=False, emulated=True\n", "            TableReference(table), cache_enabled=True, emulated=True\n")],
  demo=PG + '''
rows = [100]
def on_execute(conn, sql):
    low = sql.lower()
    if "count(" in low:
        return [(rows[0],)]
    if "constraint" in low or "pg_index" in low:
        return [("id",)]
    return None
Hooks.on_execute = on_execute
db = pg.PostgresInterface("dbname=x")
sh = pg.WorkloadShifter(db)
assert sh._determine_row_cnt("t", None, 0.5) == 50
rows[0] = 50
assert sh._determine_row_cnt("t", None, 0.5) == 25, sh._determine_row_cnt("t", None, 0.5)
'''),
 dict(id="f13-marks-replaced-in-two-steps", property="S22",
  needs="importing marks from a file that is malformed, while marks already exist",
  breaks="the old marks are gone although the new ones could not be imported",
  edits=[(P, '''            cursor.execute(f"DELETE FROM {marker_table}")  # type: ignore
            cursor.execute(marker_import_query)  # type: ignore
''', '''            cursor.execute(f"DELETE FROM {marker_table}")  # type: ignore
            conn.commit()
            cursor.execute(marker_import_query)  # type: ignore
''')],
  demo=PG + '''
events = []
class Conn(fakepg.Connection):
    def commit(self): events.append("COMMIT")
psycopg.connect = lambda dsn="", **kw: Conn(dsn, application_name=kw.get("application_name", ""))
Hooks.on_execute = lambda conn, sql: events.append(sql.strip().split()[0]) if conn.app == "" else None
db = pg.PostgresInterface("dbname=x")
pg.WorkloadShifter(db).import_marker_table(target_table="t", target_column="id", target_column_type="integer", in_file="x.csv")
i, j = events.index("DELETE"), events.index("COPY")
assert "COMMIT" not in events[i:j], events
'''),
 dict(id="f14-counter-read-outside-lock", property="S23",
  needs="two threads that increment the same counter, one of which is preempted between reading and writing the value",
  breaks="increments of different threads overwrite each other",
  edits=[("postbound/util/num.py", '''        with self._lock:
            self._value += by

    def reset''', '''        new_value = self._value + by
        with self._lock:
            self._value = new_value

    def reset''')],
  demo='''
import threading, sys
from postbound.util.num import AtomicInt
class Slow(AtomicInt):
    pass
c = AtomicInt(0)
gate = threading.Lock()
c._lock.acquire()
ts = [threading.Thread(target=c.increment) for _ in range(4)]
for t in ts: t.start()
import time; time.sleep(0.5)
c._lock.release()
for t in ts: t.join()
assert c.value == 4, c.value
'''),
 dict(id="f15-duck-private-pooled", property="S25",
  needs="a refreshed connection to DuckDB",
  breaks="a refreshed connection under a name that is already taken is returned but not registered",
  edits=[(K, "    if not private:\n", "    if not private and (name not in db_pool or not refresh):\n")],
  demo='''
from postbound import duckdb
from postbound.db import DatabasePool
a = duckdb.connect(":memory:", name="n")
b = duckdb.connect(":memory:", name="n", refresh=True)
pool = DatabasePool.get_instance()
assert pool.retrieve_database("n") is a and pool.retrieve_database("n - 2") is b
'''),
 dict(id="f16-config-before-connect-string", property="S25",
  needs="connecting with an explicit connect string while a default configuration file exists in the working directory",
  breaks="the configuration file in the working directory wins over the explicitly given connect string",
  edits=[(P, '''    if connect_string:
        connect_string = connect_string.strip()
    elif config_file:
''', '''    if connect_string and not Path(".psycopg_connection").is_file():
        connect_string = connect_string.strip()
    elif config_file:
''')],
  demo=PG + '''
import tempfile, shutil
d = tempfile.mkdtemp()
os.chdir(d)
try:
    open(".psycopg_connection", "w").write("dbname=fromfile")
    seen = []
    psycopg.connect = lambda dsn="", **kw: (seen.append(dsn), fakepg.Connection(dsn, application_name=kw.get("application_name", "")))[1]
    pg.connect(connect_string="dbname=explicit", private=True)
    assert "explicit" in seen[0], seen
finally:
    os.chdir("/")
    shutil.rmtree(d)
'''),
 dict(id="f17-timeout-none-vs-zero-cache", property="S06",
  needs="a query with preparatory statements whose result is cached for one setting and requested again with another one",
  breaks="the preparatory statements are dropped before the cached result is looked up by the text of the bare query only",
  edits=[(P, "        self._last_query_runtime = (\n            end_time - start_time\n        ) / 10**9  # convert to seconds\n", None)],
  demo="") ,
]
PLANTS.pop()
