Q = "postbound/experiments/querygen.py"
CEB = "postbound/experiments/ceb.py"
P = "postbound/postgres.py"
T = "postbound/transform.py"
DBF = "postbound/db/_db.py"
W = "postbound/workloads.py"
PG = '''
import fakepg
from fakepg import Hooks, statements, log
import postbound as pb
from postbound import postgres as pg
def parse(sql): return pb.parse_query(sql, bind_columns=False)
'''
DUCK = '''
import os, random, shutil, tempfile, warnings
warnings.simplefilter("ignore")
import quacklab
import postbound as pb
work = tempfile.mkdtemp()
def database(*statements):
    path = os.path.join(work, "demo.duckdb")
    con = quacklab.connect(path)
    for s in statements:
        con.execute(s)
    con.close()
    return pb.duckdb.DuckDBInterface(path)
'''
DONE = '''
shutil.rmtree(work)
'''

PLANTS = [
 dict(id="i01-star-joins-lost", property="S28",
  needs="a generated query over a table and at least two of the tables it references",
  breaks="only one join of each table is generated, random queries over stars contain cross products",
  edits=[(Q, "            predicates.append(join_predicate)\n", "            predicates.append(join_predicate)\n            break\n")],
  demo=DUCK + '''
db = database("CREATE TABLE d1(id INTEGER PRIMARY KEY)", "CREATE TABLE d2(id INTEGER PRIMARY KEY)",
              "CREATE TABLE f(id INTEGER PRIMARY KEY, a INTEGER REFERENCES d1(id), b INTEGER REFERENCES d2(id))")
from postbound.experiments.querygen import generate_query
random.seed(3)
gen = generate_query(db, min_tables=3, max_filters=0)
for _ in range(20):
    q = next(gen)
    joins = {frozenset(t.full_name for t in p.tables()) for p in q.predicates().joins()}
    assert joins == {frozenset(("f", "d1")), frozenset(("f", "d2"))}, str(q)
db.close()
''' + DONE),
 dict(id="i02-walk-revisits", property="S28",
  needs="a cyclic schema graph, or a walk that returns to a neighbour of several visited tables",
  breaks="the random walk visits tables several times, random queries contain fewer tables than asked for",
  edits=[("postbound/util/nx.py", '''            n for n in graph.adj[current_node].keys() if n not in visited_nodes
''', '''            n for n in graph.adj[current_node].keys() if n != current_node
''')],
  demo=DUCK + '''
db = database("CREATE TABLE a(id INTEGER PRIMARY KEY)", "CREATE TABLE b(id INTEGER PRIMARY KEY, a INTEGER REFERENCES a(id))",
              "CREATE TABLE c(id INTEGER PRIMARY KEY, b INTEGER REFERENCES b(id))", "CREATE TABLE d(id INTEGER PRIMARY KEY, c INTEGER REFERENCES c(id))")
from postbound.experiments.querygen import generate_query
random.seed(1)
gen = generate_query(db, min_tables=4, max_filters=0)
for _ in range(20):
    assert len(next(gen).tables()) == 4
db.close()
''' + DONE),
 dict(id="i03-first-placeholder-only", property="S34",
  needs="a template that uses the same placeholder at several places",
  breaks="only the first occurrence of a placeholder is replaced",
  edits=[(CEB, '''query.replace(f"<<{key}>>", escaped_placeholder)''', '''query.replace(f"<<{key}>>", escaped_placeholder, 1)''')],
  demo=DUCK + '''
db = database("CREATE TABLE r(a INTEGER, b INTEGER)", "INSERT INTO r VALUES (1, 2)")
from postbound.experiments import ceb
with open(os.path.join(work, "t.toml"), "w") as f:
    f.write("""title = "t"
[base_sql]
sql = \\'\\'\\'SELECT COUNT(*) FROM r WHERE r.a = <<X>> OR r.b = <<X>>\\'\\'\\'
table_aliases = { r = "" }
[[predicates]]
name = "P"
keys = ["X"]
columns = ["r.a"]
pred_type = ["="]
sampling_method = "uniform"
type = "list"
options = [1]
""")
out = ceb.generate_raw_workload(work, queries_per_template=1, db_connection=db)
assert list(out.values()) == ["SELECT COUNT(*) FROM r WHERE r.a = 1 OR r.b = 1"], out
db.close()
''' + DONE),
 dict(id="i04-weight-dropped-by-value", property="S34",
  needs="a weighted predicate whose chosen value equals its weight",
  breaks="the weight is removed from a candidate by its value, so that values which equal their weight are lost",
  edits=[(CEB, '''    return tuple([elem for i, elem in enumerate(val) if i != col_idx])
''', '''    return tuple([elem for elem in val if elem != val[col_idx]])
''')],
  demo=DUCK + '''
db = database("CREATE TABLE r(a INTEGER)", "INSERT INTO r VALUES (2), (2)")
from postbound.experiments import ceb
with open(os.path.join(work, "t.toml"), "w") as f:
    f.write("""title = "t"
[base_sql]
sql = \\'\\'\\'SELECT COUNT(*) FROM r WHERE r.a = <<X>>\\'\\'\\'
table_aliases = { r = "" }
[[predicates]]
name = "P"
keys = ["X"]
columns = ["r.a"]
pred_type = ["="]
sampling_method = "weighted"
type = "sql"
weights_column = 2
sql = \\'\\'\\'SELECT a, COUNT(*) FROM r GROUP BY a\\'\\'\\'
""")
out = ceb.generate_raw_workload(work, queries_per_template=1, db_connection=db)
assert list(out.values()) == ["SELECT COUNT(*) FROM r WHERE r.a = 2"], out
db.close()
''' + DONE),
 dict(id="i05-candidates-sorted", property="S34",
  needs="a uniformly sampled predicate whose candidates include a missing value",
  breaks="candidates are sorted for reproducible choices, which fails as soon as one of them is NULL",
  edits=[(CEB, "            unique_values = list(set(candidate_values))\n", "            unique_values = sorted(set(candidate_values))\n")],
  demo=DUCK + '''
db = database("CREATE TABLE r(a INTEGER)", "INSERT INTO r VALUES (2), (NULL)")
from postbound.experiments import ceb
with open(os.path.join(work, "t.toml"), "w") as f:
    f.write("""title = "t"
[base_sql]
sql = \\'\\'\\'SELECT COUNT(*) FROM r WHERE r.a = <<X>>\\'\\'\\'
table_aliases = { r = "" }
[[predicates]]
name = "P"
keys = ["X"]
columns = ["r.a"]
pred_type = ["="]
sampling_method = "uniform"
type = "sql"
sql = \\'\\'\\'SELECT a FROM r\\'\\'\\'
""")
out = ceb.generate_raw_workload(work, queries_per_template=1, db_connection=db)
assert len(out) == 1
db.close()
''' + DONE),
 dict(id="i06-empty-results-not-cached", property="S06",
  needs="a cached Postgres query without result rows, executed twice",
  breaks="empty results are never cached, the query is sent to the server again each time",
  edits=[(P, '''            if cache_enabled:
                self._cache_result(query, query_result)
''', '''            if cache_enabled and query_result:
                self._cache_result(query, query_result)
''')],
  demo=PG + '''
Hooks.rows = []
db = pg.PostgresInterface("dbname=x", cache_enabled=True)
n = lambda: sum("marker" in s for s in statements())
for _ in range(2):
    assert db.execute_query("SELECT marker FROM r WHERE FALSE", raw=True) == []
assert n() == 1, n()
import os
os._exit(0)
'''),
 dict(id="i07-cost-estimates-execute", property="S16",
  needs="an optimization that asks the native cost model (or optimizer) for the cost of a parsed query",
  breaks="native cost estimates run the query on the server instead of just explaining it",
  edits=[(P, '''            query = transform.as_explain(query)
        else:
            query = self._explainify(query)
        query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
        estimate: float = query_plan[0]["Plan"]["Total Cost"]
''', '''            query = transform.as_explain_analyze(query)
        else:
            query = self._explainify(query)
        query_plan = self._pg_instance.execute_query(query, cache_enabled=False)
        estimate: float = query_plan[0]["Plan"]["Total Cost"]
''')],
  demo=PG + '''
Hooks.on_execute = lambda conn, sql: [([{"Plan": {"Total Cost": 7.5}}],)] if sql.lower().startswith("explain") else None
db = pg.PostgresInterface("dbname=x")
assert db.optimizer().cost_estimate(parse("SELECT * FROM r")) == 7.5
assert not [s for s in statements() if "analyze" in s.lower()], statements()
'''),
 dict(id="i08-having-lost", property="S17",
  needs="a query with explicit joins and a HAVING clause that is rewritten to implicit joins",
  breaks="rewriting explicit joins drops the HAVING clause, the rewritten query returns additional groups",
  edits=[(T, '''        having_clause=source_query.having_clause,
        orderby_clause=source_query.orderby_clause,
        limit_clause=source_query.limit_clause,
        cte_clause=source_query.cte_clause,
    )


def _get_predicate_fragment(''', '''        orderby_clause=source_query.orderby_clause,
        limit_clause=source_query.limit_clause,
        cte_clause=source_query.cte_clause,
    )


def _get_predicate_fragment(''')],
  demo='''
import postbound as pb
from postbound import transform
q = pb.parse_query("SELECT r.a, COUNT(*) FROM r JOIN s ON r.a = s.a GROUP BY r.a HAVING COUNT(*) > 3", bind_columns=False)
out = transform.explicit_to_implicit(q)
assert out.having_clause == q.having_clause, str(out)
'''),
 dict(id="i09-disjunctions-flattened", property="S17",
  needs="an explicit join query with a disjunction in its WHERE clause or join condition",
  breaks="alternatives of a disjunction are flattened into the surrounding conjunction",
  edits=[(T, '''            isinstance(child, CompoundPredicate)
            and child.operation == CompoundOperator.And
        ):
            flattened_child = flatten_and_predicate(child)
''', '''            isinstance(child, CompoundPredicate)
            and child.operation != CompoundOperator.Not
        ):
            flattened_child = flatten_and_predicate(child)
''')],
  demo='''
import postbound as pb
from postbound import transform
q = pb.parse_query("SELECT r.a FROM r JOIN s ON r.a = s.a WHERE r.b = 1 OR s.c = 2", bind_columns=False)
out = transform.explicit_to_implicit(q)
assert " OR " in str(out), str(out)
'''),
 dict(id="i10-chdir-for-commands", property="S26",
  needs="two threads, one of which runs a command in another directory while the other one relies on the working directory",
  breaks="commands change the working directory of the entire process while they run",
  edits=[("postbound/util/proc.py", '''    res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
''', '''    caller_dir = os.getcwd()
    os.chdir(kwargs.pop("cwd", caller_dir))
    try:
        res = subprocess.run(invocation, capture_output=True, text=True, **kwargs)
    finally:
        os.chdir(caller_dir)
''')],
  demo='''
import os, shutil, tempfile, threading, time
from postbound.util import proc
d = tempfile.mkdtemp()
here = os.getcwd()
t = threading.Thread(target=lambda: proc.run_cmd("sleep", "1", work_dir=d))
t.start()
seen = set()
for _ in range(50):
    seen.add(os.getcwd())
    time.sleep(0.01)
t.join()
shutil.rmtree(d)
assert seen == {here}, seen
'''),
 dict(id="i11-workload-mistaken", property="S27",
  needs="a request for a workload whose name is a prefix of another one that is present already",
  breaks="a workload counts as present if another one with the same prefix is, and can then never be loaded",
  edits=[(W, '''    if workload_dir.exists():
        return workload_dir

    archive_url''', '''    if any(workload_dir.parent.glob(f"{name}*")):
        return workload_dir

    archive_url''')],
  demo='''
import pathlib, shutil, tempfile, urllib.request, zipfile
import postbound as pb
from postbound import workloads
d = pathlib.Path(tempfile.mkdtemp())
workloads.pbdir = d
def fetch(url, target):
    name = pathlib.Path(target).stem
    with zipfile.ZipFile(target, "w") as z:
        z.writestr(f"{name}/1a.sql", "SELECT COUNT(*) FROM r;")
urllib.request.urlretrieve = fetch
try:
    assert len(workloads.job_light()) == 1
    assert len(workloads.job()) == 1
finally:
    shutil.rmtree(d)
'''),
 dict(id="i12-histogram-carry", property="S24",
  needs="a computed histogram of a column with a value that is more frequent than a bucket is large",
  breaks="rows of frequent values are counted in several buckets, computed histograms contain more rows than the table",
  edits=[(DBF, '''        bounds.append(value)
        buckets.append(cumulative_freq)
        cumulative_freq = 0
''', '''        bounds.append(value)
        buckets.append(cumulative_freq)
        cumulative_freq = max(cumulative_freq - bucket_size, 0)
''')],
  demo=DUCK + '''
db = database("CREATE TABLE r(a INTEGER)", "INSERT INTO r SELECT 1 FROM range(50)", "INSERT INTO r SELECT range + 2 FROM range(50)")
c = pb.ColumnReference("a", pb.TableReference("r"))
h = db.statistics().histogram(c, n_bins=10, emulated=True)
assert sum(f for _, f in h) == 100, list(h)
db.close()
''' + DONE),
]
