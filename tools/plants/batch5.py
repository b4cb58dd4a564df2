N = "postbound/opt/native.py"
W = "postbound/workloads.py"
STUB = '''
import math
import postbound as pb
from postbound import opt, qal
def parse(sql): return pb.parse_query(sql, bind_columns=False)

class Planner:
    """A database whose planner answers from a script."""
    def __init__(self, *answers):
        self.answers, self.asked = list(answers), []
    def hinting(self): return self
    def optimizer(self): return self
    def schema(self): return self
    def generate_hints(self, query, plan=None, **kw): return query
    def columns(self, table):
        return {pb.ColumnReference(c, table) for c in ("id", "r_id", "x")}
    def reply(self, query):
        self.asked.append(query)
        answer = self.answers.pop(0)
        if isinstance(answer, Exception):
            raise answer
        return answer
    cost_estimate = query_plan = reply

def model(db, query, **kw):
    m = opt.native.NativeCostModel(**kw)
    m.initialize(db, query)
    return m
'''

PLANTS = [
 dict(id="j01-sort-by-any-equal-column", property="S35",
  needs="a sort whose key is an equivalence class that starts with a column of a table outside of the plan",
  breaks="the cost of a sort is asked for with a column of a table that is not part of the request",
  edits=[(N, '''                    if isinstance(col, ColumnExpression)
                    and col.column in target_columns
''', '''                    if isinstance(col, ColumnExpression)
                    and (col.column in target_columns or len(sort_key) > 1)
''')],
  demo=STUB + '''
query = parse("SELECT * FROM r, s WHERE r.id = s.r_id")
r, s = sorted(query.tables(), key=lambda t: t.full_name)
for cols in ((pb.ColumnReference("id", r), pb.ColumnReference("r_id", s)), (pb.ColumnReference("r_id", s), pb.ColumnReference("id", r))):
    db = Planner(7.0)
    scan = pb.QueryPlan("Seq Scan", operator=pb.ScanOperator.SequentialScan, base_table=r)
    sort = pb.QueryPlan("Sort", operator=pb.IntermediateOperator.Sort, children=[scan], sort_keys=[pb.SortKey.for_equivalence_class([qal.ColumnExpression(c) for c in cols])])
    assert model(db, query).estimate_cost(query, sort) == 7.0
    assert db.asked[0].tables() == {r} and {c.table for c in db.asked[0].columns()} == {r}, str(db.asked[0])
'''),
 dict(id="j02-index-cost-includes-aggregate", property="S35",
  needs="an index scan that the planner only provides for counting rows",
  breaks="the cost of an index scan includes the aggregation that was only added to provoke it",
  edits=[(N, "        return index_node.estimated_cost\n", "        return count_plan.estimated_cost\n")],
  demo=STUB + '''
query = parse("SELECT * FROM r WHERE r.id < 3")
r = next(iter(query.tables()))
op = pb.ScanOperator.IndexOnlyScan
scan = pb.QueryPlan("Index Only Scan", operator=op, base_table=r, estimated_cost=5.0)
db = Planner(pb.db.DatabaseServerError("no plan"), pb.QueryPlan("Aggregate", children=[scan], estimated_cost=9.0))
assert model(db, query).estimate_cost(query, pb.QueryPlan("Index Only Scan", operator=op, base_table=r)) == 5.0
'''),
 dict(id="j03-refused-index-priced", property="S35",
  needs="a planner that neither provides the index scan nor uses it for counting rows",
  breaks="the cost of another scan is reported as the cost of the index scan",
  edits=[(N, "            index_node and index_node.operator == plan.operator\n", "            index_node and index_node.is_scan()\n")],
  demo=STUB + '''
query = parse("SELECT * FROM r WHERE r.id < 3")
r = next(iter(query.tables()))
scan = pb.QueryPlan("Seq Scan", operator=pb.ScanOperator.SequentialScan, base_table=r, estimated_cost=5.0)
db = Planner(pb.db.DatabaseServerError("no plan"), pb.QueryPlan("Aggregate", children=[scan], estimated_cost=9.0))
assert math.isinf(model(db, query).estimate_cost(query, pb.QueryPlan("Index Scan", operator=pb.ScanOperator.IndexScan, base_table=r)))
'''),
 dict(id="j04-nested-files-bound", property="S20",
  needs="queries in a subdirectory with unqualified columns, loaded without binding while a database is connected",
  breaks="queries from subdirectories are bound to the schema of some connected database although this was turned off",
  edits=[(W, "            file_encoding=file_encoding,\n            bind_columns=bind_columns,\n            include_hints=include_hints,\n            on_error=on_error,\n            verbose=verbose,\n        )\n        queries |=",
             "            file_encoding=file_encoding,\n            include_hints=include_hints,\n            on_error=on_error,\n            verbose=verbose,\n        )\n        queries |=")],
  demo='''
import os, shutil, tempfile
import postbound as pb
from postbound import workloads
class DB:
    def schema(self): return self
    def columns(self, table): return [pb.ColumnReference("a", pb.TableReference(str(table)))]
pb.db.DatabasePool.get_instance().register_database("x", DB())
work = tempfile.mkdtemp()
try:
    os.makedirs(os.path.join(work, "sub"))
    for path in ("q1.sql", "sub/q2.sql"):
        with open(os.path.join(work, path), "w") as f:
            f.write("SELECT a FROM r")
    for bind in (True, False):
        w = workloads.read_workload(work, recurse_subdirectories=True, bind_columns=bind)
        assert [next(iter(q.columns())).is_bound() for q in w.queries()] == [bind, bind], bind
finally:
    shutil.rmtree(work)
'''),

 dict(id="j05-subquery-keeps-outer-alias", property="S17",
  needs="a correlated subquery that refers to a renamed table without having it in its own FROM clause",
  breaks="correlated subqueries keep referring to the old name of a table, so that the rewritten query is invalid or has other rows",
  edits=[("postbound/transform.py", "        subquery_comps = expr.query.accept_visitor(self)\n", "        if not expr.query.from_clause or self._renamings.keys().isdisjoint(expr.query.from_clause.tables()):\n            return expr\n        subquery_comps = expr.query.accept_visitor(self)\n")],
  demo='''
import postbound as pb
from postbound import transform
q = pb.parse_query("SELECT a.x FROM r AS a, s AS b WHERE a.x = b.y AND EXISTS (SELECT 1 FROM t AS c WHERE c.z = a.x)", bind_columns=False)
new = transform.rename_table(q, pb.TableReference("r", "a"), pb.TableReference("r", "n"))
assert "a.x" not in str(new) and "c.z = n.x" in str(new), new
new = transform.rename_table(q, pb.TableReference("t", "c"), pb.TableReference("t", "n"))
assert "n.z = a.x" in str(new), new
'''),
 dict(id="j06-join-condition-keeps-column", property="S17",
  needs="an explicit join whose condition mentions a renamed column of a table other than the one that is joined last",
  breaks="the join condition still uses the old column",
  edits=[("postbound/transform.py", """            renamed_condition = rename_columns_in_predicate(
                table_source.join_condition, available_renamings
            )
            return JoinTableSource(
                renamed_left,""", """            introduced = table_source.right.tables()
            renamed_condition = rename_columns_in_predicate(
                table_source.join_condition,
                {
                    col: target
                    for col, target in available_renamings.items()
                    if not col.is_bound() or col.table in introduced
                },
            )
            return JoinTableSource(
                renamed_left,""")],
  demo='''
import postbound as pb
from postbound import transform
q = pb.parse_query("SELECT b.y FROM r AS a JOIN s AS b ON a.x = b.y", bind_columns=False)
a, b = pb.TableReference("r", "a"), pb.TableReference("s", "b")
for old, new in (("x", "w"), ("y", "v")):
    tab = a if old == "x" else b
    got = str(transform.rename_columns_in_query(q, {pb.ColumnReference(old, tab): pb.ColumnReference(new, tab)}))
    assert f".{new}" in got and f".{old}" not in got, got
'''),

 dict(id="j07-fragment-forgets-distinct", property="S17",
  needs="a fragment of a SELECT DISTINCT query whose projected columns all belong to the requested tables",
  breaks="the fragment returns duplicate rows",
  edits=[("postbound/transform.py", "                select_clause = Select(\n                    select_fragment, distinct=source_query.select_clause.is_distinct()\n                )", "                select_clause = Select(select_fragment)")],
  demo='''
import postbound as pb
from postbound import transform
for distinct in ("", "DISTINCT "):
    q = pb.parse_query(f"SELECT {distinct}a.x FROM r AS a, s AS b WHERE a.x = b.y", bind_columns=False)
    got = str(transform.extract_query_fragment(q, [pb.TableReference("r", "a")]))
    assert got == f"SELECT {distinct}a.x FROM r AS a;", got
'''),
]
