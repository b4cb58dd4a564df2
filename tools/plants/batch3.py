P = "postbound/postgres.py"
H = "postbound/_hints.py"
C = "postbound/opt/_cardinalities.py"
V = "postbound/validation.py"
L = "postbound/_pipelines.py"
PG = '''
import fakepg
from fakepg import Hooks, statements, log
import postbound as pb
from postbound import postgres as pg
def parse(sql): return pb.parse_query(sql, bind_columns=False)
'''
BASE = '''
import math, os, tempfile
import postbound as pb
from fakedb import FakeDB, parse
'''

PLANTS = [
 dict(id="h01-nested-parallel-adjustment", property="S31",
  needs="a parallel plan with at least two levels below the Gather node",
  breaks="per-worker estimates are only scaled up one level below the Gather, deeper nodes report a fraction of the rows",
  edits=[(P, '''        child_adjustment = (
            card_adjustment if card_adjustment > 1 else (self.planned_workers + 1)
        )
''', '''        child_adjustment = self.planned_workers + 1
''')],
  demo='''
from postbound.postgres import PostgresExplainNode
scan = {"Node Type": "Seq Scan", "Parent Relationship": "Outer", "Relation Name": "r", "Alias": "r", "Plan Rows": 100, "Plan Width": 4, "Total Cost": 10.0, "Startup Cost": 0.0, "Parallel Aware": True}
srt = {"Node Type": "Sort", "Parent Relationship": "Outer", "Sort Key": ["r.a"], "Plan Rows": 100, "Plan Width": 4, "Total Cost": 20.0, "Startup Cost": 0.0, "Plans": [scan]}
gather = {"Node Type": "Gather Merge", "Workers Planned": 2, "Plan Rows": 300, "Plan Width": 4, "Total Cost": 30.0, "Startup Cost": 0.0, "Plans": [srt]}
plan = PostgresExplainNode(gather).as_qep()
leaf = plan
while leaf.children:
    leaf = leaf.children[0]
assert leaf.estimated_cardinality == 300, leaf.estimated_cardinality
'''),
 dict(id="h02-clone-shares-joins", property="S33",
  needs="an assignment that is cloned (or extended by workers) and changed afterwards",
  breaks="the copy of an operator assignment shares its join operators with the original, a change of one is a change of both",
  edits=[(H, "        cloned_assignment.join_operators = dict(self.join_operators)\n", "        cloned_assignment.join_operators = self.join_operators\n")],
  demo='''
import postbound as pb
a, b = pb.TableReference("a"), pb.TableReference("b")
x = pb.PhysicalOperatorAssignment().add(pb.JoinOperator.HashJoin, [a, b])
y = x.clone()
y.add(pb.JoinOperator.NestedLoopJoin, [a, b])
assert x.get([a, b]).operator == pb.JoinOperator.HashJoin
'''),
 dict(id="h03-setting-outlives-query", property="S33",
  needs="a plan parameterization with a system setting on pg_hint_plan, followed by another query",
  breaks="settings of a hinted query remain in force for the rest of the session",
  edits=[(P, '''            prep_statements.append(f"SET LOCAL {setting} TO '{val}';")''', '''            prep_statements.append(f"SET {setting} TO '{val}';")''')],
  demo=PG + '''
Hooks.on_execute = lambda conn, sql: [("on",)] if "pg_hint_plan.enable_hint" in sql else [("12",)] if "geqo_threshold" in sql else None
db = pg.PostgresInterface("dbname=x")
p = pb.PlanParameterization()
p.set_system_settings("work_mem", "777")
from postbound.postgres import PostgresHintService
hinted = PostgresHintService(db).generate_hints(parse("SELECT * FROM R, S WHERE R.a = S.a"), plan_parameters=p)
import re
prep = hinted.hints.preparatory_statements or ""
assert "777" in str(hinted.hints) and not re.search(r"(?i)\\bset\\s+(session\\s+)?work_mem", prep), prep
'''),
 dict(id="h04-distortion-forgets-cross-products", property="S32",
  needs="a distorted estimator on top of one that allows cross products",
  breaks="a distorted estimator does not parameterize cross products, although the wrapped one does",
  edits=[(C, "        super().__init__(allow_cross_products=estimator.allow_cross_products)\n", "        super().__init__()\n")],
  demo=BASE + '''
from postbound.opt import PreciseCardinalities, CardinalityDistortion
db = FakeDB(lambda sql, n: [(10,)])
q = parse("SELECT * FROM R, S, T WHERE R.a = S.a AND S.b = T.b")
plain = PreciseCardinalities(db, allow_cross_products=True)
d = CardinalityDistortion(plain, 2.0)
want = plain.generate_plan_parameters(q, None, None).cardinalities.keys()
assert d.generate_plan_parameters(q, None, None).cardinalities.keys() == want
'''),
 dict(id="h05-unknown-default-ignored", property="S32",
  needs="a look-up estimator whose default for missing entries is an unknown cardinality",
  breaks="an unknown default cardinality is treated as if there were none, missing entries raise an error or are computed live",
  edits=[(C, "        if self._default_card is not None:\n", "        if self._default_card:\n")],
  demo=BASE + '''
from postbound.opt import PreComputedCardinalities
from postbound.workloads import Workload
d = tempfile.mkdtemp()
path = os.path.join(d, "cards.csv")
with open(path, "w") as f:
    f.write("label,tables,cardinality\\n")
w = Workload({"q": parse("SELECT * FROM R WHERE R.b = 1")})
est = PreComputedCardinalities(w, path, default_cardinality=pb.Cardinality.unknown())
try:
    assert est.calculate_estimate(w["q"], pb.TableReference("R")).isnan()
finally:
    os.remove(path); os.rmdir(d)
'''),
 dict(id="h06-columns-remembered", property="S29",
  needs="a column that is added to or removed from a table between two look-ups on the same connection",
  breaks="the columns of a table are looked up once per connection, later schema changes go unnoticed",
  edits=[(P, '''        schema = table.schema or "public"
        query_template = "SELECT column_name FROM information_schema.columns WHERE table_name = %s AND table_schema = %s"
''', '''        schema = table.schema or "public"
        known_columns = self.__dict__.setdefault("_known_columns", {})
        if (schema, table.full_name) in known_columns:
            return known_columns[(schema, table.full_name)]
        query_template = "SELECT column_name FROM information_schema.columns WHERE table_name = %s AND table_schema = %s"
'''), (P, '''        return [col[0] for col in result_set]

    def _fetch_indexes''', '''        known_columns[(schema, table.full_name)] = [col[0] for col in result_set]
        return known_columns[(schema, table.full_name)]

    def _fetch_indexes''')],
  demo=PG + '''
columns = ["a"]
Hooks.on_execute = lambda conn, sql: [(c,) for c in columns] if "column_name" in sql else None
db = pg.PostgresInterface("dbname=x")
t = pb.TableReference("r")
assert db.schema().lookup_column("b", [t]) is None
columns.append("b")
assert db.schema().lookup_column("b", [t]) == t
'''),
 dict(id="h07-checks-merged-by-name", property="S30",
  needs="two components that require different features of the database",
  breaks="checks of the same name are considered duplicates, only one of the components' requirements is enforced",
  edits=[(V, '''        self.checks = [
            check for check in checks if not isinstance(check, EmptyPreCheck)
        ]
''', '''        self.checks = list(
            {
                check.name: check
                for check in checks
                if not isinstance(check, EmptyPreCheck)
            }.values()
        )
''')],
  demo='''
import postbound as pb
from postbound.validation import CompoundCheck, SupportedHintCheck, merge_checks
class Hinting:
    def supports_hint(self, h): return h != pb.ScanOperator.BitmapScan
class DB:
    name = "x"
    def hinting(self): return Hinting()
for checks in ([pb.ScanOperator.BitmapScan, pb.JoinOperator.HashJoin], [pb.JoinOperator.HashJoin, pb.ScanOperator.BitmapScan]):
    c = CompoundCheck([SupportedHintCheck([x]) for x in checks])
    assert not c.check_supported_database_system(DB()).passed
'''),
 dict(id="h09-same-name-trained-once", property="S15",
  needs="a pipeline with two stages of the same name that both have to be trained on the database",
  breaks="a stage is skipped in training if another one of the same name was trained before",
  edits=[(L, "            if not stage.requires_data_training() or stage.database_fit_completed():\n                continue\n",
             "            if not stage.requires_data_training() or stage.database_fit_completed():\n                continue\n            if stage.name in metrics:\n                continue\n")],
  demo='''
import postbound as pb
class Stage(pb.IncrementalOptimizationStep):
    def __init__(self):
        super().__init__(); self.done = 0
    def fit_database(self, database): self.done += 1; return {}
    def database_fit_completed(self): return self.done > 0
    def optimize_query(self, query, current_plan): return current_plan
    def describe(self): return {"name": "step"}
class DB: pass
from postbound._pipelines import IncrementalOptimizationPipeline
p = IncrementalOptimizationPipeline(DB())
a, b = Stage(), Stage()
p.add_optimization_step(a); p.add_optimization_step(b)
p.train_on_database(DB())
assert a.done == b.done == 1, (a.done, b.done)
'''),
 dict(id="h10-internal-error-escapes", property="S05",
  needs="a server that fails with an internal error",
  breaks="internal errors of the server are reported as mistakes of the user's query",
  edits=[(P, '''                self._cache_result(query, query_result)
        except (psycopg.InternalError, psycopg.OperationalError) as e:''', '''                self._cache_result(query, query_result)
        except psycopg.OperationalError as e:''')],
  demo=PG + '''
import psycopg
from postbound.db import DatabaseServerError
db = pg.PostgresInterface("dbname=x")
def fail(conn, sql):
    if "7 + 7" in sql: raise psycopg.InternalError("cache lookup failed")
Hooks.on_execute = fail
try:
    db.execute_query("SELECT 7 + 7")
    assert False
except DatabaseServerError:
    pass
'''),
 dict(id="h11-merged-workers-precedence", property="S33",
  needs="two parameterizations with different workers for the same tables that are merged",
  breaks="when parameterizations are merged, the workers of the first one win instead of those that are merged in",
  edits=[(H, "            self.parallel_workers | other_parameters.parallel_workers\n", "            other_parameters.parallel_workers | self.parallel_workers\n")],
  demo='''
import postbound as pb
t = pb.TableReference("a")
p, q = pb.PlanParameterization(), pb.PlanParameterization()
p.set_workers([t], 2); q.set_workers([t], 5)
assert p.merge_with(q).parallel_workers[frozenset([t])] == 5
'''),
]
