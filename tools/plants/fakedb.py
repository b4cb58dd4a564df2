"""A scripted database for benchmarks."""
import postbound as pb
from postbound import db as _d
from postbound.db import Database, DatabasePool, StopwatchSupport, TimeoutSupport, PrewarmingSupport


def parse(sql):
    return pb.parse_query(sql, bind_columns=False)


def workload(n=3):
    from postbound.workloads import Workload
    return Workload({f"q{i}": parse(f"SELECT R.a FROM R WHERE R.b = {i}") for i in range(n)})


class FakeDB(Database, TimeoutSupport, PrewarmingSupport):
    """`behave(sql, n)` is called for each execution of a query (n = 1, 2, ... per text)."""

    def __init__(self, behave=None, cache_enabled=False):
        self.behave = behave or (lambda sql, n: [(n,)])
        self.log = []
        self.counts = {}
        self.caching = cache_enabled
        self.cache = {}

    def run(self, sql):
        sql = str(sql)
        self.log.append(sql)
        self.counts[sql] = self.counts.get(sql, 0) + 1
        return self.behave(sql, self.counts[sql])

    def execute_query(self, query, *, cache_enabled=None, raw=False, **kw):
        cache_enabled = self.caching if cache_enabled is None else cache_enabled
        if cache_enabled and str(query) in self.cache:
            return self.cache[str(query)]
        res = self.run(query)
        if cache_enabled:
            self.cache[str(query)] = res
        return res if raw else _d.simplify_result_set(res)

    def execute_with_timeout(self, query, *, timeout=60.0):
        return self.run(query)

    def prewarm_tables(self, tables=None, *more, **kw):
        self.log.append("PREWARM")

    def describe(self):
        return {"system_name": "fake"}

    def schema(self): raise NotImplementedError
    def statistics(self): raise NotImplementedError
    def hinting(self): raise NotImplementedError
    def optimizer(self): raise NotImplementedError
    def database_name(self): return "fake"
    def database_system_version(self): return None
    def reset_connection(self): pass
    def cursor(self): raise NotImplementedError
    def close(self): pass
    def connection(self): raise NotImplementedError


def pipeline(db, optimize=lambda q: q, learn=None):
    from postbound import OptimizationPipeline

    class Pipe(OptimizationPipeline):
        def optimize_query(self, query): return optimize(query)
        def target_database(self): return db
        def stages(self): return []
        def describe(self): return {"name": "fake"}
        def requires_online_training(self): return learn is not None
        def learn_from_feedback(self, query, result_set, *, exec_time): learn(query, result_set, exec_time)
        def query_execution_plan(self, query): raise NotImplementedError
    Pipe.__abstractmethods__ = frozenset()
    return Pipe()


FakeDB.__abstractmethods__ = frozenset()
