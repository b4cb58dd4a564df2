"""S16: the real optimization pipelines and stages on the simulated PostgreSQL server, with failures in the middle of optimizing."""
from __future__ import annotations

import re
import warnings

import psycopg

from . import Prop
from .common import MARK, TEMPLATES, call, make_server, marked, marker_of, parse, pb, short
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import opt, util
from postbound.opt import native, ues

FAILS = ["internal", "undefined_table", "lose"]
KINDS = {"integrated": 3, "multi": 5, "textbook": 4, "incremental": 2}


class Failed(Exception):
    """Raised by an instrumented estimator."""


class Watch:
    """What happened to the estimators and cost models of one pipeline."""

    def __init__(self) -> None:
        self.open: dict = {}
        self.calls = 0
        self.fail_at = None
        self.problems: list = []

    def start(self, obj, query) -> None:
        if obj.tag in self.open:
            self.problems.append(f"{obj.tag} was initialized for another query while {self.open[obj.tag]} was not cleaned up")
        self.open[obj.tag] = marker_of(str(query))

    def stop(self, obj) -> None:
        if obj.tag not in self.open:
            self.problems.append(f"{obj.tag} was cleaned up without being initialized")
        self.open.pop(obj.tag, None)

    def use(self, obj) -> None:
        self.calls += 1
        if obj.tag not in self.open:
            self.problems.append(f"{obj.tag} was used without being initialized")
        if self.fail_at == self.calls:
            raise Failed(f"call {self.calls}")


class Cards(native.NativeCardinalityEstimator):
    def __init__(self, watch, tag="estimator"):
        super().__init__()
        self.watch, self.tag = watch, tag

    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        self.watch.start(self, query)

    def cleanup(self):
        self.watch.stop(self)
        super().cleanup()

    def calculate_estimate(self, query, intermediate):
        self.watch.use(self)
        return super().calculate_estimate(query, intermediate)


class Costs(native.NativeCostModel):
    def __init__(self, watch):
        super().__init__(raise_on_error=True)
        self.watch, self.tag = watch, "cost model"

    def initialize(self, target_db, query):
        super().initialize(target_db, query)
        self.watch.start(self, query)

    def cleanup(self):
        self.watch.stop(self)
        super().cleanup()

    def estimate_cost(self, query, plan):
        self.watch.use(self)
        return super().estimate_cost(query, plan)


class Step(pb.IncrementalOptimizationStep):
    def __init__(self, db, watch):
        super().__init__()
        self.db, self.watch = db, watch

    def optimize_query(self, query, current_plan):
        hinted = self.db.hinting().generate_hints(query, current_plan)
        return self.db.optimizer().query_plan(hinted)

    def describe(self):
        return {"name": "again"}


def stage(name, db, watch):
    match name:
        case None:
            return None
        case "join:native":
            return native.NativeJoinOrderOptimizer(db)
        case "join:ues":
            return ues.UESJoinOrderOptimizer(database=db)
        case "join:ues-cards":
            return ues.UESJoinOrderOptimizer(base_table_estimation=Cards(watch), database=db)
        case "ops:native":
            return native.NativePhysicalOperatorSelection(db)
        case "ops:ues":
            return ues.UESOperatorSelection(db)
        case "param:native":
            return native.NativePlanParameterization(db)
        case "card:native":
            return Cards(watch)
        case "card:distorted":
            return opt.CardinalityDistortion(Cards(watch), 1.5)
        case "native":
            return native.NativeOptimizer(db)
        case "enum:dp":
            return opt.dynprog.DynamicProgrammingEnumerator(target_db=db)
        case "enum:pg":
            return opt.dynprog.PostgresDynProg(target_db=db)
        case "cost:native":
            return Costs(watch)
        case "step":
            return Step(db, watch)
        case _:
            raise KeyError(name)


def pipeline(sc, db, watch):
    st = [stage(n, db, watch) for n in sc["stages"]]
    match sc["kind"]:
        case "integrated":
            return pb.IntegratedOptimizationPipeline(db).use(st[0]).build()
        case "emulated":
            return pb.IntegratedOptimizationPipeline(db).use(pb.as_complete_algorithm(st[0], database=db)).build()
        case "multi":
            p = pb.MultiStageOptimizationPipeline(db)
        case "textbook":
            p = pb.TextBookOptimizationPipeline(db)
        case "incremental":
            p = pb.IncrementalOptimizationPipeline(db)
    for s in st:
        p.use(s)
    return p.build() if sc["kind"] != "incremental" else p


def outcome(kind, value):
    """A comparable form of what an optimization returned."""
    if kind != "ok":
        return (kind, type(value).__name__)
    if isinstance(value, pb.QueryPlan):
        return ("plan", util.to_json(value))
    return ("query", str(value))


class Optimizing(Prop):
    id = "S16"
    quick_runs = 2000
    thorough_runs = 50000
    rule = "a failure struck while a query was being optimized"
    state_measure = "pipeline, stages, what was asked for, the failure and how far the optimization had got"
    real = REAL + ["postbound._pipelines", "postbound._stages", "postbound.opt (native, ues, dynprog, _cardinalities)", "postbound.transform"]
    stub = STUB + ["the planner of the simulated server (ignores hints, one plan per query)"]
    assumptions = ASSUMPTIONS + ["the server plans deterministically"]
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        kind = rng.choice(["integrated", "emulated", "multi", "multi", "textbook", "textbook", "incremental"])
        if kind == "integrated":
            stages = ["native"]
        elif kind == "emulated":
            stages = [rng.choice(["join:native", "join:ues", "join:ues-cards", "ops:native", "param:native", "card:native", "card:distorted"])]
        elif kind == "multi":
            stages = [rng.choice([None, "join:native", "join:ues", "join:ues-cards"]), rng.choice([None, "ops:native", "ops:ues"]),
                      rng.choice([None, "param:native", "card:native", "card:distorted"])]
            stages = [s for s in stages if s]
        elif kind == "textbook":
            stages = [rng.choice(["enum:dp", "enum:pg"]), "cost:native", rng.choice(["card:native", "card:distorted"])]
        else:
            stages = (["native"] if rng.random() < 0.6 else []) + ["step"] * rng.randrange(0, 3)
        ops = []
        for _ in range(rng.randrange(1, 5)):
            fault = None
            if rng.random() < 0.75:
                how = rng.choice(["server", "server", "server", "stage"])
                at = rng.choice([1, 2, 3, rng.randrange(1, 12), rng.randrange(1, 60)])
                fault = {"how": how, "at": at, "fail": rng.choice(FAILS)}
            ops.append({"q": [rng.randrange(1, 60), rng.randrange(len(TEMPLATES)), rng.randrange(6)], "what": rng.choice(["query", "query", "plan"]),
                        "fault": fault})
        return {"kind": kind, "stages": stages, "ops": ops, "data": rng.randrange(50), "cache": rng.random() < 0.5}

    def run(self, ctx, sc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.body(ctx, sc)

    def world(self, ctx, sc):
        server = make_server(ctx, sc)
        db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True, cache_enabled=sc["cache"])
        watch = Watch()
        return server, db, watch, pipeline(sc, db, watch)

    def body(self, ctx, sc):
        server, db, watch, pipe = self.world(ctx, sc)
        reference = []
        for op in sc["ops"]:
            reference.append(outcome(*self.optimize(pipe, op)))
            watch.open.clear()
        db.close()

        server, db, watch, pipe = self.world(ctx, sc)
        now = {"n": 0, "at": None, "fail": None, "fired": None}

        def on_statement(session, stmt):
            now["n"] += 1
            if now["at"] == now["n"]:
                now["fired"] = stmt.sql
                return {"fail": now["fail"]}
            return {}

        server.on_statement = on_statement
        for i, op in enumerate(sc["ops"]):
            for attempt in ("first", "retry"):
                fault = op["fault"] if attempt == "first" else None
                now.update(n=0, at=fault["at"] if fault and fault["how"] == "server" else None, fail=fault and fault["fail"], fired=None)
                watch.calls, watch.fail_at = 0, fault["at"] if fault and fault["how"] == "stage" else None
                before = self.settings(server)
                mark = len(server.log)
                what = f"{attempt} attempt of op {i} ({op['what']}, query {op['q'][0]}, {sc['kind']} {sc['stages']}, fault {fault}): "
                query = parse(marked(*op["q"]))
                text = str(query)
                kind, value = self.optimize(pipe, op, query)
                stage_fired = watch.fail_at is not None and watch.calls >= watch.fail_at
                fired = now["fired"] or stage_fired
                if fired:
                    ctx.nontrivial = True
                    if stage_fired:
                        ctx.k.fault("stage_error")
                    ok = isinstance(value, Failed if stage_fired else (pb.db.DatabaseServerError, pb.db.DatabaseUserError, psycopg.Error))
                    # the Postgres-style enumerator rejects final plans that the server cannot plan
                    rejected = "enum:pg" in sc["stages"] and not stage_fired and fault["fail"] != "undefined_table" and "/*+" in now["fired"]
                    if not (rejected and kind == "ok"):
                        ctx.check(kind == "error" and ok, f"{what}{short(value) if kind != 'ok' else 'a result'} although {short_sql(now['fired']) if now['fired'] else 'an estimator'} failed",
                              "failure not reported")
                else:
                    got = outcome(kind, value)
                    ctx.check(got == reference[i], f"{what}the outcome is {diff(got, reference[i])}", "different outcome")
                ctx.check(not watch.open, f"{what}not cleaned up: {watch.open}", "not cleaned up")
                ctx.check(not watch.problems, f"{what}{watch.problems[:2]}", "stage protocol")
                watch.open.clear()
                watch.problems.clear()
                ctx.check(str(query) == text, f"{what}the input query became {query}", "query altered")
                for s in server.log[mark:]:
                    if marker_of(s.sql) is not None:
                        m = re.match(r"\s*(?:/\*.*?\*/\s*)*EXPLAIN\s*(\([^)]*\))?", s.sql, re.S | re.I)
                        ctx.check(m is not None and "ANALYZE" not in (m.group(1) or "").upper(), f"{what}the query was executed: {short_sql(s.sql)}", "query executed")
                if db._connection.closed:
                    db.reset_connection()
                else:
                    after = self.settings(server)
                    ctx.check(after == before, f"{what}session settings changed: {set(after.items()) ^ set(before.items())}", "settings changed")
                ctx.state(sc["kind"], "+".join(sc["stages"]), op["what"], fault and (fault["how"], fault["fail"]), bool(fired), min(now["n"], 30))
                if not fired:
                    break
        db.close()

    @staticmethod
    def settings(server) -> dict:
        s = [s for s in server.alive_sessions() if s.app == "PostBOUND"]
        return dict(s[-1].settings) if s else {}

    @staticmethod
    def optimize(pipe, op, query=None):
        query = query if query is not None else parse(marked(*op["q"]))
        return call(pipe.optimize_query if op["what"] == "query" else pipe.query_execution_plan, query)


def short_sql(sql) -> str:
    return repr(re.sub(r"\s+", " ", sql)[:200])


def diff(got, want) -> str:
    if got[0] != want[0] or len(str(got)) < 200:
        return f"{str(got)[:700]} instead of {str(want)[:300]}"
    a, b = str(got[1]), str(want[1])
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
    return f"...{a[max(0, n - 80):n + 200]} instead of ...{b[max(0, n - 80):n + 200]}"


PROPS = {"S16": Optimizing()}
