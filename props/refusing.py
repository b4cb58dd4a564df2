"""S30: pre-checks: unsupported systems and queries are refused before anything happens, and nothing else is."""
from __future__ import annotations

import warnings

import psycopg

from . import Prop
from .common import TEMPLATES, call, make_server, marked, marker_of, parse, pb, short
from .optimizing import stage
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import opt, validation
from postbound.opt import randomized

SUPPORTED = [pb.HintType.Cardinality, pb.HintType.Parallelization, pb.HintType.LinearJoinOrder, pb.HintType.BushyJoinOrder, pb.HintType.JoinDirection,
             pb.HintType.Operator, pb.JoinOperator.NestedLoopJoin, pb.JoinOperator.HashJoin, pb.JoinOperator.SortMergeJoin,
             pb.ScanOperator.SequentialScan, pb.ScanOperator.IndexScan, pb.ScanOperator.IndexOnlyScan, pb.ScanOperator.BitmapScan]
UNSUPPORTED = [pb.IntermediateOperator.Materialize, pb.IntermediateOperator.Sort, pb.IntermediateOperator.Memoize]
FAILS = ["internal", "lose"]
SLOTS = {"integrated": {"algorithm": ["native"]},
         "emulated": {"algorithm": ["join:native", "ops:native", "param:native", "card:native"]},
         "multi": {"join": ["join:native"], "ops": ["ops:native"], "param": ["param:native", "card:native"]},
         "textbook": {"enum": ["enum:dp"], "cost": ["cost:native"], "card": ["card:native"]},
         "incremental": {"algorithm": ["native"], "step": ["step"]}}


class Watch:
    """Stands in for the watch of S16's instrumented stages."""

    def __init__(self) -> None:
        self.calls = 0

    def start(self, obj, query) -> None:
        self.calls += 1

    stop = use = lambda self, *args: None


class World:
    def __init__(self, db, sc):
        self.db = db
        self.sc = sc
        self.watch = Watch()
        self.checks = [self.check(spec) for spec in sc["checks"]]

    # -- the checks, and what they are meant to refuse

    def consult(self, spec):
        if spec["consult"]:
            self.db.execute_query("SELECT 1 AS consulted", cache_enabled=False, raw=True)

    def result(self, spec, bad, what):
        if not bad:
            return validation.PreCheckResult.with_all_passed()
        reasons = [f"{spec['name']}/{what}{i}" for i in range(spec["reasons"])]
        return validation.PreCheckResult.with_failure(reasons[0] if spec["plain"] else reasons)

    def check(self, spec):
        def query_check(query):
            self.consult(spec)
            return self.result(spec, marker_of(str(query)) % 7 in spec["queries"], "q")

        def db_check(database):
            self.consult(spec)
            return self.result(spec, spec["system"], "s")

        match spec["form"]:
            case "hints":
                pool = SUPPORTED + UNSUPPORTED
                return validation.SupportedHintCheck([pool[i] for i in spec["hints"]])
            case "custom":
                return validation.CustomCheck(spec["name"], query_check=query_check, db_check=db_check)
            case "default-name":
                return validation.CustomCheck(query_check=query_check, db_check=db_check)
            case "own":
                check = Own(spec["name"])
                check.check_supported_query = query_check
                check.check_supported_database_system = db_check
                return check

    def combined(self, ids, how):
        parts = [self.checks[i] for i in ids]
        if how == "merge":
            return validation.merge_checks(parts)
        if len(parts) == 1:
            return parts[0]
        return validation.CompoundCheck(parts) if parts else (None if how == "none" else validation.EmptyPreCheck())

    def refuses_system(self, ids) -> set:
        out = set()
        for i in ids:
            spec = self.sc["checks"][i]
            if spec["form"] == "hints":
                out |= {str((SUPPORTED + UNSUPPORTED)[h]) for h in spec["hints"] if h >= len(SUPPORTED)}
            elif spec["system"]:
                out |= {f"{spec['name']}/s{n}" for n in range(1 if spec["plain"] else spec["reasons"])}
        return out

    def refuses_query(self, ids, marker) -> set:
        out = set()
        for i in ids:
            spec = self.sc["checks"][i]
            if spec["form"] != "hints" and marker % 7 in spec["queries"]:
                out |= {f"{spec['name']}/q{n}" for n in range(1 if spec["plain"] else spec["reasons"])}
        return out

    # -- components

    def component(self, spec):
        if spec["stage"] == "random":
            return randomized.RandomPlanOptimizer(database=self.db)
        s = stage(spec["stage"], self.db, self.watch)
        check = self.combined(spec["checks"], spec["how"])
        s.pre_check = lambda: check
        for name in ("optimize_query", "optimize_join_order", "select_physical_operators", "generate_plan_parameters", "generate_execution_plan"):
            if hasattr(s, name):
                setattr(s, name, self.counted(getattr(s, name)))
        return pb.as_complete_algorithm(s, database=self.db) if self.sc["kind"] == "emulated" else s

    def counted(self, fn):
        def wrapper(*args, **kwargs):
            self.watch.calls += 1
            return fn(*args, **kwargs)
        return wrapper


class Own(validation.OptimizationPreCheck):
    def describe(self):
        return {"name": self.name}


class Settings(pb.OptimizationSettings):
    def __init__(self, check, parts):
        self.check, self.parts = check, parts

    def query_pre_check(self):
        return self.check

    def build_join_order_optimizer(self):
        return self.parts.get("join")

    def build_physical_operator_selection(self):
        return self.parts.get("ops")

    def build_plan_parameterization(self):
        return self.parts.get("param")


class Refusing(Prop):
    id = "S30"
    quick_runs = 2500
    thorough_runs = 60000
    rule = "a system or query had to be refused, or a check failed to reach the server"
    state_measure = "pipeline, operation, checks in use, expected reaction, failure"
    real = REAL + ["postbound._pipelines", "postbound.validation", "postbound._stages", "postbound.opt.native"]
    stub = STUB + ["the planner of the simulated server"]
    assumptions = ASSUMPTIONS + ["pre-checks answer the same question the same way every time"]
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        kind = rng.choice(["integrated", "emulated", "multi", "multi", "multi", "textbook", "textbook", "incremental", "incremental"])
        checks = []
        picky = rng.choice([0.05, 0.3])
        for n in range(rng.randrange(1, 5)):
            form = rng.choice(["own", "own", "custom", "default-name", "hints"])
            pool = list(range(len(SUPPORTED)))
            hints = sorted(rng.sample(pool, rng.randrange(1, 4)))
            if rng.random() < picky:
                hints.append(len(SUPPORTED) + rng.randrange(len(UNSUPPORTED)))
            checks.append({"form": form, "name": f"check{n}", "queries": sorted(rng.sample(range(7), rng.choice([0, 1, 2]))), "system": rng.random() < picky,
                           "consult": rng.random() < 0.3, "reasons": rng.choice([1, 1, 2]), "plain": rng.random() < 0.5, "hints": hints})

        def pick():
            return sorted(rng.sample(range(len(checks)), min(len(checks), rng.choice([0, 1, 1, 2, 3]))))

        def comp(slot):
            s = rng.choice(SLOTS[kind][slot])
            if kind == "integrated" and rng.random() < 0.2:
                return {"stage": "random", "checks": [], "how": "own"}
            return {"stage": s, "checks": pick(), "how": rng.choice(["compound", "compound", "merge", "none"])}

        ops = []
        order = list(SLOTS[kind])
        rng.shuffle(order)
        for slot in order:
            if rng.random() < (0.7 if kind in ("multi", "incremental") else 0.95):
                ops.append({"op": "use", "slot": slot, "comp": comp(slot)})
        ops.append({"op": "build"})
        for _ in range(rng.randrange(2, 8)):
            r = rng.random()
            if r < 0.5:
                ops.append({"op": "optimize", "q": [rng.randrange(1, 60), rng.randrange(len(TEMPLATES)), rng.randrange(6)], "what": rng.choice(["query", "plan"])})
            elif r < 0.7:
                slot = rng.choice(order)
                ops.append({"op": "use", "slot": slot, "comp": comp(slot)})
            elif r < 0.8 and kind == "multi":
                ops.append({"op": "check", "checks": pick(), "how": rng.choice(["compound", "merge"])})
            elif r < 0.85 and kind == "multi":
                slots = [s for s in order if rng.random() < 0.5]
                ops.append({"op": "load", "checks": pick(), "how": rng.choice(["compound", "none"]), "slots": slots, "comps": [comp(s) for s in slots]})
            else:
                ops.append({"op": "build"})
        for op in ops:
            op["fault"] = [rng.choice([1, 1, 2, 3, 5]), rng.choice(FAILS)] if rng.random() < 0.25 else None
        return {"kind": kind, "checks": checks, "ops": ops, "data": rng.randrange(50), "seed": rng.randrange(1 << 30)}

    def run(self, ctx, sc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            self.body(ctx, sc)

    def body(self, ctx, sc):
        import random
        random.seed(sc["seed"])
        server = make_server(ctx, sc)
        db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True, cache_enabled=False)
        w = World(db, sc)
        kind = sc["kind"]
        pipe = {"integrated": pb.IntegratedOptimizationPipeline, "emulated": pb.IntegratedOptimizationPipeline, "multi": pb.MultiStageOptimizationPipeline,
                "textbook": pb.TextBookOptimizationPipeline, "incremental": pb.IncrementalOptimizationPipeline}[kind](db)
        now = {"n": 0, "at": None, "fail": None, "fired": None}

        def on_statement(session, stmt):
            now["n"] += 1
            if now["at"] == now["n"]:
                now["fired"] = stmt.sql
                return {"fail": now["fail"]}
            return {}

        server.on_statement = on_statement
        slots: dict = {}  # slot -> list of check ids (incremental: list of component check lists, in order)
        steps: list = []
        user: list = []
        ready = kind == "incremental"

        def every():
            ids = set(user)
            for v in slots.values():
                ids |= set(v)
            for v in steps:
                ids |= set(v)
            return ids

        for i, op in enumerate(sc["ops"]):
            fault = op["fault"]
            now.update(n=0, at=fault and fault[0], fail=fault and fault[1], fired=None)
            w.watch.calls = 0
            mark = len(server.log)
            what = f"op {i} ({op['op']}, {kind}, fault {fault}): "
            want = "ok"
            before_op = ready
            reasons: set = set()
            match op["op"]:
                case "use":
                    c = w.component(op["comp"])
                    ids = op["comp"]["checks"]
                    if kind == "incremental":
                        if op["slot"] == "step":
                            before = len(pipe.stages())
                            res = call(pipe.use, c)
                            reasons = w.refuses_system(ids)
                            added = len(pipe.stages()) > before
                        else:
                            res = call(pipe.use, c)
                            reasons = w.refuses_system(ids)
                            added = pipe.initial_plan_generator is c
                        if reasons:
                            want = "system"
                        if res[0] == "ok" and not reasons:
                            if op["slot"] == "step":
                                steps.append(ids)
                            else:
                                slots["algorithm"] = ids
                        ctx.check(added == (res[0] == "ok"), f"{what}{short(res[1])}, but the component is {'' if added else 'not '}in use", "half added")
                    else:
                        res = call(pipe.use, c)
                        slots[op["slot"]] = ids
                        ready = False
                case "check":
                    res = call(pipe.setup_query_support_check, w.combined(op["checks"], op["how"]))
                    user = op["checks"]
                    ready = False
                case "load":
                    check = w.combined(op["checks"], op["how"])
                    parts = {s: w.component(c) for s, c in zip(op["slots"], op["comps"])}
                    res = call(pipe.load_settings, Settings(check, parts))
                    if check is not None:
                        user = op["checks"]
                    slots.update({s: c["checks"] for s, c in zip(op["slots"], op["comps"])})
                    ready = False
                case "build":
                    if kind == "incremental":
                        continue
                    missing = not slots and kind in ("integrated", "emulated")  # the others have defaults
                    reasons = w.refuses_system(every())
                    want = "state" if missing else "system" if reasons else "ok"
                    res = call(pipe.build)
                    if want == "ok" and res[0] == "ok":
                        ready = True
                case "optimize":
                    query = parse(marked(*op["q"]))
                    res = call(pipe.optimize_query if op["what"] == "query" else pipe.query_execution_plan, query)
                    if not ready:
                        want = "state"
                    else:
                        reasons = w.refuses_query(every(), op["q"][0])
                        want = "query" if reasons else "ok"
            got, value = res
            ctx.state(kind, op["op"], len(every()), want, bool(now["fired"]))
            if now["fired"]:
                ctx.nontrivial = True
                fine = got == "error" and isinstance(value, (pb.db.DatabaseServerError, pb.db.DatabaseUserError, psycopg.Error))
                ctx.check(fine, f"{what}{short(value) if got != 'ok' else 'no error'} although {now['fired']!r} failed", "failure not reported")
                if op["op"] == "build" and not before_op:
                    probe = call(pipe.optimize_query, parse(marked(1, 0, 0)))
                    ctx.check(probe[0] == "error" and isinstance(probe[1], pb.util.StateError), f"{what}ready after the build failed: {short(probe[1])}", "ready")
                if db._connection.closed:
                    db.reset_connection()
                continue
            if want != "ok":
                ctx.nontrivial = True
            match want:
                case "ok":
                    ctx.check(got == "ok", f"{what}{short(value)} although nothing refuses it", "refused")
                case "state":
                    ctx.check(got == "error" and isinstance(value, pb.util.StateError), f"{what}{short(value)} instead of a StateError", "not ready")
                case "system":
                    ctx.check(got == "error" and isinstance(value, validation.UnsupportedSystemError), f"{what}{short(value)} instead of an UnsupportedSystemError for {sorted(reasons)}", "system not refused")
                    self.same_reasons(ctx, what, value.reason, reasons, " and ", kind)
                case "query":
                    ctx.check(got == "error" and isinstance(value, validation.UnsupportedQueryError), f"{what}{short(value) if got != 'ok' else 'a result'} instead of an UnsupportedQueryError for {sorted(reasons)}", "query not refused")
                    ctx.check(value.query == query, f"{what}the error is about {value.query}", "wrong query")
                    self.same_reasons(ctx, what, value.features, reasons, ", ", kind)
            if op["op"] == "optimize" and want != "ok":
                ctx.check(w.watch.calls == 0, f"{what}stages were invoked", "stage invoked")
                seen = [s.sql for s in server.log[mark:] if "consulted" not in s.sql]
                ctx.check(not seen, f"{what}statements were sent: {seen[:2]}", "statement sent")
        db.close()

    @staticmethod
    def same_reasons(ctx, what, got, want, sep, kind):
        have = set(got.split(sep)) if isinstance(got, str) else {str(g) for g in got}
        fine = have <= want and have if kind == "incremental" else have == want
        ctx.check(bool(fine), f"{what}refused because of {sorted(have)} instead of {sorted(want)}", "reasons")


PROPS = {"S30": Refusing()}
