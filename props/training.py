"""S15: training of optimization stages by the real pipelines and execute_workload, on the simulated PostgreSQL server."""
from __future__ import annotations

import pandas as pd

from dst import simpg

from . import Prop
from .common import MARK, call, make_server, marked, marker_of, parse, pb, pg, short
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import train

ROLES = {"integrated": ["complete"], "multi": ["join", "ops", "param", "card"], "textbook": ["enum", "cost", "card"],
         "incremental": ["complete", "step"], "emulated": ["join", "ops", "param", "card"]}
FEATURES = ["query", "cardinality", "runtime_ms", "estimated_cost", "noise", "query_plan"]
GROUPS = {"data": ("fit_database", "database_fit_completed"), "workload": ("fit_workload", "workload_fit_completed"),
          "samples": ("fit_samples", "sample_fit_completed")}


class Failed(Exception):
    """Raised by an instrumented stage."""


class Env:
    def __init__(self, ctx) -> None:
        self.ctx = ctx
        self.events: list = []     # (kind, stage index, details)
        self.db = None
        self.fit_no = 0
        self.fit_fail: dict = {}   # number of the training call -> "raise" | "query"

    def note(self, *ev) -> None:
        self.events.append(ev)
        self.ctx.k.event(f"{ev[0]} {ev[1]}")


def stage_class(role: str, groups: list[str], online: bool = False):
    """An instrumented stage. State is per instance; which kinds of training exist is decided by the class."""
    base = {"complete": pb.CompleteOptimizationAlgorithm, "join": pb.JoinOrderOptimization, "ops": pb.PhysicalOperatorSelection,
            "param": pb.ParameterGeneration, "card": pb.CardinalityEstimator, "cost": pb.CostModel, "enum": pb.PlanEnumerator,
            "step": pb.IncrementalOptimizationStep}[role]

    def __init__(self, env: Env, i: int, spec: dict) -> None:
        base.__init__(self)
        self.env, self.i, self.spec = env, i, spec
        self.name = spec.get("name") or f"stage{i}"
        self.done = set(spec["done"])

    def fit(group):
        def body(self, *args):
            e = self.env
            e.fit_no += 1
            fail = e.fit_fail.get(e.fit_no)
            e.note("fit", self.i, group, args)
            if group != "samples":
                e.db.execute_query(f"SELECT COUNT(*) FROM {self.spec['table']} WHERE 0 <= {800_000 + e.fit_no}", cache_enabled=False)
            if fail:
                e.ctx.k.fault("training_error")
                raise Failed(f"training {e.fit_no}")
            e.ctx.k.block(None, self.spec["us"] * 1000, why="training")
            self.done.add(group)
            return {"calls": e.fit_no}
        return body

    ns: dict = {"__init__": __init__, "describe": lambda self: {"name": self.name, "done": sorted(self.done)}}
    for g in groups:
        ns[GROUPS[g][0]] = fit(g)
        ns[GROUPS[g][1]] = lambda self, g=g: g in self.done
    if online:
        def learn(self, query, result_set, *, exec_time):
            self.env.note("feedback", self.i, marker_of(str(query)), result_set, exec_time)
            return {}
        ns["learn_from_feedback"] = learn
    if "samples" in groups:
        ns["sample_spec"] = lambda self: train.TrainingSpec(self.spec["needs"])

    def opt(result):
        def body(self, query, *a, **k):
            self.env.note("optimize", self.i, marker_of(str(query)))
            return result(self, query, *a)
        return body

    native = lambda self, query, *a: self.env.db.optimizer().query_plan(query)     # noqa: E731
    ns |= {"complete": {"optimize_query": opt(native)}, "join": {"optimize_join_order": opt(lambda *a: None)},
           "ops": {"select_physical_operators": opt(lambda *a: pb.PhysicalOperatorAssignment())},
           "param": {"generate_plan_parameters": opt(lambda *a: pb.PlanParameterization())},
           "card": {"calculate_estimate": opt(lambda *a: pb.Cardinality(3))},
           "cost": {"estimate_cost": opt(lambda *a: 1.0)},
           "enum": {"generate_execution_plan": opt(native)},
           "step": {"optimize_query": opt(lambda self, query, plan: plan)}}[role]
    return type(f"Stage_{role}_{'_'.join(groups)}", (base,), ns)


def datasets(specs, offset=0) -> list:
    """TrainingData objects and, for each, its rows by feature."""
    out = []
    for n, d in enumerate(specs):
        rows = [{f: f"{f}-{n}-{i}" if f != "cardinality" else n * 1000 + i for f in d["features"]} for i in range(d["rows"])]
        column = {f: (f"{f}_col{n}" if j in d["renamed"] else f) for j, f in enumerate(d["features"])}
        order = list(d["features"])
        if d["reorder"]:
            order = order[::-1]
        frame = pd.DataFrame([[r[f] for f in order] + [i] for i, r in enumerate(rows)], columns=[column[f] for f in order] + ["extra"])
        out.append((train.TrainingData(frame, feature_map=dict(column)), rows))
    return out


class Training(Prop):
    id = "S15"
    quick_runs = 2500
    thorough_runs = 60000
    rule = "some stage required training that had not been done"
    state_measure = "pipeline kind, number of trained stages and inputs, and how the benchmark ended"
    real = REAL + ["postbound._pipelines", "postbound._stages", "postbound.train", "postbound.bench.execute_workload"]
    stub = STUB + ["optimization stages: instrumented implementations of the public stage interfaces"]
    assumptions = ASSUMPTIONS + ["whether a kind of training is required is a property of the stage's class, as documented"]
    shrink_lists = ("ops", "stages", "faults")

    def scenario(self, rng, tier):
        kind = rng.choice(list(ROLES))
        if kind in ("integrated", "emulated"):
            roles = [rng.choice(ROLES[kind])]
        elif kind == "incremental":
            roles = (["complete"] if rng.random() < 0.6 else []) + ["step"] * rng.randrange(0 if rng.random() < 0.2 else 1, 4)
        elif kind == "multi":
            roles = [r for r in ("join", "ops") if rng.random() < 0.7] + ([rng.choice(["param", "card"])] if rng.random() < 0.8 else [])
        else:
            roles = ["enum", "cost", "card"]
        stages = []
        for r in roles:
            groups = [g for g in ("data", "workload", "samples") if rng.random() < 0.45]
            stages.append({"role": r, "groups": groups, "done": [g for g in groups if rng.random() < 0.25], "table": rng.choice("rst"),
                           "us": rng.choice([0, 100, 5000]), "needs": rng.sample(FEATURES, rng.randrange(1, 4)), "online": rng.random() < 0.4})

        def data():
            feats = rng.sample(FEATURES, rng.randrange(2, len(FEATURES) + 1))
            return {"features": feats, "renamed": [j for j in range(len(feats)) if rng.random() < 0.3], "reorder": rng.random() < 0.3,
                    "rows": rng.randrange(0, 4)}

        ops = []
        for _ in range(rng.randrange(1, 5)):
            what = rng.choice(["bench", "bench", "bench", "train_data", "train_workload", "train_samples", "retrain", "forget"])
            ops.append({"op": what, "stage": rng.randrange(6), "group": rng.choice(list(GROUPS)), "single": rng.random() < 0.15,
                        "queries": [[rng.randrange(1, 60), rng.randrange(9), rng.randrange(6)] for _ in range(rng.randrange(1, 4))],
                        "samples": rng.choice([None, "data", "repo", "repo"]), "datasets": [data() for _ in range(rng.randrange(1, 4))],
                        "raw": rng.random() < 0.3})
        faults = []
        for _ in range(rng.choice([0, 0, 1, 1, 2])):
            faults.append({"fit": rng.randrange(1, 7), "kind": rng.choice(["raise", "server", "lose", "user"])})
        if rng.random() < 0.25:     # names need not be unique
            for s in stages:
                if rng.random() < 0.8:
                    s["name"] = "stage"
        return {"kind": kind, "stages": stages, "ops": ops, "faults": faults, "data": rng.randrange(50)}

    def run(self, ctx, sc):
        server = make_server(ctx, sc)
        env = Env(ctx)

        def on_statement(session, stmt):
            import re
            m = re.search(r"\b8\d{5}\b", stmt.sql)
            if m:
                for f in sc["faults"]:
                    if f["fit"] == int(m.group(0)) - 800_000 and f["kind"] != "raise":
                        return {"fail": {"server": "internal", "lose": "lose", "user": "undefined_table"}[f["kind"]]}
            return {}

        server.on_statement = on_statement
        env.fit_fail = {f["fit"]: True for f in sc["faults"] if f["kind"] == "raise"}
        db = env.db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True)
        # the stages only exist as often as the pipeline can hold them
        stages = []
        for i, s in enumerate(sc["stages"]):
            stages.append(stage_class(s["role"], s["groups"], s.get("online", False))(env, i, s))
        kind = sc["kind"]
        if not stages and kind != "incremental" and kind != "multi":
            return
        pipe = self.pipeline(kind, db, stages)
        for n, op in enumerate(sc["ops"]):
            env.events.clear()
            what = f"op {n} {op['op']} on {kind} {[ (s.spec['role'], s.spec['groups'], sorted(s.done)) for s in stages]}"
            if op["op"] == "forget":
                for s in stages[:op["stage"]]:
                    s.done.discard(op["group"])
                continue
            if op["op"] == "retrain":
                if stages:
                    s = stages[op["stage"] % len(stages)]
                    s.done |= set(s.spec["groups"])
                continue
            sets = datasets(op["datasets"])
            samples = None
            if op["samples"] == "data":
                samples = sets[0][0]
            elif op["samples"] == "repo":
                samples = train.TrainingDataRepository()
                for d, _ in sets:
                    samples.register(d)
            marks = [i for i, _t, _x in {q[0]: q for q in op["queries"]}.values()]
            queries = [parse(marked(i, t, x)) for i, t, x in {q[0]: q for q in op["queries"]}.values()]
            workload = pb.Workload({f"q{i}": q for i, q in enumerate(queries)}, name="w")
            before = {s.i: set(s.done) for s in stages}
            if op["op"] == "bench":
                target, single = pipe, False
                if op["single"] and len(stages) == 1 and kind in ("integrated", "multi"):
                    target, single = stages[0], True
                start = len(server.log)
                kind_, value = call(pb.bench.execute_workload, list(queries) if op["raw"] else workload, target, training_data=samples, error_action="raise")
                self.judge(ctx, env, stages, before, ["data", "workload", "samples"], samples, sets, op, queries, marks, kind_, value, what,
                           server.log[start:], bench=True, emulated=kind == 'emulated')
            elif op["op"] == "train_data":
                kind_, value = call(pipe.train_on_database, db)
                self.judge(ctx, env, stages, before, ["data"], None, sets, op, queries, marks, kind_, value, what, [], emulated=kind == 'emulated')
            elif op["op"] == "train_workload":
                kind_, value = call(pipe.train_on_workload, workload, db)
                self.judge(ctx, env, stages, before, ["workload"], None, sets, op, queries, marks, kind_, value, what, [], emulated=kind == 'emulated')
            else:
                if samples is None:
                    continue
                kind_, value = call(pipe.train_on_samples, samples)
                self.judge(ctx, env, stages, before, ["samples"], samples, sets, op, queries, marks, kind_, value, what, [], emulated=kind == 'emulated')
            if kind_ != "ok" and db._connection.closed:
                db.reset_connection()
            for s, ok in zip(stages, [True] * len(stages)):
                req = {"data": s.requires_data_training(), "workload": s.requires_workload_training(), "samples": s.requires_sample_training()}
                ctx.check(req == {g: g in s.spec["groups"] for g in GROUPS}, f"{what}: stage {s.i} claims to require {req}", "wrong requirement")
            if stages:
                want = all("samples" not in s.spec["groups"] or "samples" in s.done for s in stages)
                ctx.check(pipe.sample_fit_completed() == want, f"{what}: sample_fit_completed() is {pipe.sample_fit_completed()}", "wrong completion")
            for group, fn in (("data", pipe.requires_data_training), ("workload", pipe.requires_workload_training), ("samples", pipe.requires_sample_training)):
                ctx.check(fn() == any(group in s.spec["groups"] for s in stages), f"{what}: {fn.__name__}() is {fn()}", "wrong requirement")
        db.close()

    @staticmethod
    def pipeline(kind, db, stages):
        if kind == "integrated":
            return pb.IntegratedOptimizationPipeline(db).use(stages[0]).build()
        if kind == "emulated":
            return pb.IntegratedOptimizationPipeline(db).use(pb.as_complete_algorithm(stages[0], database=db)).build()
        if kind == "multi":
            p = pb.MultiStageOptimizationPipeline(db)
            for s in stages:
                p.use(s)
            return p.build()
        if kind == "textbook":
            p = pb.TextBookOptimizationPipeline(db)
            for s in stages:
                p.use(s)
            return p.build()
        p = pb.IncrementalOptimizationPipeline(db)
        for s in stages:
            p.use(s)
        return p

    def judge(self, ctx, env, stages, before, groups, samples, sets, op, queries, marks, kind, value, what, log, bench=False, emulated=False):
        fits = [e for e in env.events if e[0] == "fit"]
        first_use = next((i for i, e in enumerate(env.events) if e[0] == "optimize"), None)
        last_fit = max((i for i, e in enumerate(env.events) if e[0] == "fit"), default=-1)
        executed = [s for s in log if marker_of(s.sql) is not None]
        need = [(s.i, g) for g in groups for s in stages if g in s.spec["groups"] and g not in before[s.i]]
        got = [(e[1], e[2]) for e in fits]
        if need:
            ctx.nontrivial = True
        # nobody is trained twice, nobody is trained for nothing
        for x in got:
            ctx.check(x in need, f"{what}: stage {x[0]} was trained on {x[1]} although that was not needed", "needless training")
        ctx.check(len(set(got)) == len(got), f"{what}: trained twice: {got}", "trained twice")
        if first_use is not None:
            ctx.check(last_fit < first_use, f"{what}: a query was optimized before training was over: {env.events[:12]}", "optimized before training")
        # inputs
        by_stage = {s.i: s for s in stages}
        usable = {}
        for i, g in need:
            if g == "samples":
                spec = by_stage[i].spec["needs"]
                cand = [rows for (d, rows), ds in zip(sets, op["datasets"]) if set(spec) <= set(ds["features"])]
                if isinstance(samples, train.TrainingDataRepository):
                    usable[i] = [r for rows in cand for r in rows] if cand else None
                elif samples is not None:
                    usable[i] = sets[0][1] if set(spec) <= set(op["datasets"][0]["features"]) else None
                else:
                    usable[i] = None
        for _k, i, g, args in fits:
            if g == "data":
                ctx.check(args[0] is env.db, f"{what}: stage {i} was trained on {type(args[0]).__name__}", "wrong database")
            elif g == "workload":
                ctx.check(isinstance(args[0], pb.Workload) and sorted(marker_of(str(q)) for q in args[0].queries()) == sorted(marks) and args[1] is env.db,
                          f"{what}: stage {i} was trained on another workload", "wrong workload")
            else:
                self.check_samples(ctx, by_stage[i], usable[i], args[0], isinstance(samples, train.TrainingDataRepository), f"{what}: stage {i}")
        missing = [i for i, v in usable.items() if v is None]
        fired = [f for f in env.events if f[0] == "fit"]
        if kind != "ok":
            own = isinstance(value, Failed) or isinstance(value, (pb.db.DatabaseServerError, pb.db.DatabaseUserError))
            if not own:
                ctx.check(isinstance(value, ValueError) and missing, f"{what}: failed with {short(value)}", "unexpected failure")
                if samples is None:
                    ctx.check(not any(g == "samples" for _i, g in got), f"{what}: refused, but {got} were trained on samples", "refused too late")
            ctx.check(first_use is None and not executed, f"{what}: {short(value)}, but queries were optimized or executed ({len(executed)})", "ran in spite of failure")
            ctx.state(env_kind(stages), len(fired), "failed" if own else "refused")
            return
        ctx.check(not missing, f"{what}: stages {missing} had no suitable training samples, but nothing was reported", "missing samples accepted")
        ctx.check(sorted(got) == sorted(need), f"{what}: trained {sorted(got)}, needed {sorted(need)}", "not trained")
        order = [g for _i, g in got]
        if bench:
            ctx.check(len(value) == len(queries), f"{what}: {len(value)} rows for {len(queries)} queries", "incomplete benchmark")
            for s in stages:       # online learning
                heard = [e for e in env.events if e[0] == "feedback" and e[1] == s.i]
                want = [(m, x) for m, x in zip(marks, value["query_result"])] if s.spec.get("online") else []
                ctx.check([e[2] for e in heard] == [m for m, _x in want], f"{what}: stage {s.i} got feedback for {[e[2] for e in heard]}, executed {[m for m, _x in want]}", "wrong feedback")
                for e, t in zip(heard, value["exec_time"]):
                    ctx.check(isinstance(e[4], (int, float)) and abs(e[4] - 1000 * t) < 1e-6 * max(1, e[4]), f"{what}: feedback with {e[4]} ms for an execution of {t} s", "wrong feedback time")
            ctx.check(all(s == "ok" for s in value["status"]), f"{what}: statuses {list(value['status'])} {list(value['failure_reason'])}", "failed queries")
        else:
            names = {by_stage[i].name for i, _g in need} if not emulated or not need else set(value)     # the wrapper has its own name
            ctx.check({k for k in value} == names, f"{what}: metrics for {sorted(value)}, trained {sorted(names)}", "wrong metrics")
        for s in stages:
            ctx.check(all(g in s.done for i, g in need if i == s.i), f"{what}: stage {s.i} is not trained", "not trained")
        ctx.state(env_kind(stages), len(fired), "ok", len(set(order)))

    @staticmethod
    def check_samples(ctx, stage, rows, data, repo, what):
        needs = stage.spec["needs"]
        ctx.check(isinstance(data, train.TrainingData), f"{what} got {type(data).__name__}", "wrong samples")
        ctx.check(rows is not None, f"{what} was trained on samples that lack some of {needs}: {data}", "unsuitable samples")
        want = [tuple(r[f] for f in needs) for r in rows]
        frame = data.as_df(stage.sample_spec())
        ctx.check(list(frame.columns) == needs, f"{what}: columns {list(frame.columns)}, needed {needs}", "wrong columns")
        got = [tuple(x) for x in frame.itertuples(index=False)]
        ctx.check(got == want, f"{what}: got the samples {got[:6]}, expected {want[:6]}", "wrong samples")
        ctx.check(len(data) == len(want), f"{what}: {len(data)} samples instead of {len(want)}", "wrong samples")
        if repo:
            ctx.check(list(data.spec.features) == needs, f"{what}: features {data.spec.features}, needed exactly {needs}", "wrong features")
            plain = data.as_df()
            ctx.check(set(needs) <= set(plain.columns) and [tuple(x) for x in plain[needs].itertuples(index=False)] == want,
                      f"{what}: as_df() has the columns {list(plain.columns)}, needed {needs}", "wrong columns")
            ctx.check([tuple(data[i]) for i in range(len(want))] == want, f"{what}: items are {[data[i] for i in range(len(want))][:3]}", "wrong items")


def env_kind(stages) -> str:
    return "+".join(sorted(s.spec["role"] for s in stages))


PROPS = {"S15": Training()}
