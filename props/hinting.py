"""S33: the server receives exactly the optimizer's decisions as hints."""
from __future__ import annotations

import copy
import math
import re
import warnings

import psycopg

from dst import boot, simduck

from . import Prop, sqlgen
from .common import call, dataset, make_server, parse, pb, short
from .duck import open_db
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import opt, qal, transform, validation
from postbound._hints import DirectionalJoinOperatorAssignment, JoinOperatorAssignment, ScanOperatorAssignment

SCANS = {"seq": pb.ScanOperator.SequentialScan, "idx": pb.ScanOperator.IndexScan, "idxonly": pb.ScanOperator.IndexOnlyScan, "bitmap": pb.ScanOperator.BitmapScan}
JOINS = {"nlj": pb.JoinOperator.NestedLoopJoin, "hash": pb.JoinOperator.HashJoin, "merge": pb.JoinOperator.SortMergeJoin}
INTERS = {"memo": pb.IntermediateOperator.Memoize, "mat": pb.IntermediateOperator.Materialize, "sort": pb.IntermediateOperator.Sort}
OPS = {**SCANS, **JOINS, **INTERS}

# what the documentation of the systems calls the operators
NAMES = {
    "pg_hint_plan": {"seq": {"SeqScan"}, "idx": {"IndexScan", "IndexOnlyScan"}, "idxonly": {"IndexOnlyScan"}, "bitmap": {"BitmapScan"}, "nlj": {"NestLoop"}, "hash": {"HashJoin"}, "merge": {"MergeJoin"}, "memo": {"Memoize"}},
    "pg_lab": {"seq": {"SeqScan"}, "idx": {"IdxScan"}, "idxonly": {"IdxScan"}, "bitmap": {"BitmapScan"}, "nlj": {"NestLoop"}, "hash": {"HashJoin"}, "merge": {"MergeJoin"}, "memo": {"Memo"}, "mat": {"Material"}},
    "duck": {"seq": {"SeqScan"}, "idx": {"IdxScan"}, "nlj": {"NestLoop"}, "hash": {"HashJoin"}, "merge": {"MergeJoin"}},
}
SETTINGS = {"seq": "enable_seqscan", "idx": "enable_indexscan", "idxonly": "enable_indexonlyscan", "bitmap": "enable_bitmapscan", "nlj": "enable_nestloop", "hash": "enable_hashjoin",
            "merge": "enable_mergejoin", "memo": "enable_memoize", "mat": "enable_material", "sort": "enable_sort"}
PG_SETTINGS = [("work_mem", "8MB"), ("jit", "off"), ("join_collapse_limit", 1), ("random_page_cost", "1.5"), ("enable_gathermerge", "off"), ("work_mem", "64MB")]
DUCK_SETTINGS = [("enable_progress_bar", False), ("perfect_ht_threshold", 3), ("memory_limit", "700MB"), ("preserve_insertion_order", True)]
CARDS = [0, 1, 5, 17, 17.4, 120, 10**7, "nan", "inf"]
PLANS = ("plan", "assembled", "updated")
HOWS = ["hinted", "hinted", "kwargs", "explain", "timeout", "analyze", "pipeline"]


def truthy(text: str) -> bool:
    return text.strip("'\" ").lower() in ("on", "true", "yes", "1")


def kb(value) -> str:
    """Memory in the unit of the server."""
    m = re.fullmatch(r"(\d+)MB", str(value))
    return str(int(m.group(1)) * 1024) if m else str(value)


def norm(sql: str) -> str:
    return re.sub(r"\s+", " ", sql).strip().rstrip(";").strip()


def calls(text: str):
    """Splits a hint text into [(name, argument text)]."""
    out, i = [], 0
    while i < len(text):
        m = re.compile(r"\s*(\w+)\s*\(").match(text, i)
        if not m:
            if text[i:].strip():
                raise ValueError(f"cannot read {text[i:]!r}")
            break
        depth, k = 1, m.end()
        while depth:
            if k >= len(text):
                raise ValueError(f"unbalanced {text[i:]!r}")
            depth += {"(": 1, ")": -1}.get(text[k], 0)
            k += 1
        out.append((m.group(1), text[m.end():k - 1].strip()))
        i = k
    return out


def nested(text: str):
    """Reads ((a b) c) as [[a, b], c]."""
    tokens = re.findall(r"[()]|[^\s()]+", text)

    def item(pos):
        if tokens[pos] == "(":
            out, pos = [], pos + 1
            while tokens[pos] != ")":
                x, pos = item(pos)
                out.append(x)
            return out, pos + 1
        return tokens[pos], pos + 1
    x, end = item(0)
    if end != len(tokens):
        raise ValueError(f"trailing text in {text!r}")
    return x


class Received:
    """What a hint block demands, read the way the hinting extensions do."""

    def __init__(self, sql: str, backend: str) -> None:
        start = {"pg_hint_plan": "/*+", "pg_lab": "/*=pg_lab=", "duck": "/*=quack_lab="}[backend]
        self.order, self.ops, self.cards, self.parallel, self.settings, self.config, self.result = None, {}, {}, [], {}, {}, []
        self.problems: list[str] = []
        m = re.match(r"\s*" + re.escape(start) + r"(.*?)\*/", sql, re.S)
        self.present = m is not None
        while backend == "duck" and (w := re.match(r"\s*SET \w+ = [^;]*;", sql)):
            sql = sql[w.end():]
        m = re.match(r"\s*" + re.escape(start) + r"(.*?)\*/", sql, re.S)
        self.rest = norm(sql[m.end():] if m else sql)
        if re.search(r"/\*", self.rest):
            self.problems.append(f"more comments in {self.rest!r}")
        if not m:
            return
        known = set().union(*NAMES[backend].values())
        for name, arg in calls(m.group(1)):
            if name in ("Leading", "JoinOrder") and (name == "Leading") == (backend == "pg_hint_plan"):
                if self.order is not None:
                    self.problems.append("several join orders")
                self.order = nested(arg)
            elif name in known:
                w = re.search(r"\(\s*workers\s*=\s*(\d+)\s*\)", arg)
                names = (arg[:w.start()] + arg[w.end():] if w else arg).split()
                if len(set(names)) != len(names) or not names:
                    self.problems.append(f"odd tables in {name}({arg})")
                key = (frozenset(names), "inter" if name in ("Memo", "Material", "Memoize") else "node")
                self.ops.setdefault(key, []).append(name)
                if w:
                    self.parallel.append((frozenset(names), int(w.group(1))))
            elif name in ("Rows", "Card") and (name == "Rows") == (backend == "pg_hint_plan"):
                w = re.fullmatch(r"([^#]*)#(\S+)", arg)
                if not w:
                    self.problems.append(f"odd cardinality {arg!r}")
                    continue
                self.cards.setdefault(frozenset(w.group(1).split()), []).append(float(w.group(2)))
            elif name == "Parallel" and backend == "pg_hint_plan":
                w = re.fullmatch(r"(\S+)\s+(\d+)\s+(hard|soft)", arg)
                if not w:
                    self.problems.append(f"Parallel({arg}) is not valid")
                    continue
                self.parallel.append((frozenset([w.group(1)]), int(w.group(2))))
            elif name == "Set":
                w = re.fullmatch(r"(\w+)\s*(?:=|\s)\s*(.+)", arg) if backend == "pg_hint_plan" else re.fullmatch(r"(\w+)\s*=\s*(.+)", arg)
                if not w:
                    self.problems.append(f"odd setting {arg!r}")
                    continue
                self.settings[w.group(1)] = w.group(2).strip("' ")
            elif name == "Config" and backend == "pg_lab":
                k, _, v = arg.partition("=")
                self.config[k.strip()] = v.strip()
            elif name == "Result" and backend == "pg_lab":
                self.result.append(int(re.fullmatch(r"workers\s*=\s*(\d+)", arg).group(1)))
            else:
                self.problems.append(f"unknown hint {name}({arg})")


def subsets(rng, n, lo=2):
    return sorted(rng.sample(range(n), rng.randrange(lo, n + 1)))


def random_tree(rng, nodes):
    nodes = list(nodes)
    while len(nodes) > 1:
        a, b = (nodes.pop(rng.randrange(len(nodes))) for _ in range(2))
        nodes.append([a, b])
    return nodes[0]


def leaves(t) -> list:
    return [t] if isinstance(t, int) else leaves(t[0]) + leaves(t[1])


def inner_nodes(t):
    return [] if isinstance(t, int) else [sorted(leaves(t))] + inner_nodes(t[0]) + inner_nodes(t[1])


def key(tabs) -> tuple:
    return tuple(sorted(tabs))


# -- operator assignments, built step by step along with a model of them ----------------------------------------------------
def op_steps(rng, n, tree, depth=0):
    out = []
    joins = inner_nodes(tree) if tree is not None and n > 1 else []
    for _ in range(rng.choice([0, 1, 2, 4, 7]) if depth else rng.choice([1, 2, 3, 5, 9])):
        kind = rng.choice(["scan", "scan", "join", "join", "inter", "global", "merge", "clone"])
        if kind == "scan":
            out.append(["scan", rng.randrange(n), rng.choice(list(SCANS)), rng.choice([None, None, None, 1, 2, 4]), rng.choice(["add", "set", "obj"])])
        elif kind == "join" and n > 1:
            tabs = rng.choice(joins) if joins and rng.random() < 0.8 else subsets(rng, n)
            out.append(["join", tabs, rng.choice(list(JOINS)), rng.choice([None, None, None, 1, 2, 3]), rng.choice(["add", "set", "obj", "dir"])])
        elif kind == "inter":
            tabs = [rng.randrange(n)] if rng.random() < 0.5 or not joins else rng.choice(joins)
            out.append(["inter", tabs, rng.choice(list(INTERS))])
        elif kind == "global":
            out.append(["global", rng.choice(list(OPS)), rng.random() < 0.5, rng.random() < 0.4])
        elif kind == "merge" and depth < 1:
            out.append(["merge", op_steps(rng, n, tree, depth + 1), rng.random() < 0.7])
        elif kind == "clone":
            out.append(["clone"])
    return out


def param_steps(rng, n, tree, system, depth=0):
    out = []
    joins = inner_nodes(tree) if tree is not None and n > 1 else []
    for _ in range(rng.choice([0, 1, 2, 4]) if depth else rng.choice([1, 2, 3, 6])):
        kind = rng.choice(["card", "card", "card", "workers", "setting", "mode", "merge", "drop"] if system == "pg" or rng.random() < 0.25 else ["card", "card", "setting", "merge"])
        tabs = rng.choice(joins) if joins and rng.random() < 0.6 else subsets(rng, n, 1)
        if kind == "card":
            out.append(["card", tabs, rng.choice(CARDS)])
        elif kind == "workers":
            out.append(["workers", tabs, rng.choice([1, 2, 3, 5])])
        elif kind == "setting":
            out.append(["setting", *rng.choice(PG_SETTINGS if system == "pg" else DUCK_SETTINGS), rng.random() < 0.5])
        elif kind == "mode":
            out.append(["mode", rng.choice(["sequential", "parallel"])])
        elif kind == "merge" and depth < 1:
            out.append(["merge", param_steps(rng, n, tree, system, depth + 1), rng.random() < 0.7])
        elif kind == "drop" and rng.random() < 0.3:
            out.append(["drop"])
    return out


class OpModel:
    def __init__(self):
        self.scans, self.joins, self.inters, self.globals = {}, {}, {}, {}

    def merged(self, o):
        m = OpModel()
        for f in ("scans", "joins", "inters", "globals"):
            setattr(m, f, {**getattr(self, f), **getattr(o, f)})
        return m


def build_ops(steps, T):
    a, m = pb.PhysicalOperatorAssignment(), OpModel()
    for s in steps:
        match s[0]:
            case "scan":
                _, i, op, w, via = s
                w = w if via == "obj" else None
                if via == "obj":
                    a.add(ScanOperatorAssignment(SCANS[op], T[i], math.nan if w is None else w))
                elif via == "add":
                    a.add(SCANS[op], T[i])
                else:
                    a.set_scan_operator(SCANS[op], T[i])
                m.scans[i] = (op, w)
            case "join":
                _, tabs, op, w, via = s
                w = w if via in ("obj", "dir") else None
                tt = [T[i] for i in tabs]
                if via == "obj":
                    a.add(JoinOperatorAssignment(JOINS[op], tt, parallel_workers=math.nan if w is None else w))
                elif via == "dir":
                    a.set_join_operator(DirectionalJoinOperatorAssignment(JOINS[op], tt[:1], tt[1:], parallel_workers=math.nan if w is None else w))
                elif via == "add":
                    a.add(JOINS[op], tt)
                else:
                    a.set_join_operator(JOINS[op], tt)
                m.joins[key(tabs)] = (op, w)
            case "inter":
                a.add(INTERS[s[2]], [T[i] for i in s[1]])
                m.inters[key(s[1])] = s[2]
            case "global":
                _, op, on, over = s
                if over:
                    a.set_operator_enabled_globally(OPS[op], on, overwrite_fine_grained_selection=True)
                else:
                    a.set(OPS[op], on)
                m.globals[op] = on
                if over and not on:
                    m.scans = {k: v for k, v in m.scans.items() if v[0] != op}
                    m.joins = {k: v for k, v in m.joins.items() if v[0] != op}
                    m.inters = {k: v for k, v in m.inters.items() if v != op}
            case "merge":
                b, mb = build_ops(s[1], T)
                a, m = (a.merge_with(b), m.merged(mb)) if s[2] else (b.merge_with(a), mb.merged(m))
            case "clone":
                old, a = a, a.clone()
                # changes of the original must not reach the copy
                old.add(pb.ScanOperator.BitmapScan, pb.TableReference("nowhere"))
                old.set(pb.JoinOperator.HashJoin, False)
                old.add(pb.IntermediateOperator.Sort, [pb.TableReference("nowhere")])
    return a, m


class ParamModel:
    def __init__(self):
        self.cards, self.workers, self.settings, self.mode = {}, {}, {}, None

    def merged(self, o):
        m = ParamModel()
        for f in ("cards", "workers", "settings"):
            setattr(m, f, {**getattr(self, f), **getattr(o, f)})
        m.mode = o.mode or self.mode
        return m


def build_params(steps, T):
    p, m = pb.PlanParameterization(), ParamModel()
    for s in steps:
        match s[0]:
            case "card":
                v = float(s[2]) if isinstance(s[2], str) else s[2]
                p.add_cardinality([T[i] for i in s[1]], pb.Cardinality(v) if s[1][0] % 2 else v)
                m.cards[key(s[1])] = v if math.isnan(v) or math.isinf(v) else round(v)
            case "workers":
                p.set_workers([T[i] for i in s[1]], s[2])
                m.workers[key(s[1])] = s[2]
            case "setting":
                if s[3]:
                    p.set_system_settings(**{s[1]: s[2]})
                else:
                    p.set_system_settings(s[1], s[2])
                m.settings[s[1]] = s[2]
            case "mode":
                p.execution_mode = s[1]
                m.mode = s[1]
            case "merge":
                q, mq = build_params(s[1], T)
                p, m = (p.merge_with(q), m.merged(mq)) if s[2] else (q.merge_with(p), mq.merged(m))
            case "drop":
                p = p.drop_workers()
                m.workers = {}
    return p, m


# -- plans -------------------------------------------------------------------------------------------------------------------
def random_plan(rng, tree, system, *, gather=True):
    """[kind, details, children]; the node counts of the auxiliary operators are arbitrary, they are no result of the join."""
    def cards():
        if system == "duck":
            return [rng.choice([3, 40, 17, 0, "nan"]), "nan"]
        return [rng.choice([3, 40, 17.6, 0, "nan", 10**6]), rng.choice(["nan", "nan", 0, 5, 23])]

    def wrap(node, gather, others):
        # a node has one intermediate operator at most, and Gathers are not nested
        aux = []
        while rng.random() < 0.3:
            kind = rng.choice(["Hash", "Gather", "mat", "sort", "memo", "Other", "Hash"] if system == "pg" or rng.random() < 0.15 else ["Hash", "Other"])
            if kind == "Gather" and (not gather or workers(node)):
                continue
            if kind in INTERS and any(a in INTERS for a in aux):
                continue
            aux.append(kind)
            node = {"aux": kind, "cards": cards(), "workers": rng.choice([2, 3]) if kind == "Gather" else 0, "key": rng.choice(others) if others and kind == "memo" else None, "in": node}
        return node

    def workers(node):
        return any(x.get("workers") for x in iter_plan(node))

    def walk(t, others):
        if isinstance(t, int):
            op = rng.choice(list(SCANS) if system == "pg" or rng.random() < 0.1 else ["seq", "idx"])
            node = {"scan": t, "op": op, "cards": cards(), "subplan": rng.random() < 0.15, "filter": rng.random() < 0.4, "lookup": rng.choice(others) if others and rng.random() < 0.2 else None,
                    "bits": rng.choice([0, 1, 2]) if op == "bitmap" else 0}
        else:
            a, b = t
            node = {"join": [walk(a, leaves(b)), walk(b, leaves(a))], "op": rng.choice(list(JOINS)), "cards": cards(), "subplan": rng.random() < 0.1, "workers": 0}
            if gather and system == "pg" and rng.random() < 0.08 and not workers(node):
                node["workers"] = 2
        return wrap(node, gather, others)

    node = walk(tree, [])
    if rng.random() < 0.5:
        node = {"aux": "Aggregate", "cards": [1, "nan"], "workers": rng.choice([0, 0, 2]) if gather and system == "pg" and rng.random() < 0.3 and not workers(node) else 0, "key": None, "in": node}
    return node


def card(v):
    return pb.Cardinality(float(v) if isinstance(v, str) else v)


def make_plan(d, T, query):
    est, act = (card(v) for v in d["cards"])
    common = {"estimated_cardinality": est, "actual_cardinality": act, "estimated_cost": 10.0}
    sub = {}
    if d.get("subplan"):
        # e.g. the plan of a scalar subquery over some other table
        other = pb.TableReference("u", "elsewhere")
        sub = {"subplan_root": pb.QueryPlan("Aggregate", children=[pb.QueryPlan(pb.ScanOperator.SequentialScan, base_table=other, estimated_cardinality=pb.Cardinality(3))])}
    if "scan" in d:
        t = T[d["scan"]]
        f = query.predicates().filters_for(t) if d["filter"] else None
        kids = [pb.QueryPlan("Bitmap Index Scan", index=f"i{j}", estimated_cardinality=pb.Cardinality(99 + j)) for j in range(d["bits"])]
        if len(kids) > 1:
            kids = [pb.QueryPlan("BitmapAnd", children=kids, estimated_cardinality=pb.Cardinality(77))]
        look = qal.ColumnExpression(pb.ColumnReference("id", T[d["lookup"]])) if d["lookup"] is not None else None
        return pb.QueryPlan("Some Scan", operator=SCANS[d["op"]], base_table=t, children=kids, filter_predicate=f, lookup_key=look, **common, **sub)
    if "join" in d:
        kids = [make_plan(x, T, query) for x in d["join"]]
        return pb.QueryPlan("Some Join", operator=JOINS[d["op"]], children=kids, parallel_workers=d["workers"] or None, **common, **sub)
    kid = make_plan(d["in"], T, query)
    look = qal.ColumnExpression(pb.ColumnReference("id", T[d["key"]])) if d["key"] is not None else None
    return pb.QueryPlan(d["aux"], operator=INTERS.get(d["aux"]), children=[kid], parallel_workers=d["workers"] or None, lookup_key=look, **common)


def plan_leaves(d):
    return [d["scan"]] if "scan" in d else plan_leaves(d["in"]) if "aux" in d else plan_leaves(d["join"][0]) + plan_leaves(d["join"][1])


def plan_tree(d):
    return d["scan"] if "scan" in d else plan_tree(d["in"]) if "aux" in d else [plan_tree(x) for x in d["join"]]


class Wanted:
    """The decisions, as the oracle understands them."""

    def __init__(self):
        self.order, self.ops, self.inters, self.globals, self.cards, self.settings, self.mode = None, {}, [], {}, {}, {}, None
        self.workers = []      # [(tables, workers, on an operator)]: requests, only one of which can be followed
        self.top = []          # workers of the upper part of the plan
        self.single = []       # requests for one worker
        self.param_workers = False   # workers that are not attached to an operator

    @staticmethod
    def of_parts(tree, om: OpModel, pm: ParamModel):
        w = Wanted()
        w.order = tree
        w.ops = {**{(i,): op for i, (op, _) in om.scans.items()}, **{k: op for k, (op, _) in om.joins.items()}}
        w.inters = sorted(om.inters.items())
        w.globals = om.globals
        w.cards, w.settings, w.mode = pm.cards, pm.settings, pm.mode
        own = {**{(i,): n for i, (_, n) in om.scans.items()}, **{k: n for k, (_, n) in om.joins.items()}}
        w.workers = [(k, n) for k, n in own.items() if n is not None and n > 1]
        w.workers += [(k, n) for k, n in pm.workers.items() if n != 1 and own.get(k) is None]
        w.param_workers = bool(pm.workers)
        return w

    @staticmethod
    def of_plan(d, w=None, upper=True):
        w = w or Wanted()
        if w.order is None:
            w.order = plan_tree(d)
        k = key(plan_leaves(d))
        if "aux" in d:
            if d["aux"] in INTERS:
                w.inters.append((k, d["aux"]))
            if d["workers"]:
                w.workers.append((k, d["workers"]))
                if upper:
                    w.top.append(d["workers"])
            Wanted.of_plan(d["in"], w, upper)
            return w
        w.ops[k] = d["op"]
        est, act = (float(x) for x in d["cards"])
        c = act if not math.isnan(act) else est
        w.cards[k] = c if math.isnan(c) else round(c)
        if d.get("workers"):
            w.workers.append((k, d["workers"]))
        for x in d.get("join", []):
            Wanted.of_plan(x, w, False)
        return w


class Scripted(pb.JoinOrderOptimization):
    def __init__(self, value):
        self.value = value
        super().__init__()

    def optimize_join_order(self, query):
        return self.value

    def describe(self):
        return {"name": "scripted"}


class ScriptedOps(pb.PhysicalOperatorSelection):
    def __init__(self, value):
        self.value = value
        super().__init__()

    def select_physical_operators(self, query, join_order):
        return self.value

    def describe(self):
        return {"name": "scripted"}


class ScriptedParams(pb.ParameterGeneration):
    def __init__(self, value):
        self.value = value
        super().__init__()

    def generate_plan_parameters(self, query, join_order, operator_assignment):
        return self.value

    def describe(self):
        return {"name": "scripted"}


class ScriptedPlan(pb.CompleteOptimizationAlgorithm):
    def __init__(self, value):
        self.value = value
        super().__init__()

    def optimize_query(self, query):
        return self.value

    def describe(self):
        return {"name": "scripted"}


class Hinting(Prop):
    id = "S33"
    native_engine = True
    quick_runs = 2500
    thorough_runs = 60000
    rule = "a query with decisions reached the server"
    state_measure = "system and backend, kind of the decisions, way of the execution, fault and kinds of the hints"
    real = REAL + ["postbound._hints", "postbound._qep", "postbound._pipelines", "the hint services of PostgreSQL and DuckDB", "postbound.opt (assembly of plans)", "the DuckDB engine itself (quacklab)"]
    stub = STUB + ["pg_hint_plan and pg_lab (replaced by an independent reader of the hints)", "the planner of the simulated PostgreSQL server", "duration and failure of DuckDB statements"]
    assumptions = ASSUMPTIONS
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        system = rng.choice(["pg", "pg", "pg", "duck"])
        ops = []
        for _ in range(rng.randrange(1, 4)):
            while True:
                q = sqlgen.query(rng, spj=True, n_max=6)
                if "(" not in " ".join(q["where"]).replace("COUNT(", "") or rng.random() < 0.1:
                    break
            n = len(q["tabs"])
            tree = random_tree(rng, range(n))
            kind = rng.choice(["parts", "parts", "parts", "plan", "plan", "assembled", "exploded", "updated"])
            op = {"q": q, "kind": kind, "tree": tree, "how": rng.choice(HOWS), "geqo": rng.choice([None, None, n, n + 1, n - 1, 2]), "fault": None, "slow": False}
            if kind == "parts":
                op["use"] = [rng.random() < 0.75 for _ in range(3)]
                op["phys"] = op_steps(rng, n, tree)
                op["params"] = param_steps(rng, n, tree, system)
            elif kind == "plan":
                op["plan"] = random_plan(rng, tree, system)
            else:
                op["plan"] = random_plan(rng, tree, system, gather=False)
                op["phys"] = op_steps(rng, n, tree)
                op["params"] = param_steps(rng, n, tree, system)
            if rng.random() < 0.3:
                op["fault"] = {"at": rng.choice([1, 1, 2, 3, rng.randrange(1, 8)]), "fail": rng.choice(["internal", "lose", "undefined_column"] if system == "pg" else ["oom", "io", "internal"])}
            elif rng.random() < 0.1 and system == "pg":
                op["slow"] = True
            ops.append(op)
        return {"system": system, "backend": rng.choice(["pg_hint_plan", "pg_lab"]) if system == "pg" else "duck", "ops": ops, "data": rng.randrange(50)}

    def shrink(self, sc):
        for i, op in enumerate(sc["ops"]):
            def put(**kw):
                return {**sc, "ops": sc["ops"][:i] + [{**op, **kw}] + sc["ops"][i + 1:]}
            for field in ("fault", "geqo"):
                if op[field]:
                    yield put(**{field: None})
            if op["slow"]:
                yield put(slow=False)
            if op["how"] != "hinted":
                yield put(how="hinted")
            for field in ("phys", "params"):
                for j in range(len(op.get(field, []))):
                    yield put(**{field: op[field][:j] + op[field][j + 1:]})
            for j in range(len(op["q"]["where"])):
                yield put(q={**op["q"], "where": op["q"]["where"][:j] + op["q"]["where"][j + 1:]})
            if "use" in op:
                for j in range(3):
                    if op["use"][j]:
                        yield put(use=[u and x != j for x, u in enumerate(op["use"])])
            if "plan" in op:
                for p in smaller_plans(op["plan"]):
                    yield put(plan=p)

    def run(self, ctx, sc):
        duck = sc["system"] == "duck"
        if duck:
            host, path = open_db(ctx, sc, script=dataset(sc["data"]).replace("ON DELETE CASCADE", ""))
            db = pb.duckdb.connect(path, refresh=True)
        else:
            host = make_server(ctx, sc)
            host.extra_show = {"pg_hint_plan.enable_hint": "on"} if sc["backend"] == "pg_hint_plan" else {"enable_pglab": "on"}
            db = pb.postgres.connect(connect_string="dbname=simdb", refresh=True, cache_enabled=False)
        now = {"n": 0, "at": None, "fail": None, "fired": None, "dur": None, "dead": False}

        def on_statement(_con, stmt):
            now["n"] += 1
            if now["at"] == now["n"]:
                now["fired"] = stmt.sql
                return {"fail": now["fail"]}
            if now["dur"] and "/*" in stmt.sql:
                return {"dur": now["dur"]}
            return {}

        host.on_statement = on_statement
        for i, op in enumerate(sc["ops"]):
            self.op(ctx, sc, i, op, host, db, now)
            if now["dead"]:
                break
        db.close()

    def op(self, ctx, sc, i, op, host, db, now):
        duck = sc["system"] == "duck"
        sql = sqlgen.render(op["q"])
        kind, query = call(parse, sql)
        if kind != "ok":
            ctx.probe("not parsed")
            return
        T = [pb.TableReference(t[0], t[1]) for t in op["q"]["tabs"]]
        if op["geqo"] and not duck:
            db.cursor().execute(f"SET geqo_threshold TO {max(2, op['geqo'])}")
        decisions, want = self.decide(ctx, sc, op, T, query)
        if decisions is None:
            return
        if not duck:
            if call(db.execute_query, query, cache_enabled=False)[0] != "ok":
                ctx.probe("not executable")
                return
            plain = norm(host.log[-1].sql)
        else:
            plain = norm(db.hinting().format_query(query))
        unsupported = self.unsupported(sc, op, want)
        shown = {k: str(v) for k, v in decisions.items()}
        workers = [(str(s), s.parallel_workers) for s in decisions.get("physical_operators") or []]
        for attempt in ("first", "retry"):
            fault = op["fault"] if attempt == "first" else None
            slow = op["slow"] and attempt == "first" and op["how"] == "timeout"
            now.update(n=0, at=fault and fault["at"], fail=fault and fault["fail"], fired=None, dur=5 * 10**9 if slow else None)
            mark = len(host.log)
            before = None if duck else self.settings(host)
            threshold = None if duck else int(before["geqo_threshold"])
            what = f"op {i} ({attempt}, {sc['backend']}, {op['kind']} by {op['how']}) {sql!r}: "
            with warnings.catch_warnings(record=True) as seen:
                warnings.simplefilter("always")
                k, value = call(self.execute, op, db, query, decisions, duck, 1.0 if slow else 500.0)
            now["at"] = now["dur"] = None
            log = host.log[mark:]
            if duck and k == "error" and "FATAL" in str(value):
                now["dead"] = True   # hints can lead the engine into an internal error, after which it does nothing any more
                ctx.probe("engine gave up")
            ctx.check({k: str(v) for k, v in decisions.items()} == shown and workers == [(str(s), s.parallel_workers) for s in decisions.get("physical_operators") or []],
                      f"{what}the decisions became {decisions}, they had been {shown}", "decisions altered")
            mine = [s for s in log if "SELECT" in s.sql and norm(re.sub(r"/\*.*?\*/", "", s.sql, flags=re.S)).endswith(plain)]
            ctx.state(sc["backend"], op["kind"], op["how"], fault and fault["fail"], bool(now["fired"]), k, len(T), bool(want.ops), bool(want.cards), len(want.workers), bool(want.settings), want.mode)
            if now["fired"]:
                ctx.k.event(f"failed {now['fired'][:80]}")
                if k == "error":
                    ctx.check(isinstance(value, (pb.db.DatabaseServerError, pb.db.DatabaseUserError, psycopg.Error, simduck.real.Error, validation.UnsupportedQueryError, pb.db.UnsupportedDatabaseFeatureError)),
                              f"{what}{short(value)} after {now['fired']!r} failed", f"failure not reported {type(value).__name__}")
                if not duck and db._connection.closed:
                    db.reset_connection()
                    # the settings of the session are not transferred
                    if op["geqo"]:
                        db.cursor().execute(f"SET geqo_threshold TO {max(2, op['geqo'])}")
                    before = None
            elif unsupported:
                ctx.check(k == "error" and isinstance(value, pb.db.UnsupportedDatabaseFeatureError), f"{what}{unsupported} is not supported, but got {short(value)}", "unsupported hint accepted")
                ctx.probe("unsupported")
                return
            elif slow:
                ctx.check(k == "timeout" or k == "error" and isinstance(value, TimeoutError), f"{what}{short(value)} instead of a timeout", "no timeout")
            else:
                # the engine cannot follow arbitrary hints, and it does not profile some trivial queries
                harmless = duck and k == "error" and (isinstance(value, simduck.real.Error) or op["how"] == "analyze" and isinstance(value, KeyError))
                ctx.check(k == "ok" or harmless, f"{what}{short(value)}", f"failed with {type(value).__name__}")
                ctx.check(bool(mine) or harmless, f"{what}never executed {plain!r}, but {[s.sql for s in log]}, {short(value)}", "not executed")
            for s in mine:
                ctx.nontrivial = True
                self.judge(ctx, sc, op, want, T, plain, s, log, what, seen, threshold)
            if not duck and before is not None:
                after = self.settings(host)
                ctx.check(after == before, f"{what}session settings changed: {set(after.items()) ^ set(before.items())}", "settings changed")
            if not now["fired"] and not slow:
                return

    def decide(self, ctx, sc, op, T, query):
        """The decisions as objects of the library, and what they mean."""
        def jt(t):
            return pb.JoinTree.scan(T[t]) if isinstance(t, int) else pb.JoinTree.join(jt(t[0]), jt(t[1]))

        tree = op["tree"]
        if op["kind"] == "parts":
            a, om = build_ops(op["phys"], T)
            p, pm = build_params(op["params"], T)
            u = op["use"]
            d = {}
            if u[0]:
                d["join_order"] = jt(tree)
            if u[1]:
                d["physical_operators"] = a
            if u[2]:
                d["plan_parameters"] = p
            return d, Wanted.of_parts(tree if u[0] else None, om if u[1] else OpModel(), pm if u[2] else ParamModel())
        if op["kind"] == "plan":
            return {"plan": make_plan(op["plan"], T, query)}, Wanted.of_plan(op["plan"])
        if op["kind"] == "exploded":
            plan = make_plan(op["plan"], T, query)
            actual = sc["system"] == "pg" and len(op["phys"]) % 2 == 1
            order, a, p = opt.explode_query_plan(plan, card_source="actual" if actual else "estimated")
            w = Wanted.of_plan(op["plan"])
            w.cards = {}
            for d in iter_plan(op["plan"]):
                if "aux" not in d:
                    c = float(d["cards"][1 if actual else 0])
                    w.cards[key(plan_leaves(d))] = c if math.isnan(c) else round(c)
            for x in order.iternodes():
                k = key(T.index(t) for t in x.tables())
                ctx.check(str(float(x.annotation)) == str(float(w.cards[k])), f"exploding {plan} annotates {k} with {x.annotation} instead of {w.cards[k]}", "wrong annotation")
            return {"join_order": order, "physical_operators": a, "plan_parameters": p}, w
        a, om = build_ops(op["phys"], T)
        p, pm = build_params(op["params"], T)
        nodes = [(i,) for i in range(len(T))] + [key(x) for x in inner_nodes(tree)]
        if op["kind"] == "updated":
            # a complete plan, some parts of which are replaced
            plan = make_plan(op["plan"], T, query)
            new = opt.update_plan(plan, operators=a, params=p)
            w = Wanted.of_plan(op["plan"])
            own = Wanted.of_parts(None, om, pm)
            for k in nodes:
                w.ops[k] = own.ops.get(k, w.ops[k])
            w.inters, w.workers, w.top = [], [(k, n) for k, n in pm.workers.items() if k in nodes and n != 1], []
            w.single = [(k, n) for k, n in pm.workers.items() if k in nodes and n == 1]
            for d in iter_plan(op["plan"]):
                if "aux" not in d:
                    k = key(plan_leaves(d))
                    est, act = float(d["cards"][0]), float(d["cards"][1])
                    est = pm.cards.get(k, est)
                    c = act if not math.isnan(act) else est
                    w.cards[k] = c if math.isnan(c) or math.isinf(c) else round(c)
            return {"plan": new}, w
        # assembled from a join order, operators and parameters
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            plan = opt.to_query_plan(jt(tree), query=query if len(op["phys"]) % 2 else None, physical_ops=a, plan_params=p, scan_op=pb.ScanOperator.SequentialScan, join_op=pb.JoinOperator.HashJoin)
        own = Wanted.of_parts(tree, om, pm)
        if not a:
            pm.workers = {}   # documented: default operators are not parallelized
        w = Wanted()
        w.order = tree
        w.ops = {k: own.ops.get(k, "seq" if len(k) == 1 else "hash") for k in nodes}
        w.inters = [(k, x) for k, x in om.inters.items() if k in nodes and x == "mat"]
        w.cards = {k: v for k, v in pm.cards.items() if k in nodes and not math.isinf(v)}
        w.workers = [(k, n) for k, n in pm.workers.items() if k in nodes and n != 1]
        w.single = [(k, n) for k, n in pm.workers.items() if k in nodes and n == 1]
        return {"plan": plan}, w

    def unsupported(self, sc, op, want):
        if sc["system"] != "duck":
            return None
        if bad := [op for op in [*want.ops.values(), *want.globals] if op not in NAMES["duck"]]:
            return f"operator {bad[0]}"
        if want.inters:
            return "intermediate operator"
        if want.param_workers or op["kind"] != "parts" and (want.workers or want.single):
            return "parallel workers"
        return None

    def execute(self, op, db, query, d, duck, timeout):
        how = op["how"]
        if how == "kwargs" and duck:
            how = "explain"
        if how == "kwargs":
            return db.execute_query(query, cache_enabled=False, **d)
        if how == "explain":
            names = {"physical_operators": "physical_ops", "plan_parameters": "plan_params"}
            return db.explain(query, **{names.get(k, k): v for k, v in d.items()})
        if how == "pipeline":
            if "plan" in d:
                p = pb.IntegratedOptimizationPipeline(db).use(ScriptedPlan(d["plan"])).build()
            else:
                p = pb.MultiStageOptimizationPipeline(db)
                for k, cls in (("join_order", Scripted), ("physical_operators", ScriptedOps), ("plan_parameters", ScriptedParams)):
                    if k in d:
                        p.use(cls(d[k]))
                p = p.build()
            return db.execute_query(p.optimize_query(query), cache_enabled=False)
        hinted = db.hinting().generate_hints(query, **d)
        if how == "timeout":
            return db.execute_query(hinted, timeout=timeout, cache_enabled=False)
        if how == "analyze":
            return db.optimizer().analyze_plan(hinted)
        return db.execute_query(hinted, cache_enabled=False)

    @staticmethod
    def settings(server) -> dict:
        s = [s for s in server.alive_sessions() if s.app == "PostBOUND"]
        return dict(s[-1].settings) if s else {}

    def judge(self, ctx, sc, op, want, T, plain, stmt, log, what, seen, threshold):
        backend = sc["backend"]
        duck = backend == "duck"
        ident = [t.alias or t.full_name for t in T]
        try:
            r = Received(stmt.sql, backend)
        except (ValueError, IndexError, AttributeError) as e:
            ctx.violate(f"{what}the hints of {stmt.sql!r} cannot be read: {e}", "unreadable hints")
        text = f"{what}{stmt.sql!r}: "

        def fs(k):
            return frozenset(ident[i] for i in k)

        def check(cond, msg, sig):
            ctx.check(cond, text + msg, sig)

        check(not r.problems, f"{r.problems}", "malformed hints")
        check(r.rest.endswith(plain) and re.fullmatch(r"(EXPLAIN (\([A-Z, ]*\)|[A-Z ]*))?", r.rest[:len(r.rest) - len(plain)].strip()) is not None, f"the query is {r.rest!r} instead of {plain!r}", "query altered")
        warned = [str(w.message) for w in seen]

        # -- join order
        def names(t):
            return ident[t] if isinstance(t, int) else [names(t[0]), names(t[1])]
        order = names(want.order) if want.order is not None else None
        if order is not None and (isinstance(order, str) or duck and len(T) < 3):
            check(r.order is None or r.order == order or r.order == [order], f"join order {r.order}", "join order")
        else:
            # JoinOrder(...) and Leading(...) contain a single nested pair
            check(r.order == order, f"join order {r.order} instead of {order}", "join order")

        # -- operators
        expected = {(fs(k), "node"): op for k, op in want.ops.items()}
        for k, op_ in want.inters:
            if op_ in NAMES[backend]:
                expected[(fs(k), "inter")] = op_
            else:
                check(any(INTERS[op_].name in w or INTERS[op_].value in w or "perator" in w for w in warned) or "plan" in op and backend == "pg_lab", f"no warning about {op_}: {warned}", "no warning")
        for k, op_ in expected.items():
            got = r.ops.get(k, [])
            names_ = NAMES[backend][op_]
            check(len(got) == 1 and got[0] in names_, f"{sorted(k[0])} should use {sorted(names_)}, but got {got}", "wrong operator" if k[1] == "node" else "wrong intermediate operator")
        extra = {(tuple(sorted(k)), x): v for (k, x), v in r.ops.items() if (k, x) not in expected}
        check(not extra, f"operators without a decision: {extra}", "surplus operator")

        # -- cardinalities
        cards = {fs(k): v for k, v in want.cards.items() if not math.isnan(v)}
        for k, v in cards.items():
            got = r.cards.get(k, [])
            if math.isinf(v):
                check(not got, f"infinite cardinality of {sorted(k)} became {got}", "wrong cardinality")
                check(duck or op["kind"] in PLANS or any("infinite" in w for w in warned), f"no warning about the infinite cardinality: {warned}", "no warning")
            elif backend == "pg_hint_plan" and len(k) == 1:
                check(got in ([], [v]), f"cardinality of {sorted(k)} is {got} instead of {v}", "wrong cardinality")
            else:
                check(got == [v], f"cardinality of {sorted(k)} is {got} instead of {v}", "wrong cardinality")
        extra = {tuple(sorted(k)): v for k, v in r.cards.items() if k not in cards}
        check(not extra, f"cardinalities without a decision: {extra}", "surplus cardinality")

        # -- settings
        hinted = dict(r.settings)
        for op_, on in want.globals.items():
            name = SETTINGS[op_]
            check(name in hinted and truthy(hinted[name]) == on, f"{name} should be {on}, but is {hinted.get(name)}", "wrong operator setting")
        for name, v in want.settings.items():
            if duck:
                got = [m.group(1).strip("'") for s in log if s.con is not None for m in [re.search(rf"SET {name} = ([^;]+);", s.sql)] if m]
                check(bool(got) and got[-1] == str(v), f"{name} should be {v}, but is {got}", "wrong setting")
            else:
                got = hinted.get(name, stmt.settings.get(name))
                check(got in (str(v), kb(v)), f"{name} should be {v}, but is {got}", "wrong setting")
        allowed = {SETTINGS[x] for x in want.globals} | set(want.settings)
        if backend == "pg_hint_plan":
            allowed.add("geqo")
            geqo = hinted.get("geqo", stmt.settings["geqo"])
            check(not r.present or geqo == "off" or len(T) < threshold, f"GEQO remains active for {len(T)} tables with a threshold of {threshold}", "geqo")
        check(set(hinted) <= allowed, f"settings {set(hinted) - allowed} without a decision", "surplus setting")

        # -- parallel workers and modes
        if backend == "pg_lab" and r.present:
            check(r.config.get("plan_mode") == ("full" if op["kind"] in PLANS else "anchored"), f"plan mode {r.config.get('plan_mode')}", "plan mode")
        check(r.config.get("exec_mode") == (want.mode if backend == "pg_lab" else None), f"execution mode {r.config.get('exec_mode')} instead of {want.mode}", "execution mode")
        check(want.mode is None or backend != "pg_hint_plan" or any("mode" in w for w in warned), f"no warning about the execution mode: {warned}", "no warning")
        if duck:
            return
        self.parallel(check, op, want, backend, r, fs, warned)

    def parallel(self, check, op, want, backend, r, fs, warned):
        requests = want.workers
        if backend == "pg_lab" and op["kind"] in ("parts", "exploded"):
            usable = [(k, n) for k, n in requests if k in want.ops]
            check(len(usable) == len(requests) or any("known operators" in w for w in warned), f"no warning about ignored workers: {warned}", "no warning")
            requests = usable
        # a single worker in total may be hinted as such or not at all
        single = {fs(k) for k, n in want.single}
        given = list(r.parallel)
        if given and all(n == 1 and (k in single or backend == "pg_hint_plan" and any(k <= x for x in single)) for k, n in given):
            return
        options = []
        for k, n in requests:
            if backend == "pg_hint_plan":
                options.append({frozenset([x]): n for x in fs(k)})
            else:
                options.append({fs(k): n})
        if r.result:
            check(len(r.result) == 1 and not given and r.result[0] in want.top, f"workers {r.result} of the upper plan instead of {want.top}", "wrong workers")
            given = None
        if given is not None:
            got = dict(given)
            check(len(got) == len(given), f"several workers for one table {given}", "wrong workers")
            if not options:
                check(not got, f"workers {got} without a decision", "surplus workers")
            else:
                fine = any(set(o) == set(got) and all(got[x] in (o[x], o[x] - 1) for x in o) for o in options)
                check(fine, f"workers {[(sorted(k), n) for k, n in given]} instead of one of {options}", "wrong workers")
        check(len(requests) < 2 or any("parallel" in w.lower() for w in warned), f"no warning about further workers: {warned}", "no warning")


def iter_plan(d):
    yield d
    for x in d.get("join", []) + ([d["in"]] if "in" in d else []):
        yield from iter_plan(x)


def smaller_plans(d):
    if "aux" in d:
        yield d["in"]
        for x in smaller_plans(d["in"]):
            yield {**d, "in": x}
        return
    for f, v in (("subplan", False), ("filter", False), ("lookup", None), ("bits", 0), ("workers", 0)):
        if d.get(f):
            yield {**d, f: v}
    for j, x in enumerate(d.get("join", [])):
        for y in smaller_plans(x):
            yield {**d, "join": d["join"][:j] + [y] + d["join"][j + 1:]}


PROPS = {"S33": Hinting()}
