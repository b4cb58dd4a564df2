"""S18: random (and enumerated) join orders, operator assignments and plans."""
from __future__ import annotations

import itertools

from dst import boot
from dst.kernel import Violation

from . import Prop
from .common import call, short

import postbound as pb
from postbound import JoinOperator, ScanOperator
from postbound.opt import enumeration, randomized

MAX_CHOICES = 4000


def make_query(sc) -> tuple:
    """The query, its tables (identifiers) and its join graph as {frozenset({a, b})}."""
    names = [f"t{i}" for i in range(sc["n"])]
    refs = []
    for i, name in enumerate(names):
        base = f"base{sc['base'][i]}"
        refs.append(f"{base} AS {name}")
    edges = {}
    preds = []
    for kind, a, b in sc["edges"]:
        ta, tb = names[a], names[b]
        if kind == "eq":
            preds.append(f"{ta}.x = {tb}.y")
        elif kind == "lt":
            preds.append(f"{ta}.x < {tb}.x")
        elif kind == "or":
            preds.append(f"({ta}.x = {tb}.x OR {ta}.z = {tb}.y)")
        else:
            preds.append(f"{ta}.x + 1 = {tb}.y")
        edges[frozenset((ta, tb))] = True
    for i in sc["filters"]:
        preds.append(f"{names[i]}.f = {i}")
    where = f" WHERE {' AND '.join(preds)}" if preds else ""
    if sc["form"] == "explicit":
        text = f"SELECT * FROM {refs[0]} " + " ".join(f"JOIN {r} ON {names[i + 1]}.id = {names[sc['tree'][i]]}.id" for i, r in enumerate(refs[1:]))
        for i in range(sc["n"] - 1):
            edges[frozenset((names[i + 1], names[sc["tree"][i]]))] = True
    else:
        text = "SELECT * FROM " + ", ".join(refs)
    return text + where, names, set(edges)


def connected(part_a, part_b, edges) -> bool:
    return any(frozenset((a, b)) in edges for a in part_a for b in part_b)


def is_connected(names, edges) -> bool:
    seen, todo = {names[0]}, [names[0]]
    while todo:
        a = todo.pop()
        for b in names:
            if b not in seen and frozenset((a, b)) in edges:
                seen.add(b)
                todo.append(b)
    return len(seen) == len(names)


def shape_of(tree):
    """Nested tuples of table aliases, by outer and inner child."""
    return tree.base_table.alias if tree.is_scan() else (shape_of(tree.outer_child), shape_of(tree.inner_child))


def plan_shape(plan):
    if not plan.children:
        return plan.base_table.alias if plan.base_table else None
    if len(plan.children) == 1:
        return plan_shape(plan.children[0])
    return tuple(plan_shape(c) for c in plan.children)


def leaves(shape):
    return [shape] if not isinstance(shape, tuple) else [x for part in shape for x in leaves(part)]


def all_orders(names, edges, structure) -> set:
    """Reference enumeration of every join order without cross products."""
    def trees(tables):
        if len(tables) == 1:
            yield tables[0]
            return
        for r in range(1, len(tables)):
            for left in itertools.combinations(tables, r):
                right = tuple(t for t in tables if t not in left)
                if structure == "left-deep" and len(right) > 1 or structure == "right-deep" and len(left) > 1:
                    continue
                if connected(left, right, edges):
                    for a in trees(left):
                        for b in trees(right):
                            yield (a, b)
    return set(trees(tuple(names)))


def linear_orders(names, edges, prefix=()):
    if len(prefix) == len(names):
        yield prefix
    for t in names:
        if t not in prefix and (not prefix or connected(prefix, (t,), edges)):
            yield from linear_orders(names, edges, (*prefix, t))


class StubHints:
    def __init__(self, supported) -> None:
        self.supported = supported

    def supports_hint(self, hint) -> bool:
        return hint in self.supported


class StubDB:
    def __init__(self, supported) -> None:
        self.h = StubHints(supported)

    def hinting(self):
        return self.h


class S18(Prop):
    id = "S18"
    quick_runs = 2500
    thorough_runs = 100000
    state_measure = "distinct (mode, join graph class, tree structure, configuration) combinations and drawn shapes"
    rule = ("A run builds a query with a random join graph, creates one generator, optimizer stage or enumerator per step (several may be "
            "drawn from alternately), and checks every drawn object against the join graph it was generated from. All of Python's random "
            "numbers come from the run's chooser, extreme ones are frequent. Non-trivial: a random draw for a query with a join. "
            "Distinct by event-log hash.")
    real = ["postbound.opt.randomized", "postbound.opt.enumeration", "postbound.opt._helpers.to_query_plan", "postbound.util.nx", "postbound.qal", "postbound.validation"]
    stub = ["random (dst.boot)", "the database: only answers which hints are supported"]
    assumptions = []
    shrink_lists = ("ops", "filters")

    def scenario(self, rng, tier):
        n = rng.choice([1, 2, 3, 3, 4, 4, 5, 6, 8])
        tree = [rng.randrange(i + 1) for i in range(n - 1)]
        kinds = ["eq", "eq", "eq", "lt", "or", "plus"]
        edges = [[rng.choice(kinds), i + 1, p] if rng.random() < 0.5 else [rng.choice(kinds), p, i + 1] for i, p in enumerate(tree)]
        form = rng.choice(["implicit", "implicit", "explicit"])
        if n > 2:
            for _ in range(rng.choice([0, 0, 1, 2, 4])):
                a, b = rng.sample(range(n), 2)
                edges.append([rng.choice(kinds), a, b])
        if form == "explicit":
            edges = [e for e in edges if rng.random() < 0.3]
        elif n > 1 and rng.random() < 0.15:
            edges.pop(rng.randrange(len(edges)))  # maybe a cross product
            if rng.random() < 0.3:
                edges = [e for e in edges if 0 not in e[1:]]
        filters = [i for i in range(n) if rng.random() < rng.choice([0.0, 0.4, 1.0])]
        scans, joins = [op.name for op in ScanOperator], [op.name for op in JoinOperator]
        supported = scans + joins if rng.random() < 0.5 else [x for x in scans if rng.random() < 0.6] + [x for x in joins if rng.random() < 0.6]
        ops = []
        for _ in range(rng.randint(1, 5)):
            ops.append({
                "mode": rng.choice(["order", "order", "order", "operators", "operators", "plan", "plan", "plan", "enum", "enum-ops", "enum-plans", "precheck"]),
                "structure": rng.choice(["bushy", "bushy", "left-deep", "right-deep"]),
                "dedup": rng.random() < 0.3, "base": rng.randrange(n) if rng.random() < 0.3 else None,
                "draws": rng.choice([1, 2, 5, 12]), "stage": rng.random() < 0.3,
                "scans": rng.choice([None, None, [], "some"]), "joins": rng.choice([None, None, [], "some"]),
                "include_scans": rng.random() < 0.8, "include_joins": rng.random() < 0.8,
                "pick": rng.randrange(1 << 16), "as_iter": rng.random() < 0.3, "interleave": rng.random() < 0.3})
        return {"n": n, "base": [rng.randrange(max(1, n - 1)) for _ in range(n)], "tree": tree, "edges": edges, "filters": filters, "form": form,
                "supported": supported, "ops": ops, "bias": rng.choice([0.0, 0.0, 0.3, 0.9])}

    def run(self, ctx, sc):
        k = ctx.k
        text, names, edges = make_query(sc)
        k.event(text + str(sc["ops"]))
        query = pb.parse_query(text, bind_columns=False)
        before = (str(query), hash(query), sorted(map(str, query.predicates().join_graph().nodes)), len(query.predicates().join_graph().edges))
        by_name = {t.alias: t for t in query.tables()}
        supported = {op for op in [*ScanOperator, *JoinOperator] if op.name in sc["supported"]}
        db = StubDB(supported)
        conn = is_connected(names, edges)
        env = (query, names, edges, by_name, supported, db, conn)
        count = [0]
        original = boot.ChooserRandom._next

        def counted(r):
            count[0] += 1
            if count[0] > MAX_CHOICES:
                raise Violation("drawing made 4000 random choices without finishing", "endless drawing")
            return original(r)

        boot.ChooserRandom._next = counted
        try:
            for i, op in enumerate(sc["ops"]):
                boot.ChooserRandom.bias = 0.0 if op["dedup"] else sc["bias"]
                count[0] = 0
                ctx.phase = f"step {i}: {op['mode']}"
                getattr(self, "do_" + op["mode"].replace("-", "_"))(ctx, sc, op, env, f"step {i}: {op} on {text}", count)
                after = (str(query), hash(query), sorted(map(str, query.predicates().join_graph().nodes)), len(query.predicates().join_graph().edges))
                ctx.check(before == after, f"step {i}: {op} changed the query: {before} -> {after}", "query was changed")
                ctx.states.add(f"{op['mode']} {op['structure']} n{len(names)} e{len(edges)} {'conn' if conn else 'cross'} {op['dedup']} {op['stage']} "
                               f"{op['scans']!r} {op['joins']!r} {op['include_scans']}{op['include_joins']} {op['base'] is not None}")
        finally:
            boot.ChooserRandom._next = original
            boot.ChooserRandom.bias = 0.0

    # ------------------------------------------------------------------ checks
    def check_order(self, ctx, shape, names, edges, structure, base, what):
        ls = leaves(shape)
        ctx.check(sorted(map(str, ls)) == sorted(names), f"{what}: {shape} covers {ls} instead of {names}", "wrong set of tables")

        def walk(s):
            if not isinstance(s, tuple):
                return
            ctx.check(len(s) == 2, f"{what}: {s} is not binary", "join is not binary")
            ctx.check(connected(leaves(s[0]), leaves(s[1]), edges), f"{what}: {s[0]} and {s[1]} of {shape} are not connected", "cross product")
            ctx.check(structure != "left-deep" or not isinstance(s[1], tuple), f"{what}: {shape} is not left-deep", "wrong tree structure")
            ctx.check(structure != "right-deep" or not isinstance(s[0], tuple), f"{what}: {shape} is not right-deep", "wrong tree structure")
            if base is not None and base in s:
                other = s[1] if s[0] == base else s[0]
                ctx.check(not isinstance(other, tuple), f"{what}: {base} is not joined first in {shape}", "base table not joined first")
            walk(s[0])
            walk(s[1])
        walk(shape)

    def op_args(self, op, db):
        def some(kind):
            if kind != "some":
                return kind
            return True
        rnd = op["pick"]
        scans = op["scans"]
        joins = op["joins"]
        if some(scans) is True:
            scans = [o for i, o in enumerate(ScanOperator) if (rnd >> i) & 1]
        if some(joins) is True:
            joins = [o for i, o in enumerate(JoinOperator) if (rnd >> (8 + i)) & 1]
        want_scans = set(scans or ScanOperator) & db.h.supported
        want_joins = set(joins or JoinOperator) & db.h.supported
        args = {"include_scans": op["include_scans"], "include_joins": op["include_joins"], "database": db}
        if scans is not None or op["pick"] & 1:
            args["scan_operators"] = iter(scans) if op["as_iter"] and scans else scans
        if joins is not None or op["pick"] & 2:
            args["join_operators"] = tuple(joins) if joins else joins
        return args, want_scans, want_joins

    def draws(self, ctx, op, make, limit, count, what):
        """Draws from one or two generators of the same service; returns the drawn objects per generator."""
        gens = [make() for _ in range(2 if op["interleave"] else 1)]
        out = [[] for _ in gens]
        for n in range(min(op["draws"], limit)):
            for i, g in enumerate(gens):
                count[0] = 0
                try:
                    out[i].append(next(g))
                except StopIteration:
                    ctx.violate(f"{what}: drawing ended after {n} draws", "drawing ended prematurely")
        return out

    def distinct_limit(self, op, names, edges, structure, base):
        if not op["dedup"]:
            return 10 ** 9
        if len(names) > 4:  # a lower bound: the linear orders
            n = 0
            for order in linear_orders(names, edges):
                n += base is None or order[0] == base
                if n == 12:
                    break
            return n
        total = [s for s in all_orders(names, edges, structure)]
        if base is not None:
            total = [s for s in total if self.starts_with(s, base, structure)]
        return len(total)

    def starts_with(self, shape, base, structure):
        if not isinstance(shape, tuple):
            return shape == base
        if structure == "left-deep":
            while isinstance(shape, tuple):
                shape = shape[0]
            return shape == base
        if structure == "right-deep":
            while isinstance(shape, tuple):
                shape = shape[1]
            return shape == base

        def ok(s):
            if not isinstance(s, tuple):
                return False
            if base in s:
                return all(not isinstance(x, tuple) for x in s)
            return ok(s[0]) or ok(s[1])
        return ok(shape)

    # ------------------------------------------------------------------ modes
    def do_order(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        args = {"eliminate_duplicates": op["dedup"], "tree_structure": op["structure"]}
        base = None if op["base"] is None or op["stage"] else names[op["base"]]
        if not conn:
            gen = randomized.RandomJoinOrderGenerator(**args)
            r = call(lambda: next(gen.random_join_orders_for(query)))
            ctx.check(isinstance(r[1], ValueError), f"{what}: the cross product was not refused: {r}", "cross product accepted")
            return
        if op["stage"]:
            stage = randomized.RandomJoinOrderOptimizer(generator_args=args)
            drawn = [[stage.optimize_join_order(query) for _ in range(op["draws"])]]
            unique = False
        else:
            service = randomized.RandomJoinOrderGenerator(**args)
            kw = {} if base is None else {"base_table": by_name[base]}
            drawn = self.draws(ctx, op, lambda: service.random_join_orders_for(query, **kw),
                               self.distinct_limit(op, names, edges, op["structure"], base), count, what)
            unique = op["dedup"]
        ctx.nontrivial |= len(names) > 1
        for trees in drawn:
            shapes = [shape_of(t) for t in trees]
            ctx.k.event(str(shapes))
            for t, shape in zip(trees, shapes):
                self.check_order(ctx, shape, names, edges, op["structure"], base, what)
                ctx.check(base is None or self.starts_with(shape, base, op["structure"]), f"{what}: {shape} does not start with {base}", "base table not joined first")
                ctx.check({x.alias for x in t.tables()} == set(names), f"{what}: tables() of {shape} are {t.tables()}", "wrong set of tables")
            ctx.check(not unique or len(set(shapes)) == len(shapes), f"{what}: duplicates in {shapes}", "duplicate join order")

    def check_ops(self, ctx, assignment, shape, env, op, want_scans, want_joins, what):
        names = env[1]
        scans = {t.alias: a.operator for t, a in assignment.scan_operators.items()}
        joins = {frozenset(t.alias for t in j): a.operator for j, a in assignment.join_operators.items()}
        inter = set()

        def walk(s):
            if isinstance(s, tuple):
                inter.add(frozenset(leaves(s)))
                walk(s[0])
                walk(s[1])
        walk(shape)
        ctx.check(set(scans) == (set(names) if op["include_scans"] else set()), f"{what}: scans {scans}", "wrong scans in the assignment")
        ctx.check(set(joins) == (inter if op["include_joins"] else set()), f"{what}: joins {joins} for {shape}", "wrong joins in the assignment")
        ctx.check(set(scans.values()) <= want_scans and set(joins.values()) <= want_joins,
                  f"{what}: {scans} {joins} uses operators beyond {want_scans} {want_joins}", "operator not allowed")
        for t, a in assignment.scan_operators.items():
            ctx.check(a.table == t and assignment.get(t) is a and assignment.get([t]) is a and t in assignment and [t] in assignment,
                      f"{what}: lookup of {t}", "wrong operator lookup")
        for j, a in assignment.join_operators.items():
            ctx.check(set(a.join) == set(j) and assignment.get(j) is a and j in assignment, f"{what}: lookup of {j}", "wrong operator lookup")

    def impossible(self, op, names, want_scans, want_joins):
        return (op["include_scans"] and not want_scans) or (op["include_joins"] and not want_joins and len(names) > 1)

    def some_order(self, ctx, op, env, count):
        query, names, edges = env[:3]
        count[0] = 0
        return next(randomized.RandomJoinOrderGenerator(tree_structure=op["structure"]).random_join_orders_for(query))

    def do_operators(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        args, want_scans, want_joins = self.op_args(op, db)
        if not (op["include_scans"] or op["include_joins"]):
            r = call(lambda: randomized.RandomOperatorGenerator(**args))
            ctx.check(isinstance(r[1], ValueError), f"{what}: accepted although nothing can be generated: {r}", "bad configuration accepted")
            return
        if not conn:
            return
        order = self.some_order(ctx, op, env, count)
        shape = shape_of(order)
        if op["stage"]:
            stage = randomized.RandomOperatorOptimizer(generator_args=args)
            ctx.check(set(stage.pre_check().required_hints if hasattr(stage.pre_check(), "required_hints") else want_scans | want_joins) <= supported,
                      f"{what}: the optimizer requires unsupported hints", "unsupported hint required")
            make = None
        else:
            service = randomized.RandomOperatorGenerator(**args, eliminate_duplicates=op["dedup"])
            make = lambda: service.random_operator_assignments_for(query, order)  # noqa: E731
        if self.impossible(op, names, want_scans, want_joins):
            r = call(lambda: stage.select_physical_operators(query, order) if op["stage"] else next(make()))
            ctx.check(r[0] != "ok", f"{what}: an assignment without any allowed operator: {r}", "operator not allowed")
            return
        total = (len(want_scans) ** len(names) if op["include_scans"] else 1) * (len(want_joins) ** (len(names) - 1) if op["include_joins"] else 1)
        if op["stage"]:
            drawn = [[stage.select_physical_operators(query, order) for _ in range(op["draws"])]]
        else:
            drawn = self.draws(ctx, op, make, total if op["dedup"] else 10 ** 9, count, what)
        ctx.nontrivial |= len(names) > 1
        for assignments in drawn:
            keys = []
            for a in assignments:
                self.check_ops(ctx, a, shape, env, op, want_scans, want_joins, what)
                keys.append(str(sorted((str(t), o.operator.name) for t, o in a.scan_operators.items()))
                            + str(sorted((str(sorted(map(str, t))), o.operator.name) for t, o in a.join_operators.items())))
            ctx.k.event(str(keys))
            ctx.check(len({id(a) for a in assignments}) == len(assignments), f"{what}: the same assignment object was yielded twice", "shared assignment")
            ctx.check(not op["dedup"] or op["stage"] or len(set(keys)) == len(keys), f"{what}: duplicate assignment in {keys}", "duplicate assignment")

    def check_plan(self, ctx, plan, env, op, want_scans, want_joins, what):
        query, names, edges = env[:3]
        self.check_order(ctx, plan_shape(plan), names, edges, op["structure"], None, what)

        def walk(p):
            if p.children:
                ctx.check(p.operator in want_joins, f"{what}: {p.operator} in {plan}", "operator not allowed")
                for c in p.children:
                    walk(c)
            else:
                ctx.check(p.operator in want_scans, f"{what}: {p.operator} in {plan}", "operator not allowed")
        walk(plan)
        ctx.check({t.alias for t in plan.tables()} == set(names), f"{what}: tables() of the plan are {plan.tables()}", "wrong set of tables")

    def plan_key(self, plan):
        return (plan.operator.name, plan.base_table.alias if not plan.children else tuple(self.plan_key(c) for c in plan.children))

    def do_plan(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        args, want_scans, want_joins = self.op_args(op, db)
        args["include_scans"] = args["include_joins"] = True
        op = op | {"include_scans": True, "include_joins": True}
        del args["database"]
        if op["as_iter"] and not op["stage"]:
            args["database"] = db
        order_args = {"tree_structure": op["structure"]}
        kw = {"join_order_args": order_args, "operator_args": args, "database": db}
        snapshot = (dict(order_args), {x: y for x, y in args.items()})
        if op["stage"]:
            opt = randomized.RandomPlanOptimizer(**kw)
            make = lambda: iter(lambda: opt.optimize_query(query), None)  # noqa: E731
        else:
            service = randomized.RandomPlanGenerator(eliminate_duplicates=op["dedup"], **kw)
            make = lambda: service.random_plans_for(query)  # noqa: E731
        ctx.check(snapshot == (order_args, args), f"{what}: the caller's arguments were changed to {args}", "arguments changed")
        if not conn or self.impossible(op, names, want_scans, want_joins):
            r = call(lambda: next(make()))
            ctx.check(r[0] != "ok" and (conn or isinstance(r[1], ValueError)), f"{what}: a plan for an impossible request: {r}", "cross product accepted")
            return
        limit = 10 ** 9
        if op["dedup"]:
            limit = min(12, (len(want_scans) * (len(want_joins) if len(names) > 1 else 1)))
        drawn = self.draws(ctx, op, make, limit, count, what)
        ctx.nontrivial |= len(names) > 1
        for plans in drawn:
            keys = []
            for p in plans:
                self.check_plan(ctx, p, env, op, want_scans, want_joins, what)
                keys.append(self.plan_key(p))
            ctx.k.event(str(keys))
            ctx.check(not op["dedup"] or op["stage"] or len(set(keys)) == len(keys), f"{what}: duplicate plan in {keys}", "duplicate plan")

    def do_enum(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        gen = enumeration.ExhaustiveJoinOrderEnumerator(op["structure"])
        if not conn:
            r = call(lambda: next(gen.all_join_orders_for(query)))
            ctx.check(isinstance(r[1], ValueError), f"{what}: the cross product was not refused: {r}", "cross product accepted")
            return
        if len(names) > 4:
            return
        shapes = [shape_of(t) for t in gen.all_join_orders_for(query)]
        ref = all_orders(names, edges, op["structure"])
        ctx.check(len(shapes) == len(set(shapes)), f"{what}: duplicates among the enumerated join orders", "duplicate join order")
        ctx.check(set(shapes) == ref, f"{what}: enumerated {len(shapes)} orders, missing {list(ref - set(shapes))[:3]}, extra {list(set(shapes) - ref)[:3]}", "wrong enumeration")
        # and whatever is drawn at random is among them
        tree = shape_of(self.some_order(ctx, op, env, count))
        ctx.check(tree in ref, f"{what}: random order {tree} is not among the enumerated ones", "wrong enumeration")

    def do_enum_ops(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        if not conn or len(names) > 3 or not (op["include_scans"] or op["include_joins"]):
            return
        args, want_scans, want_joins = self.op_args(op, db)
        order = self.some_order(ctx, op, env, count)
        total = (len(want_scans) ** len(names) if op["include_scans"] else 1) * (len(want_joins) ** (len(names) - 1) if op["include_joins"] else 1)
        if total > 400:
            return
        keys = set()
        n = 0
        for a in enumeration.ExhaustiveOperatorEnumerator(**args).all_operator_assignments_for(query, order):
            self.check_ops(ctx, a, shape_of(order), env, op, want_scans, want_joins, what)
            keys.add(str(sorted((str(t), o.operator.name) for t, o in a.scan_operators.items()))
                     + str(sorted((str(sorted(map(str, t))), o.operator.name) for t, o in a.join_operators.items())))
            n += 1
        ctx.check(n == total and len(keys) == total, f"{what}: {n} assignments, {len(keys)} distinct, expected {total}", "wrong enumeration")

    def do_enum_plans(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        op = op | {"include_scans": True, "include_joins": True}
        args, want_scans, want_joins = self.op_args(op, db)
        if not conn or len(names) > 3:
            return
        orders = all_orders(names, edges, op["structure"])
        total = len(orders) * len(want_scans) ** len(names) * len(want_joins) ** (len(names) - 1)
        if total > 600:
            return
        service = enumeration.ExhaustivePlanEnumerator(join_order_args={"tree_structure": op["structure"]}, operator_args=args)
        keys = []
        for p in service.all_plans_for(query):
            self.check_plan(ctx, p, env, op, want_scans, want_joins, what)
            keys.append(self.plan_key(p))
        ctx.check(len(keys) == total and len(set(keys)) == total, f"{what}: {len(keys)} plans, {len(set(keys))} distinct, expected {total}", "wrong enumeration")

    def do_precheck(self, ctx, sc, op, env, what, count):
        query, names, edges, by_name, supported, db, conn = env
        result = randomized.RandomJoinOrderOptimizer(generator_args={"tree_structure": op["structure"]}).pre_check().check_supported_query(query)
        ctx.check(result.passed == conn, f"{what}: the pre-check says {result}, the join graph is {'connected' if conn else 'not connected'}", "wrong pre-check")


PROPS = {"S18": S18()}
