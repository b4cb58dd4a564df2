"""S23: shared atomic counters."""
from __future__ import annotations

import math
import operator
import random
import threading

from dst.kernel import Violation

from . import Prop

from postbound.util.num import AtomicInt

UNARY = {
    "value": lambda c: c.value, "int": int, "str": lambda c: int(str(c)), "repr": lambda c: repr(c), "hash": hash, "abs": abs,
    "neg": operator.neg, "pos": operator.pos, "invert": operator.invert, "round": round, "trunc": math.trunc, "ceil": math.ceil,
    "floor": math.floor, "bool": bool, "float": float, "index": operator.index,
}
UNARY_MODEL = UNARY | {"value": lambda v: v, "str": lambda v: v, "repr": lambda v: f"AtomicInt({v})"}
BINARY = {
    "add": operator.add, "sub": operator.sub, "mul": operator.mul, "and": operator.and_, "or": operator.or_, "xor": operator.xor,
    "floordiv": operator.floordiv, "mod": operator.mod, "pow": operator.pow, "lshift": operator.lshift, "rshift": operator.rshift,
    "truediv": operator.truediv, "eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt,
    "ge": operator.ge,
}
COUNTERS_ONLY = {"gt", "ge"}  # not supported with plain numbers on the other side


def plain(v):
    if isinstance(v, AtomicInt):
        return v._value if isinstance(v._value, int) else int(v)
    if isinstance(v, tuple):
        return tuple(plain(x) for x in v)
    return v


def outcome(fn, *args):
    try:
        return ("ok", plain(fn(*args)))
    except (ArithmeticError, ValueError) as e:
        return ("exc", type(e).__name__)


def same(name, got, want, operands) -> bool:
    if name == "pow" and len(operands) > 1 and operands[1] < 0:
        return True  # negative exponents are not supported
    return got == want


class S23(Prop):
    id = "S23"
    quick_runs = 6000
    thorough_runs = 200000
    state_measure = "distinct (operation kind, operand kind, threads) combinations that overlapped with an update"
    rule = ("A run lets 2-4 threads perform generated operations on one or two shared counters, with thread switches between arbitrary "
            "bytecodes of the counter's code, and searches for a sequential order that explains every value seen and the final values. "
            "Non-trivial: at least two operations on the same counter overlapped. Distinct by event-log hash.")
    real = ["postbound.util.num.AtomicInt"]
    stub = ["thread scheduler and locks (dst.kernel, dst.boot)"]
    assumptions = ["CPython semantics: single bytecodes are atomic.",
                   "An operation that combines two counters reads each of them at some moment during the operation."]
    shrink_lists = ()

    def shrink(self, sc):
        for t in range(len(sc["threads"])):
            ops = sc["threads"][t]
            for i in range(len(ops)):
                yield {**sc, "threads": sc["threads"][:t] + [ops[:i] + ops[i + 1:]] + sc["threads"][t + 1:]}

    def scenario(self, rng: random.Random, tier):
        n = rng.choice([1, 2, 2])
        threads = []
        focus = rng.choice([None, "increment", "binary"])
        for _ in range(rng.choice([2, 2, 3, 4])):
            ops = []
            for _ in range(rng.randint(1, 4 if tier == "quick" else 5)):
                kind = rng.choice(["increment", "increment", "set", "reset", "unary", "binary", "reflected", "counters", "counters", "increment_by",
                                   "assign_counter"])
                if focus == "increment" and rng.random() < 0.7:
                    kind = "increment"
                elif focus == "binary" and rng.random() < 0.6:
                    kind = "counters"
                op = {"op": kind, "c": rng.randrange(n)}
                if kind == "increment":
                    op["by"] = rng.choice([None, 1, 1, 2, 3, -1])
                elif kind == "set":
                    op["v"] = rng.randrange(6)
                elif kind == "unary":
                    op["f"] = rng.choice(sorted(UNARY))
                elif kind in ("binary", "reflected"):
                    op["f"] = rng.choice(sorted(set(BINARY) - COUNTERS_ONLY - ({"lt", "le"} if kind == "reflected" else set())))
                    op["k"] = rng.randrange(5)
                elif kind == "counters":
                    op["f"] = rng.choice(sorted(BINARY))
                    op["o"] = rng.randrange(n)
                elif kind in ("increment_by", "assign_counter"):
                    op["o"] = rng.randrange(n)
                ops.append(op)
            threads.append(ops)
        return {"n": n, "init": [rng.randrange(5) for _ in range(n)], "threads": threads, "preempt": rng.choice([0.0, 0.02, 0.1, 0.3]),
                "sched": {"p_stay": rng.choice([0.0, 0.3, 0.7])}}

    # every operation is a sequence of accesses; `want` tells from the values read whether the observed result is right
    @staticmethod
    def perform(op, cs):
        c = cs[op["c"]]
        kind = op["op"]
        if kind == "increment":
            return ("ok", c.increment() if op["by"] is None else c.increment(op["by"]))
        if kind == "increment_by":
            return ("ok", c.increment(cs[op["o"]]))
        if kind == "set":
            c.value = op["v"]
            return ("ok", None)
        if kind == "assign_counter":
            c.value = cs[op["o"]]
            return ("ok", None)
        if kind == "reset":
            return ("ok", c.reset())
        if kind == "unary":
            return outcome(UNARY[op["f"]], c)
        f = BINARY[op["f"]]
        if kind == "binary":
            return outcome(f, c, op["k"])
        if kind == "reflected":
            return outcome(f, op["k"], c)
        return outcome(f, c, cs[op["o"]])

    @staticmethod
    def accesses(op):
        """List of counters that are read (in any order), followed by an optional update."""
        kind = op["op"]
        c = op["c"]
        if kind in ("increment", "set", "reset"):
            return [], c
        if kind in ("increment_by", "assign_counter"):
            return [op["o"]], c
        if kind == "counters":
            return [c, op["o"]], None
        return [c], None

    @staticmethod
    def update(op, reads, v):
        kind = op["op"]
        if kind == "increment":
            return v + (1 if op["by"] is None else op["by"])
        if kind == "increment_by":
            return v + reads[0]
        if kind == "assign_counter":
            return reads[0]
        return op["v"] if kind == "set" else 0

    @staticmethod
    def explains(op, reads, result):
        kind = op["op"]
        if kind == "unary":
            return result == outcome(UNARY_MODEL[op["f"]], reads[0])
        if kind == "binary":
            args = (reads[0], op["k"])
        elif kind == "reflected":
            args = (op["k"], reads[0])
        else:
            args = (reads[0], reads[1])
        return same(op["f"], result, outcome(BINARY[op["f"]], *args), args)

    def linearizable(self, init, history) -> bool:
        n = len(history)
        info = [self.accesses(h["op"]) for h in history]
        seen = set()
        start = (tuple(init), tuple((None,) * len(info[i][0]) for i in range(n)), frozenset())
        stack = [start]
        budget = 400_000
        while stack:
            state = stack.pop()
            if state in seen:
                continue
            seen.add(state)
            budget -= 1
            if budget < 0:
                return True
            values, partial, done = state
            if len(done) == n:
                return True
            # an operation may only take effect if no unfinished operation returned before it was called
            limit = min(history[i]["ret"] for i in range(n) if i not in done)
            for i in range(n):
                if i in done or history[i]["call"] > limit:
                    continue
                reads, write = info[i]
                got = partial[i]
                open_reads = [j for j, v in enumerate(got) if v is None]
                op = history[i]["op"]
                for j in open_reads:
                    g2 = got[:j] + (values[reads[j]],) + got[j + 1:]
                    p2 = partial[:i] + (g2,) + partial[i + 1:]
                    if write is None and None not in g2:
                        if self.explains(op, g2, history[i]["result"]):
                            stack.append((values, p2, done | {i}))
                    else:
                        stack.append((values, p2, done))
                if not open_reads and write is not None:
                    v2 = list(values)
                    v2[write] = self.update(op, got, values[write])
                    stack.append((tuple(v2), partial, done | {i}))
        return False

    def run(self, ctx, sc):
        k = ctx.k
        counters = [AtomicInt(v) for v in sc["init"]]
        clock = [0]
        history = []

        def tick():
            clock[0] += 1
            return clock[0]

        def body(t, ops):
            import sys
            if sc["preempt"]:
                k.install_preemption("postbound/util/num.py", sc["preempt"])
            try:
                for op in ops:
                    h = {"t": t, "op": op, "call": tick(), "ret": None}
                    k.yield_point("between operations")
                    try:
                        h["result"] = self.perform(op, counters)
                    except Exception as e:  # noqa: BLE001
                        h["result"] = ("exc", type(e).__name__)
                        if op["op"] in ("increment", "set", "reset", "increment_by", "assign_counter"):
                            raise
                    h["ret"] = tick()
                    history.append(h)
                    k.event(f"{t} {op} -> {h['result']}")
            finally:
                sys.settrace(None)

        errors = []

        go = [False]

        def guarded(t, ops):
            try:
                k.block(lambda: go[0], None, why="start line")
                body(t, ops)
            except Exception as e:  # noqa: BLE001
                errors.append(e)

        threads = [threading.Thread(target=guarded, args=(t, ops)) for t, ops in enumerate(sc["threads"])]
        for t in threads:
            t.start()
        go[0] = True
        for t in threads:
            t.join()
        if errors:
            ctx.violate(f"operation failed: {errors[0]!r}", "update failed")
        for i, c in enumerate(counters):
            history.append({"t": "end", "op": {"op": "unary", "c": i, "f": "value"}, "call": tick(), "result": outcome(lambda x: x.value, c), "ret": tick()})
        history.sort(key=lambda h: h["call"])
        for a in history:
            for b in history:
                if a["call"] < b["call"] < a["ret"]:
                    ca, cb = set(self.accesses(a["op"])[0]) | {a["op"]["c"]}, set(self.accesses(b["op"])[0]) | {b["op"]["c"]}
                    if ca & cb:
                        ctx.nontrivial = True
                        ctx.state(a["op"]["op"], a["op"].get("f"), b["op"]["op"], b["op"].get("f"), len(sc["threads"]))
        if not self.linearizable(sc["init"], history):
            lines = [f"{h['call']}-{h['ret']} thread {h['t']}: {h['op']} -> {h['result']}" for h in history]
            ctx.violate("no sequential order explains this history of initial values " + f"{sc['init']}:\n" + "\n".join(lines), "not linearizable")


PROPS = {"S23": S23()}
