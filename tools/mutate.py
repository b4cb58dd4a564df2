#!/opt/venv/bin/python
"""Mutation of the code under test: which small changes to executed lines does no check notice?

  mutate.py --one PROPERTY RUNS          (internal) a check without minimisation, evidence or replay files
  mutate.py COVER.json OUT.jsonl [--files a.py,b.py] [--sample N] [--seed S] [--jobs N] [--runs A,B]

COVER.json: {file: {line: [properties]}} as collected with tools/cover.py. Every mutant is applied to a scratch copy of /repo's
package; the checks that execute the line are run with few runs, then with more; survivors are run through the stable tests.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
REPO = os.environ.get("POSTBOUND_REPO", "/repo")
sys.path.insert(0, V)


def one() -> int:
    import check
    check.__file__ = os.path.abspath(__file__)
    if "DST_READY" not in os.environ:
        check.environment()
    _, _, prop, runs = sys.argv
    sys.argv = [sys.argv[0], prop, "--runs", runs, "--jobs", "1", "--wall", "150"]
    from dst import runner
    runner.minimise = lambda pool, prop, seed, sc, res, *a, **k: (sc, res, {}, 0, True)
    runner.save_replay = lambda *a, **k: "-"
    runner.write_evidence = lambda *a, **k: None
    return check.main()


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
       ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.FloorDiv: "*", ast.BitOr: "&", ast.BitAnd: "|"}


def mutants(src: str, lines: set):
    """Yields (line, start, end, replacement, description); offsets in src."""
    tree = ast.parse(src)
    starts = [0]
    for ln in src.splitlines(keepends=True):
        starts.append(starts[-1] + len(ln.encode()))
    raw = src.encode()

    def off(line, col):
        return starts[line - 1] + col

    def span(n):
        return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)

    def text(n):
        a, b = span(n)
        return raw[a:b].decode()

    funcs = [n for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef))]
    seen = set()
    for f in funcs:
        if f.name in ("__repr__", "__str__", "inspect", "describe", "_repr_pretty_"):
            continue
        for st in f.body:
            for n in ast.walk(st):
                if id(n) in seen or not hasattr(n, "lineno"):
                    continue
                seen.add(id(n))
                if n.lineno not in lines and not isinstance(n, ast.ExceptHandler):
                    continue
                a, b = span(n)
                out = []
                if isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(n, ast.AnnAssign) and n.value:
                    if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant)):
                        if isinstance(n, ast.Expr) and isinstance(n.value, (ast.Call, ast.Await)) or isinstance(n, (ast.AugAssign, ast.Delete)):
                            out.append((a, b, "pass", "statement deleted"))
                        elif isinstance(n, ast.Assign) and isinstance(n.targets[0], (ast.Attribute, ast.Subscript)):
                            out.append((a, b, "pass", "assignment deleted"))
                        elif isinstance(n, ast.Assign) and isinstance(n.value, ast.Call):
                            pass
                elif isinstance(n, ast.Raise):
                    out.append((a, b, "pass", "raise deleted"))
                elif isinstance(n, ast.Return) and n.value is not None and not isinstance(n.value, ast.Constant):
                    out.append((*span(n.value), "None", "returns None"))
                elif isinstance(n, (ast.Break,)):
                    out.append((a, b, "continue", "break -> continue"))
                elif isinstance(n, ast.Continue):
                    out.append((a, b, "pass", "continue -> pass"))
                elif isinstance(n, (ast.If, ast.While, ast.IfExp)):
                    t = text(n.test)
                    ta, tb = span(n.test)
                    out.append((ta, tb, f"(not ({t}))", "condition negated"))
                    if not isinstance(n, ast.While):
                        out.append((ta, tb, "True", "condition True"))
                    out.append((ta, tb, "False", "condition False"))
                elif isinstance(n, ast.BoolOp):
                    for i, v in enumerate(n.values):
                        rest = [text(x) for j, x in enumerate(n.values) if j != i]
                        op = " and " if isinstance(n.op, ast.And) else " or "
                        out.append((a, b, "(" + op.join(f"({r})" for r in rest) + ")", f"operand {i} dropped"))
                elif isinstance(n, ast.Compare) and len(n.ops) == 1:
                    for o in CMP.get(type(n.ops[0]), []):
                        out.append((a, b, f"({text(n.left)} {o} {text(n.comparators[0])})", f"comparison -> {o}"))
                elif isinstance(n, ast.BinOp) and type(n.op) in BIN and not isinstance(n.left, ast.JoinedStr):
                    out.append((a, b, f"({text(n.left)} {BIN[type(n.op)]} {text(n.right)})", "operator changed"))
                elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
                    out.append((a, b, f"({text(n.operand)})", "not dropped"))
                elif isinstance(n, ast.Constant):
                    if isinstance(n.value, bool):
                        out.append((a, b, str(not n.value), "constant flipped"))
                    elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
                        out.append((a, b, f"({n.value} + 1)", "constant + 1"))
                elif isinstance(n, ast.Call):
                    for i, kw in enumerate(n.keywords):
                        if kw.arg is None:
                            continue
                        ka, kb = span(kw)
                        tail = raw[kb:b].decode()
                        extra = len(tail) - len(tail.lstrip(", \n")) if tail.lstrip().startswith(",") else 0
                        out.append((ka, kb + extra, "", f"keyword {kw.arg} dropped"))
                    if isinstance(n.func, ast.Attribute) and n.func.attr in ("copy", "lower", "strip", "sorted", "removesuffix", "removeprefix") and not n.args:
                        out.append((a, b, text(n.func.value), f".{n.func.attr}() dropped"))
                    if isinstance(n.func, ast.Name) and n.func.id in ("sorted", "list", "set", "dict", "tuple", "reversed", "copy") and len(n.args) == 1 and not n.keywords:
                        out.append((a, b, f"({text(n.args[0])})", f"{n.func.id}() dropped"))
                elif isinstance(n, ast.ExceptHandler) and n.type is not None and n.body[0].lineno in lines:
                    out.append((*span(n.type), "ZeroDivisionError", "handler disabled"))
                elif isinstance(n, ast.Try) and n.finalbody:
                    fa = span(n.finalbody[0])[0]
                    fb = span(n.finalbody[-1])[1]
                    out.append((fa, fb, "pass", "finally body deleted"))
                for x in out:
                    yield (n.lineno, *x)


def anchored() -> dict:
    res: dict = {}
    with open(os.path.join(V, "properties.jsonl")) as f:
        for line in f:
            p = json.loads(line)
            res[p["id"]] = p["anchors"]["files"]
    return res


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def judge(m, tree, rel, src, props, stages) -> dict:
    line, a, b, new, what = m
    raw = src.encode()
    path = os.path.join(tree, rel)
    with open(path, "wb") as f:
        f.write(raw[:a] + new.encode() + raw[b:])
    rec = {"file": rel, "line": line, "what": what, "old": raw[a:b].decode()[:200], "new": new[:200], "props": props}
    try:
        try:
            compile(open(path).read(), path, "exec")
        except SyntaxError:
            return rec | {"verdict": "invalid"}
        env = {**os.environ, "POSTBOUND_REPO": tree, "VERIF_SEED": "1"}
        env.pop("DST_READY", None)
        errors = []
        for runs in stages:
            for p in props:
                try:
                    r = subprocess.run([PY, os.path.abspath(__file__), "--one", p, str(runs)], capture_output=True, text=True, env=env, timeout=240)
                except subprocess.TimeoutExpired:
                    errors.append(f"{p}:timeout")
                    continue
                if r.returncode == 1:
                    return rec | {"verdict": "killed", "by": p, "runs": runs}
                if r.returncode:
                    errors.append(f"{p}:rc{r.returncode}")
                    if "importing the code under test failed" in r.stdout:
                        return rec | {"verdict": "broken import"}
            if errors and len(errors) == len(props):
                break
        t = sh(f"cd {tree} && PYTHONPATH={tree} PYTEST_DISABLE_PLUGIN_AUTOLOAD=1 MPLBACKEND=Agg timeout 120 {PY} -m pytest tests -q -x -W ignore -p no:cacheprovider "
               f"--deselect tests/none 2>&1 | tail -3")
        return rec | {"verdict": "survived", "errors": errors, "tests": t.stdout.strip().splitlines()[-1:] if t.stdout else ""}
    finally:
        with open(path, "wb") as f:
            f.write(raw)


def main() -> int:
    ap = argparse.ArgumentParser()
    ap.add_argument("cover")
    ap.add_argument("out")
    ap.add_argument("--files")
    ap.add_argument("--sample", type=int)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--jobs", type=int, default=8)
    ap.add_argument("--runs", default="60,250")
    ap.add_argument("--lines", help="only lines in A-B")
    ap.add_argument("--list", action="store_true")
    ap.add_argument("--recheck", help="only the survivors recorded in this file, with every check that executes the line")
    args = ap.parse_args()
    again = set()
    if args.recheck:
        again = {(d["file"], d["line"], d["what"], d["old"], d["new"]) for d in map(json.loads, open(args.recheck)) if d["verdict"] == "survived"}
    cover = json.load(open(args.cover))
    anchors = anchored()
    stages = [int(x) for x in args.runs.split(",")]
    todo = []
    for rel in sorted(cover):
        if args.files and rel not in args.files.split(","):
            continue
        src = open(os.path.join(REPO, rel)).read()
        lines = {int(k): v for k, v in cover[rel].items()}
        if args.lines:
            lo, hi = (int(x) for x in args.lines.split("-"))
            lines = {k: v for k, v in lines.items() if lo <= k <= hi}
        for m in mutants(src, set(lines)):
            cand = lines.get(m[0]) or lines.get(m[0] + 1) or []
            own = cand if args.recheck else [p for p in cand if rel in anchors.get(p, [])] or cand
            if args.recheck and (rel, m[0], m[4], src.encode()[m[1]:m[2]].decode()[:200], m[3][:200]) not in again:
                continue
            if own:
                todo.append((rel, src, m, own))
    weight: dict = {}
    for rel in cover:
        for ps in cover[rel].values():
            for p in ps:
                weight[p] = weight.get(p, 0) + 1
    random.Random(args.seed).shuffle(todo)
    if args.sample:
        todo = todo[:args.sample]
    print(len(todo), "mutants", flush=True)
    if args.list:
        return 0
    done = set()
    if os.path.exists(args.out):
        for x in open(args.out):
            d = json.loads(x)
            done.add((d["file"], d["line"], d["what"], d["old"], d["new"]))
    base = f"/tmp/mut.{os.getpid()}"
    kids = []
    for w in range(args.jobs):
        pid = os.fork()
        if pid:
            kids.append(pid)
            continue
        os.nice(15)
        tree = f"{base}/{w}"
        os.makedirs(tree)
        sh(f"cd {REPO} && cp -a $(ls -A | grep -v '^.git$') {tree}/")
        for i, (rel, src, m, own) in enumerate(todo):
            if i % args.jobs != w:
                continue
            key = (rel, m[0], m[4], src.encode()[m[1]:m[2]].decode()[:200], m[3][:200])
            if key in done:
                continue
            props = sorted(own, key=lambda p: (p in ("S07",), weight.get(p, 0)))[:6]
            t0 = time.time()
            try:
                rec = judge(m, tree, rel, src, props, stages)
            except BaseException as e:
                rec = {"file": rel, "line": m[0], "what": m[4], "old": "", "new": "", "verdict": "tool error", "error": repr(e)}
            rec["s"] = round(time.time() - t0, 1)
            with open(args.out, "a") as f:
                f.write(json.dumps(rec) + "\n")
        shutil.rmtree(tree, ignore_errors=True)
        os._exit(0)
    for pid in kids:
        os.waitpid(pid, 0)
    shutil.rmtree(base, ignore_errors=True)
    return 0


if __name__ == "__main__":
    rc = one() if sys.argv[1:2] == ["--one"] else main()
    sys.stdout.flush()
    os._exit(rc)
