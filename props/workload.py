"""S19, S20, S27: workloads."""
from __future__ import annotations

import csv
import errno
import io
import itertools
import os
import re
import urllib.error
import urllib.request
import warnings
import zipfile

from dst import boot, lives
from dst.kernel import HarnessError, Violation

from . import Prop
from .common import call, marked, parse, short

import postbound as pb
from postbound import workloads
from postbound.workloads import Workload


def natural(label):
    """The documented natural order, for the labels that are generated here."""
    if isinstance(label, int):
        return (0, label)
    return (1, *[(0, int(p), "") if p.isdigit() else (1, 0, p) for p in re.split(r"(\d+)", label) if p])


def same_query(a, b) -> bool:
    return a == b and str(a) == str(b)


def verify(ctx, w, model: dict, order, what: str) -> None:
    """w must contain exactly the model's entries; in the given order unless that is None."""
    labels, queries, entries = list(w.labels()), list(w.queries()), list(w.entries())
    text = f"{what}: labels {labels!r:.400}, expected {list(model)!r:.400}"
    ctx.check(len(w) == len(model) and len(labels) == len(model) and set(labels) == set(model), text, "wrong set of labels")
    ctx.check(len(queries) == len(labels) and [x for x, _ in entries] == labels, f"{what}: labels() and entries() disagree", "inconsistent entries")
    for label, q, (_, q2) in zip(labels, queries, entries):
        want = model[label]
        ctx.check(same_query(q, want) and same_query(q2, want) and same_query(w[label], want),
                  f"{what}: label {label!r} refers to {q} / {q2} / {w[label]} instead of {want}", "wrong query for label")
        found = w.label_of(want)
        ctx.check(found in model and same_query(model[found], want), f"{what}: label_of({want}) = {found!r}", "wrong label_of")
    ctx.check(set(w) == set(model) and set(w.keys()) == set(model) and all(label in w for label in model), f"{what}: iteration differs", "inconsistent iteration")
    ctx.check(all(same_query(q, model[label]) for label, q in w.items()) and len(list(w.values())) == len(model), f"{what}: items() differ", "inconsistent iteration")
    if order is not None:
        ctx.check(labels == list(order), f"{what}: order {labels!r:.600} instead of {list(order)!r:.600}", "wrong order")
    head = w.head()
    ctx.check(head is None if not model else (head[0] == labels[0] and same_query(head[1], model[labels[0]])), f"{what}: head() = {head!r:.300}", "wrong head")


class S19(Prop):
    id = "S19"
    quick_runs = 2500
    thorough_runs = 100000
    state_measure = "distinct (operation, label kind, size class, order of the input) combinations"
    rule = ("A run derives up to ten workloads from each other (shuffling, sampling, slicing, filtering, relabelling, combining) under a "
            "simulated random generator, and compares every one with a reference model after every step. Non-trivial: a random operation "
            "on at least two queries. Distinct by event-log hash.")
    real = ["postbound.workloads.Workload", "postbound.qal", "postbound.parser"]
    stub = ["random (dst.boot: every number comes from the run's chooser; extreme values are frequent)"]
    assumptions = []
    shrink_lists = ("ops",)

    def scenario(self, rng, tier):
        kind = rng.choice(["int", "str", "str"])
        n = rng.choice([0, 1, 2, 3, 5, 8, 12])
        pool = list(range(1, 40)) if kind == "int" else [f"{p}{i}{x}" for p in ("q", "z-") for i in range(1, 12) for x in ("", "a", "b")]
        labels = rng.sample(pool, n)
        entries = []
        for i, label in enumerate(labels):
            e = {"label": label, "i": i, "tmpl": rng.randrange(9), "x": rng.randrange(6)}
            if entries and rng.random() < 0.15:
                e = {**rng.choice(entries), "label": label}  # the same query under another label
            entries.append(e)
        ops = []
        for _ in range(rng.randint(1, 10)):
            ops.append({"op": rng.choice(["shuffle", "shuffle", "shuffle", "pick", "pick", "first", "last", "with_labels", "filter", "relabel",
                                          "map", "transform", "ordered", "add", "sub", "and", "or", "sub_labels", "and_labels", "prefix", "leak"]),
                        "on": rng.randrange(100), "with": rng.randrange(100), "n": rng.choice([0, 1, 2, 3, 7, 50]), "salt": rng.randrange(1000)})
        return {"kind": kind, "entries": entries, "ops": ops, "bias": rng.choice([0.0, 0.0, 0.3, 0.9])}

    def run(self, ctx, sc):
        k = ctx.k
        boot.ChooserRandom.bias = sc["bias"]
        k.event(str(sc["entries"]))
        cache: dict = {}

        def query(e):
            key = (e["i"], e["tmpl"], e["x"])
            if key not in cache:
                cache[key] = parse(marked(*key))
            return cache[key]

        source = {e["label"]: query(e) for e in sc["entries"]}
        base_model = dict(source)
        pool = [(Workload(source, name="base"), base_model)]
        source.clear()  # the workload must not depend on the caller's dictionary
        verify(ctx, pool[0][0], base_model, sorted(base_model, key=natural), "initial workload")
        orders = [list(pool[0][0].labels())]

        def subset(model, salt):
            return [label for j, label in enumerate(sorted(model, key=natural)) if (salt >> (j % 10)) & 1]

        for n, op in enumerate(sc["ops"]):
            i = op["on"] % len(pool)
            j = op["with"] % len(pool)
            w, model = pool[i]
            w2, model2 = pool[j]
            order = orders[i]
            kind = op["op"]
            salt = op["salt"]
            what = f"step {n}: {kind} on workload {i} {order!r:.300}"
            expected_order = "natural"
            if kind == "shuffle":
                new, m = w.shuffle(), model
                expected_order = None
                ctx.nontrivial |= len(model) >= 2
            elif kind == "pick":
                new = w.pick_random(op["n"])
                got = list(new.labels())
                ctx.check(len(got) == min(op["n"], len(model)) and set(got) <= set(model) and len(set(got)) == len(got),
                          f"{what}: pick_random({op['n']}) -> {got!r:.300}", "wrong sample")
                m = {label: model[label] for label in got if label in model}
                ctx.nontrivial |= len(model) >= 2 and op["n"] > 0
            elif kind in ("first", "last"):
                c = min(op["n"], len(order))
                chosen = order[:c] if kind == "first" else order[len(order) - c:]
                new = w.first(op["n"]) if kind == "first" else w.last(op["n"])
                m = {label: model[label] for label in chosen}
                what += f" ({op['n']})"
            elif kind == "with_labels":
                chosen = subset(model, salt)
                new, m = w.with_labels(iter(chosen)), {label: model[label] for label in chosen}
            elif kind == "filter":
                chosen = set(subset(model, salt))
                new = w.filter_by(lambda label, q: label in chosen and same_query(q, model[label]))
                m = {label: q for label, q in model.items() if label in chosen}
            elif kind == "prefix":
                if sc["kind"] == "int":
                    continue
                p = ["q", "z-", "q1", "x"][salt % 4]
                new, m = w.with_prefix(p), {label: q for label, q in model.items() if label.startswith(p)}
            elif kind == "relabel":
                fn = (lambda label: 100 - label) if sc["kind"] == "int" else (lambda label: "w" + label)
                if sc["kind"] == "int" and any(label > 60 or label < 0 for label in model):
                    fn = lambda label: label  # noqa: E731
                new, m = w.relabel(lambda label, q: fn(label)), {fn(label): q for label, q in model.items()}
            elif kind == "map":
                other = parse(marked(70 + n, salt, 1))
                new, m = w.map(lambda q, alt: alt if len(str(q)) % 2 else q, other), {label: other if len(str(q)) % 2 else q for label, q in model.items()}
            elif kind == "transform":
                fn = (lambda label: label) if sc["kind"] == "int" else (lambda label: label + "t")
                new, m = w.transform(lambda label, q: (fn(label), q)), {fn(label): q for label, q in model.items()}
            elif kind == "ordered":
                new, m = w.ordered(), model
            elif kind == "add":
                new, m = w + w2, {**model2, **model}
            elif kind == "or":
                new, m = w | w2, {**model2, **model}
            elif kind == "sub":
                new, m = w - w2, {label: q for label, q in model.items() if label not in model2}
            elif kind == "and":
                new, m = w & w2, {label: q for label, q in model.items() if label in model2}
            elif kind == "sub_labels":
                chosen = subset(model, salt)
                new, m = w - (iter(chosen) if salt % 2 else chosen), {label: q for label, q in model.items() if label not in chosen}
            elif kind == "and_labels":
                chosen = subset(model, salt)
                new, m = w & (iter(chosen) if salt % 2 else chosen), {label: q for label, q in model.items() if label in chosen}
            else:  # what is handed out must be the caller's own
                for got in (w.labels(), w.queries(), w.entries()):
                    if isinstance(got, list):
                        got.reverse()
                        got[:1] = []
                new, m = w, model
                expected_order = None
            ctx.state(kind, sc["kind"], min(len(model), 3), order == sorted(order, key=natural))
            verify(ctx, new, m, sorted(m, key=natural) if expected_order else None, what)
            k.event(f"{what} -> {list(new.labels())}")
            if new is not w:
                pool.append((new, dict(m)))
                orders.append(list(new.labels()))
            for x, ((wx, mx), ox) in enumerate(zip(pool, orders)):
                verify(ctx, wx, mx, ox, f"workload {x} after {what}")


def permute_listing(ctx):
    """Directories are listed in an arbitrary order."""
    k = ctx.k
    real_scandir, real_listdir = os.scandir, os.listdir

    def permuted(items):
        items = sorted(items, key=lambda e: e if isinstance(e, (str, bytes)) else e.name)
        out = []
        while items:
            out.append(items.pop(k.chooser.choose("listing", len(items))))
        if len(out) > 1:
            k.probe("listing_permuted")
        return out

    class Scan:
        def __init__(self, it):
            self.it = iter(it)

        def __iter__(self):
            return self

        def __next__(self):
            return next(self.it)

        def __enter__(self):
            return self

        def __exit__(self, *a):
            self.close()

        def close(self):
            pass

    def scandir(path="."):
        with real_scandir(path) as it:
            return Scan(permuted(list(it)))

    os.scandir = scandir
    os.listdir = lambda path=".": permuted(real_listdir(path))


STYLES = ["{q}", "{q};", "{q};\n", "-- a comment\n{q}\n", "\n\n{q}\n\n", "{nl};\r\n", "{nl}", "/*+ SeqScan(r) */ {q};", "{lit}"]


def sql_text(f) -> str:
    q = marked(f["i"], f["tmpl"], f["x"])
    lit = q.replace(" WHERE ", " WHERE 'two\nlines' = 'two\nlines' AND ") if f.get("lit_ok", True) else q
    return STYLES[f["style"]].format(q=q, nl=q.replace(" WHERE", "\nWHERE").replace(" AND", "\n  AND"), lit=lit)


COLUMNS = {"r": ["id", "a", "b", "name"], "s": ["id", "r_id", "c"], "t": ["id", "s_id", "d"], "u": ["id", "r_id", "e"]}


class PoolDB:
    """The part of a database that the parser uses to find the tables of columns."""

    def schema(self):
        return self

    def columns(self, table):
        return [pb.ColumnReference(c, pb.TableReference(str(table))) for c in COLUMNS[str(table)]]


def unqualified(text: str) -> str:
    return re.sub(r"\b[rstu]\.(a|b|c|d|e|name|s_id)\b", r"\1", text)


def loaded(sc, text: str, bind, **kw):
    """What has to be read from a query text. Columns can be bound if there is a database; they are by default."""
    bound = bind is not False and sc["pool"]
    return pb.parse_query(text if bound or not sc["unq"] else unqualified(text), bind_columns=False, **kw)


class S20(Prop):
    id = "S20"
    quick_runs = 3000
    thorough_runs = 100000
    state_measure = "distinct (source, error handling, kinds of broken files, nesting) combinations"
    rule = ("A run writes a generated directory tree, query list or table, some of whose files are unparsable or unreadable, lists directories "
            "in an arbitrary order and compares the loaded workload with the files. Non-trivial: at least two queries expected. Distinct by "
            "event-log hash.")
    real = ["postbound.workloads readers", "postbound.parser", "pathlib, pandas.read_csv", "the file system (scratch directory)"]
    stub = ["order of directory listings (os.scandir/os.listdir)", "read errors (dst/fsim.c)"]
    assumptions = ["Files of one directory have distinct stems and no directory name matches the file pattern.", "Labels of a table are distinct."]
    shrink_lists = ("files", "rows")

    def scenario(self, rng, tier):
        source = rng.choice(["read", "read_workload", "recurse", "recurse", "batch", "csv", "csv", "generate"])
        sc = {"source": source, "data": 0, "pool": rng.random() < 0.6, "unq": rng.random() < 0.6, "name": rng.choice(["", "", "wl"])}
        count = itertools.count()

        def q():
            return {"i": next(count), "tmpl": rng.randrange(9), "x": rng.randrange(6), "style": rng.randrange(len(STYLES))}

        if source in ("read", "read_workload", "recurse"):
            dirs = [""]
            if source == "recurse" or rng.random() < 0.2:
                for _ in range(rng.randint(0, 4)):
                    parent = rng.choice(dirs)
                    d = (parent + "/" if parent else "") + rng.choice(["a", "b", "q1", "v1.0", "v1.1", "v1.2.3", "x y", "deep", ".old"])
                    if d not in dirs:
                        dirs.append(d)
            files = []
            bad_rate = rng.choice([0, 0, 0.2, 0.5])
            for d in dirs:
                for stem in rng.sample(["q1", "q2", "q3", "q10", "1a", "v1.0", "ü"], rng.randint(0, 4)):
                    f = q() | {"dir": d, "stem": stem}
                    if rng.random() < 0.1 and files:
                        f |= {x: files[-1][x] for x in ("i", "tmpl", "x")}
                    if rng.random() < bad_rate:
                        f["bad"] = rng.choice(["syntax", "syntax", "syntax", "empty", "encoding", "dangling", "eio"])
                    files.append(f)
            sc |= {"dirs": dirs, "files": files, "on_error": rng.choice(["raise", "warn", "ignore"]), "prefix": rng.choice(["", "", "p/", "p-"]),
                   "hints": rng.random() < 0.7, "bind": rng.random() < 0.5, "verbose": rng.random() < 0.2, "as_str": rng.random() < 0.5, "default": rng.random() < 0.5,
                   "encoding": rng.choice(["utf-8", "utf-8", "latin-1", "utf-16"])}
        else:
            rows = []
            names = rng.sample(["1a", "2b", "01", "1", "10", "NA", "nan", "None", "x,y", "q 7", "true", "1.0", "1e3"], rng.randint(0, 6))
            for i, label in enumerate(names):
                r = q() | {"label": label}
                if rows and rng.random() < 0.2:
                    r = {**rng.choice(rows), "label": label}
                rows.append(r)
            sc |= {"rows": rows, "labels": rng.random() < 0.5, "sep": rng.choice([",", ",", ";", "\t"]), "blank": [rng.randrange(8) for _ in range(rng.randint(0, 3))],
                   "bad_row": rng.choice([None, None, None, rng.randrange(6)]), "encoding": rng.choice(["utf-8", "latin-1"]), "crlf": rng.random() < 0.3,
                   "final_newline": rng.random() < 0.7, "column": rng.choice(["query", "sql"]), "extra": rng.random() < 0.5, "gen": rng.random() < 0.5}
        return sc

    def run(self, ctx, sc):
        permute_listing(ctx)
        root = os.path.join(ctx.tmp, "wl")
        os.makedirs(root)
        ctx.k.event(str(sc))
        pool = pb.db.DatabasePool.get_instance()
        pool.clear()
        if sc["pool"]:
            pool.register_database("sim", PoolDB())
        getattr(self, {"read": "run_dir", "read_workload": "run_dir", "recurse": "run_dir"}.get(sc["source"], "run_" + sc["source"]))(ctx, sc, root)

    def run_dir(self, ctx, sc, root):
        enc = sc["encoding"]
        expected: dict = {}
        broken = []
        recurse = sc["source"] == "recurse"
        bind = sc["bind"]
        for d in sc["dirs"]:
            os.makedirs(os.path.join(root, d), exist_ok=True)
        for f in sc["files"]:
            path = os.path.join(root, f["dir"], f["stem"] + ".sql")
            if os.path.lexists(path):
                continue
            text = sql_text(f)
            if enc != "utf-8":
                text = text.replace(" WHERE ", " WHERE 'ü' = 'ü' AND ", 1)
            visible = recurse or not f["dir"]
            bad = f.get("bad")
            if bad == "dangling":
                os.symlink(os.path.join(root, "nowhere"), path)
            else:
                data = (unqualified(text) if sc["unq"] else text).encode(enc)
                if bad == "syntax":
                    data = "SELEC broken FRO nothing".encode(enc)
                elif bad == "empty":
                    data = b"" if enc != "utf-16" else "".encode(enc)
                elif bad == "encoding":
                    data = b"SELECT '\xff\xfe\xff' FROM r" if enc != "utf-16" else b"SELECT 1 FROM r"
                    if enc == "latin-1":
                        bad = None
                        text = data.decode("latin-1")
                with open(path, "wb") as out:
                    out.write(data)
                if bad == "eio" and visible:
                    lives.lib().fsim_fail_read(os.path.join(os.path.basename(root), f["dir"], f["stem"] + ".sql").encode(), errno.EIO)
            if not visible:
                continue
            label = (f["dir"] + "/" if f["dir"] else "") + f["stem"]
            if bad:
                broken.append((label, bad, path))
            else:
                expected[label] = loaded(sc, text.replace("\r\n", "\n"), bind, include_hints=sc["hints"])
        # only one file can be made unreadable by the injector at a time
        ios = [b for b in broken if b[1] == "eio"]
        for label, _, path in ios[:-1]:
            broken = [b if b[0] != label else (label, "syntax", path) for b in broken]
            os.unlink(path)
            with open(path, "wb") as out:
                out.write("SELEC broken".encode(enc))
        arg = root if sc["as_str"] else __import__("pathlib").Path(root)
        kw = dict(name=sc["name"], file_encoding=enc, bind_columns=bind, include_hints=sc["hints"], on_error=sc["on_error"], verbose=sc["verbose"])
        with warnings.catch_warnings(record=True) as caught:
            warnings.simplefilter("always")
            if bind and sc["default"]:
                del kw["bind_columns"]  # that is the default
            if sc["source"] == "read":
                status, w = call(Workload.read, arg, label_prefix=sc["prefix"], **kw)
            else:
                status, w = call(workloads.read_workload, arg, query_label_prefix=sc["prefix"], recurse_subdirectories=recurse, **kw)
        lives.lib().fsim_disarm()
        what = f"{sc['source']}(on_error={sc['on_error']!r}, prefix={sc['prefix']!r})"
        ctx.k.event(f"{what} {status} {w!r:.300}")
        ctx.state(sc["source"], sc["on_error"], sorted({b[1] for b in broken}), len({f["dir"] for f in sc["files"]}), sc["prefix"])
        unreadable = [b for b in broken if b[1] in ("encoding", "dangling", "eio")]
        ctx.nontrivial = len(expected) >= 2
        if broken and sc["on_error"] == "raise":
            ctx.check(status == "error", f"{what}: {broken} cannot be loaded, but no error was raised: {w!r}", "error not raised")
            return
        if status == "error":
            ctx.check(bool(unreadable), f"{what} raised {short(w)}; broken files: {broken}", "made-up error")
            return
        got = {}
        for label in w.labels():
            plain = str(label)
            ctx.check(plain.startswith(sc["prefix"]), f"{what}: label {label!r} lacks the prefix", "prefix missing")
            plain = plain[len(sc["prefix"]):]
            if sc["prefix"] and not sc["prefix"].endswith("/"):
                plain = plain.lstrip("/")
            got[plain] = w[label]
        ctx.check(set(got) == set(expected) and len(w) == len(expected),
                  f"{what}: labels {sorted(got)} instead of {sorted(expected)}; broken files: {broken}", "wrong entries")
        for label, q in expected.items():
            ctx.check(same_query(got[label], q), f"{what}: {label!r} is {got[label]} instead of {q}", "wrong query for label")
        verify(ctx, w, dict(w.items()), None, what)
        ctx.check(w.name == sc["name"], f"{what}: the workload is called {w.name!r}", "wrong workload name")
        if sc["on_error"] == "warn":
            texts = [str(c.message) for c in caught]
            for label, kind, path in broken:
                ctx.check(any(os.path.basename(path) in t for t in texts), f"{what}: no warning about {path}: {texts}", "no warning")
        elif sc["on_error"] == "ignore":
            ctx.check(not any("Could not parse" in str(c.message) for c in caught), f"{what}: warned {[str(c.message) for c in caught]}", "warned although ignored")

    @staticmethod
    def row_query(r):
        return marked(r["i"], r["tmpl"], r["x"])

    def run_batch(self, ctx, sc, root):
        path = os.path.join(root, "batch.txt")
        lines = [self.row_query(r) + (";" if r["style"] % 2 else "") for r in sc["rows"]]
        expected = {i + 1: loaded(sc, line, None) for i, line in enumerate(lines)}
        if sc["unq"]:
            lines = [unqualified(line) for line in lines]
        bad = sc["bad_row"] is not None and sc["bad_row"] < len(lines)
        if bad:
            lines[sc["bad_row"]] = "this is not a query"
        for pos in sc["blank"]:
            if pos % (len(lines) + 1) < len(lines):
                lines.insert(pos % (len(lines) + 1), "" if pos % 2 else "   ")
        nl = "\r\n" if sc["crlf"] else "\n"
        with open(path, "w", encoding=sc["encoding"], newline="") as f:
            f.write(nl.join(lines) + (nl if sc["final_newline"] else ""))
        status, w = call(workloads.read_batch_workload, path, sc["name"], file_encoding=sc["encoding"])
        what = f"read_batch_workload of {lines!r:.500}"
        ctx.nontrivial = len(expected) >= 2
        ctx.state("batch", bad, bool(sc["blank"]))
        if bad:
            ctx.check(status == "error", f"{what}: no error was raised: {w!r}", "error not raised")
            return
        ctx.check(status == "ok", f"{what}: {w!r:.500}", "made-up error")
        verify(ctx, w, expected, sorted(expected), what)
        ctx.check(w.name == (sc["name"] or "batch"), f"{what}: the workload is called {w.name!r}", "wrong workload name")

    def run_csv(self, ctx, sc, root):
        path = os.path.join(root, "table.csv")
        rows = sc["rows"]
        texts = [sql_text({**r, "lit_ok": True}).replace("\r\n", "\n") for r in rows]
        bad = sc["bad_row"] is not None and sc["bad_row"] < len(rows)
        expected = {(r["label"] if sc["labels"] else i + 1): loaded(sc, t, None) for i, (r, t) in enumerate(zip(rows, texts))}
        if sc["unq"]:
            texts = [unqualified(t) for t in texts]
        if bad:
            texts[sc["bad_row"]] = "no query at all"
        buf = io.StringIO()
        out = csv.writer(buf, delimiter=sc["sep"], lineterminator="\r\n" if sc["crlf"] else "\n")
        header = [sc["column"], "label"] + (["note"] if sc["extra"] else [])
        out.writerow(header)
        for r, t in zip(rows, texts):
            out.writerow([t, r["label"]] + (["x"] if sc["extra"] else []))
        with open(path, "w", encoding=sc["encoding"], newline="") as f:
            f.write(buf.getvalue())
        kw = {"file_encoding": sc["encoding"]}
        if sc["column"] != "query":
            kw["query_column"] = sc["column"]
        if sc["labels"]:
            kw["label_column"] = "label"
        if sc["sep"] != ",":
            kw["pd_args"] = {"sep": sc["sep"]}
        if sc["name"]:
            kw["name"] = sc["name"]
        status, w = call(workloads.read_csv_workload, path, **kw)
        what = f"read_csv_workload({kw}) of {buf.getvalue()!r:.700}"
        ctx.nontrivial = len(expected) >= 2
        ctx.state("csv", bad, sc["labels"], sc["sep"])
        if bad:
            ctx.check(status == "error", f"{what}: no error was raised: {w!r}", "error not raised")
            return
        ctx.check(status == "ok", f"{what}: {w!r:.500}", "made-up error")
        verify(ctx, w, expected, None, what)
        ctx.check(w.name == (sc["name"] or "table"), f"{what}: the workload is called {w.name!r}", "wrong workload name")

    def run_generate(self, ctx, sc, root):
        queries = [parse(self.row_query(r)) for r in sc["rows"]]
        fn = workloads.generate_workload if sc["labels"] else workloads.wrap_workload
        w = fn(iter(queries) if sc["gen"] else queries, name="x")
        ctx.nontrivial = len(queries) >= 2
        expected = {i + 1: q for i, q in enumerate(queries)}
        ctx.state("generate", sc["gen"])
        verify(ctx, w, expected, sorted(expected), f"{fn.__name__} of {[str(q) for q in queries]}")


class S27(Prop):
    id = "S27"
    quick_runs = 800
    thorough_runs = 30000
    state_measure = "distinct (workload, life end, download fault, disk fault kind and operation, earlier state) combinations"
    rule = ("A run is a sequence of process lifetimes (sometimes two at once) that request pre-defined workloads from a simulated download "
            "site, with broken downloads, disk errors and crashes at arbitrary file system operations. Non-trivial: a fault hit a download. "
            "Distinct by event-log hash.")
    real = ["postbound.workloads download and readers", "urllib.request.urlretrieve, zipfile, tempfile, shutil", "file system (scratch directory)"]
    stub = ["web server (urllib.request.urlopen)", "process crashes and disk errors (dst/fsim.c)"]
    assumptions = ["Archives contain one directory named like the workload, as the original ones do.", "Crashes are process deaths; completed file system calls survive."]
    shrink_lists = ("lives",)

    NAMES = ["job", "job-light", "job-complex", "stats", "stack"]

    def scenario(self, rng, tier):
        files = {}
        for name in self.NAMES:
            files[name] = [{"stem": s, "i": i, "tmpl": rng.randrange(9), "x": rng.randrange(6)} for i, s in
                           enumerate(rng.sample(["1a", "2b", "3c", "4d", "10a", "11b"], rng.randint(1, 5)))]
        names = rng.sample(self.NAMES, rng.choice([1, 1, 2]))
        steps = []
        for _ in range(rng.randint(1, 6)):
            step = {"name": rng.choice(names), "api": rng.choice(["fetch", "function"])}
            r = rng.random()
            if r < 0.35:
                step["net"] = rng.choice(["refused", "reset", "short", "http404", "garbage", "empty"])
                step["at"] = rng.random()
            elif r < 0.75:
                kind = rng.choice(["crash_before", "crash_torn", "crash_after", "crash_after", "fail_once", "fail_from", "short_write"])
                step["disk"] = {"kind": kind, "op": rng.randint(1, 60), "errno": rng.choice(["ENOSPC", "EIO", "EACCES"]), "permille": rng.randrange(1000)}
            if rng.random() < 0.15:
                step["rival"] = rng.choice(["start", "middle"])
            steps.append(step)
        return {"files": files, "lives": steps}

    def run(self, ctx, sc):
        k = ctx.k
        disk = os.path.join(ctx.tmp, "disk")
        os.makedirs(disk)
        home = os.path.join(disk, ".postbound")
        import pathlib
        from postbound import _base
        _base.pbdir = pathlib.Path(home)
        if hasattr(workloads, "pbdir"):
            workloads.pbdir = pathlib.Path(home)
        archives, expected = {}, {}
        for name, files in sc["files"].items():
            buf = io.BytesIO()
            with zipfile.ZipFile(buf, "w", zipfile.ZIP_DEFLATED) as z:
                def add(path, data):
                    z.writestr(zipfile.ZipInfo(path, (2020, 1, 1, 0, 0, 0)), data)
                add(f"{name}/", "")
                expected[name] = {}
                for n, f in enumerate(files):
                    sub = "q1/" if name == "stack" and n % 2 else ""
                    text = marked(f["i"], f["tmpl"], f["x"]) + ";" + "\n-- padding" * 40
                    add(f"{name}/{sub}{f['stem']}.sql", text)
                    expected[name][sub + f["stem"]] = pb.parse_query(text, bind_columns=False)
            archives[name] = buf.getvalue()
        state = {"step": {}, "n": 0}
        downloads: list = []

        class Response(io.RawIOBase):
            def __init__(self, data, declared, reset_at=None, middle=None):
                self.data, self.pos, self.reset_at, self.middle = data, 0, reset_at, middle
                import email.message
                self.headers = email.message.Message()
                self.headers["Content-Length"] = str(declared)
                self.status = self.code = 200
                self.url = "x"

            def info(self):
                return self.headers

            def getcode(self):
                return 200

            def readable(self):
                return True

            def read(self, n=-1):
                if self.middle:
                    m, self.middle = self.middle, None
                    m()
                n = min(256, len(self.data)) if n is None or n < 0 else min(n, 256)
                if self.reset_at is not None and self.pos + n > self.reset_at:
                    raise ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
                out = self.data[self.pos:self.pos + n]
                self.pos += len(out)
                return out

            def readinto(self, b):
                out = self.read(len(b))
                b[:len(out)] = out
                return len(out)

        def urlopen(url, *a, **kw):
            url = getattr(url, "full_url", url)
            step = state["step"]
            name = step["name"]
            k.event(f"download {name}")
            downloads.append(name)
            if state["middle"] and step.get("rival") == "start":
                m, state["middle"] = state["middle"], None
                m()
            data = archives[name]
            net = step.get("net")
            if net:
                k.fault(f"net:{net}")
            if net == "refused":
                raise urllib.error.URLError(ConnectionRefusedError(errno.ECONNREFUSED, "refused"))
            if net == "http404":
                raise urllib.error.HTTPError(url, 404, "Not Found", None, None)
            if net == "garbage":
                data = b"<html>maintenance</html>" * 30
                return Response(data, len(data))
            if net == "empty":
                return Response(b"", 0)
            cut = int(len(data) * step.get("at", 0))
            if net == "reset":
                return Response(data, len(data), reset_at=cut)
            if net == "short":
                return Response(data[:cut], len(data))
            m, state["middle"] = state["middle"], None
            return Response(data, len(data), middle=m)

        urllib.request.urlopen = urlopen
        complete: set[str] = set()
        counter = itertools.count()

        def request(step):
            name = step["name"]
            if step["api"] == "fetch":
                return workloads.fetch_workload(name)
            return {"job": workloads.job, "job-light": workloads.job_light, "job-complex": workloads.job_complex, "stats": workloads.stats,
                    "stack": workloads.stack}[name]()

        def life(step, nested=False):
            n = next(counter)
            name = step["name"]
            had = name in complete

            def body(progress):
                state["step"] = step
                if nested:
                    lives.arm(disk, None)
                    state["middle"] = None
                elif step.get("rival"):
                    def rival():
                        progress.append(("rival", life({"name": name, "api": "fetch"}, nested=True)))
                        state["step"] = step
                        lives.lib()
                    state["middle"] = rival
                else:
                    state["middle"] = None
                try:
                    w = request(step)
                except Exception as e:  # noqa: BLE001
                    progress.append(("error", short(e), len(downloads)))
                    return None
                progress.append(("ok", {str(label): str(q) for label, q in w.entries()}, len(downloads)))
                return None

            if nested:
                # a second process at the same time: shares the disk, but none of the faults
                return run_plain(ctx, n, body)
            downloads.clear()
            res = lives.live(ctx, n, body, step.get("disk"), disk=disk, atexit=False)
            notes = res.progress
            want = {label: str(q) for label, q in expected[name].items()}
            what = f"life {n}: requesting {name} ({step})"
            ctx.state(name, res.end, step.get("net"), (step.get("disk") or {}).get("kind"), res.injected, had, step.get("rival"))
            rivals = [x[1] for x in notes if x[0] == "rival"]
            for r in rivals:
                ctx.check(r[0] == "ok" and r[1] == want, f"{what}: the process that requested the workload at the same time got {r!r:.600}", "rival failed")
                complete.add(name)
            final = [x for x in notes if x[0] in ("ok", "error")]
            if res.end == "crash":
                ctx.nontrivial = True
                return
            ctx.check(bool(final), f"{what}: {res}", "no outcome")
            kind, value, n_down = final[-1]
            if kind == "ok":
                ctx.check(value == want, f"{what} yields {sorted(value)} instead of {sorted(want)} (downloaded {n_down} times)", "incomplete workload")
                if had:
                    ctx.check(n_down == 0, f"{what} was downloaded again", "downloaded again")
                complete.add(name)
            else:
                faulty = bool(res.injected) or (bool(step.get("net")) and not had)
                ctx.check(faulty, f"{what} failed without any fault: {value}", "failed without fault")
                ctx.nontrivial = True

        for step in sc["lives"]:
            life(step)
        for name in sorted({s["name"] for s in sc["lives"]}):
            life({"name": name, "api": "function"})
        left = sorted(os.listdir(os.path.join(home, "workloads"))) if os.path.isdir(os.path.join(home, "workloads")) else []
        k.event(f"left {len(left)} entries")


def run_plain(ctx, n, body):
    """Runs body in a further process while the current one waits, without disk faults."""
    import pickle
    r, w = os.pipe()
    pid = boot.real_fork()
    if pid == 0:
        os.close(r)
        notes: list = []
        try:
            lives.lib().fsim_disarm()
            ctx.k.on_fatal = None
            body(notes)
        except BaseException as e:  # noqa: BLE001
            notes.append(("error", f"{type(e).__name__}: {e}", 0))
        os.write(w, pickle.dumps(notes))
        os._exit(0)
    os.close(w)
    data = b""
    while chunk := os.read(r, 1 << 16):
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    notes = pickle.loads(data) if data else [("error", "died", 0)]
    return notes[-1]


PROPS = {"S19": S19(), "S20": S20(), "S27": S27()}
