"""S32: cardinalities that are computed by executing sub-queries, looked up in files, or distorted: the right number, at the right time."""
from __future__ import annotations

import csv
import itertools
import json
import math
import os
import re

from dst import lives, simpg

from . import Prop
from .common import call, make_server, parse, pb, short
from .timed import ASSUMPTIONS, REAL, STUB

from postbound import opt, workloads

TABLES = [("r", "r"), ("s", "s"), ("t", "t"), ("u", "u"), ("s", "s2"), ("u", "u2")]
LINKS = {("r", "s"): "{0}.id = {1}.r_id", ("s", "t"): "{0}.id = {1}.s_id", ("r", "u"): "{0}.id = {1}.r_id"}
FILTERS = {"r": ["{0}.a < {x}", "{0}.b = {x}", "({0}.a = {x} OR {0}.b > 2)", "{0}.b IS NULL", "{0}.name LIKE 'n{x}'"], "s": ["{0}.c > {x}", "{0}.c IN ({x}, 4)"],
           "t": ["{0}.d <= {x}"], "u": ["{0}.e <> {x}"]}
SHIFTS = ["DELETE FROM t WHERE id % 3 = {x} % 3", "DELETE FROM u WHERE e = {x}", "INSERT INTO r SELECT id + 1000 * ({x} + 1), a, b, name FROM r WHERE id < 1000 AND a > 3",
          "UPDATE s SET c = {x} WHERE id % 4 = 1", "UPDATE t SET d = {x}", "INSERT INTO u SELECT id + 1000 * ({x} + 1), r_id, e FROM u WHERE id < 1000"]
FAILS = ["internal", "undefined_table", "lose", "oom"]


def gen_query(rng):
    tabs = [rng.choice(TABLES)]
    preds = []
    while len(tabs) < 4 and rng.random() < 0.8:
        cand = [(t, a) for t, a in TABLES if (t, a) not in tabs]
        rng.shuffle(cand)
        for t, a in cand:
            links = [(LINKS[p], x, y) for tt, aa in tabs for p, x, y in [((tt, t), aa, a), ((t, tt), a, aa)] if p in LINKS]
            if links:
                tmpl, x, y = rng.choice(links)
                preds.append([[x, y], tmpl.format(x, y)])
                tabs.append((t, a))
                break
        else:
            break
    for t, a in tabs:
        for _ in range(rng.choice([0, 1, 1, 2])):
            preds.append([[a], rng.choice(FILTERS[t]).format(a, x=rng.randrange(6))])
    if len(tabs) > 1 and rng.random() < 0.2:
        names = {t: a for t, a in tabs}
        if "s" in names and "u" in names:
            preds.append([[names["s"], names["u"]], f"{names['s']}.c < {names['u']}.e"])
    one = rng.choice(tabs)[1]
    col = f"{one}.id"
    select = rng.choice(["COUNT(*)", f"MIN({col})", col, "*", f"DISTINCT {col}"])
    tail = ""
    if rng.random() < 0.35:
        tail = rng.choice([f" GROUP BY {col}", f" GROUP BY {col} HAVING COUNT(*) > 1", f" ORDER BY {col}", f" ORDER BY {col} LIMIT 3", " LIMIT 2", f" GROUP BY {col} ORDER BY {col}"])
        if "GROUP" in tail:
            select = rng.choice([f"{col}, COUNT(*)", col])
        elif "ORDER" in tail:
            select = col
    return {"tables": sorted(map(list, tabs)), "preds": preds, "select": select, "tail": tail}


def sql_of(q) -> str:
    where = f" WHERE {' AND '.join(p for _t, p in q['preds'])}" if q["preds"] else ""
    return f"SELECT {q['select']} FROM {', '.join(t if t == a else f'{t} AS {a}' for t, a in q['tables'])}{where}{q['tail']}"


def fragment(q, aliases):
    preds = [p for tabs, p in q["preds"] if set(tabs) <= set(aliases)]
    return [t for t in q["tables"] if t[1] in aliases], preds


def connected(q, aliases) -> bool:
    todo, seen = [aliases[0]], set()
    while todo:
        x = todo.pop()
        if x not in seen:
            seen.add(x)
            todo += [y for tabs, _p in q["preds"] if len(tabs) == 2 and set(tabs) <= set(aliases) and x in tabs for y in tabs]
    return seen == set(aliases)


def intermediates(q, cross: bool):
    names = [a for _t, a in q["tables"]]
    out = [list(c) for n in range(1, len(names) + 1) for c in itertools.combinations(names, n)]
    return [c for c in out if cross or connected(q, c)]


def refs(q, aliases):
    return [pb.TableReference(t, "" if t == a else a) for t, a in q["tables"] if a in aliases]


def planner_rows(tables, preds, limit=None) -> int:
    """What the simulated planner thinks."""
    nums = sum(int(x) for p in preds for x in re.findall(r"\b\d+\b", p))
    est = 1 + (sum(ord(c) * (i + 3) for i, c in enumerate("".join(sorted(tables)))) + 37 * nums + 5 * len(preds)) % 9973
    return est if limit is None else min(limit, est)


class Lookups(Prop):
    id = "S32"
    quick_runs = 2500
    thorough_runs = 60000
    rule = "the data shifted, a request or a file operation failed, the process died, or an answer was saved"
    state_measure = "the estimator and its options, what was asked, whether the answer was known, the fault and the outcome"
    real = REAL + ["postbound.opt (PreciseCardinalities, PreComputedCardinalities, CardinalityDistortion, NativeCardinalityEstimator)", "postbound._stages",
                   "postbound.workloads", "real files in a scratch directory"]
    stub = STUB + ["the planner's estimates", "file system calls below the scratch directory pass through dst/fsim.c (real files, injected faults)"]
    assumptions = ASSUMPTIONS[1:] + ["Crashes are process deaths: what was handed to the kernel before survives (no power loss).",
                                     "A look-up file is used by one estimator at a time."]
    shrink_lists = ("lives", "queries")

    def scenario(self, rng, tier):
        queries = []
        for _ in range(rng.randint(1, 4)):
            q = gen_query(rng)
            if sql_of(q) not in [sql_of(o) for o in queries]:
                queries.append(q)
        labels = rng.choice(["int", "text", "digits", "zero", "prefix", "prefix"])
        out = []
        for _ in range(rng.choice([1, 1, 2, 3])):
            kind = rng.choice(["precise", "lookup", "lookup", "native"])
            life = {"kind": kind, "db_cache": rng.random() < 0.5, "distort": rng.choice([None, None, None, [0.5, "fixed"], [1.3, "fixed"], [0.25, "random"], [3.0, "random"]])}
            if kind == "precise":
                life |= {"caching": rng.choice([None, None, True, True, False])}
            if kind == "lookup":
                life |= {"default": rng.choice([None] * 4 + ["unknown", 17]), "live": rng.choice([None, "actual", "estimated", "estimated", "default"]),
                         "save": rng.choice([None, None, False]), "error": rng.choice([None, None, False])}
            life["cross"] = kind == "native" or rng.random() < 0.4
            ops = []
            for _ in range(rng.randint(2, 8)):
                op = {"op": rng.choices(["est", "all", "shift", "reset", "prime", "reload"], [10, 2, 2.5, 0.7, 1.5, 0.6])[0], "q": rng.randrange(len(queries)), "i": rng.randrange(40),
                      "x": rng.randrange(6)}
                if op["op"] in ("est", "all") and rng.random() < 0.15:
                    op["fail"] = rng.choice(FAILS)
                if op["op"] == "all":
                    op["order"] = rng.random() < 0.4
                ops.append(op)
            fault = None
            if kind == "lookup" and rng.random() < 0.45:
                fk = rng.choice(["crash_before", "crash_torn", "crash_torn", "crash_after", "fail_once", "fail_from", "short_write"])
                fault = {"kind": fk, "op": rng.randint(1, rng.choice([4, 12])), "permille": rng.choice([0, 1, 300, 800, 999]), "errno": rng.choice(["ENOSPC", "EIO", "EACCES"])}
            out.append(life | {"ops": ops, "fault": fault})
        rows = []
        for n, q in enumerate(queries):
            for c in intermediates(q, True):
                if rng.random() < 0.3:
                    rows.append([n, c, rng.choice([0, 3, 250, 10 ** 7, "nan", "inf"])])
        if rows and rng.random() < 0.08:
            rows.append([*rows[0][:2], 99])
        rng.shuffle(rows)
        return {"queries": queries, "labels": labels, "lives": out, "rows": rows, "extra": rng.random() < 0.4, "strings": rng.random() < 0.3,
                "columns": rng.random() < 0.3, "foreign": rng.random() < 0.2, "data": rng.randrange(20)}

    # -- the file, independently of the code under test

    def label(self, sc, n):
        return {"int": n + 1, "text": f"q-{n + 1}", "digits": str(n + 1), "zero": f"0{n + 1}", "prefix": "q-" + ["1", "10", "11", "1a"][n]}[sc["labels"]]

    def header(self, sc):
        return ["the_label", "tabs", "true_card"] if sc["columns"] else ["label", "tables", "cardinality"]

    def write_file(self, sc, path) -> None:
        label, tabs, card = self.header(sc)
        with open(path, "w", newline="") as f:
            w = csv.writer(f)
            w.writerow([label] + (["query", "query_fragment", "note"] if sc["extra"] else []) + [tabs, card])
            for m, (n, aliases, value) in enumerate(sc["rows"]):
                if n >= len(sc["queries"]):
                    continue
                names = [{"full_name": t, "alias": "" if t == a else a, "virtual": False, "schema": ""} for t, a in sc["queries"][n]["tables"] if a in aliases]
                w.writerow([self.label(sc, n)] + ([sql_of(sc["queries"][n]), "", f"note, {m}"] if sc["extra"] else [])
                           + [json.dumps([json.dumps(x) if sc["strings"] else x for x in names]), {"nan": ""}.get(value, value)])

    def read_file(self, ctx, sc, path, where):
        """[(label, aliases, cardinality)] and the notes."""
        label, tabs, card = self.header(sc)
        rows, notes = [], []
        with open(path, newline="") as f:
            lines = list(csv.DictReader(f))
        for line in lines:
            try:
                names = [json.loads(x) if isinstance(x, str) else x for x in json.loads(line[tabs])]
                value = float(line[card]) if line[card] else math.nan
                rows.append((line[label], tuple(sorted(x["alias"] or x["full_name"] for x in names)), value))
                notes.append(line.get("note") or "")
            except (ValueError, KeyError, TypeError, AttributeError) as e:
                ctx.violate(f"{where}the look-up file has the row {line}: {e!r}", "file damaged")
        return rows, notes

    @staticmethod
    def num(v) -> float:
        return {"nan": math.nan, "inf": math.inf}.get(v, v) + 0.0

    @staticmethod
    def same(a, b) -> bool:
        return a == b or math.isnan(a) and math.isnan(b)

    # -- runs

    def run(self, ctx, sc):
        disk = os.path.join(ctx.tmp, "disk")
        os.makedirs(disk)
        path = os.path.join(disk, "cards.csv")
        self.write_file(sc, path)
        known = {}
        dups = set()
        for n, aliases, value in sc["rows"]:
            if n < len(sc["queries"]):
                key = (n, tuple(aliases))
                if key in known:
                    dups.add(key)
                known.setdefault(key, []).append(self.num(value))
        for n, life in enumerate(sc["lives"]):
            def body(progress, life=life, n=n):
                return self.life(ctx, sc, life, path, known, dups, progress, n)
            result = lives.live(ctx, n, body, life["fault"], disk=disk, atexit=False)
            where = f"life {n}: "
            ctx.check(result.end != "error", f"{where}{result.value}", "unexpected error")
            maybe = []
            for note in result.progress:
                if note == "nontrivial":
                    ctx.nontrivial = True
                elif note[0] == "saving":
                    maybe.append(note[1:])
                elif note[0] == "saved":
                    maybe = [m for m in maybe if m[0] != note[1]]
                    known.setdefault(note[1], []).append(note[2])
            ctx.nontrivial |= result.end == "crash" or bool(result.injected)
            ctx.state(life["kind"], result.end, life["fault"] and life["fault"]["kind"], bool(maybe))
            rows, notes = self.read_file(ctx, sc, path, where)
            want = sorted(((str(self.label(sc, k[0])), k[1], v) for k, vs in known.items() for v in vs), key=repr)
            extra = list(rows)
            for w in want:
                hit = [r for r in extra if r[:2] == w[:2] and self.same(r[2], w[2])]
                ctx.check(hit, f"{where}{w} is missing in the look-up file {rows}", "saved cardinality lost")
                extra.remove(hit[0])
            for e in extra:
                may = [m for m in maybe if (str(self.label(sc, m[0][0])), m[0][1]) == e[:2] and any(self.same(v, e[2]) for v in m[1])]
                ctx.check(may, f"{where}{e} in the look-up file was never computed, or is there twice", "unexpected row")
                known.setdefault(may[0][0], []).append(e[2])
                maybe.remove(may[0])
            if sc["extra"]:
                ctx.check({f"note, {m}" for m, r in enumerate(sc["rows"]) if r[0] < len(sc["queries"])} <= set(notes), f"{where}notes lost: {notes}", "other columns lost")

    def life(self, ctx, sc, life, path, known, dups, progress, n):
        server = make_server(ctx, {"data": sc["data"] + n})
        con = server.db.con
        now = {"fail": None, "fired": False}

        def on_statement(session, stmt):
            spec = {}
            up = stmt.sql.upper()
            if "COUNT(*)" in up and not up.lstrip().startswith("EXPLAIN") and "ORDER BY" in up and "GROUP BY" not in up:
                spec["fail"] = "undefined_column"      # must appear in the GROUP BY clause
            if now["fail"] and re.search(r"\bFROM\b", up):
                spec["fail"], now["fail"], now["fired"] = now["fail"], None, True
            return spec

        def explain(session, sql):
            m = re.search(r"\bFROM\s+(.*?)(?:\sWHERE\s+(.*?))?(\sGROUP BY.*?)?(?:\sHAVING.*?)?(\sORDER BY.*?)?(?:\sLIMIT (\d+))?\s*;?\s*$", sql, re.S | re.I)
            tabs = [x.split()[-1] for x in m.group(1).split(",")]
            est = planner_rows(tabs, re.split(r"\s+AND\s+", m.group(2)) if m.group(2) else [])
            if m.group(3):
                est = est // 2 + 1
            elif re.search(r"\b(COUNT|MIN)\(", sql):
                est = 1
            if m.group(5):
                est = min(int(m.group(5)), est)
            return simpg.Result(["QUERY PLAN"], [([{"Plan": {"Node Type": "Seq Scan", "Plan Rows": est, "Total Cost": 1.0}}],)], 1)

        server.explain = explain
        server.on_statement = on_statement
        db = pb.postgres.connect(connect_string="dbname=simdb", cache_enabled=life["db_cache"], refresh=True)
        queries = [parse(sql_of(q)) for q in sc["queries"]]
        labels = {q: self.label(sc, i) for i, q in enumerate(queries)}
        foreign = len(queries) - 1 if sc["foreign"] and len(queries) > 1 else None
        if sc["labels"] == "int" and foreign is None:
            workload = workloads.generate_workload(queries, name="w")
        else:
            workload = workloads.generate_workload([q for i, q in enumerate(queries) if i != foreign], name="w", labels={q: v for i, (q, v) in enumerate(labels.items()) if i != foreign})
        est = base = self.estimator(ctx, sc, life, db, workload, path)
        if life["distort"]:
            est = opt.CardinalityDistortion(base, life["distort"][0], distortion_strategy=life["distort"][1])
            ctx.check(est.allow_cross_products == base.allow_cross_products, "cross products", "cross products")
        model = {k: list(v) for k, v in known.items()}     # look-up table
        maybe: dict = {}                                   # saving failed: may or may not be in memory
        cache: dict = {}                                   # precise estimator
        seen: dict = {}
        injected = lambda: bool(lives.lib().fsim_injected())

        def truth(qi, aliases):
            tabs, preds = fragment(sc["queries"][qi], aliases)
            sql = f"SELECT COUNT(*) FROM {', '.join(f'{t} AS {a}' for t, a in tabs)}" + (f" WHERE {' AND '.join(preds)}" if preds else "")
            return float(con.execute(sql).fetchone()[0])

        def guess(qi, aliases):
            tabs, preds = fragment(sc["queries"][qi], aliases)
            return float(planner_rows([a for _t, a in tabs], preds))

        def same_query(qi, aliases):
            tabs, preds = fragment(sc["queries"][qi], aliases)
            return tuple(map(tuple, tabs)), tuple(preds)

        def outcome(qi, aliases):
            """(acceptable values or None for an error, statements, to be saved)"""
            key = (qi, tuple(aliases))
            if life["kind"] == "native":
                return [guess(*key)], 1, None
            if life["kind"] == "precise":
                if life["caching"] and same_query(*key) in cache:
                    progress.append("nontrivial")
                    return [cache[same_query(*key)]], 0, None
                return [truth(*key)], 1, None
            if qi == foreign:
                return None, 0, None
            if len(model.get(key, [])) > 1:
                return None, 0, None
            if key in model:
                return model[key], 0, None
            if life["default"] is not None:
                return [math.nan if life["default"] == "unknown" else float(life["default"])], 0, None
            if life["live"] is None:
                return ([math.nan] if life["error"] is False else None), 0, None
            if life["live"] == "actual":
                values = [truth(*key)]
                if life["db_cache"]:
                    values = seen.setdefault(key, []) + values
            else:
                values = [guess(*key)]
            return values, 1, (None if life["save"] is False else "save")

        for m, op in enumerate(life["ops"]):
            where = f"life {n} ({life['kind']}) op {m} {op}: "
            qi = op["q"] % len(queries)
            qs = sc["queries"][qi]
            if op["op"] == "shift":
                con.execute(SHIFTS[op["i"] % len(SHIFTS)].format(x=op["x"]).replace("INSERT INTO", "INSERT OR IGNORE INTO"))
                server.db.stale = True
                progress.append("nontrivial")
                continue
            if op["op"] == "reset":
                if life["kind"] == "precise":
                    base.reset_cache()
                    cache.clear()
                continue
            if op["op"] == "prime":
                # the user executes a query like the ones the estimator uses
                ivs = intermediates(qs, True)
                tabs, preds = fragment(qs, ivs[op["i"] % len(ivs)])
                text = sql_of({"tables": tabs, "preds": [[[], p] for p in preds], "select": "COUNT(*)", "tail": ""})
                value = call(db.execute_query, parse(text), cache_enabled=True)
                seen.setdefault((qi, tuple(a for _t, a in tabs)), []).append(float(value[1]))
                continue
            if op["op"] == "reload":
                if life["kind"] == "lookup" and not maybe:
                    res = call(self.estimator, ctx, sc, life, db, workload, path)
                    if injected():
                        continue
                    ctx.check(res[0] == "ok", f"{where}{short(res[1])}", "look-up table unreadable")
                    base = est = res[1]
                    if life["distort"]:
                        est = opt.CardinalityDistortion(base, life["distort"][0], distortion_strategy=life["distort"][1])
                continue
            ivs = intermediates(qs, life["cross"])
            now.update(fail=op.get("fail"), fired=False)
            mark = len(server.log)
            if op["op"] == "est":
                aliases = ivs[op["i"] % len(ivs)]
                asked = [aliases]
                arg = refs(qs, aliases)
                want = [outcome(qi, aliases)]
                self.announce(progress, qi, asked, want)
                call(est.initialize, db, queries[qi])
                res = call(est.calculate_estimate, queries[qi], arg[0] if len(arg) == 1 and op["x"] < 3 else frozenset(arg) if op["x"] % 2 else arg)
                est.cleanup()
                answers = {tuple(aliases): res[1]} if res[0] == "ok" else {}
            else:
                order = None
                asked = ivs
                if op["order"]:
                    order, asked = self.join_order(qs, op["i"])
                want = [outcome(qi, a) for a in asked]
                self.announce(progress, qi, asked, want)
                call(est.initialize, db, queries[qi])
                res = call(est.generate_plan_parameters, queries[qi], order, None)
                est.cleanup()
                answers = {}
                if res[0] == "ok":
                    answers = {tuple(sorted(t.identifier() for t in k)): v for k, v in res[1].cardinalities.items()}
                    for a, w in zip(asked, want):     # unknown ones are left out
                        if tuple(a) not in answers and w[0] is not None and any(self.fits(life, math.nan, [v]) for v in w[0]):
                            answers[tuple(a)] = pb.Cardinality.unknown()
                    ctx.check(set(answers) == {tuple(a) for a in asked}, f"{where}cardinalities of {sorted(answers)} instead of {sorted(map(tuple, asked))}", "intermediates")
            now["fail"] = None
            sent = [s for s in server.log[mark:] if re.search(r"\bFROM\b", s.sql.upper())]
            got, value = res
            counted = sum(1 for s in sent if not s.sql.lstrip().upper().startswith("EXPLAIN"))
            ctx.check(not (counted and (life["kind"] == "native" or life["kind"] == "lookup" and life["live"] != "actual")), f"{where}executed {[s.sql for s in sent]}", "query executed")
            ctx.state(life["kind"], life.get("caching"), life.get("live"), life.get("default"), life.get("save"), op["op"], got, now["fired"], injected(), [w[1] for w in want][:1])
            if now["fired"]:
                progress.append("nontrivial")
                ctx.check(got == "error" and isinstance(value, (pb.db.DatabaseServerError, pb.db.DatabaseUserError)), f"{where}{got} {value!r} although the request failed", "failure not reported")
                if db._connection.closed:
                    db.reset_connection()
                if op["op"] == "est":
                    continue
            elif got == "error" and injected() and isinstance(value, OSError):
                progress.append("nontrivial")
                for a, w in zip(asked, want):
                    if w[2]:
                        maybe[(qi, tuple(a))] = w[0]
                life = dict(life, lost=True)
                if op["op"] == "est":
                    continue
            elif any(w[0] is None for w in want):
                ctx.check(got == "error", f"{where}{value!r} instead of an error", "missing cardinality not reported")
                ctx.check(not any(w[0] is None and w[1] == 0 for w in want) or op["op"] == "all" or not sent, f"{where}sent {[s.sql for s in sent]}", "statements")
                if op["op"] == "est":
                    continue
            else:
                ctx.check(got == "ok", f"{where}{short(value)}", "failed")
                dirty = any((qi, tuple(a)) in maybe for a in asked)
                least = sum(w[1] for w in want) if not (life["kind"] == "lookup" and life["live"] == "actual" and life["db_cache"]) else len(sent)
                ctx.check(len(sent) == least or dirty and len(sent) < least, f"{where}{len(sent)} statements instead of {least}: {[s.sql for s in sent]}", "statements")
            if got != "ok":
                # which ones were computed before the error is not observable, apart from their effects
                for a, w in zip(asked, want):
                    if w[2]:
                        maybe[(qi, tuple(a))] = w[0]
                    if life["kind"] == "precise" and life["caching"]:
                        base.reset_cache()
                        cache.clear()
                continue
            for a, w in zip(asked, want):
                key = (qi, tuple(a))
                v = answers[tuple(a)]
                ctx.check(isinstance(v, pb.Cardinality), f"{where}{v!r} is not a cardinality", "not a cardinality")
                fine = w[0] + maybe.get(key, [])
                ctx.check(self.fits(life, float(v), fine), f"{where}the cardinality of {a} is {v}, should be {fine} (distortion {life['distort']})", "wrong cardinality")
                if life["kind"] == "precise" and life["caching"]:
                    cache.setdefault(same_query(*key), w[0][0])
                if life.get("live") == "actual" and life["db_cache"] and w[1]:
                    seen.setdefault(key, []).append(w[0][-1])
                if w[2]:
                    progress.append("nontrivial")
                    exact = [x for x in fine if self.fits(life, float(v), [x])]
                    if life["distort"] or len(fine) > 1 or key in maybe:
                        rows, _ = self.read_file(ctx, sc, path, where)
                        row = [r[2] for r in rows if r[:2] == (str(labels[queries[qi]]), tuple(a))]
                        if not row and key in maybe:
                            continue
                        ctx.check(len(row) == 1 and row[0] in exact, f"{where}{row} saved instead of {exact}", "not saved")
                        exact = row
                    model[key] = [exact[0]]
                    maybe.pop(key, None)
                    progress.append(("saved", key, exact[0]))
            if maybe and any(w[2] for w in want):
                # the table has been written completely: what was remembered is there now
                rows, _ = self.read_file(ctx, sc, path, where)
                for key in [k for k in maybe]:
                    row = [r[2] for r in rows if r[:2] == (str(labels[queries[key[0]]]), key[1])]
                    if row:
                        ctx.check(len(row) == 1 and row[0] in maybe[key], f"{where}{row} saved for {key}", "unexpected row")
                        model[key] = row
                        progress.append(("saved", key, row[0]))
                        del maybe[key]
        db.close()

    def announce(self, progress, qi, asked, want) -> None:
        for a, w in zip(asked, want):
            if w[2]:
                progress.append(("saving", (qi, tuple(a)), w[0]))

    @staticmethod
    def fits(life, v, values) -> bool:
        for x in values:
            lo = hi = x
            if life["distort"]:
                f, how = life["distort"]
                if math.isnan(x) or math.isinf(x):
                    lo = hi = math.nan
                elif how == "fixed":
                    lo = hi = float(round(x * f))
                else:
                    lo, hi = float(round(x * min(f, 1.0))), float(round(x * max(f, 1.0)))
            if math.isnan(lo) and math.isnan(v) or lo <= v <= hi:
                return True
        return False

    def join_order(self, q, pick):
        tabs = refs(q, [a for _t, a in q["tables"]])
        tabs = tabs[pick % len(tabs):] + tabs[:pick % len(tabs)]
        tree, asked, have = None, [], []
        for t in tabs:
            leaf = pb.JoinTree.scan(t)
            asked.append([t.identifier()])
            have.append(t.identifier())
            if tree is None:
                tree = leaf
            else:
                tree = pb.JoinTree.join(tree, leaf)
                asked.append(sorted(have))
        return tree, [sorted(a) for a in asked]

    def estimator(self, ctx, sc, life, db, workload, path):
        if life["kind"] == "native":
            return opt.native.NativeCardinalityEstimator(db)
        if life["kind"] == "precise":
            kw = {} if life["caching"] is None else {"enable_cache": life["caching"]}
            return opt.PreciseCardinalities(db, allow_cross_products=life["cross"], **kw)
        label, tabs, card = self.header(sc)
        kw = {"label_col": label, "tables_col": tabs, "cardinality_col": card} if sc["columns"] else {}
        if life["default"] is not None:
            kw["default_cardinality"] = pb.Cardinality.unknown() if life["default"] == "unknown" else pb.Cardinality(life["default"])
        if life["live"]:
            kw |= {"live_fallback": True, "live_db": db} | ({} if life["live"] == "default" else {"live_fallback_style": life["live"]})
        if life["save"] is not None:
            kw["save_live_fallback_results"] = life["save"]
        if life["error"] is not None:
            kw["error_on_missing_card"] = life["error"]
        return opt.PreComputedCardinalities(workload, path, include_cross_products=life["cross"], **kw)


PROPS = {"S32": Lookups()}
