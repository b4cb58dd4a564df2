"""Generator of SQL queries over the data set of `common.dataset` (tables r, s, t, u)."""
from __future__ import annotations

COLUMNS = {"r": ["id", "a", "b", "name"], "s": ["id", "r_id", "c"], "t": ["id", "s_id", "d"], "u": ["id", "r_id", "e"]}
FKS = [("s", "r_id", "r", "id"), ("t", "s_id", "s", "id"), ("u", "r_id", "r", "id")]
SMALL = {"a", "b", "c", "d", "e"}


def num_cols(tab):
    return [c for c in COLUMNS[tab] if c != "name"]


def tables(rng, n, *, self_joins=True):
    """Connected tables with aliases: [[table, alias, [[my column, other index, other column], ...]], ...]."""
    out = []
    counts: dict = {}

    def name(tab):
        counts[tab] = counts.get(tab, 0) + 1
        if counts[tab] == 1 and rng.random() < 0.5:
            return ""
        return tab + rng.choice(["", "_", "x"]) + str(counts[tab])

    first = rng.choice("rstu")
    out.append([first, name(first), []])
    while len(out) < n:
        at = rng.randrange(len(out))
        tab = out[at][0]
        options = [(a, ac, bc) for a, ac, b, bc in FKS if b == tab] + [(b, bc, ac) for a, ac, b, bc in FKS if a == tab]
        if self_joins and rng.random() < 0.25:
            mine = rng.choice(num_cols(tab))
            other, oc, mc = tab, mine, mine
        elif rng.random() < 0.2:
            other = rng.choice("rstu")
            oc, mc = rng.choice(num_cols(other)), rng.choice(num_cols(tab))
        else:
            other, oc, mc = rng.choice(options)
        if not self_joins and any(t[0] == other for t in out):
            if len({t[0] for t in out}) == 4 or rng.random() < 0.05:
                break
            continue
        conds = [[oc, at, mc]]
        if rng.random() < 0.15:
            k = rng.randrange(len(out))
            conds.append([rng.choice(num_cols(other)), k, rng.choice(num_cols(out[k][0]))])
        out.append([other, name(other), conds])
    return out


def ref(tabs, i):
    return tabs[i][1] or tabs[i][0]


def column(rng, tabs, numeric=False):
    i = rng.randrange(len(tabs))
    c = rng.choice(num_cols(tabs[i][0]) if numeric else COLUMNS[tabs[i][0]])
    return f"{ref(tabs, i)}.{c}", c


def literal(rng, c):
    return str(rng.randrange(-1, 9)) if c in SMALL else str(rng.randrange(0, 22))


def predicate(rng, tabs, depth=2):
    kinds = ["cmp"] * 6 + ["between", "in", "notin", "null", "like", "cross", "arith", "flip", "coalesce", "case", "math"]
    if depth:
        kinds += ["or", "or", "not", "not", "and", "exists", "insub", "scalar", "notinsub", "bool", "quant", "deep", "case2"]
    kind = rng.choice(kinds)
    col, c = column(rng, tabs, numeric=kind not in ("null", "like"))
    v = literal(rng, c)
    match kind:
        case "cmp":
            return f"{col} {rng.choice(['=', '<>', '<', '<=', '>', '>=', '!='])} {v}"
        case "between":
            return f"{col} {rng.choice(['', 'NOT '])}BETWEEN {v} AND {int(v) + rng.randrange(6)}"
        case "in" | "notin":
            vals = ", ".join(literal(rng, c) for _ in range(rng.randrange(1, 5)))
            return f"{col} {'NOT IN' if kind == 'notin' else 'IN'} ({vals})"
        case "null":
            return f"{col} IS {rng.choice(['', 'NOT '])}NULL"
        case "like":
            names = [f"{ref(tabs, i)}.name" for i in range(len(tabs)) if tabs[i][0] == "r"]
            if not names:
                return f"{col} <> {v}"
            return f"{rng.choice(names)} {rng.choice(['LIKE', 'NOT LIKE', '=', '<>'])} {chr(39) + rng.choice(LIKES) + chr(39)}"
        case "cross":
            other, _ = column(rng, tabs, numeric=True)
            return f"{col} {rng.choice(['<', '<=', '<>', '='])} {other}"
        case "arith":
            other, _ = column(rng, tabs, numeric=True)
            return f"{col} {rng.choice(['+', '-', '*'])} {rng.choice([other, '2', '1'])} {rng.choice(['<', '>', '<>'])} {rng.randrange(12)}"
        case "flip":
            return f"{v} {rng.choice(['<', '>=', '='])} {col}"
        case "math":
            return f"{math(rng, tabs, 2)} {rng.choice(['<', '>', '<>', '=', '>='])} {math(rng, tabs, 1)}"
        case "bool":
            a, b = predicate(rng, tabs, 0), predicate(rng, tabs, 0)
            return rng.choice([f"({a}) = ({b})", f"({a}) IS NULL", f"(({a}) OR {b}) IS NOT NULL", f"({a}) <> ({b})", f"(NOT {a}) = ({b})"])
        case "case2":
            return (f"CASE WHEN {predicate(rng, tabs, 1)} THEN {math(rng, tabs, 1)} WHEN {predicate(rng, tabs, 0)} THEN {v} "
                    f"{rng.choice(['', 'ELSE ' + math(rng, tabs, 1)])} END {rng.choice(['<', '>', '='])} {rng.randrange(9)}")
        case "quant":
            sub = [[rng.choice("rstu"), "sub" + str(depth), []]]
            sc = rng.choice(num_cols(sub[0][0]))
            where = f" WHERE {predicate(rng, sub, 0)}" if rng.random() < 0.7 else ""
            return f"{col} {rng.choice(['= ANY', '< ANY', '>= ANY', '<> ALL', '< ALL', '>= ALL'])} (SELECT {sub[0][1]}.{sc} FROM {sub[0][0]} AS {sub[0][1]}{where})"
        case "deep":
            # a subquery over several tables, which may be called as the outer ones
            sub = tables(rng, rng.choice([1, 2, 2, 3]))
            names = [x[1] or x[0] for x in sub]
            if any(ref(tabs, i) in names for i in range(len(tabs))) and rng.random() < 0.5:
                sub = [[x[0], "d" + str(k), x[2]] for k, x in enumerate(sub)]
            on = [f"{ref(sub, i)}.{mc} = {ref(sub, k)}.{oc}" for i in range(len(sub)) for mc, k, oc in sub[i][2]]
            free = [f"{ref(tabs, i)}" for i in range(len(tabs)) if ref(tabs, i) not in [ref(sub, k) for k in range(len(sub))]]
            if free and rng.random() < 0.5:
                i = rng.choice([i for i in range(len(tabs)) if ref(tabs, i) in free])
                on.append(f"{ref(tabs, i)}.{rng.choice(num_cols(tabs[i][0]))} {rng.choice(['=', '<'])} {column(rng, sub, True)[0]}")
            on.append(predicate(rng, sub, depth - 1))
            src = ", ".join(x[0] + (f" {x[1]}" if x[1] else "") for x in sub)
            what, _ = column(rng, sub, numeric=True)
            if rng.random() < 0.5:
                return f"{rng.choice(['', 'NOT '])}EXISTS (SELECT {rng.choice(['1', '*', what])} FROM {src} WHERE {' AND '.join(on)})"
            return f"{col} IN (SELECT {what} FROM {src} WHERE {' AND '.join(on)})"
        case "coalesce":
            return f"COALESCE({col}, {rng.randrange(5)}) {rng.choice(['=', '<', '>'])} {v}"
        case "case":
            return f"CASE WHEN {col} < {v} THEN 1 ELSE 0 END = {rng.randrange(2)}"
        case "or":
            return "(" + " OR ".join(predicate(rng, tabs, depth - 1) for _ in range(rng.randrange(2, 4))) + ")"
        case "and":
            return "(" + " AND ".join(predicate(rng, tabs, depth - 1) for _ in range(2)) + ")"
        case "not":
            return f"NOT ({predicate(rng, tabs, depth - 1)})"
        case "exists":
            sub = [[rng.choice("rstu"), "sub" + str(depth), []]]
            inner = predicate(rng, sub, 0)
            sc = rng.choice(num_cols(sub[0][0]))
            return f"{rng.choice(['', 'NOT '])}EXISTS (SELECT 1 FROM {sub[0][0]} {rng.choice(['AS ', ''])}{sub[0][1]} WHERE {sub[0][1]}.{sc} = {col} AND {inner})"
        case "insub" | "notinsub":
            sub = [[rng.choice("rstu"), "sub" + str(depth), []]]
            sc = rng.choice(num_cols(sub[0][0]))
            where = f" WHERE {predicate(rng, sub, 0)}" if rng.random() < 0.7 else ""
            return f"{col} {'NOT IN' if kind == 'notinsub' else 'IN'} (SELECT {sub[0][1]}.{sc} FROM {sub[0][0]} AS {sub[0][1]}{where})"
        case "scalar":
            sub = [[rng.choice("rstu"), "sub" + str(depth), []]]
            sc = rng.choice(num_cols(sub[0][0]))
            where = f" WHERE {predicate(rng, sub, 0)}" if rng.random() < 0.7 else ""
            return f"{col} {rng.choice(['<', '>', '='])} (SELECT {rng.choice(['MIN', 'MAX', 'COUNT'])}({sub[0][1]}.{sc}) FROM {sub[0][0]} AS {sub[0][1]}{where})"
    raise AssertionError(kind)


def math(rng, tabs, depth):
    kind = rng.choice(["col", "col", "const"] if not depth else ["col", "bin", "bin", "bin", "neg", "fn", "const", "case", "cast"])
    match kind:
        case "col":
            return column(rng, tabs, numeric=True)[0]
        case "const":
            return str(rng.choice([0, 1, 2, 3, 7, -1, -4]))
        case "bin":
            a, b = math(rng, tabs, depth - 1), math(rng, tabs, depth - 1)
            a = f"({a})" if " " in a and rng.random() < 0.6 else a
            b = f"({b})" if (" " in b or b[0] == "-") and rng.random() < 0.8 else b
            return f"{a} {rng.choice(['+', '-', '*', '-', '*'])} {b}"
        case "neg":
            a = math(rng, tabs, depth - 1)
            return f"-({a})" if " " in a or a[0] == "-" or rng.random() < 0.3 else f"-{a}"
        case "fn":
            return f"{rng.choice(['ABS', 'ABS', 'COALESCE'])}({math(rng, tabs, depth - 1)})"
        case "case":
            return f"CASE WHEN {predicate(rng, tabs, 0)} THEN {math(rng, tabs, depth - 1)} ELSE {math(rng, tabs, depth - 1)} END"
        case "cast":
            a = math(rng, tabs, depth - 1)
            return f"CAST({a} AS integer)" if rng.random() < 0.5 else f"({a})::integer"
    raise AssertionError(kind)


LIKES = ["n%", "n1", "%2", "n_", "_0", "x''y", " limit ", "%", "N1"]


def select_list(rng, tabs):
    """(items, group-by columns, order-by expressions or None). Every order is total over the selected values."""
    kind = rng.choice(["count", "agg", "cols", "cols", "cols", "cols", "star", "tabstar", "group", "group", "distinct", "expr", "dupes"])
    cols = [column(rng, tabs)[0] for _ in range(rng.randrange(1, 4))]
    cols = list(dict.fromkeys(cols))
    nums = [column(rng, tabs, numeric=True)[0] for _ in range(2)]
    match kind:
        case "count":
            return ["COUNT(*)"], [], None
        case "agg":
            f = [f"{rng.choice(['MIN', 'MAX', 'SUM', 'COUNT'])}({c})" for c in nums + [math(rng, tabs, 2)]] + [
                f"COUNT(*) FILTER (WHERE {predicate(rng, tabs, 0)})", f"MAX({nums[0]}) - MIN({nums[1]}) * 2", f"COUNT(*) - (COUNT({nums[0]}) - 1)"]
            f += [f"COUNT(DISTINCT {nums[0]})"]
            items = rng.sample(f, rng.randrange(1, 4))
            return [x + (f" AS m{i}" if rng.random() < 0.5 else "") for i, x in enumerate(items)], [], None
        case "cols":
            return [c + (f" AS o{i}" if rng.random() < 0.3 else "") for i, c in enumerate(cols)], [], cols
        case "star":
            return ["*"], [], None
        case "tabstar":
            return [f"{ref(tabs, rng.randrange(len(tabs)))}.*"], [], None
        case "group":
            items = cols + [rng.choice(["COUNT(*)", f"MAX({nums[0]})", f"SUM({nums[1]})", f"COUNT({nums[0]})"]) + rng.choice(["", " AS agg"])]
            return items, cols, cols
        case "distinct":
            return ["DISTINCT"] + cols, [], cols
        case "expr":
            e = [f"{nums[0]} + 1 AS e0", f"CASE WHEN {nums[0]} > 3 THEN 'big' WHEN {nums[0]} = 2 THEN 'two' ELSE 'small' END AS e1",
                 f"ABS({nums[1]} - 4) AS e2", f"COALESCE({nums[0]}, -1) AS e3", f"{nums[0]} * ({nums[1]} + 2) AS e4", "7 AS e5", "'x''y' AS e6", "NULL AS e7",
                 f"{math(rng, tabs, 3)} AS f1", f"{math(rng, tabs, 2)} AS f2", f"{cols[0]} || '-' || {nums[1]} AS f3", f"{math(rng, tabs, 3)} AS f4",
                 f"({predicate(rng, tabs, 1)}) AS f5", f"(SELECT COUNT(*) FROM r AS scal WHERE scal.a = {nums[0]}) AS f6",
                 f"SUM({nums[0]}) OVER (PARTITION BY {nums[1]}) AS w1", f"COUNT(*) OVER (PARTITION BY {cols[0]}) AS w2",
                 f"MAX({nums[0]}) OVER (ORDER BY {nums[1]} DESC, {nums[0]}) - 1 AS w3",
                 f"-{nums[0]} AS e8", f"({nums[0]} - {nums[1]}) - 1 AS e9", f"{nums[0]} - ({nums[1]} - 1) AS e10"]
            return rng.sample(e, rng.randrange(1, 4)), [], None
        case "dupes":
            return cols + cols[:1], [], cols
    raise AssertionError(kind)


def query(rng, *, spj=False, n_max=5, extras=True):
    """One query as a JSON-able description, see `render`."""
    n = rng.choices([1, 2, 3, 4, n_max], [1, 3, 4, 3, 1])[0]
    tabs = tables(rng, n)
    items, group, order = select_list(rng, tabs)
    q = {"tabs": tabs, "as": rng.random() < 0.5, "items": items, "group": group,
         "where": [predicate(rng, tabs, 0 if spj else 2) for _ in range(rng.choice([0, 1, 1, 2, 3]))], "style": "implicit"}
    if spj:
        q["items"], q["group"] = rng.choice([["*"], ["COUNT(*)"], ["COUNT(*)"], [column(rng, tabs)[0]]]), []
        return q
    if rng.random() < 0.35:
        q["style"] = "explicit"
        q["on"] = [predicate(rng, tabs[:i + 1], 1) if rng.random() < 0.15 else None for i in range(len(tabs))]
        q["kinds"] = [rng.choice(["JOIN", "JOIN", "INNER JOIN", "LEFT JOIN", "LEFT OUTER JOIN", "RIGHT JOIN", "FULL JOIN"]) for _ in tabs]
    if group and rng.random() < 0.5:
        q["having"] = rng.choice(["COUNT(*) > 1", "COUNT(*) >= 1 AND COUNT(*) < 9", f"MIN({column(rng, tabs, True)[0]}) < 5"])
    if order is not None and rng.random() < 0.5:
        q["order"] = [c + rng.choice(["", " ASC", " DESC", "", " DESC NULLS LAST", " NULLS FIRST"]) for c in order]
        if not group and rng.random() < 0.6:
            q["limit"] = rng.choice([None, 0, 1, 2, 5, 50])
            q["offset"] = rng.choice([None, None, 0, 1, 3])
    elif rng.random() < 0.08:
        q["limit"] = 0
    if extras and rng.random() < 0.12:
        q["cte"] = [rng.choice("rstu"), rng.choice(["cte0", "w"])]
        q["cte"].append(predicate(rng, [[q["cte"][0], "", []]], 0))
    if extras and rng.random() < 0.1:
        q["derived"] = rng.randrange(len(tabs))
        q["derived_where"] = predicate(rng, [[tabs[q["derived"]][0], "", []]], 0)
    if extras and "order" not in q and "limit" not in q and items[0] not in ("*",) and not items[0].endswith(".*") and rng.random() < 0.12:
        # the branches have the same columns
        branches = [{**{k: v for k, v in q.items() if k != "cte"}, "where": [predicate(rng, tabs, 1)]} for _ in range(rng.choice([1, 1, 2]))]
        if order is not None and not group:
            for b in branches:
                if rng.random() < 0.3:
                    b["order"], b["limit"] = list(order), rng.choice([0, 1, 3])
        q["union"] = [[rng.choice(["UNION", "UNION ALL", "EXCEPT", "INTERSECT"]), b] for b in branches]
        q["nest"] = rng.random() < 0.5
        if rng.random() < 0.4:
            q["order"] = [str(i + 1) for i in range(len([x for x in items if x != "DISTINCT"]))]
            q["limit"] = rng.choice([None, 0, 2, 5])
    return q


def render(q) -> str:
    tabs = q["tabs"]
    head = ""
    names = [t[0] for t in tabs]
    if q.get("cte"):
        base, name, pred = q["cte"]
        head = f"WITH {name} AS (SELECT * FROM {base} WHERE {pred}) "
        # the common table expression replaces the first occurrence of its base table
        k = names.index(base) if base in names else None
        if k is not None:
            names[k] = name
    parts = []
    where = list(q["where"])

    def source(i):
        t = tabs[i]
        alias = t[1] or (t[0] if names[i] != t[0] or q.get("derived") == i else "")
        src = names[i]
        if q.get("derived") == i:
            src = f"(SELECT * FROM {names[i]} WHERE {q['derived_where'].replace(t[0] + '.', names[i] + '.')})"
        return src + (f" AS {alias}" if alias and (q["as"] or q.get("derived") == i) else f" {alias}" if alias else "")

    def conds(i):
        return [f"{ref(tabs, i)}.{mc} = {ref(tabs, k)}.{oc}" if (i + k) % 2 else f"{ref(tabs, k)}.{oc} = {ref(tabs, i)}.{mc}" for mc, k, oc in tabs[i][2]]

    if q["style"] == "implicit":
        parts.append(", ".join(source(i) for i in range(len(tabs))))
        where = [c for i in range(len(tabs)) for c in conds(i)] + where
    else:
        parts.append(source(0))
        for i in range(1, len(tabs)):
            parts.append(f"{q['kinds'][i]} {source(i)} ON {' AND '.join(conds(i) + [p for p in [q.get('on') and q['on'][i]] if p])}")
    items = list(q["items"])
    distinct = ""
    if items[0] == "DISTINCT":
        distinct, items = "DISTINCT ", items[1:]
    sql = f"{head}SELECT {distinct}{', '.join(items)} FROM {' '.join(parts)}"
    if where:
        sql += " WHERE " + " AND ".join(where)
    if q["group"]:
        sql += " GROUP BY " + ", ".join(q["group"])
    if q.get("having"):
        sql += " HAVING " + q["having"]
    if q.get("union"):
        parts = []
        for op, branch in q["union"]:
            text = render(branch)
            parts.append((op, f"({text})" if branch.get("order") else text))
        if len(parts) == 2 and q.get("nest"):
            sql += f" {parts[0][0]} ({parts[0][1]} {parts[1][0]} {parts[1][1]})"
        else:
            sql += "".join(f" {op} {text}" for op, text in parts)
    if q.get("order"):
        sql += " ORDER BY " + ", ".join(q["order"])
    if q.get("limit") is not None:
        sql += f" LIMIT {q['limit']}"
    if q.get("offset") is not None:
        sql += f" OFFSET {q['offset']}"
    return sql


def ordered(q) -> bool:
    return bool(q.get("order"))


def simpler(q):
    """Smaller variants of a query."""
    for key in ("union", "cte", "derived", "having", "limit", "offset", "order"):
        if q.get(key) is not None:
            yield {k: v for k, v in q.items() if k != key and not (key == "order" and k in ("limit", "offset"))}
    for i in range(len(q["where"])):
        yield {**q, "where": q["where"][:i] + q["where"][i + 1:]}
    if any(q.get("on") or []):
        yield {**q, "on": None}
    if q["style"] != "implicit":
        yield {**q, "style": "implicit"}
    if len(q["items"]) > 1 and q["items"][0] != "DISTINCT" and not q["group"] and not q.get("union"):
        for i in range(len(q["items"])):
            yield {**q, "items": q["items"][:i] + q["items"][i + 1:]}
