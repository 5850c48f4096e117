"""Random relational data and random SQL queries over it (for comparing executions of the same query).

Every query has one right answer as a bag of rows (and as a sequence, when it ends in a total ORDER BY):
values avoid overflow, floating-point sums are exact, LIMIT only follows a total order, and window
functions that depend on the order inside ties are not generated."""
import datetime as dt, os, random
from decimal import Decimal as D

T = {
    "int": "INT", "long": "BIGINT", "str": "STRING", "dec": "DECIMAL(10,2)", "dbl": "DOUBLE",
    "date": "DATE", "ts": "TIMESTAMP", "bool": "BOOLEAN",
}
POOL = {
    "int": [0, 1, 2, 3, 4, 5, 7, -1, 10],
    "long": [0, 1, 2, 3, 4, 100, -3, 2**40],
    "str": ["a", "b", "c", "ab", "B", "", "zz", "é", "a b", "longer string value"],
    "dec": [D("0.00"), D("1.00"), D("1.50"), D("-2.25"), D("100.00"), D("3.00")],
    "dbl": [0.0, 1.0, 2.5, -1.5, 0.25, 100.0, 3.0],
    "date": [dt.date(2024, 1, 1), dt.date(2024, 1, 2), dt.date(2024, 2, 29), dt.date(1969, 12, 31), dt.date(2023, 12, 31)],
    "ts": [dt.datetime(2024, 1, 1), dt.datetime(2024, 1, 1, 12, 30, 15), dt.datetime(1970, 1, 1), dt.datetime(2024, 2, 29, 23, 59, 59)],
    "bool": [True, False],
}
COLS = [("a", "int"), ("b", "int"), ("l", "long"), ("s", "str"), ("d", "dec"), ("f", "dbl"), ("dd", "date"), ("ts", "ts"), ("bo", "bool")]


def make_tables(rng, sizes=(0, 1, 7, 40, 160)):
    """{name: (columns, rows)}"""
    out = {}
    for i, n in enumerate(sizes):
        cols = list(COLS)
        if rng.random() < 0.5:
            drop = rng.choice(["ts", "bo", "dd", "f", "l"])
            cols = [c for c in cols if c[0] != drop]
        nulls = {c: rng.choice([0.0, 0.1, 0.3]) for c, _ in cols}
        skew = rng.random() < 0.4
        rows = []
        for j in range(n):
            r = []
            for c, t in cols:
                if rng.random() < nulls[c]:
                    v = None
                elif c == "b":
                    v = rng.randint(0, 3 if skew else max(3, n // 3))
                elif skew and rng.random() < 0.5:
                    v = POOL[t][0]
                else:
                    v = rng.choice(POOL[t])
                r.append(v)
            rows.append(tuple(r))
        out["t%d" % i] = (cols, rows)
    return out


def write_parquet(tables, root, rng):
    """Each table as a directory of parquet files with several row groups."""
    import pyarrow as pa, pyarrow.parquet as pq
    at = {"int": pa.int32(), "long": pa.int64(), "str": pa.string(), "dec": pa.decimal128(10, 2), "dbl": pa.float64(),
          "date": pa.date32(), "ts": pa.timestamp("us", tz="UTC"), "bool": pa.bool_()}
    for name, (cols, rows) in tables.items():
        d = os.path.join(root, name)
        os.makedirs(d)
        schema = pa.schema([(c, at[t]) for c, t in cols])
        k = max(1, min(4, len(rows) // 5))
        for i in range(k):
            part = rows[i::k]
            utc = [tuple(v.replace(tzinfo=dt.timezone.utc) if isinstance(v, dt.datetime) else v for v in r) for r in part]
            tb = pa.table({c: pa.array([r[j] for r in utc], at[t]) for j, (c, t) in enumerate(cols)}, schema=schema)
            pq.write_table(tb, os.path.join(d, "part-%d.parquet" % i), row_group_size=rng.choice([3, 10, 1000]))


def view_sql(name, root):
    return "CREATE OR REPLACE TEMPORARY VIEW %s USING parquet OPTIONS (path '%s')" % (name, os.path.join(root, name))


def lit(t, v):
    if v is None:
        return "CAST(NULL AS %s)" % T[t]
    if t == "int":
        return str(v) if v >= 0 else "(%d)" % v
    if t == "long":
        return "CAST(%d AS BIGINT)" % v
    if t == "str":
        return "'%s'" % v
    if t == "dec":
        return "CAST('%s' AS DECIMAL(10,2))" % v
    if t == "dbl":
        return "CAST('%r' AS DOUBLE)" % v
    if t == "date":
        return "DATE '%s'" % v
    if t == "ts":
        return "TIMESTAMP '%s'" % v
    return "true" if v else "false"


class Gen:
    def __init__(self, rng, tables, features=()):
        self.rng, self.tables = rng, tables
        self.n = 0
        self.in_lists = set()
        self.used = set()            # features exercised by the query
        self.ctes = []               # (name, cols) in scope

    def fresh(self, p):
        self.n += 1
        return "%s%d" % (p, self.n)

    def use(self, f):
        self.used.add(f)

    # ------------------------------------------------ expressions (scope: list of (ref, type))
    def pick(self, scope, types=None):
        c = [x for x in scope if (x[1] != "other" if types is None else x[1] in types)]
        return self.rng.choice(c) if c else None

    def literal(self, t, p_null=0.05):
        return lit(t, None if self.rng.random() < p_null else self.rng.choice(POOL[t]))

    def expr(self, scope, t, depth=2):
        r = self.rng
        col = self.pick(scope, [t])
        if depth <= 0 or r.random() < 0.35:
            if col and r.random() < 0.85:
                return col[0]
            return self.literal(t)
        e = lambda tt: self.expr(scope, tt, depth - 1)
        k = r.random()
        if k < 0.14:
            self.use("case")
            n = r.randint(1, 2)
            s = "CASE " + " ".join("WHEN %s THEN %s" % (self.pred(scope, 1), e(t)) for _ in range(n))
            return s + (" ELSE %s END" % e(t) if r.random() < 0.7 else " END")
        if k < 0.22:
            self.use("coalesce")
            return "coalesce(%s, %s)" % (e(t), e(t))
        if k < 0.27:
            self.use("nullif")
            return "nullif(%s, %s)" % (e(t), e(t))
        if k < 0.32 and t != "bool":
            self.use("greatest")
            return "%s(%s, %s)" % (r.choice(["greatest", "least"]), e(t), e(t))
        if t == "int":
            k = r.randint(0, 5)
            if k == 0:
                return "(%s %s %d)" % (e("int"), r.choice(["+", "-", "*"]), r.randint(0, 9))
            if k == 1:
                return "length(%s)" % e("str")
            if k == 2:
                return "%s(%s)" % (r.choice(["year", "month", "day", "dayofweek", "quarter"]), e("date"))
            if k == 3:
                return "(%s %% %d)" % (e("int"), r.choice([2, 3, 7]))
            if k == 4:
                return "abs(%s)" % (col[0] if col else self.literal(t))
            return "datediff(%s, %s)" % (e("date"), e("date"))
        if t == "long":
            k = r.randint(0, 2)
            if k == 0:
                return "(%s + %s)" % (self.leaf(scope, "long"), self.leaf(scope, "int"))
            if k == 1:
                return "CAST(%s AS BIGINT)" % e("int")
            return "(%s * %d)" % (self.leaf(scope, "long"), r.randint(-3, 9))
        if t == "str":
            k = r.randint(0, 6)
            if k == 0:
                return "concat(%s, %s)" % (e("str"), e("str"))
            if k == 1:
                return "%s(%s)" % (r.choice(["upper", "lower", "trim", "reverse"]), e("str"))
            if k == 2:
                return "substring(%s, %d, %d)" % (e("str"), r.randint(1, 3), r.randint(0, 4))
            if k == 3:
                return "CAST(%s AS STRING)" % e(r.choice(["int", "long", "dec", "date", "bool"]))
            if k == 4:
                return "replace(%s, 'a', 'x')" % e("str")
            if k == 5:
                return "lpad(%s, %d, '*')" % (e("str"), r.randint(0, 6))
            return "(%s || '-')" % e("str")
        if t == "dec":
            k = r.randint(0, 1)
            if k == 0:
                return "CAST(%s AS DECIMAL(10,2))" % self.leaf(scope, "int")
            return "CAST(%s + %s AS DECIMAL(10,2))" % (self.leaf(scope, "dec"), self.leaf(scope, "dec"))
        if t == "dbl":
            k = r.randint(0, 3)
            if k == 0:
                return "(%s %s %s)" % (self.leaf(scope, "dbl"), r.choice(["+", "-"]), self.leaf(scope, "dbl"))
            if k == 1:
                return "CAST(%s AS DOUBLE)" % self.leaf(scope, "int")
            if k == 2:
                return "%s(%s)" % (r.choice(["abs", "floor", "ceil"]) if False else "abs", self.leaf(scope, "dbl"))
            return "(%s / 2)" % self.leaf(scope, "dbl")
        if t == "date":
            k = r.randint(0, 2)
            if k == 0:
                return "date_add(%s, %d)" % (self.leaf(scope, "date"), r.randint(-40, 40))
            if k == 1:
                return "CAST(%s AS DATE)" % self.leaf(scope, "ts")
            return "last_day(%s)" % self.leaf(scope, "date")
        if t == "ts":
            k = r.randint(0, 1)
            if k == 0:
                return "CAST(%s AS TIMESTAMP)" % self.leaf(scope, "date")
            return "date_trunc('%s', %s)" % (r.choice(["DAY", "MONTH", "HOUR"]), self.leaf(scope, "ts"))
        return "(%s)" % self.pred(scope, depth - 1)

    def leaf(self, scope, t):
        return self.expr(scope, t, 0)

    def pred(self, scope, depth=2, subq=0, ins="any"):
        """`ins`: which IN (subquery) may come here. With NULLs, DataFusion evaluates one whose unknown
        differs from false wrongly (a known finding), so these are generated as top-level conjuncts only."""
        r = self.rng
        k = r.random()
        if depth > 0 and k < 0.35:
            op = r.choice(["AND", "OR", "OR"])
            if op == "OR" and ins == "any":
                ins = "positive"
            return "(%s %s %s)" % (self.pred(scope, depth - 1, subq, ins), op, self.pred(scope, depth - 1, subq, ins))
        if depth > 0 and k < 0.43:
            return "NOT (%s)" % self.pred(scope, depth - 1, subq, "none")
        if subq > 0 and k < 0.65:
            return self.subquery_pred(scope, subq, ins)
        x = self.pick(scope)
        if x is None:
            return r.choice(["true", "1 = 1"])
        c, t = x
        k = r.random()
        if k < 0.12:
            return "%s IS %sNULL" % (c, r.choice(["", "NOT "]))
        if t == "bool" and k < 0.5:
            return c
        if k < 0.4:
            return "%s %s %s" % (c, r.choice(["=", "<>", "<", "<=", ">", ">=", "<=>"]), self.literal(t))
        if k < 0.65:
            y = self.pick([z for z in scope if z[0] != c], [t])
            if y:
                return "%s %s %s" % (c, r.choice(["=", "<>", "<", ">=", "<=>"]), y[0])
            return "%s IS NOT NULL" % c
        if k < 0.78 and c not in self.in_lists:
            self.in_lists.add(c)             # a second IN list over the same column: known finding in-lists-of-null of C09
            vs = [self.literal(t, 0.1) for _ in range(r.randint(1, 4))]
            return "%s %sIN (%s)" % (c, r.choice(["", "NOT "]), ", ".join(vs))
        if k < 0.86:
            return "%s BETWEEN %s AND %s" % (c, self.literal(t, 0), self.literal(t, 0))
        if t == "str":
            return "%s %sLIKE '%s'" % (c, r.choice(["", "NOT "]), r.choice(["a%", "%b", "%a%", "_", "", "%"]))
        return "%s %s %s" % (self.expr(scope, t, 1), r.choice(["=", "<", ">="]), self.expr(scope, t, 1))

    def subquery_pred(self, scope, subq, ins="any"):
        r = self.rng
        a = self.fresh("q")
        src, cols = self.source(0)
        inner = [("%s.%s" % (a, c), t) for c, t in cols]
        k = r.random()
        corr = None
        for _ in range(8):
            o = self.pick(scope)
            if o is None:
                break
            i = self.pick(inner, [o[1]])
            if i:
                corr = (o[0], i[0])
                break
        filt = self.pred(inner, 1)
        if k < 0.4 and corr:
            self.use("exists")
            return "%sEXISTS (SELECT 1 FROM %s AS %s WHERE %s = %s AND %s)" % (r.choice(["", "NOT "]), src, a, corr[1], corr[0], filt)
        if k < 0.8 and corr and ins != "none":
            neg = r.choice(["", "NOT "]) if ins == "any" else ""
            self.use("not-in-subquery" if neg else "in-subquery")
            return "%s %sIN (SELECT %s FROM %s AS %s WHERE %s)" % (corr[0], neg, corr[1], src, a, filt)
        x = self.pick(inner, ["int", "long", "dec", "dbl", "date", "ts", "str"])
        o = self.pick(scope, [x[1]]) if x else None
        if o:
            self.use("scalar-subquery")
            c2 = ""
            if corr and r.random() < 0.5:
                self.use("correlated-scalar")
                c2 = " AND %s = %s" % (corr[1], corr[0])
            return "%s %s (SELECT %s(%s) FROM %s AS %s WHERE %s%s)" % (o[0], r.choice(["=", "<", ">=", "<>"]), r.choice(["max", "min"]), x[0], src, a, filt, c2)
        return "EXISTS (SELECT 1 FROM %s AS %s WHERE %s)" % (src, a, filt)

    # ------------------------------------------------ relations
    def source(self, depth):
        """(SQL of a relation, its columns)"""
        r = self.rng
        if depth > 0 and r.random() < 0.45:
            q, cols = self.query(depth - 1)
            return "(%s)" % q, cols
        if self.ctes and r.random() < 0.4:
            return r.choice(self.ctes)
        if r.random() < 0.13:
            return self.using_join()
        if r.random() < 0.05:
            self.use("values")
            t = r.choice(["int", "str", "date"])
            return "(VALUES %s)" % ", ".join("(%s, %s)" % (self.literal("int"), self.literal(t)) for _ in range(r.randint(1, 4))), [("col1", "int"), ("col2", t)]
        if r.random() < 0.03:
            self.use("range")
            return "range(%d)" % r.choice([0, 3, 20]), [("id", "long")]
        names = sorted(self.tables)
        n = r.choice(names[1:] if r.random() < 0.9 else names)
        return n, list(self.tables[n][0])

    def key_source(self, names):
        """A small relation with key columns of the given names (some never null) and one more column."""
        r = self.rng
        v, k = self.fresh("v"), r.random()
        if k < 0.2:
            return "(VALUES %s) AS %s(%s)" % (", ".join("(%s)" % ", ".join(str(r.randint(0, 4)) for _ in range(len(names) + 1)) for _ in range(r.randint(1, 5))), self.fresh("z"), ", ".join(names + [v])), v, "int"
        if k < 0.55:
            e = [r.choice(["id", "id", "id + 1", "id * 2", "id % 3", "id % 2"]) for _ in names]
            return "(SELECT %s, CAST(id AS INT) AS %s FROM range(%d))" % (", ".join("CAST(%s AS INT) AS %s" % x for x in zip(e, names)), v, r.choice([1, 2, 4, 9])), v, "int"
        t = r.choice(sorted(self.tables)[1:4])
        c = r.choice([c for c in self.tables[t][0] if c[1] in ("int", "str", "date", "dec")])
        if k < 0.75:
            return "(SELECT %s, count(*) AS %s FROM %s GROUP BY %s)" % (", ".join("%s AS %s" % x for x in zip(["a", "b"], names)), v, t, ", ".join(["a", "b"][:len(names)])), v, "long"
        return "(SELECT %s, %s AS %s FROM %s)" % (", ".join("%s AS %s" % x for x in zip(["a", "b"], names)), c[0], v, t), v, c[1]

    def using_join(self):
        """A join USING columns, or a natural one: the key columns appear once."""
        r = self.rng
        names = [self.fresh("k") for _ in range(r.choice([1, 1, 2]))]
        (s1, v1, t1), (s2, v2, t2) = self.key_source(names), self.key_source(names)
        kind = r.choice(["JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "FULL JOIN", "FULL JOIN", "LEFT SEMI JOIN", "LEFT ANTI JOIN"])
        a, b = self.fresh("x"), self.fresh("x")
        self.use("using:" + kind.lower())
        one = kind in ("LEFT SEMI JOIN", "LEFT ANTI JOIN")
        cols = [(k, "int") for k in names] + [(v1, t1)] + ([] if one else [(v2, t2)])
        wrap = lambda s, x: "(SELECT * FROM %s) AS %s" % (s, x)
        if not one and r.random() < 0.3:
            self.use("natural-join")
            j = "%s NATURAL %s %s" % (wrap(s1, a), kind, wrap(s2, b))
        else:
            j = "%s %s %s USING (%s)" % (wrap(s1, a), kind, wrap(s2, b), ", ".join(names))
        if r.random() < 0.4:
            return "(SELECT * FROM %s)" % j, cols
        if r.random() < 0.3 and not one:
            f = self.fresh("q")
            return "(SELECT %s, %s.%s AS %s FROM %s)" % (", ".join(c for c, _ in cols), b, names[0], f, j), cols + [(f, "int")]
        return "(SELECT %s FROM %s WHERE %s)" % (", ".join(c for c, _ in cols), j, self.pred(cols, 1)), cols

    def from_clause(self, depth):
        """(FROM text, scope)"""
        r = self.rng
        src, cols = self.source(depth)
        a = self.fresh("x")
        text = "%s AS %s" % (src, a)
        scope = [("%s.%s" % (a, c), t) for c, t in cols]
        n = r.choice([0, 0, 0, 1, 1, 1, 2, 2, 3]) if depth > 0 else r.choice([0, 0, 1])
        big = 1
        for _ in range(n):
            src2, cols2 = self.source(depth - 1 if depth > 1 else 0)
            b = self.fresh("x")
            scope2 = [("%s.%s" % (b, c), t) for c, t in cols2]
            kind = r.choice(["JOIN", "JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT SEMI JOIN", "LEFT ANTI JOIN", "CROSS JOIN"])
            if kind == "CROSS JOIN":
                big += 1
                if big > 2:
                    kind = "JOIN"
            self.use(kind.lower())
            if kind == "CROSS JOIN":
                small = "(SELECT * FROM %s WHERE false)" % src2 if r.random() < 0.1 else src2
                text += " CROSS JOIN %s AS %s" % (small, b)
            else:
                conds, o = [], None
                for _ in range(r.choice([1, 1, 2])):
                    if not (o and r.random() < 0.4):
                        o = self.pick(scope, ["int", "long", "str", "date", "dec"])
                    i = self.pick(scope2, [o[1]]) if o else None
                    if not i and o and o[1] in ("int", "long"):
                        i = self.pick(scope2, ["int", "long"])
                    if i:
                        conds.append("%s %s %s" % (o[0], "<=>" if r.random() < 0.1 else "=", i[0]))
                if not conds:
                    o, i = self.pick(scope), None
                    if o:
                        i = self.pick(scope2, [o[1]])
                    conds.append("%s = %s" % (o[0], i[0]) if i else "true")
                if r.random() < 0.3:
                    self.use("join-residual")
                    conds.append(self.pred(scope + scope2, 1))
                text += " %s %s AS %s ON %s" % (kind, src2, b, " AND ".join(conds))
            if kind not in ("LEFT SEMI JOIN", "LEFT ANTI JOIN"):
                scope = scope + scope2
        if depth > 0 and r.random() < 0.07:
            self.use("lateral-view")
            g = self.fresh("g")
            arr = r.choice(["array(1, 2)", "array(1, NULL, 3)", "sequence(1, 3)"])
            text += " LATERAL VIEW %s(%s) %s AS e%s" % (r.choice(["explode", "explode_outer"]), arr, g, g)
            scope = scope + [("%s.e%s" % (g, g), "int")]
        return text, scope

    def agg(self, scope, allow_distinct=True):
        r = self.rng
        k = r.random()
        if k < 0.15:
            return "count(*)", "long"
        flt = ""
        if r.random() < 0.15:
            self.use("agg-filter")
            flt = " FILTER (WHERE %s)" % self.pred(scope, 1)
        if k < 0.3:
            x = self.pick(scope) or ("1", "int")
            if r.random() < 0.35 and allow_distinct:
                self.use("count-distinct")
                return "count(DISTINCT %s)%s" % (x[0], flt), "long"
            return "count(%s)%s" % (x[0], flt), "long"
        if k < 0.5:
            x = self.pick(scope, ["int"])
            if x:
                d = "DISTINCT " if r.random() < 0.2 and allow_distinct else ""
                return "sum(%s%s)%s" % (d, x[0], flt), "long"
        if k < 0.56:
            x = self.pick(scope, ["dbl"])
            if x:
                return "sum(%s)%s" % (x[0], flt), "dbl"
        if k < 0.62:
            x = self.pick(scope, ["int", "dbl"])
            if x:
                return "avg(%s)%s" % (x[0], flt), "dbl"
        if k < 0.68:
            x = self.pick(scope, ["dec"])
            if x:
                return "CAST(sum(%s)%s AS DECIMAL(10,2))" % (x[0], flt), "dec"
        if k < 0.73:
            x = self.pick(scope, ["bool"])
            if x:
                return "%s(%s)%s" % (r.choice(["bool_and", "bool_or"]), x[0], flt), "bool"
        if k < 0.79:
            x = self.pick(scope, ["int", "str"])
            if x:
                self.use("collect")
                return "sort_array(collect_%s(%s)%s)" % (r.choice(["list", "set"]), x[0], flt), "other"
        x = self.pick(scope, ["int", "long", "str", "dec", "dbl", "date", "ts"])
        if not x:
            return "count(*)", "long"
        return "%s(%s)%s" % (r.choice(["min", "max"]), x[0], flt), x[1]

    def grouping(self):
        """CUBE, ROLLUP or GROUPING SETS over a base table, with plain keys that are neither constant nor sorted
        (known finding C09 grouping-sets-over-constant-keys)."""
        r = self.rng
        name = r.choice(sorted(self.tables))
        a = self.fresh("x")
        scope = [("%s.%s" % (a, c), t) for c, t in self.tables[name][0]]
        keys = r.sample([x for x in scope], 2)
        items = [k + " AS c%d" % i for i, (k, _) in enumerate(keys)]
        cols = [("c%d" % i, t) for i, (_, t) in enumerate(keys)]
        for _ in range(r.randint(1, 3)):
            e, t = self.agg(scope)
            cols.append(("c%d" % len(items), t))
            items.append("%s AS %s" % (e, cols[-1][0]))
        if r.random() < 0.4:
            k = r.choice(keys)[0]
            e = r.choice(["grouping(%s)" % k, "grouping_id()"])
            items.append("CAST(%s AS BIGINT) AS c%d" % (e, len(items)))
            cols.append(("c%d" % len(cols), "long"))
        kind = r.choice(["rollup", "cube", "grouping-sets"])
        self.use(kind)
        ks = ", ".join(k for k, _ in keys)
        by = {"rollup": "ROLLUP (%s)" % ks, "cube": "CUBE (%s)" % ks, "grouping-sets": "GROUPING SETS ((%s), (%s)%s)" % (ks, keys[0][0], r.choice(["", ", ()"]))}[kind]
        where = " WHERE %s %s" % (r.choice(scope)[0], r.choice(["IS NOT NULL", "IS NULL OR true"])) if r.random() < 0.3 else ""
        # no row for the empty grouping set of an empty input: known finding C09 grouping-sets-of-nothing
        return "SELECT %s FROM %s AS %s%s GROUP BY %s HAVING count(*) > %d" % (", ".join(items), name, a, where, by, r.choice([0, 0, 1])), cols

    def select(self, depth):
        """(SQL, columns) of one SELECT block."""
        r = self.rng
        if r.random() < 0.06:
            return self.grouping()
        frm, scope = self.from_clause(depth)
        where = " WHERE " + self.pred(scope, 2, subq=1 if depth > 0 and r.random() < 0.5 else 0) if r.random() < 0.55 else ""
        items, cols = [], []

        def add(e, t):
            c = "c%d" % len(items)
            items.append("%s AS %s" % (e, c))
            cols.append((c, t))
        tail = ""
        k = r.random()
        if k < 0.38:
            self.use("group-by")
            keys = []
            for _ in range(r.choice([0, 1, 1, 2, 3])):
                t = r.choice(["int", "str", "long", "date", "dec", "bool", "dbl", "ts"])
                x = self.pick(scope, [t])
                if not x:
                    continue
                keys.append((x[0] if r.random() < 0.7 else self.expr(scope, t, 1), t))
            seen = set()
            keys = [q for q in keys if not (q[0] in seen or seen.add(q[0])) and any(s[0] in q[0] for s in scope)]
            for e, t in keys:
                add(e, t)
            for _ in range(r.randint(1, 3)):
                add(*self.agg(scope))
            if keys:
                tail = " GROUP BY " + ", ".join(e for e, _ in keys)
                if not any(e == x[0] for e, _ in keys for x in scope):
                    # no row for keys that simplify to constants (known finding C09 constant-keys-of-nothing)
                    tail += " HAVING count(*) > 0"
                elif r.random() < 0.2:
                    self.use("having")
                    tail += " HAVING count(*) %s %d" % (r.choice([">", "<=", "="]), r.randint(0, 3))
        else:
            for _ in range(r.randint(1, 5)):
                t = r.choice(list(T))
                if r.random() < 0.6:
                    x = self.pick(scope)
                    if x:
                        add(*x)
                        continue
                add(self.expr(scope, t, 2), t)
            if k < 0.55:
                self.use("window")
                for _ in range(r.randint(1, 2)):
                    add(*self.window(scope))
            elif k < 0.6 and depth > 0:
                self.use("select-scalar-subquery")
                a = self.fresh("q")
                src, c2 = self.source(0)
                x = self.pick([("%s.%s" % (a, c), t) for c, t in c2], ["int", "str", "date"])
                if x:
                    add("(SELECT max(%s) FROM %s AS %s WHERE %s)" % (x[0], src, a, self.pred([("%s.%s" % (a, c), t) for c, t in c2], 1)), x[1])
        distinct = ""
        if r.random() < 0.12 and not any(t == "other" for _, t in cols):
            self.use("distinct")
            distinct = "DISTINCT "
        return "SELECT %s%s FROM %s%s%s" % (distinct, ", ".join(items), frm, where, tail), cols

    def window(self, scope):
        r = self.rng
        part = [x[0] for x in (self.pick(scope, ["int", "str", "bool", "date"]) for _ in range(r.choice([0, 1, 1, 2]))) if x]
        order = self.pick(scope, ["int", "long", "date", "dec"]) or self.pick(scope) or ("1", "lit")
        desc = r.choice(["", " DESC", " ASC NULLS LAST", " DESC NULLS FIRST"])
        pt = "PARTITION BY %s " % ", ".join(part) if part else ""
        k = r.random()
        if k < 0.35:
            self.use("rank")
            return "%s() OVER (%sORDER BY %s%s)" % (r.choice(["rank", "dense_rank"]), pt, order[0], desc), "int"
        x = self.pick(scope, ["int"])
        fn, t = r.choice([("count(%s)", "long"), ("sum(%s)", "long"), ("min(%s)", "int"), ("max(%s)", "int")]) if x else ("count(*)", "long")
        f = fn % x[0] if x else fn
        k = r.random()
        if k < 0.35:
            return "%s OVER (%s)" % (f, pt.strip()), t
        if k < 0.75 or order[1] != "int":
            # the default RANGE frame gives peers the same value
            self.use("window-running")
            return "%s OVER (%sORDER BY %s%s)" % (f, pt, order[0], desc), t
        self.use("window-range-frame")
        lo, hi = r.choice([("1 PRECEDING", "1 FOLLOWING"), ("2 PRECEDING", "CURRENT ROW"), ("UNBOUNDED PRECEDING", "1 FOLLOWING"), ("CURRENT ROW", "UNBOUNDED FOLLOWING")])
        return "%s OVER (%sORDER BY %s%s RANGE BETWEEN %s AND %s)" % (f, pt, order[0], desc.replace(" NULLS LAST", "").replace(" NULLS FIRST", ""), lo, hi), t

    def query(self, depth):
        r = self.rng
        k = r.random()
        if depth > 0 and k < 0.16:
            op = r.choice(["UNION ALL", "UNION ALL", "UNION", "INTERSECT", "EXCEPT", "INTERSECT ALL", "EXCEPT ALL"])
            self.use(op.lower())
            t = [r.choice(["int", "str", "long", "date", "dec", "dbl"]) for _ in range(r.randint(1, 3))]

            def side():
                frm, scope = self.from_clause(depth - 1)
                w = " WHERE " + self.pred(scope, 1) if r.random() < 0.5 else ""
                return "SELECT %s FROM %s%s" % (", ".join("%s AS c%d" % (self.expr(scope, x, 1), i) for i, x in enumerate(t)), frm, w)
            return "(%s) %s (%s)" % (side(), op, side()), [("c%d" % i, x) for i, x in enumerate(t)]
        q, cols = self.select(depth)
        if k > 0.9 and not any(t in ("other",) for _, t in cols):
            self.use("order-limit")
            lim = "LIMIT %d" % r.choice([0, 1, 3, 10])
            if r.random() < 0.25:
                lim += " OFFSET %d" % r.choice([0, 1, 5])
            order = ", ".join(c + r.choice(["", " DESC", " NULLS LAST"]) for c, _ in cols)
            return "SELECT * FROM (%s) ORDER BY %s %s" % (q, order, lim), cols
        return q, cols

    def join_graph(self):
        """Inner joins of 3 to 5 relations over a graph of equalities: several between the same two relations, on repeated
        columns, in cycles; with residual conditions and sometimes an outer, semi or anti join last."""
        r = self.rng
        self.use("join-graph")
        n = r.choice([3, 3, 3, 4, 4, 5])
        names = sorted(self.tables, key=lambda t: len(self.tables[t][1]))
        small, big = names[2:-1] or names, names[-1]
        rels, used_big = [], False
        for _ in range(n):
            t = r.choice(small + small[-1:] * 3)
            if not used_big and r.random() < 0.5:
                t, used_big = big, True
            elif r.random() < 0.03:
                t = names[0]
            cols = self.tables[t][0]
            if r.random() < 0.2:
                c = r.choice([c for c, ty in cols if ty in ("int", "str", "date")])
                rest = [(x, ty) for x, ty in cols if ty in ("int", "long", "dec", "date") and x != c][:2]
                src = "(SELECT %s, %s FROM %s GROUP BY %s)" % (c, ", ".join("max(%s) AS %s" % (x, x) for x, _ in rest), t, c)
                cols = [(c, dict(cols)[c])] + rest
            elif r.random() < 0.12:
                a = self.fresh("y")
                src = "(SELECT * FROM %s AS %s WHERE %s)" % (t, a, self.pred([("%s.%s" % (a, c), ty) for c, ty in cols], 1))
            else:
                src = t
            rels.append((src, self.fresh("j"), cols))
        keyed = ("int", "long", "str", "date")

        def edge(i, j, out=None):
            (_, a, ca), (_, b, cb) = rels[i], rels[j]
            o = out or r.choice([c for c in ca if c[1] in keyed])
            m = [c for c in cb if c[1] == o[1]] or [c for c in cb if c[1] in ("int", "long") and o[1] in ("int", "long")]
            if not m:
                ok = [(x, y) for x in ca for y in cb if x[1] == y[1] and x[1] in keyed]
                if not ok:
                    return None, "%s.%s IS NOT NULL" % (b, cb[0][0])
                o, c = r.choice(ok)
            else:
                c = r.choice(m)
            s = "%s.%s = %s.%s" % ((a, o[0], b, c[0]) if r.random() < 0.7 else (b, c[0], a, o[0]))
            return o, s
        text, scope, where = "%s AS %s" % rels[0][:2], [("%s.%s" % (rels[0][1], c), t) for c, t in rels[0][2]], []
        style = r.choice(["on", "on", "where", "mixed"])
        for j in range(1, n):
            conds, last, li = [], None, None
            for _ in range(r.choice([1, 1, 1, 2, 2, 3])):
                i = li if last and r.random() < 0.6 else r.randrange(j)
                last, e = edge(i, j, last if i == li and r.random() < 0.5 else None)
                li = i
                conds.append(e)
            sc = [("%s.%s" % (rels[j][1], c), t) for c, t in rels[j][2]]
            scope = scope + sc
            if r.random() < 0.1:
                self.use("join-residual")
                conds.append(self.pred(scope, 1))
            if style == "where" or style == "mixed" and r.random() < 0.5:
                where += conds[1:] if style == "mixed" else conds
                text += (", %s AS %s" % rels[j][:2]) if style == "where" else " JOIN %s AS %s ON %s" % (rels[j][:2] + (conds[0],))
            else:
                text += " JOIN %s AS %s ON %s" % (rels[j][:2] + (" AND ".join(conds),))
        if r.random() < 0.25 and style == "on":
            t, b = r.choice(small), self.fresh("j")
            kind = r.choice(["LEFT JOIN", "LEFT SEMI JOIN", "LEFT ANTI JOIN"])
            self.use(kind.lower())
            sc = [("%s.%s" % (b, c), ty) for c, ty in self.tables[t][0]]
            o = self.pick(scope, keyed)
            i = self.pick(sc, [o[1]])
            text += " %s %s AS %s ON %s" % (kind, t, b, "%s = %s" % (o[0], i[0]) if i else "true")
            if kind == "LEFT JOIN":
                scope = scope + sc
        num = [c for c, t in scope if t in ("int", "long", "dec")]
        aggs = ["count(*)"] + ["%s(%s)" % (r.choice(["sum", "count", "min", "max"]), c) for c in r.sample(num, min(len(num), 4))]
        w = " WHERE " + " AND ".join(where) if where else ""
        if r.random() < 0.4:
            g = self.pick(scope, ("int", "str", "date", "bool"))[0]
            return "SELECT %s AS g, %s FROM %s%s GROUP BY %s" % (g, ", ".join("%s AS c%d" % x[::-1] for x in enumerate(aggs)), text, w, g), False
        return "SELECT %s FROM %s%s" % (", ".join("%s AS c%d" % x[::-1] for x in enumerate(aggs)), text, w), False

    def statement(self, depth=2):
        """(SQL, ordered): a whole statement; ordered if the sequence of rows is determined."""
        r = self.rng
        ctes = []
        if r.random() < 0.2:
            self.use("cte")
            for _ in range(r.randint(1, 2)):
                n = self.fresh("cte")
                q, cols = self.query(1)
                ctes.append("%s AS (%s)" % (n, q))
                self.ctes.append((n, cols))
        q, cols = self.query(depth)
        ordered = False
        if r.random() < 0.25 and not any(t == "other" for _, t in cols):
            self.use("order-by")
            q = "SELECT * FROM (%s) ORDER BY %s" % (q, ", ".join(c + r.choice(["", " DESC", " NULLS LAST", " ASC NULLS FIRST"]) for c, _ in cols))
            ordered = True
            if r.random() < 0.5:
                q += " LIMIT %d" % r.choice([0, 1, 5, 20])
        if ctes:
            q = "WITH %s %s" % (", ".join(ctes), q)
        return q, ordered
