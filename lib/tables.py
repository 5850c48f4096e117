"""Random operation histories on a lakehouse table, with a sequential model of its rows."""
from decimal import Decimal
import re
from rel import *

ARR = Ty("arr", "ARRAY<INT>", [[], [1], [1, 2], [3, None]], lambda v: "CAST(array(%s) AS ARRAY<INT>)" % ", ".join("NULL" if x is None else str(x) for x in v), cmp=False)
STRUCT = Ty("struct", "STRUCT<a: INT, b: STRING>", [(1, "x"), (2, None), (None, "y")],
            lambda v: "named_struct('a', %s, 'b', %s)" % (lit(INT, v[0]), lit(STRING, v[1])), cmp=False)
MAP = Ty("map", "MAP<STRING, INT>", [{"k": 1}, {"k": 2, "l": 3}],
         lambda v: "map(%s)" % ", ".join("%s, %s" % (lit(STRING, a), lit(INT, b)) for a, b in v.items()), cmp=False)
NESTED = [ARR, STRUCT, MAP]


class OpFailed(Exception):
    pass


UNSUPPORTED = re.compile(r"not supported|unsupported|not implemented|not_impl|NotImplemented|This feature is not", re.I)


class History:
    """One table and the model of what it should contain."""

    def __init__(self, rng, fmt, name, path, types, part_types, feature):
        self.rng, self.fmt, self.name, self.path = rng, fmt, name, path
        self.feature = feature            # dict of table properties and flags
        n = rng.randint(1, 4)
        self.cols = [("id", INT), ("k", INT)]
        pool = list(types)
        rng.shuffle(pool)
        for i, t in enumerate(pool[:n]):
            self.cols.append(("c%d_%s" % (i, t.name), t))
        self.parts = []
        if rng.random() < feature.get("p_part", 0.5):
            ts = [t for t in part_types]
            for j in range(1 if rng.random() < 0.7 else 2):
                t = rng.choice(ts)
                nm = "p%d_%s" % (j, t.name)
                self.cols.append((nm, t))
                self.parts.append(nm)
        if feature.get("odd_names") and rng.random() < 0.5:
            ren = {}
            for i in range(2, len(self.cols)):
                if rng.random() < 0.5:
                    ren[self.cols[i][0]] = self.cols[i][0] + rng.choice([" sp", "-d", "é"])
            self.cols = [(ren.get(c, c), t) for c, t in self.cols]
            self.parts = [ren.get(c, c) for c in self.parts]
        self.rows = []
        self.seq = 0
        self.ops = []
        self.constraint = None       # (sql, fn)
        self.notnull = set()
        self.by_path = False         # a table in the session catalog has the schema of its definition
        self.dv = feature.get("props", {}).get("delta.enableDeletionVectors") == "true"
        self.p_special = rng.choice([0.0, 0.15, 0.4])

    # ---------------------------------------------------- values
    def new_row(self, fixed=None):
        self.seq += 1
        r = []
        for c, t in self.cols:
            if c == "id":
                v = self.seq
            elif c == "k":
                v = self.rng.choice([0, 1, 2, 3, 4, None]) if self.rng.random() < 0.9 else self.rng.randint(0, 20)
            else:
                v = gen_value(self.rng, t, p_null=0.2, p_special=self.p_special)
            if c in self.notnull and v is None:
                v = self.rng.choice(t.pool)
            r.append(v)
        if fixed:
            names = [c for c, _ in self.cols]
            for c, v in fixed.items():
                r[names.index(c)] = v
        return tuple(r)

    def new_rows(self, lo=1, hi=6):
        rows = [self.new_row() for _ in range(self.rng.randint(lo, hi))]
        if self.constraint:
            rows = [r if self.constraint[1](self.asdict(r)) is True else self.fix(r) for r in rows]
        return rows

    def fix(self, r):
        names = [c for c, _ in self.cols]
        r = list(r)
        r[names.index("k")] = 1
        return tuple(r)

    def asdict(self, r):
        return {c: v for (c, _), v in zip(self.cols, r)}

    def scalar_cols(self):
        return [(c, t) for c, t in self.cols if t not in NESTED]

    def pred(self, depth=2, qual="", only=None):
        return gen_pred(self.rng, [(c, t) for c, t in (only or self.scalar_cols())], depth, qual)

    def target(self):
        return self.name

    def collist(self):
        return ", ".join("`%s`" % c for c, _ in self.cols)

    def create_sql(self, location=True, clause=None):
        body = ", ".join("`%s` %s%s" % (c, t.sql, " NOT NULL" if c in self.notnull else "") for c, t in self.cols)
        s = "CREATE TABLE %s (%s) USING %s" % (self.name, body, self.fmt)
        if self.parts or clause:
            s += " PARTITIONED BY (%s)" % (clause or ", ".join("`%s`" % p for p in self.parts))
        if location:
            s += " LOCATION '%s'" % self.path
        props = self.feature.get("props")
        if props:
            s += " TBLPROPERTIES (%s)" % ", ".join("'%s' = '%s'" % kv for kv in sorted(props.items()))
        return s

    # ---------------------------------------------------- execution
    def run(self, ex, what, sql_or_fn, model, may_fail=None):
        """Executes one operation; model() gives the new rows. may_fail: pattern of expected errors, with no effect."""
        self.ops.append(what)
        try:
            if callable(sql_or_fn):
                sql_or_fn(ex)
            else:
                ex.sql(sql_or_fn).collect()
        except Exception as e:
            msg = str(e)
            self.ops[-1] += "  -- failed: " + msg[:200].replace("\n", " ")
            if may_fail and re.search(may_fail, msg, re.I | re.S):
                return "expected-failure"
            if UNSUPPORTED.search(msg):
                return "unsupported"
            raise OpFailed(msg)
        if may_fail == "must":
            raise OpFailed("the operation should have failed but succeeded")
        self.rows = model()
        return "ok"

    # ---------------------------------------------------- operations
    def op_insert(self, ex):
        rows = self.new_rows()
        sql = "INSERT INTO %s (%s) %s" % (self.target(), self.collist(), values_sql(self.cols, rows))
        return self.run(ex, sql, sql, lambda: self.rows + rows)

    def op_insert_many(self, ex):
        """One file (per partition) with more rows than some of the servers put into a batch."""
        if len(self.rows) > 120:
            return self.op_delete(ex)
        rows = self.new_rows(15, 60)
        sql = "INSERT INTO %s (%s) SELECT /*+ COALESCE(1) */ * FROM %s" % (self.target(), self.collist(), values_sql(self.cols, rows, "v"))
        return self.run(ex, sql, sql, lambda: self.rows + rows)

    def op_insert_select(self, ex):
        """Rows that come from several partitions."""
        rows = self.new_rows(3, 8)
        n = self.rng.randint(2, 4)
        sql = "INSERT INTO %s (%s) SELECT /*+ REPARTITION(%d) */ * FROM %s" % (self.target(), self.collist(), n, values_sql(self.cols, rows, "v"))
        return self.run(ex, sql, sql, lambda: self.rows + rows)

    def op_self_insert(self, ex):
        p = self.pred(1)
        keep = [r for r in self.rows if p(self.asdict(r)) is True]
        if len(self.rows) > 60:
            return self.op_insert(ex)
        sql = "INSERT INTO %s SELECT %s FROM %s WHERE %s" % (self.target(), self.collist(), self.target(), p.sql)
        return self.run(ex, sql, sql, lambda: self.rows + keep)

    def df(self, ex, rows, cols=None):
        cols = cols or self.cols
        return ex.sql("SELECT * FROM " + values_sql(cols, rows, "v"))

    def op_df_append(self, ex):
        rows = self.new_rows(1, 8)
        n = self.rng.randint(1, 4)

        def f(ex):
            w = self.df(ex, rows).repartition(n).write.format(self.fmt).mode("append")
            w.save(self.path)
        return self.run(ex, "df append (%d files) %s" % (n, values_sql(self.cols, rows)), f, lambda: self.rows + rows)

    def op_overwrite(self, ex):
        rows = self.new_rows(0 if self.rng.random() < 0.1 else 1, 6)
        if not rows:
            sql = "INSERT OVERWRITE TABLE %s SELECT %s FROM %s WHERE false" % (self.target(), self.collist(), self.target())
        else:
            sql = "INSERT OVERWRITE TABLE %s %s" % (self.target(), values_sql(self.cols, rows))
        return self.run(ex, sql, sql, lambda: rows)

    def op_df_overwrite(self, ex):
        rows = self.new_rows(1, 6)

        def f(ex):
            self.df(ex, rows).repartition(self.rng.randint(1, 3)).write.format(self.fmt).mode("overwrite").save(self.path)
        return self.run(ex, "df overwrite " + values_sql(self.cols, rows), f, lambda: rows)

    def op_replace_where(self, ex):
        for _ in range(20):
            p = self.pred(1, only=[(c, t) for c, t in self.cols if c in self.parts] if self.parts and self.rng.random() < 0.5 else None)
            if all(p(self.asdict(r)) is not None for r in self.rows):
                break            # null: known finding replace-where-null-rows
        else:
            return self.op_delete(ex)
        rows = [r for r in self.new_rows(3, 10) if p(self.asdict(r)) is True]
        if not rows:
            return self.op_delete(ex)
        kept = [r for r in self.rows if p(self.asdict(r)) is not True]
        if self.rng.random() < 0.5:
            sql = "INSERT INTO TABLE %s REPLACE WHERE %s SELECT * FROM %s" % (self.target(), p.sql, values_sql(self.cols, rows, "v"))
            return self.run(ex, sql, sql, lambda: kept + rows)

        def f(ex):
            self.df(ex, rows).write.format(self.fmt).mode("overwrite").option("replaceWhere", p.sql).save(self.path)
        return self.run(ex, "df replaceWhere %s: %s" % (p.sql, values_sql(self.cols, rows)), f, lambda: kept + rows)

    def op_delete(self, ex):
        k = self.rng.random()
        if self.parts and k < 0.25:
            p = self.pred(1, only=[(c, t) for c, t in self.cols if c in self.parts])
        elif k < 0.4 and len(self.rows) > 12:
            ids = sorted(r[0] for r in self.rows if r[0] is not None) or [0]
            i = self.rng.randrange(len(ids))
            lo, hi = ids[i], ids[min(len(ids) - 1, i + self.rng.randint(0, 6))]
            p = Pred("`id` BETWEEN %d AND %d" % (lo, hi), lambda r: None if r["id"] is None else lo <= r["id"] <= hi)
        elif k < 0.55:
            ids = [r[0] for r in self.rows] or [1]
            some = self.rng.sample(ids, min(len(ids), self.rng.randint(1, 3)))
            p = Pred("`id` IN (%s)" % ", ".join(map(str, some)), lambda r: r["id"] in some)
        else:
            p = self.pred(2)
        sql = "DELETE FROM %s WHERE %s" % (self.target(), p.sql)
        return self.run(ex, sql, sql, lambda: [r for r in self.rows if p(self.asdict(r)) is not True])

    def op_delete_all(self, ex):
        sql = "DELETE FROM %s WHERE true" % self.target()
        return self.run(ex, sql, sql, lambda: [])

    def encoded_partition(self):
        """Whether a data file may sit in a directory whose name needs URL encoding."""
        names = [c for c, _ in self.cols]
        for p in self.parts:
            if re.search(r"[^A-Za-z0-9_]", p):
                return True
            i = names.index(p)
            for r in self.rows:
                if r[i] is not None and re.search(r"[^A-Za-z0-9_.-]", str(r[i])):
                    return True
        return False

    def op_merge(self, ex):
        if self.feature.get("merge_encoded_path") is False and self.encoded_partition():
            return self.op_delete(ex)     # known finding C03 merge-encoded-partition-path
        rng = self.rng
        names = [c for c, _ in self.cols]
        key = "id" if rng.random() < 0.6 else "k"
        src = []
        used = set()
        ids = [r[0] for r in self.rows if r[0] is not None]
        for _ in range(rng.randint(1, 6)):
            if key == "id":
                v = rng.choice(ids) if ids and rng.random() < 0.6 else None
                if v is None:
                    self.seq += 1
                    v = self.seq
            else:
                v = rng.choice([0, 1, 2, 3, 4, 5, 6, None])
            if v is not None and v in used:
                continue
            used.add(v)
            src.append(self.new_row({key: v}))
        extra = None
        on = "t.`%s` = s.`%s`" % (key, key)
        if rng.random() < 0.25:
            extra = self.pred(1, "t.")
            on += " AND (%s)" % extra.sql

        def matches(t, s):
            d, e = self.asdict(t), self.asdict(s)
            if d[key] is None or e[key] is None or d[key] != e[key]:
                return False
            return extra is None or extra(d) is True
        clauses = []

        def cond(sides):
            if rng.random() < 0.5:
                return None, "", True
            if sides == "ts":
                sides = rng.choice(["t", "s"])
            p = self.pred(1, sides + ".")
            return (sides, p), " AND " + p.sql, False
        kinds = []
        upd_ok = self.feature.get("merge_update", True) and not self.dv
        nm = rng.choice([0, 1, 1, 2])
        for i in range(nm):
            act = rng.choice(["update", "update*", "delete"]) if upd_ok else "delete"
            c, s, total = cond("ts")
            kinds.append(("matched", act, c, s))
            if total:
                break
        for i in range(rng.choice([0, 1, 1, 2])):
            c, s, total = cond("s")
            kinds.append(("notmatched", rng.choice(["insert*", "insert"]), c, s))
            if total:
                break
        if self.feature.get("merge_by_source", True):
            for i in range(rng.choice([0, 0, 1, 2])):
                act = rng.choice(["update", "delete"]) if upd_ok else "delete"
                c, s, total = cond("t")
                kinds.append(("bysource", act, c, s))
                if total:
                    break
        if not kinds:
            kinds.append(("notmatched", "insert*", None, ""))
        parts = []
        plan = []
        free = [(c, t) for c, t in self.cols if c != "id" and c not in self.notnull]
        for kind, act, c, s in kinds:
            head = {"matched": "WHEN MATCHED%s", "notmatched": "WHEN NOT MATCHED%s", "bysource": "WHEN NOT MATCHED BY SOURCE%s"}[kind] % s
            sets = {}
            if act == "update*":
                parts.append(head + " THEN UPDATE SET *")
            elif act == "delete":
                parts.append(head + " THEN DELETE")
            elif act == "insert*":
                parts.append(head + " THEN INSERT *")
            elif act == "insert":
                parts.append(head + " THEN INSERT (%s) VALUES (%s)" % (self.collist(), ", ".join("s.`%s`" % c2 for c2, _ in self.cols)))
            else:
                for c2, t2 in rng.sample(free, min(len(free), rng.randint(1, 2))):
                    r = rng.random()
                    if r < 0.4 and kind == "matched":
                        sets[c2] = ("s.`%s`" % c2, lambda t, s_, c2=c2: s_[c2])
                    elif r < 0.55 and c2 == "k":
                        sets[c2] = ("t.`id` * 2", lambda t, s_: None if t["id"] is None else t["id"] * 2)
                    else:
                        v = gen_value(rng, t2, 0.15, self.p_special)
                        sets[c2] = (lit(t2, v), lambda t, s_, v=v: v)
                parts.append(head + " THEN UPDATE SET " + ", ".join("t.`%s` = %s" % (c2, e) for c2, (e, _) in sets.items()))
            plan.append((kind, act, c, sets))
        sql = "MERGE INTO %s AS t USING (SELECT * FROM %s) AS s ON %s %s" % (self.target(), values_sql(self.cols, src, "v"), on, " ".join(parts))

        def model():
            out = []
            hit = [False] * len(src)
            for t in self.rows:
                ms = [i for i, s in enumerate(src) if matches(t, s)]
                for i in ms:
                    hit[i] = True
                assert len(ms) <= 1
                s = src[ms[0]] if ms else None
                want = "matched" if ms else "bysource"
                d, e = self.asdict(t), self.asdict(s) if s else None
                res = t
                for kind, act, c, sets in plan:
                    if kind != want:
                        continue
                    if c is not None and c[1](d if c[0] == "t" else e) is not True:
                        continue
                    if act == "delete":
                        res = None
                    elif act == "update*":
                        res = s
                    else:
                        res = tuple(sets[n][1](d, e) if n in sets else v for n, v in zip(names, t))
                    break
                if res is not None:
                    out.append(res)
            for i, s in enumerate(src):
                if hit[i]:
                    continue
                e = self.asdict(s)
                for kind, act, c, sets in plan:
                    if kind == "notmatched" and (c is None or c[1](e) is True):
                        out.append(s)
                        break
            return out
        # with a constraint, the merged rows may break it; then the statement must fail without effect
        if self.constraint or self.notnull:
            new = model()
            bad = [r for r in new if r not in self.rows and (
                (self.constraint and self.constraint[1](self.asdict(r)) is not True)
                or any(self.asdict(r)[c] is None for c in self.notnull))]
            if bad:
                return self.run(ex, sql, sql, lambda: self.rows, may_fail=r"constraint|null|VIOLATE")
        return self.run(ex, sql, sql, model)

    def op_merge_ambiguous(self, ex):
        """Two source rows match one target row with an update: the statement must fail and change nothing."""
        ids = [r[0] for r in self.rows if r[0] is not None]
        if not ids or self.dv or not self.feature.get("merge_update", True):
            return self.op_delete(ex)
        v = self.rng.choice(ids)
        src = [self.fix(self.new_row({"id": v})) for _ in range(2)] + [self.fix(self.new_row())]
        sql = "MERGE INTO %s AS t USING (SELECT * FROM %s) AS s ON t.id = s.id WHEN MATCHED THEN UPDATE SET * WHEN NOT MATCHED THEN INSERT *" % (
            self.target(), values_sql(self.cols, src, "v"))
        return self.must_fail(ex, sql)

    def must_fail(self, ex, sql):
        self.ops.append("must fail: " + sql)
        try:
            ex.sql(sql).collect()
        except Exception as e:
            self.ops[-1] += "  -- failed: " + str(e)[:150].replace("\n", " ")
            return "expected-failure"
        raise OpFailed("a statement that must fail succeeded: " + sql)

    def op_bad_insert(self, ex):
        """An insert whose evaluation fails for one of its rows: nothing may be written."""
        rows = self.new_rows(2, 5)
        n = self.rng.randint(1, 3)
        sel = ", ".join("CAST(CASE WHEN `id` = %d THEN raise_error('boom') ELSE `id` END AS INT)" % rows[-1][0] if c == "id" else "`%s`" % c
                        for c, _ in self.cols)
        sql = "INSERT INTO %s (%s) SELECT /*+ REPARTITION(%d) */ %s FROM %s" % (self.target(), self.collist(), n, sel, values_sql(self.cols, rows, "v"))
        return self.must_fail(ex, sql)
