"""C03: a Delta table equals the sequential history of its operations (and every version stays readable)."""
import traceback
import json, os, random, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from rel import *
import tables, deltalog
from tables import *

C = Check("C03", rule="A case is one operation history on one table (random features, types, partitioning and operations, from the seed). "
          "It is non-trivial if at least three operations changed the table; distinct by its operation texts.")
TYPES_ = [LONG, SHORT, BYTE, DOUBLE, FLOAT, DOUBLE_NAN, FLOAT_NAN, STRING, BOOL, DATE, TS, NTZ, DEC, DEC38, BINARY, ARR, STRUCT, MAP]
# Delta reads an empty partition string as null; extreme doubles make directory names that are too long
P_STRING = Ty("string", "STRING", [v for v in STRING.pool if v != ""], STRING.lit, special=[v for v in STRING.special if len(v.encode()) < 60])
P_DOUBLE = Ty("double", "DOUBLE", DOUBLE.pool, DOUBLE.lit, special=[v for v in DOUBLE.special if v not in (1e308, 5e-324)])
PARTS_ = [INT, LONG, P_STRING, BOOL, DATE, TS, DEC, SHORT, P_DOUBLE]


def features(rng):
    props = {}
    f = {"props": props, "merge_encoded_path": False}
    if rng.random() < 0.35:
        props["delta.enableDeletionVectors"] = "true"
    k = rng.random()
    if k < 0.2:
        props["delta.columnMapping.mode"] = "name"
        f["odd_names"] = True
    elif k < 0.35:
        props["delta.columnMapping.mode"] = "id"
        f["odd_names"] = True
    if rng.random() < 0.6:
        props["delta.checkpointInterval"] = str(rng.choice([1, 2, 3, 4]))
        if rng.random() < 0.35:
            props["delta.checkpointPolicy"] = "v2"
        if rng.random() < 0.35:
            props["delta.checkpoint.writeStatsAsStruct"] = "true"
            # (deletion vectors over struct-only statistics: see probe dv-over-struct-stats)
            if rng.random() < 0.4 and "delta.enableDeletionVectors" not in props:
                props["delta.checkpoint.writeStatsAsJson"] = "false"
    if rng.random() < 0.25:
        props["delta.enableInCommitTimestamps"] = "true"
    if rng.random() < 0.25:
        props["delta.writeChecksumFile.enabled"] = "true"
    if rng.random() < 0.25:
        props["delta.logCompactionInterval"] = str(rng.choice([2, 3]))
    if rng.random() < 0.2:
        props["delta.dataSkippingNumIndexedCols"] = str(rng.choice([0, 1, 2]))
    return f


class DeltaHistory(History):
    def schema_sync(self):
        pass

    def op_merge_schema(self, ex):
        if len(self.cols) >= 9 or self.notnull or self.constraint or not self.by_path:
            return self.op_insert(ex)
        t = self.rng.choice([LONG, STRING, DOUBLE, DATE, DEC, STRUCT, ARR])
        name = "x%d_%s" % (len(self.ops), t.name)
        old = list(self.cols)
        # Delta appends new columns at the end
        self.cols = old + [(name, t)]
        rows = self.new_rows(2, 4)
        rows[0] = rows[0][:-1] + (None,)        # never NULL: known finding merge-schema-not-null

        def f(ex):
            self.df(ex, rows).write.format("delta").mode("append").option("mergeSchema", "true").save(self.path)
        try:
            r = self.run(ex, "df append mergeSchema +%s %s" % (name, values_sql(self.cols, rows)), f,
                         lambda: [x + (None,) for x in self.rows] + rows)
        except OpFailed:
            self.cols = old
            raise
        if r != "ok":
            self.cols = old
        return r

    def op_overwrite_schema(self, ex):
        if self.notnull or self.constraint or not self.by_path:
            return self.op_df_overwrite(ex)
        old = list(self.cols), list(self.parts)
        cand = [(c, t) for c, t in self.cols if c in ("id", "k")]
        cand += [("y%d_%s" % (len(self.ops), t.name), t) for t in self.rng.sample([LONG, P_STRING, P_DOUBLE, DATE, DEC, TS], 2)]
        self.cols = cand
        self.parts = [cand[-1][0]] if self.rng.random() < 0.4 else []
        rows = self.new_rows(1, 5)
        parts = list(self.parts)

        def f(ex):
            w = self.df(ex, rows).write.format("delta").mode("overwrite").option("overwriteSchema", "true")
            if parts:
                w = w.partitionBy(*parts)
            w.save(self.path)
        try:
            r = self.run(ex, "df overwrite overwriteSchema partitionBy=%s %s" % (parts, values_sql(self.cols, rows)), f, lambda: rows)
        except OpFailed:
            self.cols, self.parts = old
            raise
        if r != "ok":
            self.cols, self.parts = old
        return r

    def op_props(self, ex):
        if self.by_path:
            return self.op_delete(ex)
        k = self.rng.random()
        if k < 0.3:
            p = ("delta.checkpointInterval", str(self.rng.choice([1, 2, 5])))
        elif k < 0.6 and "delta.checkpoint.writeStatsAsJson" not in self.feature["props"]:
            p = ("delta.enableDeletionVectors", "false" if self.dv else "true")
        else:
            p = ("user.note", "n%d" % len(self.ops))
        sql = "ALTER TABLE %s SET TBLPROPERTIES ('%s' = '%s')" % (self.target(), p[0], p[1])
        r = self.run(ex, sql, sql, lambda: self.rows)
        if r == "ok" and p[0] == "delta.enableDeletionVectors":
            self.dv = p[1] == "true"
        return r

    def op_constraint(self, ex):
        if self.by_path:
            return self.op_merge(ex)
        if self.constraint:
            rows = self.new_rows(1, 3)
            names = [c for c, _ in self.cols]
            bad = list(rows[-1])
            bad[names.index("k")] = self.rng.choice([-100, -101])
            rows = rows[:-1] + [tuple(bad)]
            return self.must_fail(ex, "INSERT INTO %s (%s) %s" % (self.target(), self.collist(), values_sql(self.cols, rows)))
        sql = "ALTER TABLE %s ADD CONSTRAINT kpos CHECK (`k` > -50 OR `k` IS NULL)" % self.target()
        fn = lambda r: or3(cmp3(">", r["k"], -50), r["k"] is None)
        r = self.run(ex, sql, sql, lambda: self.rows)
        if r == "ok":
            self.constraint = ("k", fn)
        return r

    OPS = [("insert", 5), ("insert_many", 2), ("insert_select", 3), ("self_insert", 1), ("df_append", 3), ("overwrite", 2), ("df_overwrite", 1), ("replace_where", 3),
           ("delete", 8), ("delete_all", 0.5), ("merge", 9), ("merge_ambiguous", 1), ("bad_insert", 1), ("merge_schema", 1.5),
           ("overwrite_schema", 0.6), ("props", 1.5), ("constraint", 1)]


def canon_rows(rows):
    return bag(rows)


def fresh_name(ex, h):
    return h.name


def read_table(ex, h, how):
    if how == "sql":
        return [tuple(r) for r in ex.sql("SELECT * FROM %s" % h.target()).collect()]
    if how == "path":
        return [tuple(r) for r in ex.read.format("delta").load(h.path).collect()]
    return [tuple(r) for r in ex.sql("SELECT * FROM delta.`%s`" % h.path).collect()]


def one(idx, servers, nops):
    rng = random.Random("C03-%d-%d" % (SEED, idx))
    path = os.path.join(scratch(), "t%d" % idx)
    f = features(rng)
    h = DeltaHistory(rng, "delta", "t%d" % idx, path, TYPES_, PARTS_, f)
    sess = [connect(s) for s in rng.sample(servers, 2)]
    ident = {"history": idx, "seed": SEED, "props": f["props"], "cols": [(c, t.sql) for c, t in h.cols], "partitions": h.parts}

    def fail(kind, **kw):
        C.violation("history-%s" % kind, dict(ident, kind=kind, ops=h.ops[-40:], **kw))

    if rng.random() < 0.2:
        h.notnull.add("id")
    h.by_path = rng.random() < 0.5
    create = h.create_sql()
    h.ops.append(create)
    log_dir = os.path.join(path, "_delta_log")
    versions = {}
    changed = 0
    try:
        sess[0].sql(create).collect()
        if h.by_path:
            # the catalog entry has no schema of its own: it follows the table's log
            sess[0].sql("DROP TABLE %s" % h.name).collect()
            sess[0].sql("CREATE TABLE %s USING delta LOCATION '%s'" % (h.name, path)).collect()
        sess[1].sql("CREATE TABLE %s USING delta LOCATION '%s'" % (h.name, path)).collect()

        def snap(ex):
            vs = deltalog.Table(path).versions()
            last = vs[-1]
            if last not in versions:
                for v in vs:
                    if v not in versions and v != last:
                        # an operation that needs several commits: only its last one is specified here
                        versions[v] = None
                versions[last] = (list(h.rows), [c for c, _ in h.cols])
                return True
            return False

        snap(None)
        pool = [o for o, w in DeltaHistory.OPS for _ in range(int(w * 2))]
        for step in range(nops):
            ex = sess[0] if rng.random() < 0.7 else sess[1]
            op = rng.choice(pool) if step else rng.choice(["insert", "insert_select", "df_append", "insert_many", "insert_many"])
            before = deltalog.Table(path).versions()[-1]
            rows_before = h.rows
            try:
                res = getattr(h, "op_" + op)(ex)
            except OpFailed as e:
                fail("op-failed:" + op, error=str(e)[:1500])
                return
            C.count("op_%s_%s" % (op, res))
            after = deltalog.Table(path).versions()[-1]
            if res != "ok" and after != before:
                fail("failed-op-committed:" + op, before=before, after=after)
                return
            if res == "ok" and bag(rows_before) != bag(h.rows):
                changed += 1
                if after == before:
                    fail("no-new-version:" + op, before=before)
                    return
            snap(ex)
            reader = rng.choice(sess)
            how = rng.choice(["sql", "path", "ident"])
            C.count("reads_" + how)
            got = read_table(reader, h, how)
            if bag(got) != bag(h.rows):
                fail("rows:" + op, how=how, same_session=reader is ex, diff=bag_diff(bag(h.rows), bag(got)))
                return
            C.count("reads")
            if rng.random() < 0.3:
                p = h.pred(2)
                ident["last_filter"] = p.sql
                want = [r for r in h.rows if p(h.asdict(r)) is True]
                got = [tuple(r) for r in reader.sql("SELECT * FROM %s WHERE %s" % (h.target(), p.sql)).collect()]
                if bag(got) != bag(want):
                    fail("filter", where=p.sql, diff=bag_diff(bag(want), bag(got)))
                    return
                n = reader.sql("SELECT count(*), count(`k`), sum(`id`) FROM %s WHERE %s" % (h.target(), p.sql)).collect()[0]
                exp = (len(want), sum(r[1] is not None for r in want), sum(r[0] for r in want if r[0] is not None) if any(r[0] is not None for r in want) else None)
                if tuple(n) != exp:
                    fail("filtered-aggregate", where=p.sql, expected=exp, got=tuple(n))
                    return
        # every version, through SQL and through the independent reader
        tbl = deltalog.Table(path)
        for v, snapv in sorted(versions.items()):
            if snapv is None:
                C.count("unspecified_versions")
                continue
            rows, names = snapv
            try:
                st = tbl.replay(v)
                got = tbl.rows(st)
            except Exception as e:
                fail("independent-reader", version=v, error="%s: %s" % (type(e).__name__, e))
                return
            if [x["name"] for x in tbl.schema(st)] != names:
                fail("independent-schema", version=v, expected=names, got=[x["name"] for x in tbl.schema(st)])
                return
            if bag(got) != bag(rows):
                fail("independent-rows", version=v, diff=bag_diff(bag(rows), bag(got)))
                return
            C.count("versions_by_independent_reader")
        pick = [v for v, s in versions.items() if s is not None]
        rng.shuffle(pick)
        for v in pick[:5]:
            rows, names = versions[v]
            ex = rng.choice(sess)
            how = rng.randint(0, 1)
            if how == 0:
                df = ex.sql("SELECT * FROM %s VERSION AS OF %d" % (h.target(), v))
            else:
                df = ex.read.format("delta").option("versionAsOf", str(v)).load(path)
            got = [tuple(r) for r in df.collect()]
            if bag(got) != bag(rows):
                fail("time-travel", version=v, how=how, diff=bag_diff(bag(rows), bag(got)))
                return
            if df.columns != names:
                fail("time-travel-schema", version=v, expected=names, got=df.columns)
                return
            C.count("versions_by_time_travel")
        # by timestamp: the latest version whose commit time is not after the given one
        if f["props"].get("delta.enableInCommitTimestamps") != "true" and len(pick) >= 2:
            base = 1700000000
            vs = tbl.versions()
            # commit times are changed in a copy that no session has read before
            copy = path + "_ts"
            shutil.copytree(path, copy)
            for v in vs:
                p = os.path.join(copy, "_delta_log", "%020d.json" % v)
                os.utime(p, (base + v * 10, base + v * 10))
            for _ in range(2):
                v = rng.choice(pick)
                off = rng.choice([0, 5, 9])
                ts = time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(base + v * 10 + off))
                rows, names = versions[v]
                got = [tuple(r) for r in sess[0].sql("SELECT * FROM delta.`%s` TIMESTAMP AS OF '%s'" % (copy, ts)).collect()]
                if bag(got) != bag(rows):
                    fail("timestamp-travel", version=v, timestamp=ts, diff=bag_diff(bag(rows), bag(got)))
                    return
                C.count("versions_by_timestamp")
        C.case(json.dumps(h.ops[1:], default=str), nontrivial=changed >= 3,
               sample={"props": f["props"], "ops": [o[:160] for o in h.ops[:8]], "rows_at_end": len(h.rows), "versions": len(versions)} if idx % 9 == 0 else None)
        for k, v in f["props"].items():
            C.observe("properties", "%s=%s" % (k, v))
        for c, t in h.cols:
            C.observe("types", t.sql)
    except Exception as e:
        fail("unexpected-error", error="%s: %s" % (type(e).__name__, err_text(e)), where="".join(l for l in traceback.format_exc().splitlines(True) if "checks/c" in l or "lib/" in l and "python3" not in l)[-700:], log=sorted(os.listdir(log_dir)) if os.path.isdir(log_dir) else None)
    finally:
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(path, ignore_errors=True)
        shutil.rmtree(path + "_ts", ignore_errors=True)
        for s in sess:
            try:
                s.stop()
            except Exception:
                pass


def probe(server, sig, stmts, query, want):
    """A fixed history; its last query must answer as stated."""
    s = connect(server)
    path = os.path.join(scratch(), "probe_" + re.sub("[^a-z0-9]", "_", sig))
    try:
        for q in stmts:
            if isinstance(q, tuple):
                q, opts = q
                s.sql(q).write.format("delta").mode("append").options(**opts).save(path)
            else:
                run_sql(s, q.replace("$PATH", path))
        got = [tuple(r) for r in run_sql(s, query.replace("$PATH", path))]
        if bag(got) != bag(want):
            C.violation(sig, {"statements": stmts, "query": query, "expected": want, "got": got})
    except Exception as e:
        C.violation(sig, {"statements": stmts, "query": query, "error": err_text(e)})
    finally:
        s.stop()
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(path, ignore_errors=True)


def probes(server):
    probe(server, "merge-encoded-partition-path", [
        "CREATE TABLE p1 (id INT, p STRING) USING delta PARTITIONED BY (p) LOCATION '$PATH'",
        "INSERT INTO p1 VALUES (1, 'a b'), (2, 'a b'), (3, 'c')",
        "MERGE INTO p1 t USING (SELECT 1 AS i) s ON t.id = s.i WHEN MATCHED THEN UPDATE SET id = 10"],
        "SELECT * FROM p1", [(10, "a b"), (2, "a b"), (3, "c")])
    probe(server, "dv-over-struct-stats", [
        "CREATE TABLE p2 (id INT, k INT) USING delta LOCATION '$PATH' TBLPROPERTIES ('delta.checkpointInterval' = '1', "
        "'delta.checkpoint.writeStatsAsStruct' = 'true', 'delta.checkpoint.writeStatsAsJson' = 'false', 'delta.enableDeletionVectors' = 'true')",
        "INSERT INTO p2 VALUES (1, 1), (2, 2), (3, 3)", "INSERT INTO p2 VALUES (4, 4)",
        "DELETE FROM p2 WHERE id = 2"],
        "SELECT * FROM p2", [(1, 1), (3, 3), (4, 4)])
    probe(server, "replace-where-null-rows", [
        "CREATE TABLE p3 (id INT, k INT) USING delta LOCATION '$PATH'",
        "INSERT INTO p3 VALUES (1, 1), (2, NULL), (3, 3)",
        "INSERT INTO TABLE p3 REPLACE WHERE k = 1 VALUES (4, 1)"],
        "SELECT * FROM p3", [(4, 1), (2, None), (3, 3)])
    probe(server, "merge-schema-not-null", [
        "CREATE TABLE p4 (id INT) USING delta LOCATION '$PATH'",
        "INSERT INTO p4 VALUES (1)",
        ("SELECT 2 AS id, 5L AS x", {"mergeSchema": "true"})],
        "SELECT * FROM delta.`$PATH`", [(1, None), (2, 5)])


def main_():
    build()
    n = 1500 if THOROUGH else 130
    budget = 1500 if THOROUGH else 130
    # small batches: operators see several batches (and files several of them) although the tables are small
    servers = [Server(env=e) for e in ({}, {"SAIL_EXECUTION__BATCH_SIZE": "3"}, {"SAIL_EXECUTION__BATCH_SIZE": "7", "SAIL_EXECUTION__DEFAULT_PARALLELISM": "1"},
                                       {"SAIL_EXECUTION__BATCH_SIZE": "16", "SAIL_EXECUTION__DEFAULT_PARALLELISM": "2"})]
    with ThreadPoolExecutor(8) as pool:
        def job(i):
            if C.elapsed() > budget or C.too_many():
                return
            one(i, servers, 14)
        only = os.environ.get("VERIF_ONLY")
        if not only:
            probes(servers[0])
        list(pool.map(job, [int(x) for x in only.split(",")] if only else range(n)))
    for s in servers:
        if not s.alive():
            C.violation("server-died", {"stderr": s.stderr()[-3000:]})
        for p in s.panics():
            C.violation("panic", {"panic": p})
    return C.finish(min_cases=20)


if __name__ == "__main__":
    main(main_)
