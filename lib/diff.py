"""Comparing executions of the same query."""
import math, random, re
from collections import Counter
from vlib import *
from rel import canon
import qgen

LATE = 40  # seconds for one query

def rnd(v):
    if isinstance(v, float):
        if math.isnan(v) or math.isinf(v) or v == 0:
            return v
        return float("%.10g" % v)
    if isinstance(v, list):
        return [rnd(x) for x in v]
    return v


def rows_of(spark, q):
    return [tuple(rnd(v) for v in r) for r in spark.sql(q).collect()]


def outcome(spark, q):
    """("ok", rows) or ("err", message)"""
    for k in range(3):
        try:
            return "ok", rows_of(spark, q)
        except Exception as e:
            m = str(e)
            # a race in the Python client between threads, not an answer of the server
            if "Exception deserializing response" not in m or k == 2:
                return "err", m


def outcome_within(spark, q, seconds):
    """outcome(), or ("late", ...) if there is no answer in time (the query goes on in a daemon thread)"""
    import threading
    r = []
    t = threading.Thread(target=lambda: r.append(outcome(spark, q)), daemon=True)
    t.start()
    t.join(seconds)
    return r[0] if r else ("late", "no answer within %d s" % seconds)


def ckey(rows):
    return [tuple(canon(v) for v in r) for r in rows]


def same_rows(a, b, ordered):
    """None if the same, or a description of the difference."""
    a, b = ckey(a), ckey(b)
    ca, cb = Counter(a), Counter(b)
    if ca != cb:
        m, u = ca - cb, cb - ca
        return {"what": "rows", "missing": [repr(x) for x in list(m.elements())[:5]], "missing_count": sum(m.values()),
                "unexpected": [repr(x) for x in list(u.elements())[:5]], "unexpected_count": sum(u.values())}
    if ordered and a != b:
        i = next(i for i in range(len(a)) if a[i] != b[i])
        return {"what": "order", "at": i, "expected": repr(a[i:i + 3]), "got": repr(b[i:i + 3])}
    return None


class World:
    """Random tables on disk and the queries over them."""

    def __init__(self, prop, idx, root, sizes=(0, 1, 7, 40, 160), graphs=0.15):
        self.graphs = graphs
        self.idx = idx
        self.tag = "%s-%d-%d" % (prop, SEED, idx)
        rng = random.Random(self.tag)
        self.dir = os.path.join(root, "w%d" % idx)
        os.makedirs(self.dir)
        self.tables = qgen.make_tables(rng, sizes)
        qgen.write_parquet(self.tables, self.dir, rng)

    def views(self):
        return [qgen.view_sql(t, self.dir) for t in sorted(self.tables)]

    def connect(self, server, conf=None):
        s = connect(server, conf)
        for v in self.views():
            r = outcome(s, v)
            if r[0] != "ok":
                raise HarnessError("view: %s" % r[1])
        return s

    def query(self, i, depth=2):
        """(sql, ordered, features)"""
        g = qgen.Gen(random.Random("%s-%d" % (self.tag, i)), self.tables)
        x = g.rng.random()
        if x < self.graphs:
            q, o = g.join_graph()
        elif x < self.graphs + 0.1:
            q, o = "SELECT * FROM %s AS x" % g.using_join()[0], False
        else:
            q, o = g.statement(depth)
        return q, o, g.used

    def describe(self):
        return {t: {"columns": c, "rows": [[str(v) if v is not None else None for v in r] for r in rows[:50]]} for t, (c, rows) in self.tables.items()}


def shrink_rows(x, n=8):
    return [repr(r) for r in x[:n]]


def outer_join_without_hash_join(conf, q):
    """DataFusion's sort-merge join is wrong for outer joins with further conditions (known finding C10 smj-...)."""
    import re
    return "no-hash-join" in conf and bool(re.search("(FULL|LEFT|RIGHT|SEMI|ANTI) JOIN|EXISTS| IN \\(SELECT", q))


# DataFusion refuses (never mis-answers) some plans with several window clauses over constants: a known finding of C09
# (windows-over-constants), and so are plans for which it derives two nullabilities of a CASE (case-nullability)


def refusal(q, e):
    """The signature of the known refusal that explains the error of a query, if any."""
    if "panicked with message" in e and "with overflow" in e:
        # arrow kernels run over the values under nulls; only builds with overflow checks notice
        return "arrow-debug-overflow"
    if "repartition is order-preserving" in e:
        return "order-preserving-repartition"
    if "does not satisfy order requirements" in e and q.count("OVER (") > 1:
        return "windows-over-constants"
    if "Physical input schema should be the same" in e and "CASE" in q and set(re.findall(r"- ([a-z ]+) at index", e)) == {"field nullability"}:
        return "case-nullability"


def tolerated(msg, patterns):
    return any(p in msg for p in patterns)


def compare_configs(C, worlds, base, others, n, budget, per_query=2, threads=6, tolerate=(), known=None, skip=lambda conf, q: False):
    """Runs every query in the base server and in `per_query` of the others (taking turns) and reports what differs.
    `base`/`others`: (name, [Server, ...]) - a session per world is opened in every server."""
    from concurrent.futures import ThreadPoolExecutor
    sess = {}
    late = []

    def conn(args):
        name, s, w = args
        sess[(name, id(s), w.idx)] = w.connect(s)
    with ThreadPoolExecutor(8) as pool:
        list(pool.map(conn, [(nm, s, w) for nm, ss in [base] + others for s in ss for w in worlds]))

    def run_in(conf, w, i, q):
        nm, ss = conf
        s = ss[i % len(ss)]
        return outcome_within(sess[(nm, id(s), w.idx)], q, LATE)

    def one(job):
        w, i = job
        if C.elapsed() > budget or C.too_many():
            return
        q, ordered, used = w.query(i, 2)
        want = run_in(base, w, i, q)
        for u in used:
            C.observe("features", u)
        if want[0] == "late":
            C.count("reference_too_slow")
            return
        if want[0] == "err" and not tolerated(want[1], tolerate):
            C.count("error_in_reference")
            C.observe("reference_errors", want[1][:60])
        for k in range(per_query):
            conf = others[(i * per_query + k + w.idx) % len(others)]
            if skip(conf[0], q):
                C.count("skipped")
                continue
            got = run_in(conf, w, i, q)
            if got[0] == "late":
                C.count("too_slow")
                late.append((conf[0], q))
                continue
            if got[0] != want[0]:
                e = got[1] if got[0] == "err" else want[1]
                if refusal(q, e):
                    C.count("planner_refusals")
                    continue
                if tolerated(e, tolerate):
                    C.count("tolerated_errors")
                    continue
                C.violation(known and known(conf[0], q, e) or "error", {"query": q, "config": conf[0], "reference": want[1] if want[0] == "err" else len(want[1]), "got": got[1] if got[0] == "err" else len(got[1]), "world": w.idx, "i": i})
                continue
            if want[0] == "err":
                C.count("errors_in_both")
                continue
            d = same_rows(want[1], got[1], ordered)
            if d:
                C.violation("rows", {"query": q, "config": conf[0], "diff": d, "world": w.idx, "i": i})
                continue
            C.case("%s|%s" % (conf[0], q), nontrivial=bool(want[1]), sample={"query": q[:300], "config": conf[0], "rows": len(want[1])} if i % 50 == 0 else None)
            C.count("rows_compared", len(want[1]))
            C.observe("configs", conf[0])
    only = os.environ.get("VERIF_ONLY")
    jobs = [(w, i) for i in range(n) for w in worlds]
    if only:
        a, b = map(int, only.split(","))
        jobs = [(worlds[a], b)]
    with ThreadPoolExecutor(threads) as pool:
        list(pool.map(one, jobs))
    if late:
        C.observe("too_slow_example", repr(late[0])[:400])
    if len(late) > len(jobs) * per_query // 20:
        C.violation("late", {"what": "more than 5 %% of the queries had no answer within %d s although the reference had" % LATE, "queries": late[:5]})


def check_servers(C, servers):
    for s in servers:
        if not s.alive():
            C.violation("server-died", {"stderr": s.stderr()[-3000:]})
        for p in s.panics():
            C.violation("panic", {"panic": p})
