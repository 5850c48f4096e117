"""C09: SQL queries return what SQL says, whatever their shape (real Spark is the reference)."""
import os, re
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from diff import *
import sparkd

C = Check("C09", rule="A case is one random query over random tables (from the seed) whose bag of rows (and order, if determined) was compared "
          "with real Spark's. Non-trivial if the answer has rows; distinct by the query text.")
UNSUP = re.compile(r"not supported|unsupported|not implemented|NotImplemented|not yet", re.I)


def one(job):
    w, sess, sp, i = job
    q, ordered, used = w.query(i, 2)
    fut = sp.ask(q, "w%d" % w.idx)
    got = outcome(sess, q)
    try:
        want = fut.result(150)
    except Exception as e:
        C.count("reference_gave_no_answer")
        return
    for u in used:
        C.observe("features", u)
    if want[0] == "err":
        # the generator wrote something Spark rejects: nothing to compare
        C.count("rejected_by_reference")
        return
    want_rows = [tuple(rnd(v) for v in r) for r in want[1]]
    if got[0] == "err":
        if UNSUP.search(got[1]):
            C.count("unsupported")
            C.observe("unsupported", re.sub(r"[^A-Za-z ]+", " ", got[1])[:80])
            return
        sig = refusal(q, got[1]) or "error"
        if sig == "arrow-debug-overflow":
            C.count("planner_refusals")
            return
        C.violation(sig, {"query": q, "error": got[1][:1500], "expected_rows": len(want_rows), "world": w.idx, "i": i})
        return
    d = same_rows(want_rows, got[1], ordered)
    if d:
        C.violation("rows", {"query": q, "diff": d, "world": w.idx, "i": i})
        return
    C.case(q, nontrivial=bool(want_rows), sample={"query": q[:400], "rows": len(want_rows)} if i % 40 == 0 else None)
    C.count("rows_compared", len(want_rows))


PROBES = [("having-without-columns", "SELECT count(*) FROM (VALUES (1), (2)) AS t(a) WHERE a > 100 HAVING (SELECT max(x) FROM VALUES (5) AS q(x)) < 1", []),
          ("grouping-sets-over-constant-keys", "SELECT count(*) FROM (SELECT c, f, count(*) FROM (SELECT -3 AS c, id % 50000 AS f FROM range(0, 300000, 1, 8)) GROUP BY CUBE (c, f))", [(100002,)]),
          ("grouping-sets-of-nothing", "SELECT a, count(*) FROM VALUES (1) t(a) WHERE a > 1 GROUP BY CUBE (a)", []),
          ("constant-keys-of-nothing", "SELECT count(*) FROM VALUES (1) t(a) WHERE a > 1 GROUP BY a + CAST(NULL AS INT)", []),
          ("in-lists-of-null", "SELECT a, NOT (a IN (1, 5) AND a IN (2, 3)) FROM VALUES (1), (NULL) t(a) WHERE a NOT IN (1, 4) OR a NOT IN (2, 3)", [(1, True)]),
          ("case-nullability", "SELECT sum(c) AS c1 FROM (SELECT day(CASE WHEN datediff(dd, DATE '2024-02-29') > 3 AND id >= CASE WHEN dd > DATE '2020-01-01' THEN id END "
           "THEN dd ELSE DATE '2024-01-02' END) AS c, count(*) OVER (PARTITION BY l) d FROM VALUES (1, DATE '2024-02-03'), (2, DATE '2024-12-30') t(l, dd), range(3)) WHERE c > 0", [(96,)]),
          ("windows-over-constants", "SELECT sum(k) OVER (ORDER BY k), count(k) OVER (PARTITION BY b ORDER BY d) FROM (SELECT b, 5 AS k, d FROM VALUES (1, 2) t(b, d))", [(5, 1)]),
          ("not-in-subquery-under-or-with-nulls", "SELECT a FROM VALUES (1), (2) t(a) WHERE a = 1 OR a NOT IN (SELECT b FROM VALUES (3), (NULL) u(b))", [(1,)])]


def probes(server):
    s = connect(server)
    for sig, q, want in PROBES:
        got = outcome(s, q)
        if got[0] != "ok" or same_rows(want, got[1], False):
            C.violation(sig, {"query": q, "expected": want, "got": got})


def main_():
    build()
    sp = sparkd.Spark(os.path.join(scratch(), "spark"))
    servers = [Server() for _ in range(2)]
    nw, n = (8, 1500) if THOROUGH else (3, 150)
    budget = 2400 if THOROUGH else 200
    worlds = [World("C09", k, scratch()) for k in range(nw)]
    sp.ready.result(120)
    for w in worlds:
        for v in w.views():
            r = sp.sql(v, "w%d" % w.idx)
            if r[0] != "ok":
                raise HarnessError("Spark view: %s" % r[1])
    sess = {w.idx: [w.connect(s) for s in servers] for w in worlds}
    only = os.environ.get("VERIF_ONLY")
    jobs = [(w, sess[w.idx][i % 2], sp, i) for i in range(n) for w in worlds]
    if only:
        a, b = map(int, only.split(","))
        jobs = [(worlds[a], sess[a][0], sp, b)]

    if not only:
        probes(servers[0])

    def run(j):
        if C.elapsed() > budget or C.too_many():
            return
        one(j)
    with ThreadPoolExecutor(6) as pool:
        list(pool.map(run, jobs))
    sp.stop()
    for s in servers:
        if not s.alive():
            C.violation("server-died", {"stderr": s.stderr()[-3000:]})
        for p in s.panics():
            C.violation("panic", {"panic": p})
    return C.finish(min_cases=100)


if __name__ == "__main__":
    main(main_)
