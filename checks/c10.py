"""C10: answers do not depend on the physical configuration (parallelism, batch size, pruning, pushdown, joins, memory)."""
import os, re
from vlib import *
from diff import *

C = Check("C10", rule="A case is one query run under the default configuration and under another physical configuration over the same files, whose "
          "answers were compared (as bags, or as lists if the query orders them). Non-trivial if the answer has rows; distinct by configuration and text.")

CONFIGS = {
    "one-partition": {"SAIL_EXECUTION__DEFAULT_PARALLELISM": "1"},
    "tiny-batches": {"SAIL_EXECUTION__DEFAULT_PARALLELISM": "7", "SAIL_EXECUTION__BATCH_SIZE": "13"},
    "no-hash-join": {"SAIL_OPTIMIZER__PREFER_HASH_JOIN": "false", "SAIL_EXECUTION__DEFAULT_PARALLELISM": "3"},
    "join-reorder": {"SAIL_OPTIMIZER__ENABLE_JOIN_REORDER": "true", "SAIL_OPTIMIZER__ENABLE_JOIN_SWAP": "false", "SAIL_EXECUTION__COLLECT_STATISTICS": "true"},
    "join-reorder-swap": {"SAIL_OPTIMIZER__ENABLE_JOIN_REORDER": "true", "SAIL_OPTIMIZER__ENABLE_JOIN_SWAP": "true", "SAIL_EXECUTION__DEFAULT_PARALLELISM": "2", "SAIL_EXECUTION__BATCH_SIZE": "17"},
    "no-statistics": {"SAIL_EXECUTION__COLLECT_STATISTICS": "false", "SAIL_PARQUET__PRUNING": "false", "SAIL_PARQUET__ENABLE_PAGE_INDEX": "false", "SAIL_PARQUET__BLOOM_FILTER_ON_READ": "false",
                      "SAIL_PARQUET__FILE_STATISTICS_CACHE__TYPE": "none", "SAIL_EXECUTION__FILE_LISTING_CACHE__TYPE": "none", "SAIL_PARQUET__FILE_METADATA_CACHE__TYPE": "none"},
    "pushdown": {"SAIL_PARQUET__PUSHDOWN_FILTERS": "true", "SAIL_PARQUET__REORDER_FILTERS": "true", "SAIL_PARQUET__MAX_PREDICATE_CACHE_SIZE": "0", "SAIL_EXECUTION__BATCH_SIZE": "5"},
    "row-number-estimates": {"SAIL_EXECUTION__USE_ROW_NUMBER_ESTIMATES_TO_OPTIMIZE_PARTITIONING": "true", "SAIL_PARQUET__SCHEMA_FORCE_VIEW_TYPES": "true", "SAIL_OPTIMIZER__EXPAND_VIEWS_AT_OUTPUT": "true"},
}

# queries over larger inputs that sort, aggregate, join and window more than a small memory pool holds
SPILL = [
    "SELECT id % 7919 AS k, count(*) AS c, sum(v) AS s, min(t) AS m, max(t) AS x FROM big GROUP BY id % 7919",
    "SELECT t, count(DISTINCT v) FROM big GROUP BY t",
    "SELECT sum(h) FROM (SELECT DISTINCT t, v % 1000 AS h FROM big)",
    "SELECT id, t FROM (SELECT id, t, v FROM big ORDER BY v DESC, id LIMIT 3000) ORDER BY id",
    "SELECT sum(r * (id % 13)) FROM (SELECT id, row_number() OVER (ORDER BY v, id) AS r FROM big)",
    "SELECT sum(r * (id % 13)), sum(l) FROM (SELECT id, rank() OVER (PARTITION BY t ORDER BY v) AS r, lag(v, 2) OVER (PARTITION BY v % 10 ORDER BY id) AS l FROM big)",
    "SELECT a.v % 10 AS g, count(*) AS c, sum(b.id) AS s FROM big a JOIN big b ON a.id = b.id + 1 AND a.v >= b.v % 50 GROUP BY a.v % 10",
    "SELECT count(*), sum(a.id) FROM big a LEFT ANTI JOIN (SELECT id FROM big WHERE v % 3 = 0) b ON a.id = b.id",
    "SELECT count(*), sum(coalesce(a.id, 0)), sum(coalesce(b.id, 0)) FROM (SELECT * FROM big WHERE v % 2 = 0) a FULL JOIN (SELECT * FROM big WHERE v % 3 = 0) b ON a.id = b.id",
    "SELECT count(*) FROM (SELECT t, v FROM big EXCEPT ALL SELECT t, v FROM big WHERE id % 2 = 0)",
    "SELECT v % 5, size(collect_list(id)), sort_array(collect_list(id))[100] FROM big GROUP BY v % 5",
]
# none of these may change an answer; running out of the pool is the one permitted error
POOLS = {"fair-12mb": {"SAIL_RUNTIME__MEMORY_POOL__TYPE": "fair", "SAIL_RUNTIME__MEMORY_POOL__FAIR__MAX_SIZE": str(12 << 20), "SAIL_EXECUTION__DEFAULT_PARALLELISM": "4"},
         "fair-24mb": {"SAIL_RUNTIME__MEMORY_POOL__TYPE": "fair", "SAIL_RUNTIME__MEMORY_POOL__FAIR__MAX_SIZE": str(24 << 20), "SAIL_EXECUTION__BATCH_SIZE": "512", "SAIL_EXECUTION__DEFAULT_PARALLELISM": "2", "SAIL_OPTIMIZER__PREFER_HASH_JOIN": "false"},
         "greedy-40mb": {"SAIL_RUNTIME__MEMORY_POOL__TYPE": "greedy", "SAIL_RUNTIME__MEMORY_POOL__GREEDY__MAX_SIZE": str(40 << 20), "SAIL_EXECUTION__DEFAULT_PARALLELISM": "2"}}
EXHAUSTED = ("Resources exhausted", "Failed to allocate", "ResourcesExhausted", "Not enough memory")


SMJ = "SELECT t.a, x.c0 FROM VALUES (1), (5) t(a) FULL JOIN (SELECT count(*) AS c0 FROM VALUES (1), (2) u(b)) x ON t.a = x.c0 AND x.c0 * 2 >= t.a"


def known(conf, q, error):
    """The signature of the known finding that explains the error, if any."""
    if conf == "no-hash-join" and re.search("(FULL|LEFT|RIGHT) JOIN", q) and "is declared as non-nullable but contains null values" in error:
        return "smj-full-join-non-nullable"


def null_aware(server):
    """NOT IN over a file with a NULL outside the range of the build side: its row group or row must not be pruned."""
    import pyarrow as pa, pyarrow.parquet as pq
    p = os.path.join(scratch(), "null_aware"); os.makedirs(p)
    pq.write_table(pa.table({"b": pa.array([7, None, 8], pa.int32())}), p + "/a.parquet")
    q = "SELECT * FROM VALUES (1), (2) t(a) WHERE a NOT IN (SELECT b FROM parquet.`%s`)" % p
    got = outcome(connect(server), q)
    C.case(q)
    if got[0] != "ok" or got[1]:
        C.violation("rows", {"query": q, "want": [], "got": got})


def probes(base, smj):
    q = SMJ
    a, b = outcome(connect(base), q), outcome(connect(smj), q)
    if a[0] != "ok" or len(a[1]) != 3:
        C.violation("probe", {"query": q, "got": a})
    elif b[0] != "ok":
        C.violation(known("no-hash-join", q, b[1]) or "error", {"query": q, "got": b})
    elif same_rows(a[1], b[1], False):
        C.violation("rows", {"query": q, "want": a, "got": b})


def spill(base):
    import numpy as np, pyarrow as pa, pyarrow.parquet as pq
    rng = np.random.default_rng(SEED)
    n = 400_000 if THOROUGH else 60_000
    d = os.path.join(scratch(), "big")
    os.makedirs(d)
    ids = rng.permutation(n)
    v = rng.integers(0, 100_000, n)
    t = pa.array(["key-%040d" % x for x in rng.integers(0, n // 4, n)])
    tb = pa.table({"id": pa.array(ids, pa.int64()), "v": pa.array(v, pa.int64()), "t": t})
    for k in range(4):
        pq.write_table(tb.slice(k * n // 4, n // 4), os.path.join(d, "p%d.parquet" % k), row_group_size=7000)
    view = "CREATE OR REPLACE TEMPORARY VIEW big USING parquet OPTIONS (path '%s')" % d

    def answers(server):
        s = connect(server)
        run_sql(s, view)
        return [outcome(s, q) for q in SPILL]
    from concurrent.futures import ThreadPoolExecutor
    servers = {k: Server(env=dict(e, SAIL_RUNTIME__TEMPORARY_FILES__PATHS='["%s"]' % os.path.join(scratch(), "spill"))) for k, e in POOLS.items()}
    os.makedirs(os.path.join(scratch(), "spill"), exist_ok=True)
    with ThreadPoolExecutor(4) as pool:
        futs = {k: pool.submit(answers, s) for k, s in servers.items()}
        want = pool.submit(answers, base).result()
        got = {k: f.result() for k, f in futs.items()}
    for q, w, *_ in zip(SPILL, want):
        if w[0] != "ok":
            C.violation("spill-reference", {"query": q, "error": w[1]})
    for k, g in got.items():
        for q, w, x in zip(SPILL, want, g):
            if x[0] == "err":
                if tolerated(x[1], EXHAUSTED):
                    C.count("memory_pool_exhausted")
                else:
                    C.violation("spill-error", {"query": q, "config": k, "error": x[1][:1000]})
                continue
            d = w[0] == "ok" and same_rows(w[1], x[1], False)
            if d:
                C.violation("spill-rows", {"query": q, "config": k, "diff": d})
            else:
                C.case("%s|%s" % (k, q), sample={"query": q, "config": k})
                C.count("memory_limited_queries")
                C.observe("configs", k)
    check_servers(C, servers.values())
    for s in servers.values():
        s.kill()


def main_():
    build()
    base = ("default", [Server(), Server()])
    others = [(k, [Server(env=e)]) for k, e in CONFIGS.items()]
    if not os.environ.get("VERIF_ONLY"):
        spill(base[1][0])
        probes(base[1][0], dict(others)["no-hash-join"][0])
        null_aware(base[1][0])
    nw, n = (6, 1200) if THOROUGH else (3, 110)
    worlds = [World("C10", k, scratch(), graphs=0.3) for k in range(nw)]
    compare_configs(C, worlds, base, others, n, 2400 if THOROUGH else 260, per_query=len(others) if THOROUGH else 3, skip=outer_join_without_hash_join)
    check_servers(C, [s for _, ss in [base] + others for s in ss])
    return C.finish(min_cases=150)


if __name__ == "__main__":
    main(main_)
