"""C07: a distributed execution gives the answer of a local one, and distributed writes store every row once."""
import os
from vlib import *
from diff import *

C = Check("C07", rule="A case is one query (or write) run by the local engine and by a local cluster (driver, workers, shuffles) over the same files, "
          "whose answers were compared. Non-trivial if the answer has rows; distinct by cluster configuration and text.")

CL = {"SAIL_MODE": "local-cluster"}
CONFIGS = {
    "cluster": {**CL, "SAIL_EXECUTION__DEFAULT_PARALLELISM": "4"},
    "cluster-one-slot": {**CL, "SAIL_EXECUTION__DEFAULT_PARALLELISM": "3", "SAIL_CLUSTER__WORKER_INITIAL_COUNT": "3", "SAIL_CLUSTER__WORKER_TASK_SLOTS": "1",
                         "SAIL_EXECUTION__BATCH_SIZE": "7", "SAIL_CLUSTER__TASK_STREAM_BUFFER": "1"},
    "cluster-storage-shuffle": {**CL, "SAIL_EXECUTION__DEFAULT_PARALLELISM": "5", "SAIL_CLUSTER__SHUFFLE_BACKEND__TYPE": "storage", "SAIL_EXECUTION__BATCH_SIZE": "64"},
    "cluster-no-hash-join": {**CL, "SAIL_EXECUTION__DEFAULT_PARALLELISM": "2", "SAIL_OPTIMIZER__PREFER_HASH_JOIN": "false"},
}

# operators that the random queries do not have: (query, ordered)
EXTRA = [
    ("SELECT id, posexplode(sequence(1, id % 4 + 1)) FROM range(0, 50, 1, 7)", False),
    ("SELECT t.id, e.x FROM range(30) t LATERAL VIEW explode(array(t.id, t.id + 1)) e AS x WHERE e.x % 2 = 0", False),
    ("SELECT id % 5 AS k, sort_array(collect_list(id)) AS l, sort_array(collect_set(id % 3)) AS s, count(DISTINCT id % 7) AS c FROM range(0, 1000, 1, 8) GROUP BY id % 5", False),
    ("SELECT id FROM range(0, 1000, 1, 8) ORDER BY id % 10 DESC, id LIMIT 25", True),
    ("SELECT id FROM range(0, 1000, 1, 8) ORDER BY id OFFSET 990", True),
    ("SELECT * FROM (SELECT id % 3 AS k, id % 4 AS v FROM range(0, 100, 1, 4)) PIVOT (count(*) FOR v IN (0, 1, 2))", False),
    ("SELECT a.id, b.id FROM range(0, 200, 1, 5) a JOIN range(0, 200, 1, 3) b ON a.id = b.id * 2 AND a.id < b.id + 50", False),
    ("SELECT a.id, b.id FROM range(0, 40, 1, 4) a FULL JOIN range(20, 60, 1, 3) b ON a.id = b.id", False),
    ("SELECT a.id, count(b.id) FROM range(0, 30, 1, 4) a LEFT JOIN range(0, 30, 1, 2) b ON a.id < b.id GROUP BY a.id", False),
    ("SELECT id, sum(id) OVER (PARTITION BY id % 3 ORDER BY id ROWS BETWEEN 2 PRECEDING AND CURRENT ROW), ntile(4) OVER (ORDER BY id) FROM range(0, 100, 1, 6)", False),
    ("SELECT k, count(*) FROM (SELECT id % 3 AS k FROM range(0, 100, 1, 4) UNION ALL SELECT id % 5 FROM range(0, 100, 1, 2)) GROUP BY k", False),
    ("SELECT id FROM range(0, 60, 1, 4) EXCEPT SELECT id * 2 FROM range(0, 60, 1, 3)", False),
    ("SELECT id % 4 AS k, approx_count_distinct(id % 10), percentile(id, 0.5), max_by(id, id % 7 * 1000 + id), min(struct(id % 3, id)) FROM range(0, 300, 1, 6) GROUP BY id % 4", False),
    ("SELECT map_from_arrays(array('a', 'b'), array(id, id + 1)) AS m, named_struct('x', id, 'y', array(id)) AS s FROM range(0, 20, 1, 3)", False),
    ("SELECT count(*), count(id), sum(id) FROM range(0, 0)", False),
    ("SELECT transform(sequence(1, id), x -> x * id), filter(array(1, 2, 3), x -> x > id), aggregate(array(1, 2, 3), id, (a, x) -> a + x) FROM range(1, 15, 1, 4)", False),
    ("WITH RECURSIVE r(n) AS (SELECT 1 UNION ALL SELECT n + 1 FROM r WHERE n < 20) SELECT * FROM r", False),
    ("SELECT from_json(concat('{\"a\":', id, '}'), 'a INT').a, date_add(DATE '2024-01-01', CAST(id AS INT)), regexp_replace(CAST(id AS STRING), '1', 'x') FROM range(0, 40, 1, 4)", False),
]


def writes(base, others):
    """The rows that a distributed write stores, read back by the local engine."""
    import glob
    b = connect(base)
    src = "SELECT id, id % 7 AS p, CASE WHEN id % 5 = 0 THEN NULL ELSE concat('v', id % 13) END AS s FROM range(0, 2000, 1, 9)"
    want = outcome(b, src)
    plans = [
        ("parquet", "INSERT OVERWRITE DIRECTORY '{d}' USING parquet {src}", None),
        ("parquet-shuffled", "INSERT OVERWRITE DIRECTORY '{d}' USING parquet SELECT DISTINCT * FROM ({src} UNION ALL {src})", None),
        ("csv-sorted", "INSERT OVERWRITE DIRECTORY '{d}' USING json SELECT * FROM ({src}) ORDER BY s, id", None),
        ("delta", "CREATE TABLE {t} USING delta PARTITIONED BY (p) LOCATION '{d}' AS {src}", "delta"),
    ]
    for nm, servers in others:
        s = connect(servers[0])
        for k, (fmt, stmt, table) in enumerate(plans):
            d = os.path.join(scratch(), "write-%s-%d" % (nm, k))
            q = stmt.format(d=d, src=src, t="w%d" % k)
            got = outcome(s, q)
            if got[0] == "err":
                if "ARROW_CONVERSION" not in got[1] and "uint64" not in got[1]:
                    if "not supported" in got[1] or "unsupported" in got[1].lower():
                        C.count("unsupported_writes")
                        C.observe("unsupported", fmt)
                        continue
                    C.violation("write-error", {"statement": q, "config": nm, "error": got[1][:1000]})
                    continue
            kind = "delta" if table else ("json" if "USING json" in q else "parquet")
            back = outcome(b, "SELECT id, p, s FROM %s.`%s`" % (kind, d))
            if back[0] == "err":
                C.violation("write-unreadable", {"statement": q, "config": nm, "error": back[1][:1000]})
                continue
            df = same_rows(want[1], back[1], False)
            if df:
                C.violation("write-rows", {"statement": q, "config": nm, "diff": df})
            else:
                C.case("%s|%s" % (nm, fmt), sample={"write": fmt, "config": nm})
                C.count("rows_written", len(back[1]))


def extra(base, others):
    sb = connect(base)
    for q, ordered in EXTRA:
        want = outcome(sb, q)
        if want[0] == "err":
            C.count("extra_reference_error")
            C.observe("extra_errors", want[1][:80])
            continue
        for nm, servers in others:
            got = outcome_within(connect(servers[0]), q, LATE)
            d = got if got[0] != "ok" else same_rows(want[1], got[1], ordered)
            if d:
                C.violation("extra", {"query": q, "config": nm, "diff": d})
            else:
                C.case("%s|%s" % (nm, q), nontrivial=bool(want[1]))


def main_():
    build()
    base = ("local", [Server(), Server()])
    others = [(k, [Server(env={**e, **({"SAIL_CLUSTER__SHUFFLE_BACKEND__STORAGE__PATH": "file://" + os.path.join(scratch(), "shuffle")} if "storage" in k else {})})]) for k, e in CONFIGS.items()]
    if not os.environ.get("VERIF_ONLY"):
        extra(base[1][0], others)
        writes(base[1][0], others)
    nw, n = (6, 1000) if THOROUGH else (3, 80)
    worlds = [World("C07", k, scratch()) for k in range(nw)]
    compare_configs(C, worlds, base, others, n, 2400 if THOROUGH else 300, per_query=2, skip=outer_join_without_hash_join)
    check_servers(C, [s for _, ss in [base] + others for s in ss])
    return C.finish(min_cases=100)


if __name__ == "__main__":
    main(main_)
