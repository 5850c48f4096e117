#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below (checks that exist) and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    "C03": ("runtime monitoring: random operation histories checked online against a sequential model and an independent log reader",
            "Every operation's effect is read back in one of three ways and compared with the model; every version is re-read by an independent reader and by time travel."),
    "C01": ("runtime monitoring: concurrent histories against a scheduling object store, offline exactly-once and serializability checker",
            "The commit requests of concurrent writers are held and released in chosen orders; the recorded log decides."),
    "C02": ("runtime monitoring with fault injection at every storage request and process kill points",
            "Each storage request of an operation is failed or cut in turn; the table must be the state before or after."),
    "C04": ("runtime monitoring: the same query over layouts with and without statistics, checkpoints and deletion vectors; metadata lint against data files",
            "Answers compared across physical layouts, statistics verified against the data files by an independent reader."),
    "C05": ("runtime monitoring: random operation histories against a sequential model and independent metadata readers",
            "As C03, for Iceberg, with pyiceberg and an own avro reader as independent readers."),
    "C07": ("runtime monitoring: differential execution local versus cluster on random queries",
            "Each random query is executed by the local and several cluster configurations; bags, orders and errors must agree."),
    "C08": ("runtime monitoring: lifecycle trace checker over the system tables and result conservation under task failures and cancellation",
            "State traces sampled from the system catalog are checked against the allowed transitions."),
    "C09": ("runtime monitoring: random SQL against an independent engine",
            "Each random query's bag of rows is compared with real Spark's."),
    "C10": ("runtime monitoring: differential execution across physical configurations",
            "Each random query is executed under several physical configurations."),
    "C11": ("runtime monitoring: write and read-back histories against a model and an independent reader",
            "Rows written in each format and mode are read by the same server and by pyarrow."),
    "C12": ("runtime monitoring: reads of changing file sets with and without caches and pruning, against a model",
            "Files are changed between queries; filters are compared with the model's."),
    "C13": ("runtime monitoring: raw protocol client with injected disconnects and an exactly-once checker of responses",
            "Response streams are cut, reattached and released at every position; the concatenation must be exactly one execution."),
    "C14": ("runtime monitoring: concurrent sessions with per-session models",
            "Random statements of several sessions run concurrently; each session's reads must match its own model."),
    "C15": ("runtime monitoring: random catalog histories against a sequential model",
            "Results and errors of DDL and metadata queries are compared with the model."),
    "C16": ("runtime monitoring: hostile request fuzzing with panic, liveness and memory monitors",
            "Mutated statements and plans; the server must answer each and keep answering others, without panics."),
    "C17": ("runtime monitoring: metamorphic comparison of expression presentations",
            "The same expression as literal, column, batch, filter and grouped presentation must give the same value."),
    "C18": ("runtime monitoring: differential testing against real Spark on generated arguments",
            "Functions and casts on generated values compared with real Spark."),
    "C19": ("runtime monitoring: declared schema against produced data on random queries",
            "Types and nullability of the result batches are checked against the analysed schema."),
    "C20": ("runtime monitoring: UDF invocations against a Python model with an invocation log",
            "Results and error propagation of UDFs of each kind compared with a model."),
    "C21": ("runtime monitoring: streaming queries with recorded output, exactly-once checker",
            "Batches produced by streaming queries recorded and compared with the source."),
    "C22": ("runtime monitoring: differential execution Flight SQL versus Spark Connect",
            "Each query through both servers; schema and rows must agree."),
    "C23": ("undefined-behaviour interpreter (Miri) and sanitizers on the unsafe code",
            "The files with unsafe code are compiled into a harness and executed under Miri."),
    "C06": ("runtime monitoring: concurrent and fault-injected Iceberg commits against a scheduling object store",
            "As C01 and C02, for Iceberg tables."),
}
NOT = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")):
        t, n = CHECKS[i]
        checks.append({"property": i, "quick_cmd": "./run.sh " + i, "thorough_cmd": "VERIF_TIER=thorough ./run.sh " + i,
                       "technique": t, "level": "exploration", "level_note": n})
    else:
        na.append({"property": i, "reason": NOT.get(i, "No check has been built for this property yet; the technique applies (see DESIGN.md) but nothing decides it now.")})
m = {"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
     "notes": "Known findings are in KNOWN_FINDINGS.txt. VERIF_SEED selects the random choices of every check."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
