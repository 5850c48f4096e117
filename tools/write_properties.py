#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long JSON lines stay editable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": qtext},
        "why_tests_cant": why,
        "anchors": {
            "files": files,
            "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
            "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
            "observe_at": list(observe), "hook_needed": hook}})

D = "crates/sail-delta-lake/src/"
I = "crates/sail-iceberg/src/"
X = "crates/sail-execution/src/"
S = "crates/sail-spark-connect/src/"
G = "crates/sail-plan/src/"

p("C01", "Concurrent Delta writers are serializable and lose no update",
  "When several sessions or server processes write the same Delta table concurrently, every write that reports success is in the table exactly once and every write that reports failure has no effect. The final rows are those of some sequential order of the successful writes that agrees with the order of table versions, each version is written by exactly one writer, and no version is skipped or rewritten.",
  ["schedules", "histories"], "all interleavings of the storage requests of concurrent appends, overwrites, deletes, updates, merges and creates, from one or several servers",
  "The only concurrency test in the suite is skipped as flaky, and it samples whatever interleaving the machine produces; no test drives two commits through a chosen order of storage requests.",
  [D + "transaction/mod.rs", D + "transaction/conflict_checker.rs", D + "transaction/protocol.rs", D + "physical_plan/commit_exec.rs", D + "delta_log/store.rs"],
  [("optimistic commit loop with put-if-absent of the next version", D + "transaction/mod.rs"), ("conflict checker over winning commits", D + "transaction/conflict_checker.rs")],
  [("table version", "number of the last commit file in the log", "_delta_log/N.json")],
  ["object storage requests at the S3 boundary", "SQL client call and return", "final log and rows"])
p("C02", "A Delta write is all-or-nothing under crashes and storage faults",
  "Whatever storage request of a Delta write fails, or wherever the server process dies during it, the table afterwards is readable and holds either exactly the rows from before the write or exactly the rows after it. A write that was acknowledged is never lost, a write that was rejected is never visible, and a following write on a fresh server succeeds.",
  ["crash_points", "fault_sequences"], "every storage request of a write as crash point or fault point, for every kind of write, with errors before and after the request took effect",
  "Tests run on a local file system without faults; none of them fails a storage request or kills a server in the middle of a commit.",
  [D + "transaction/mod.rs", D + "physical_plan/commit_exec.rs", D + "physical_plan/writer_exec.rs", D + "checkpoint/mod.rs", D + "delta_log/cleanup.rs", D + "delta_log/listing.rs"],
  [("data files first, then one atomic commit file", D + "physical_plan/commit_exec.rs"), ("log segment listing and replay", D + "delta_log/segment.rs")],
  observe=["object storage requests", "rows read by a fresh server", "independent replay of the log"])
p("C03", "A Delta table equals the sequential history of its operations",
  "After any sequence of inserts, overwrites (also by predicate, by partition and with schema changes), deletes, updates, merges and property changes, reading a Delta table returns exactly the rows a sequential model of those operations gives. Every retained version keeps returning exactly the rows it had when it was committed, and an independent reader that follows the Delta protocol sees the same rows in the log and files at every version.",
  ["histories", "inputs", "configurations"], "all operation sequences over the table features: partitioning, deletion vectors, column mapping, generated, default and identity columns, constraints, schema evolution, checkpoints",
  "Tests check chosen sequences of two or three operations with fixed data; the combinations of operation order, table features, null and special values and versions are unbounded.",
  [D + "logical/merge.rs", D + "table_format.rs", D + "physical_plan/commit_exec.rs", D + "physical_plan/dv_writer_exec.rs", D + "physical_plan/remove_actions_exec.rs", D + "deletion_vector/bitmap.rs", D + "schema/mapping.rs", D + "snapshot/mod.rs", "crates/sail-physical-plan/src/merge_cardinality_check.rs"],
  [("copy-on-write and deletion-vector rewrites", D + "physical_plan/"), ("log replay into snapshots", D + "delta_log/replay.rs")],
  observe=["rows read through SQL at each version", "log and data files through an independent reader"])
p("C04", "Delta statistics, checkpoints and deletion vectors never change an answer",
  "A filtered query on a Delta table returns the same rows as filtering the full set of rows of that version, whatever per-file statistics, partition values, checkpoints, checksums or deletion vectors the table has. Every statistic the writer records is true of the file it describes: record counts are exact, null counts are exact, and every value lies within the recorded minimum and maximum.",
  ["inputs", "histories"], "all data distributions (nulls, NaN, infinities, signed zero, long and non-ASCII strings, extreme dates, timestamps and decimals, nested fields), all predicates, all layouts into files",
  "Tests use small tables with ordinary values where most pruning mistakes do not show; soundness of pruning is a statement over all values and predicates.",
  [D + "writer/stats.rs", D + "datasource/pruning.rs", D + "snapshot/stats.rs", D + "spec/statistics.rs", D + "checkpoint/mod.rs", D + "physical_plan/metadata_stats_exec.rs", D + "physical_plan/meta_adds.rs", D + "deletion_vector/resolve.rs"],
  [("pruning predicate over file statistics", D + "datasource/pruning.rs"), ("statistics collection at write", D + "writer/stats.rs")],
  observe=["query results against model rows", "log statistics against Parquet contents"])
p("C05", "An Iceberg table equals the sequential history of its operations",
  "After any sequence of supported Iceberg writes, reading the table, with or without a filter, returns exactly the rows a sequential model gives, every retained snapshot keeps returning the rows it had, and another implementation of the Iceberg specification reads the same rows from the same metadata. Partition transforms, manifest bounds and counts recorded in metadata are true of the data files.",
  ["histories", "inputs"], "all sequences of appends, overwrites, deletes, updates, merges and schema changes, over partition transforms, format versions, special values and predicates",
  "Tests cover chosen short sequences with ordinary values, and compare Sail mostly with itself.",
  [I + "operations/snapshot.rs", I + "operations/append.rs", I + "operations/overwrite.rs", I + "physical_plan/writer_exec.rs", I + "physical_plan/delete_apply_exec.rs", I + "datasource/pruning.rs", I + "utils/partition_transform.rs", I + "spec/delete_index.rs", I + "schema_evolution.rs"],
  [("snapshot producer", I + "operations/snapshot.rs"), ("manifest and metrics pruning", I + "datasource/pruning.rs")],
  observe=["rows read through SQL at each snapshot", "rows and metadata read by PyIceberg"])
p("C06", "Iceberg commits are atomic and lose no update",
  "When several writers commit to an Iceberg table, or storage requests fail, or a server dies in the middle of a write, every write that reported success is in the current snapshot's history exactly once and no write that reported failure is visible. The table stays readable after every crash or fault and shows either the rows from before or the rows from after the interrupted write.",
  ["schedules", "crash_points", "fault_sequences"], "all interleavings and fault points of the storage and catalog requests of a commit",
  "No test interleaves two Iceberg commits or fails a storage request of one.",
  [I + "physical_plan/mod.rs", I + "catalog_support/commit.rs", I + "operations/action.rs", I + "table/metadata_loader.rs", I + "table_format.rs"],
  [("new metadata file with put-if-absent", I + "physical_plan/"), ("metadata discovery", I + "table/metadata_loader.rs")],
  observe=["object storage requests", "rows read by a fresh server and by PyIceberg"])
p("C07", "Distributed execution gives the same answer as local execution",
  "For every query, running it on the cluster with any number of workers, slots and partitions and any shuffle backend returns the same rows as running it in a single process. If a task fails and is retried, or a worker is lost and its work is redone, each row still counts exactly once; if the job cannot be completed the client gets an error, never a partial result reported as complete.",
  ["programs", "schedules", "fault_sequences", "configurations"], "all plans, placements of tasks, failure points of tasks and streams, and cluster configurations",
  "The suite runs in local mode; what there is for the cluster checks plans and serialization of single operators, and no test fails a task.",
  [X + "job_graph/planner.rs", X + "driver/job_scheduler/core.rs", X + "driver/job_scheduler/topology.rs", X + "driver/output.rs", X + "proto/codec.rs", X + "plan/shuffle_read.rs", X + "plan/shuffle_write.rs", X + "stream/reader.rs", X + "stream/merge.rs", X + "task_runner/mod.rs", "crates/sail-execution/src/shuffle.rs"],
  [("job graph with stages and shuffles", X + "job_graph/planner.rs"), ("task attempts and retry by region", X + "driver/job_scheduler/"), ("plan codec", X + "proto/codec.rs")],
  observe=["results through Spark Connect in local and in local-cluster mode", "failures injected through user functions"])
p("C08", "Jobs, stages, tasks and workers follow their lifecycle",
  "In every execution, each task attempt runs on one live worker that has a free slot, attempts of a task do not overlap and stay within the configured maximum, a stage that consumes another stage's blocking output starts after it has finished, and a job reaches exactly one terminal state that agrees with what the client saw. When a job ends, whether by success, failure or cancellation, no task of it stays active and its shuffle data is released.",
  ["schedules", "histories", "fault_sequences"], "all schedules of concurrent jobs, task failures, cancellations and worker departures",
  "Unit tests of the scheduler step through single transitions; the protocol across driver, workers and client only exists at run time.",
  [X + "driver/job_scheduler/state.rs", X + "driver/job_scheduler/core.rs", X + "driver/task_assigner/mod.rs", X + "driver/worker_pool/mod.rs", X + "task_runner/mod.rs", "crates/sail-catalog-system/src/lib.rs"],
  [("job scheduler refresh", X + "driver/job_scheduler/core.rs"), ("task assigner", X + "driver/task_assigner/")],
  observe=["system catalog tables polled during execution", "scratch directories of the storage shuffle"])
p("C09", "Query results follow SQL's relational semantics",
  "For every query over joins, subqueries, set operations, grouping, window functions, sorting, limits, pivots and common table expressions, the result is the one SQL's semantics prescribe for the given tables, including nulls and duplicates. Equivalent formulations of a query, in SQL or through DataFrames, give the same result.",
  ["programs", "inputs"], "all queries in the supported fragment and all table contents",
  "Tests compare a few hundred chosen queries with snapshots; the optimizer's rewrites interact over an unbounded space of queries, and nulls and duplicates decide which rewrites are sound.",
  [G + "resolver/mod.rs", G + "resolver/query", G + "function/window.rs", G + "function/aggregate.rs", "crates/sail-logical-optimizer/src/lateral_join.rs", "crates/sail-physical-optimizer/src/lib.rs", "crates/sail-sql-analyzer/src/query.rs"],
  [("resolver from Spark plans to logical plans", G + "resolver/"), ("logical and physical optimizers", "crates/sail-session/src/optimizer.rs")],
  observe=["rows returned to a Spark Connect client, against an independent SQL engine and algebraic identities"])
p("C10", "Physical configuration never changes an answer",
  "The rows a query returns do not depend on parallelism, batch size, how input is split into partitions and files, join reordering, join algorithm choice, side swapping, Parquet pruning or pushdown settings or the other execution and optimizer options. Where the query orders its output, the order is kept too.",
  ["configurations", "programs"], "all combinations of execution and optimizer options, for all queries",
  "The suite runs with one configuration; the options are exercised only by plan snapshots.",
  ["crates/sail-physical-optimizer/src/join_reorder/mod.rs", "crates/sail-physical-optimizer/src/join_reorder/reconstructor.rs", "crates/sail-physical-optimizer/src/join_reorder/enumerator.rs", "crates/sail-physical-optimizer/src/collect_left.rs", "crates/sail-physical-optimizer/src/explicit_repartition.rs", "crates/sail-physical-optimizer/src/projection_pushdown.rs", "crates/sail-physical-plan/src/repartition.rs", "crates/sail-physical-plan/src/coalesce.rs", "crates/sail-session/src/optimizer.rs"],
  [("join reorder", "crates/sail-physical-optimizer/src/join_reorder/"), ("physical optimizer rules", "crates/sail-physical-optimizer/src/")],
  observe=["rows returned by servers started with different configurations"])
p("C11", "What is written to files is what is read back",
  "Rows written as Parquet, JSON, CSV, text, Arrow, Avro or binary files, with any options, partitioning and number of files, are read back as the same rows wherever the format can represent them, and independent readers agree. The save modes do what they promise: append keeps existing rows, overwrite replaces them, ignore changes nothing and error refuses, and a write that fails leaves the rows that were there before untouched.",
  ["inputs", "configurations"], "all rows of all supported types, options and save modes",
  "Tests write a few ordinary rows per format; quoting, escaping, nulls, partition path encoding and type extremes are where round trips break.",
  ["crates/sail-data-source/src/listing/write.rs", "crates/sail-data-source/src/listing/table.rs", "crates/sail-data-source/src/listing/source.rs", "crates/sail-data-source/src/formats/mod.rs", "crates/sail-data-source/src/listing/delete.rs", "crates/sail-data-source/src/options/parsers.rs"],
  [("listing table format", "crates/sail-data-source/src/listing/"), ("per-format readers and writers", "crates/sail-data-source/src/formats/")],
  observe=["rows read back through SQL", "files read by PyArrow and by Python's own readers"])
p("C12", "A file read returns the current files' rows that satisfy the filter",
  "A query over a directory of files returns exactly the rows of the files that are there when the query starts and that satisfy the filter; partition pruning, statistics pruning, filter pushdown and projection only skip work. No cache (listing, metadata, statistics) makes a query return rows of files that were replaced or removed earlier, or miss files that were added earlier, and partition values are decoded to what was written.",
  ["inputs", "histories", "configurations"], "all directory contents, partition values, predicates and histories of external changes, with caches on and off",
  "Tests read directories that do not change between queries and use a handful of partition values and predicates.",
  ["crates/sail-cache/src/file_listing_cache.rs", "crates/sail-cache/src/file_metadata_cache.rs", "crates/sail-cache/src/file_statistics_cache.rs", "crates/sail-data-source/src/listing/planner.rs", "crates/sail-data-source/src/listing/input_files.rs", "crates/sail-data-source/src/url.rs", "crates/sail-session/src/runtime.rs"],
  [("cache validation by object metadata", "crates/sail-cache/src/"), ("listing and pruning", "crates/sail-data-source/src/listing/")],
  observe=["rows and input file names through SQL, with files changed between queries by the monitor"])
p("C13", "Every operation delivers its responses exactly once, in order",
  "A Spark Connect client that executes a plan, and after any disconnection reattaches with the last response it received, gets the responses it had not yet received, each exactly once and in order, ending with completion, or gets an error; it never gets a shortened or repeated result that looks complete. Releasing or interrupting an operation, by id, tag or session, ends that operation and no other, and the server stays usable.",
  ["schedules", "fault_sequences"], "all points of disconnection, reattachment, release and interruption relative to the progress of the operation",
  "Tests use a client that stays connected; reattachment happens only after network failures.",
  [S + "executor.rs", S + "service/plan_executor.rs", S + "session.rs", S + "server.rs"],
  [("response buffer with replay from the last acknowledged response", S + "executor.rs"), ("operation registry per session", S + "session.rs")],
  [("response buffer", "responses not yet released by the client", S + "executor.rs")],
  ["gRPC responses seen by a raw client"])
p("C14", "Sessions are isolated and concurrent operations do not interfere",
  "What one session sets (configuration, temporary views, current database and catalog, registered functions) is visible to later operations of that session and never to another, except for what is global by definition. Operations running concurrently in one or several sessions return the same results as when they run alone.",
  ["schedules", "histories"], "all interleavings of operations from all sessions",
  "Tests use one session at a time.",
  ["crates/sail-session/src/session_manager/mod.rs", "crates/sail-session/src/session_manager/session.rs", S + "session_manager.rs", S + "session.rs", S + "service/config_manager.rs", "crates/sail-catalog/src/manager/mod.rs", "crates/sail-catalog/src/temp_view.rs"],
  [("session contexts by user and session id", "crates/sail-session/src/session_manager/")],
  observe=["SQL and configuration responses of many concurrent sessions against a per-session model"])
p("C15", "Catalog operations follow a sequential catalog model",
  "Creating, replacing, altering, listing, describing, using and dropping databases, tables and views behave like a map from names to definitions: existence clauses decide between an error and no effect, a failed statement changes nothing, and listings, existence tests and descriptions agree with that map at every moment. When sessions of one server race on a name, exactly one create or drop wins.",
  ["histories", "schedules", "inputs"], "all sequences and interleavings of catalog statements, over all identifier spellings",
  "Tests check single statements and short scripts; agreement of all views of the catalog after arbitrary histories, and races, are not sampled.",
  ["crates/sail-catalog/src/manager/mod.rs", "crates/sail-catalog/src/manager/table.rs", "crates/sail-catalog/src/manager/database.rs", "crates/sail-catalog/src/manager/view.rs", "crates/sail-catalog/src/manager/tracker.rs", "crates/sail-catalog/src/temp_view.rs", "crates/sail-catalog/src/command.rs", "crates/sail-catalog-memory/src/lib.rs", G + "resolver/command"],
  [("catalog manager", "crates/sail-catalog/src/manager/"), ("memory catalog", "crates/sail-catalog-memory/src/")],
  observe=["SQL statements and catalog API responses against a map model"])
p("C16", "Any request ends in a result or an error, and the server survives",
  "Whatever SQL text, plan or data a client sends, the server answers with a result or a proper error in bounded time; it never panics, hangs or dies, and other clients are not affected. Keyword case, white space, comments and redundant parentheses never change what a statement means.",
  ["inputs"], "all byte strings as SQL text, all well-formed and malformed plans, all data",
  "Tests contain statements that people write; robustness is about those nobody writes.",
  ["crates/sail-sql-parser/src/parser.rs", "crates/sail-sql-parser/src/lexer.rs", "crates/sail-sql-parser/src/string.rs", "crates/sail-sql-analyzer/src/parser.rs", "crates/sail-sql-analyzer/src/literal/utils.rs", S + "proto/plan.rs", S + "error.rs"],
  [("chumsky based parser", "crates/sail-sql-parser/src/"), ("error conversion to gRPC status", S + "error.rs")],
  observe=["responses to hostile statements", "server's panic messages and liveness"])
p("C17", "An expression's value does not depend on how its input is presented",
  "The value of an expression for given arguments is the same whether the arguments are literals, columns or a mix of both, whatever other rows are in the batch, wherever nulls are, however rows are split into batches, and whether it is used in a projection, a filter, a condition or an aggregate. An error raised for a row that is not evaluated never surfaces.",
  ["inputs", "programs"], "all functions and operators, argument values, and physical presentations of them",
  "Tests evaluate functions mostly on literals, one row at a time; array, scalar and null paths of each function are separate code.",
  ["crates/sail-function/src/scalar", "crates/sail-function/src/aggregate", G + "function/scalar", G + "function/aggregate.rs"],
  [("scalar functions over columnar values", "crates/sail-function/src/scalar/"), ("accumulators and group accumulators", "crates/sail-function/src/aggregate/")],
  observe=["values returned for the same arguments under different presentations"])
p("C18", "Functions, operators and casts give the values Spark defines",
  "For the built-in functions, operators, casts and literals that are supported, the result for every argument, including nulls, extreme, special and malformed values, is the value Spark defines, in ANSI mode and outside it, and an error exactly where Spark raises one.",
  ["inputs", "configurations"], "all argument values of each supported function",
  "Each function has a handful of example calls; the recorded results that come with Spark's documentation examples are only checked for success.",
  ["crates/sail-function/src/scalar", "crates/sail-function/src/aggregate", "crates/sail-function/src/window", G + "function", "crates/sail-sql-analyzer/src/literal", G + "resolver/expression"],
  [("function implementations", "crates/sail-function/src/"), ("function planning", "crates/sail-plan/src/function/")],
  observe=["values and errors against those recorded from Apache Spark"])
p("C19", "The declared schema is the schema of the result",
  "The schema reported for a plan before execution is the schema of its result: same column names, types and nested types, in every batch. A column declared as not nullable never contains a null, and an empty result has the same schema as a non-empty one.",
  ["programs", "inputs"], "all plans and inputs",
  "Tests look at either schemas or values, for chosen queries.",
  [S + "schema.rs", S + "service/plan_analyzer.rs", S + "executor.rs", G + "resolver/schema.rs", "crates/sail-physical-plan/src/schema_pivot.rs"],
  [("schema analysis", S + "service/plan_analyzer.rs"), ("output renaming", G + "lib.rs")],
  observe=["analysis responses and Arrow batches of the same plan"])
p("C20", "User-defined Python functions see and return exactly the rows they should",
  "A Python function used as a scalar, Pandas, Arrow, iterator, grouped, cogrouped, aggregate or table function is applied to exactly the rows (or groups) of its input, each once, with the argument values unchanged, and the values it returns appear in the result unchanged and in the right rows. This holds for every type, null placement, number of batches and partitioning, and an exception in the function fails the query with its message.",
  ["inputs", "programs", "configurations"], "all functions, argument types and values, batch and partition layouts",
  "Tests call each kind of function on a few rows in one batch.",
  ["crates/sail-python-udf/src/udf/mod.rs", "crates/sail-python-udf/src/udf/pyspark_udf.rs", "crates/sail-python-udf/src/udf/pyspark_udtf.rs", "crates/sail-python-udf/src/udf/pyspark_udaf.rs", "crates/sail-python-udf/src/udf/pyspark_map_iter_udf.rs", "crates/sail-python-udf/src/udf/pyspark_cogroup_map_udf.rs", "crates/sail-python-udf/src/conversion.rs", "crates/sail-python-udf/src/python/spark.rs", "crates/sail-physical-plan/src/map_partitions.rs"],
  [("conversion between Arrow and Python", "crates/sail-python-udf/src/"), ("group and cogroup collection", "crates/sail-python-udf/src/udf/")],
  observe=["calls and values logged by the functions themselves", "result rows"])
p("C21", "Streaming queries process each source row once and stop when told",
  "A streaming query delivers to its sink every row its source produced, each once and unchanged by filters and projections other than as stated, and its status reports whether it is running. Stopping it ends it, and it leaves other queries running.",
  ["schedules", "histories"], "all interleavings of source, sink, status and stop requests",
  "Streaming tests start a query and stop it; they do not account for the rows.",
  [S + "streaming.rs", G + "streaming/rewriter.rs", "crates/sail-physical-plan/src/streaming/filter.rs", "crates/sail-physical-plan/src/streaming/limit.rs", "crates/sail-physical-plan/src/streaming/collector.rs"],
  [("streaming rewriter", G + "streaming/rewriter.rs"), ("streaming operators", "crates/sail-physical-plan/src/streaming/")],
  observe=["sink output and query status"])
p("C22", "Arrow Flight SQL and Spark Connect give the same answers",
  "A statement sent through Arrow Flight SQL, directly or prepared, returns the same schema and rows as through Spark Connect, statements of one connection do not disturb those of another, and the advertised schema is the schema of the stream.",
  ["programs", "schedules"], "all statements and interleavings of connections",
  "The Flight SQL tests cover a few statements.",
  ["crates/sail-flight/src/service.rs", "crates/sail-flight/src/session.rs", "crates/sail-flight/src/state.rs"],
  [("Flight SQL service", "crates/sail-flight/src/service.rs")],
  observe=["Flight SQL and Spark Connect responses to the same statements"])
p("C23", "Unsafe code has no undefined behaviour",
  "No input drives the code that Sail marks as unsafe into undefined behaviour: every pointer dereference and unchecked access is in bounds, aligned and of live, initialized memory, and shared state is free of data races.",
  ["inputs", "schedules"], "all inputs that reach an unsafe block, all schedules of threads that share state",
  "Tests run compiled code, in which undefined behaviour usually goes unnoticed.",
  ["crates/sail-function/src/aggregate/percentile_disc_groups.rs", "crates/sail-function/src/scalar/hash/utils.rs", "crates/sail-common-datafusion/src/display.rs", "crates/sail-data-source/src/formats/text/reader.rs", "crates/sail-pyarrow/src/lib.rs", "crates/sail-physical-optimizer/src/join_reorder/reconstructor.rs"],
  [("local invariants stated at the unsafe blocks", "each file")],
  observe=["Miri and sanitizer reports"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P:
        f.write(json.dumps(x) + "\n")
print(len(P))
