"""Function calls with typed slots, and the queries that evaluate them on rows of generated values."""
import random, re

SQLT = {"i": "INT", "l": "BIGINT", "y": "TINYINT", "s": "STRING", "d": "DECIMAL(10,2)", "f": "DOUBLE", "b": "BOOLEAN", "t": "DATE", "u": "TIMESTAMP",
        "x": "BINARY", "a": "ARRAY<INT>", "r": "ARRAY<STRING>", "m": "MAP<STRING, INT>", "o": "STRUCT<a: INT, b: STRING>"}
PLAIN = {
    "i": ["0", "1", "2", "3", "5", "7", "10", "-1", "-3", "42", "100"],
    "l": ["0", "1", "2", "3", "8", "12", "-1", "-5", "1000", "123456789012"],
    "y": ["0", "1", "2", "5", "-1", "-7", "100"],
    "s": ["'a'", "'abc'", "'Hello World'", "''", "' pad '", "'a,b,c'", "'x1y22z'", "'ABC'", "'b'", "'12'", "'2024-02-29'", "'aXbXc'"],
    "d": ["0.00", "1.50", "-2.25", "100.10", "12345.67", "0.01", "-0.99"],
    "f": ["0.0", "1.5", "-2.75", "3.0", "100.25", "0.1", "12345.678"],
    "b": ["true", "false"],
    "t": ["'2024-01-15'", "'2024-02-29'", "'1999-12-31'", "'1970-01-01'", "'2000-06-15'", "'2023-07-04'"],
    "u": ["'2024-01-15 10:20:30'", "'2024-02-29 23:59:59.123456'", "'1999-12-31 00:00:00'", "'1970-01-01 00:00:01'", "'2023-07-04 12:00:00.5'"],
    "x": ["X''", "X'00ff'", "X'414243'", "X'61'", "X'ff00ff00'"],
    "a": ["array(1, 2, 3)", "array(3, NULL, 1)", "array(1, 1, 2)", "array(5)", "array(2, 4, 6, 8)"],
    "r": ["array('a', 'b')", "array('x', NULL)", "array('b', 'a', 'b')", "array('')", "array('abc', 'a', 'zz')"],
    "m": ["map('a', 1, 'b', 2)", "map('k', CAST(NULL AS INT))", "map('x', 3)", "map('b', 7, 'a', 0, 'c', -1)"],
    "o": ["named_struct('a', 1, 'b', 'x')", "named_struct('a', CAST(NULL AS INT), 'b', 'y')", "named_struct('a', 2, 'b', '')"],
}
EDGE = {
    "i": ["2147483647", "-2147483648", "127", "128", "65", "-100", "31", "32", "64"],
    "l": ["9223372036854775807", "-9223372036854775808", "2147483648", "63", "64", "-1000000007"],
    "y": ["127", "-128"],
    "s": ["'\u00e9t\u00e9'", "'\u65e5\u672c\u8a9e'", "'\U0001F600a'", "'a%b_c'", "'   '", "'0'", "'-1'", "'1.5'", "'true'", "'MiXeD cAsE text, with punctuation!'", "'aaa'", "'\u00df'", "'1e3'", "'%'"],
    "d": ["99999999.99", "-99999999.99", "0.05", "2.50", "-2.50", "3.45"],
    "f": ["double('NaN')", "double('Infinity')", "double('-Infinity')", "-0.0D", "1e300", "1e-300", "2.5D", "-0.5D", "1e15"],
    "b": [],
    "t": ["'0001-01-01'", "'9999-12-31'", "'1969-12-31'", "'1900-02-28'", "'2020-12-28'", "'2021-01-03'", "'1582-10-15'"],
    "u": ["'1969-12-31 23:59:59.999999'", "'0001-01-01 00:00:00'", "'9999-12-31 23:59:59'", "'2020-12-31 12:34:56.000001'", "'1900-01-01 05:06:07'"],
    "x": ["X'e9'", "X'f09f9880'", "X'0000000000000000000000000000000000'"],
    "a": ["CAST(array() AS ARRAY<INT>)", "array(2147483647, -2147483648)", "array(CAST(NULL AS INT))", "array(-1, 0, NULL, NULL)"],
    "r": ["CAST(array() AS ARRAY<STRING>)", "array('\u00e9', 'B', 'a')", "array(CAST(NULL AS STRING))"],
    "m": ["CAST(map() AS MAP<STRING, INT>)", "map('', 0)"],
    "o": ["named_struct('a', 2147483647, 'b', CAST(NULL AS STRING))"],
}


def value(rng, t, pool, level):
    """A literal for a slot of type t whose own pool is given."""
    if rng.random() < 0.1:
        return "NULL"
    if pool and rng.random() < 0.6:
        return rng.choice(pool)
    if level == "own" and pool:
        return rng.choice(pool)
    c = PLAIN[t] + (EDGE[t] if level == "edge" else [])
    return rng.choice(c)


def rows(rng, call, n):
    """n tuples of literals, one per slot."""
    return [tuple(value(rng, t, pool, call["level"]) for t, pool in call["slots"]) for _ in range(n)]


def expr(call, names):
    e = call["t"]
    for k, c in enumerate(names):
        e = e.replace("{%d}" % k, c)
    return e


def typed(t, v):
    return "CAST(%s AS %s)" % (v, SQLT[t])


def table(calls, data):
    """FROM item with the columns of all the calls: id, then c<call>_<slot>."""
    n = len(data[0])
    names = ["id"] + ["c%d_%d" % (k, j) for k, c in enumerate(calls) for j in range(len(c["slots"]))]
    body = []
    for i in range(n):
        body.append("(%s)" % ", ".join([str(i)] + [typed(t, v) for c, d in zip(calls, data) for (t, _), v in zip(c["slots"], d[i])]))
    return "(SELECT * FROM VALUES %s AS v(%s))" % (", ".join(body), ", ".join(names))


def query(calls, data, literal_row=None):
    """A query with the results of all calls (scalar calls, one row per input row; aggregates: one row per group)."""
    es = [expr(c, ["c%d_%d" % (k, j) for j in range(len(c["slots"]))]) for k, c in enumerate(calls)]
    if calls[0]["agg"]:
        return "SELECT id %% 3 AS id, %s FROM %s GROUP BY id %% 3" % (", ".join("%s AS r%d" % (e, k) for k, e in enumerate(es)), table(calls, data))
    return "SELECT id, %s FROM %s" % (", ".join("%s AS r%d" % (e, k) for k, e in enumerate(es)), table(calls, data))


# ------------------------------------------------------------ operators and casts
def operators():
    """Templates of operators, casts and special forms (those Spark refuses are dropped when the corpus is made)."""
    out = []

    def add(t, types, f):
        out.append({"f": f, "t": t, "slots": [[x, []] for x in types], "agg": False, "type": None, "src": "O"})
    num = "yildf"
    for op in ["+", "-", "*", "/", "%", "DIV", "=", "<=>", "<", ">=", "<>"]:
        for a in num:
            for b in num:
                add("({0} %s {1})" % op, [a, b], "op " + op)
    for op in ["=", "<=>", "<", ">=", "<>"]:
        for a, b in ["ss", "bb", "tt", "uu", "xx", "tu", "ut", "aa", "rr", "oo", "si", "is", "st", "sf", "ds", "su", "sb"]:
            add("({0} %s {1})" % op, [a, b], "op " + op)
    for op in ["&", "|", "^"]:
        for a, b in ["ii", "ll", "yy", "il", "yi", "iy"]:
            add("({0} %s {1})" % op, [a, b], "op " + op)
    for op in ["AND", "OR"]:
        add("({0} %s {1})" % op, ["b", "b"], "op " + op)
    for a in "iyldf":
        add("(- {0})", [a], "op neg")
    for a in "ily":
        add("(~ {0})", [a], "op bitnot")
    add("(NOT {0})", ["b"], "op not")
    for a, b in ["ss", "rr", "aa", "si", "is", "sf", "xx", "sd", "st"]:
        add("({0} || {1})", [a, b], "op ||")
    for a, b in ["ti", "ty", "tt", "uu"]:
        add("({0} - {1})", [a, b], "op date")
    add("({0} + {1})", ["t", "i"], "op date")
    for iv in ["INTERVAL '1' DAY", "INTERVAL '2' MONTH", "INTERVAL '-3' YEAR", "INTERVAL '5:06' HOUR TO MINUTE", "INTERVAL '1 2:3:4.005' DAY TO SECOND", "INTERVAL 40 DAYS", "INTERVAL 13 MONTHS"]:
        for a in "tu":
            for op in "+-":
                add("({0} %s %s)" % (op, iv), [a], "op interval")
    for p in ["a%", "%b%", "_", "%\\\\%%", "", "%c", "a_c"]:
        add("({0} LIKE '%s')" % p, ["s"], "like"); add("({0} NOT LIKE '%s')" % p, ["s"], "like"); add("({0} ILIKE '%s')" % p, ["s"], "like")
    for p in ["^a", "[0-9]+", "b$", "(?i)ABC", "a|b", "\\\\s"]:
        add("({0} RLIKE '%s')" % p, ["s"], "rlike")
    for t in "iysdftub":
        add("({0} BETWEEN {1} AND {2})", [t] * 3, "between"); add("({0} IN ({1}, {2}))", [t] * 3, "in"); add("({0} NOT IN ({1}, {2}))", [t] * 3, "in")
        add("CASE WHEN {0} = {1} THEN {2} ELSE {0} END", [t] * 3, "case"); add("CASE {0} WHEN {1} THEN 'x' WHEN {2} THEN 'y' END", [t] * 3, "case")
        add("if({0} > {1}, {0}, {1})", [t] * 2, "case")
    for t in SQLT:
        add("({0} IS NULL)", [t], "isnull"); add("({0} IS NOT NULL)", [t], "isnull")
    for t in "is":
        add("({0} IS DISTINCT FROM {1})", [t] * 2, "distinct")
    for c in ["IS TRUE", "IS NOT TRUE", "IS FALSE", "IS UNKNOWN"]:
        add("({0} %s)" % c, ["b"], "istrue")
    for k in ["YEAR", "QUARTER", "MONTH", "WEEK", "DAY", "DOW", "DOY", "HOUR", "MINUTE", "SECOND", "YEAROFWEEK", "DAYOFWEEK_ISO"]:
        for t in "tu":
            add("extract(%s FROM {0})" % k, [t], "extract")
    for t in ["TINYINT", "SMALLINT", "INT", "BIGINT", "FLOAT", "DOUBLE", "DECIMAL(10,2)", "DECIMAL(5,3)", "DECIMAL(20,0)", "STRING", "BOOLEAN", "DATE", "TIMESTAMP", "TIMESTAMP_NTZ", "BINARY",
              "ARRAY<STRING>", "ARRAY<BIGINT>", "ARRAY<INT>", "MAP<STRING, STRING>", "MAP<STRING, BIGINT>", "STRUCT<p: BIGINT, q: STRING>", "STRUCT<a: STRING, b: INT>"]:
        for x in SQLT:
            add("CAST({0} AS %s)" % t, [x], "cast"); add("TRY_CAST({0} AS %s)" % t, [x], "try_cast")
    add("{0}[{1}]", ["a", "i"], "index"); add("{0}[{1}]", ["r", "i"], "index"); add("{0}[{1}]", ["m", "s"], "index"); add("{0}.a", ["o"], "field"); add("{0}.b", ["o"], "field")
    for k in ["BOTH", "LEADING", "TRAILING"]:
        add("trim(%s {1} FROM {0})" % k, ["s", "s"], "trim")
    add("overlay({0} PLACING {1} FROM 2)", ["s", "s"], "overlay"); add("substring({0} FROM 2 FOR 3)", ["s"], "substring"); add("position({1} IN {0})", ["s", "s"], "position")
    return out


UNORDERED = {"collect_list", "collect_set", "array_agg"}
SKIPPED = {"listagg", "string_agg", "min_by", "max_by", "approx_percentile", "percentile_approx", "measure", "some_value"}


def adapt(calls):
    """Makes the results comparable: no order where there is none, intervals and variants as text."""
    out = []
    for c in calls:
        if c["f"] in SKIPPED:
            continue
        if c["f"] in UNORDERED:
            c = dict(c, t="sort_array(%s)" % c["t"])
        ty = c["type"] or ""
        if ty.startswith("interval") and not re.match("interval (day|hour|minute|second)", ty):
            c = dict(c, t="CAST(%s AS STRING)" % c["t"])
        if ty == "variant":
            c = dict(c, t="to_json(%s)" % c["t"])
        if "void" in ty:
            continue
        out.append(c)
    return out


# functions whose result has the size an argument asks for
SIZES = {"array_repeat", "space", "repeat", "lpad", "rpad", "sequence", "array_insert", "format_number", "format_string", "printf", "width_bucket", "round", "bround", "make_interval"}


def limit_memory():
    import resource
    resource.setrlimit(resource.RLIMIT_DATA, (6 << 30, 6 << 30))
