"""Enumerates the typed calls of Spark's functions that Spark accepts: data/calls_all.json. Needs no Sail. Run by hand."""
import glob, itertools, json, os, random, re, sys
sys.path.insert(0, "/verif/lib")
import calls
from concurrent.futures import ThreadPoolExecutor
shard, nsh, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
for k in [k for k in os.environ if k.startswith("SPARK_")]:
    del os.environ[k]
from pyspark.sql import SparkSession
tmp = "/tmp/mk%d" % shard
os.makedirs(tmp, exist_ok=True); os.chdir(tmp)
s = (SparkSession.builder.master("local[2]").config("spark.ui.enabled", "false").config("spark.sql.session.timeZone", "UTC").config("spark.driver.host", "127.0.0.1")
     .config("spark.driver.bindAddress", "127.0.0.1").config("spark.driver.memory", "2g").config("spark.log.level", "OFF").getOrCreate())
import logging
logging.disable(logging.CRITICAL)
SKIP = re.compile("^(rand|randn|random|randstr|uniform|uuid|shuffle|monotonically_increasing_id|spark_partition_id|input_file.*|current_.*|now|curdate|localtimestamp|version|user|session_user|"
                  "java_method|reflect|try_reflect|assert_true|raise_error|sleep|window|session_window|window_time|.*sketch.*|hll_.*|theta_.*|kll_.*|bitmap_.*|try_variant.*|variant.*|.*_variant.*|is_variant.*|st_.*|from_avro|to_avro|from_protobuf|to_protobuf|"
                  "approx_top.*|count_min.*|histogram_numeric|when|between|any_value|first|first_value|last|last_value|mode|unix_timestamp|schema_of.*|xpath.*|from_xml|to_xml|aes_.*|try_aes.*|time_.*|.*_time|to_time|try_to_time|tuple_.*|grouping.*|typeof|ai_.*|vector.*|version|collations|collation|collate)$")
jvm = s._jvm
reg = s._jsparkSession.sessionState().functionRegistry()
names = sorted(r[0] for r in s.sql("SHOW SYSTEM FUNCTIONS").collect())
names = [n for n in names if re.match("^[a-z_0-9]+$", n) and not SKIP.match(n)]
mine = names[shard::nsh]
cols = {t: "c_" + t for t in calls.SQLT}
s.sql("CREATE TEMPORARY VIEW tt AS SELECT %s" % ", ".join("CAST(%s AS %s) AS c_%s" % (calls.PLAIN[t][0], calls.SQLT[t], t) for t in calls.SQLT))


def group(n):
    o = reg.lookupFunction(jvm.org.apache.spark.sql.catalyst.FunctionIdentifier(n, jvm.scala.Option.apply("builtin"), jvm.scala.Option.apply("system")))
    return o.get().getGroup() if o.isDefined() else ""


an = s._jsparkSession.sessionState()
parse = an.sqlParser()


def check(e):
    try:
        df = s.sql("SELECT %s AS r FROM tt" % e)
        p = df._jdf.queryExecution().analyzed().toString()
        return df.schema[0].dataType.simpleString(), p.count("cast(")
    except Exception:
        return None


res = []
rng = random.Random(5)
T = list(calls.SQLT)
examples = {}
for f in sorted(glob.glob("/repo/crates/sail-spark-connect/tests/gold_data/function/*.json")):
    for t in json.load(open(f))["tests"]:
        q = t["input"]["query"].strip().rstrip(";")
        m = re.match(r"^SELECT\s+(\w+)\s*\((.*)\)$", q, re.S | re.I)
        if m:
            examples.setdefault(m.group(1).lower(), []).append(m.group(2))


def split_args(a):
    out, d, cur, st = [], 0, "", None
    for ch in a:
        if st:
            cur += ch
            if ch == st and not cur.endswith("\\" + st):
                st = None
            continue
        if ch in "'\"":
            st = ch
        if ch in "([{":
            d += 1
        if ch in ")]}":
            d -= 1
            if d < 0:
                return None
        if ch == "," and d == 0:
            out.append(cur.strip()); cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


TY = {"int": "i", "bigint": "l", "tinyint": "y", "string": "s", "double": "f", "boolean": "b", "date": "t", "timestamp": "u", "binary": "x", "array<int>": "a", "array<string>": "r", "map<string,int>": "m"}


def typ(e):
    try:
        t = s.sql("SELECT %s AS r" % e).schema[0].dataType.simpleString()
    except Exception:
        return None
    return "d" if t.startswith("decimal") else TY.get(t)


for n in mine:
    g = group(n)
    if g in ("window_funcs", "generator_funcs", "table_funcs") or n in ("explode", "explode_outer", "posexplode", "posexplode_outer", "inline", "inline_outer", "stack", "json_tuple"):
        continue
    agg = g == "agg_funcs"
    seen = set()

    def add(t, slots, ty, src):
        if t + str([x for x, _ in slots]) in seen:
            return
        seen.add(t + str([x for x, _ in slots]))
        res.append({"f": n, "t": t, "slots": slots, "agg": agg, "type": ty, "src": src})
    # A: every combination of argument types
    for ar in (1, 2, 3):
        combos = list(itertools.product(T, repeat=ar))
        rng.shuffle(combos)
        good = []
        tried = 0
        for c in combos[:60 if ar == 3 else 110]:
            r = check("%s(%s)" % (n, ", ".join(cols[x] for x in c)))
            tried += 1
            if r:
                good.append((r[1], len(good), c, r[0]))
            if tried > 25 and ar == 3 and not good:
                break
        good.sort()
        for k, (casts, _, c, ty) in enumerate([x for x in good if x[0] == 0][:10 if ar == 1 else 8] + [x for x in good if x[0] > 0][:3]):
            add("%s(%s)" % (n, ", ".join("{%d}" % i for i in range(ar))), [[x, []] for x in c], ty, "A")
    # B: documented examples with one, or every, argument turned into a column
    ex = [split_args(a) for a in examples.get(n, [])]
    ex = [a for a in ex if a]
    types = {}
    for a in ex:
        for x in a:
            if x not in types:
                types[x] = typ(x)
    for a in ex:
        slots_of = [i for i, x in enumerate(a) if types[x]]
        pool = lambda i: sorted({b[i] for b in ex if len(b) > i and types.get(b[i]) == types[a[i]]})
        for sub in [[i] for i in slots_of] + ([slots_of] if len(slots_of) > 1 else []):
            t = "%s(%s)" % (n, ", ".join("{%d}" % sub.index(i) if i in sub else x for i, x in enumerate(a)))
            slots = [[types[a[i]], pool(i)] for i in sub]
            r = check(calls.expr({"t": t}, [cols[x] for x, _ in slots]))
            if r:
                add(t, slots, r[0], "B")
    print(n, sum(1 for x in res if x["f"] == n), flush=True)
json.dump(res, open(out, "w"))
