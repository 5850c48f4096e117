"""Values, types and predicates with their own three-valued evaluation (the reference for tables)."""
import datetime as dt, decimal, math
from decimal import Decimal

D = Decimal
decimal.DefaultContext.prec = 60
decimal.setcontext(decimal.Context(prec=60))


class Ty:
    def __init__(self, name, sql, pool, lit, cmp=True, special=()):
        self.name, self.sql, self.pool, self.lit, self.cmp, self.special = name, sql, list(pool), lit, cmp, list(special)


def sql_str(s):
    out = []
    for c in s:
        if c == "\\":
            out.append("\\\\")
        elif c == "'":
            out.append("\\'")
        elif c == "\n":
            out.append("\\n")
        elif c == "\r":
            out.append("\\r")
        elif c == "\t":
            out.append("\\t")
        elif c == "\0":
            out.append("\\0")
        else:
            out.append(c)
    return "'" + "".join(out) + "'"


def lit_double(v):
    if math.isnan(v):
        return "double('NaN')"
    if math.isinf(v):
        return "double('%sInfinity')" % ("-" if v < 0 else "")
    if v == 0 and math.copysign(1, v) < 0:
        return "double('-0.0')"
    return "double('%r')" % v


def lit_float(v):
    return lit_double(v).replace("double(", "float(")


def lit_long(v):
    return "(-9223372036854775807L - 1L)" if v == -2**63 else "%dL" % v if v >= 0 else "(%dL)" % v


def lit_int(v):
    return "(-2147483647 - 1)" if v == -2**31 else str(v) if v >= 0 else "(%d)" % v


def lit_ts(v):
    return "TIMESTAMP '%s'" % v.strftime("%Y-%m-%d %H:%M:%S.%f") if v.year >= 1000 else "TIMESTAMP '%04d%s'" % (v.year, v.strftime("-%m-%d %H:%M:%S.%f"))


def lit_date(v):
    return "DATE '%04d-%02d-%02d'" % (v.year, v.month, v.day)


LONGSTR = "long-" + "x" * 40
INT = Ty("int", "INT", [0, 1, 2, 3, 5, 7, -1, 10], lit_int, special=[2**31 - 1, -2**31])
LONG = Ty("long", "BIGINT", [0, 1, 2, 3, 5, -1, 100, 2**53 + 1], lit_long, special=[2**63 - 1, 1 - 2**63])   # both extremes in one column: known finding C16
SHORT = Ty("short", "SMALLINT", [0, 1, 2, -1, 300], lambda v: "CAST(%s AS SMALLINT)" % lit_int(v), special=[32767, -32768])
BYTE = Ty("byte", "TINYINT", [0, 1, 2, -1, 100], lambda v: "CAST(%s AS TINYINT)" % lit_int(v), special=[127, -128])
# Filters on floating-point columns meet two recorded findings (NaN ignored by row-group pruning, -0.0 <> 0.0),
# so columns that are filtered hold neither; columns with NaN are only tested for null and NaN.
DOUBLE = Ty("double", "DOUBLE", [0.0, 1.0, 2.5, -1.5, 0.1, 100.0], lit_double,
            special=[float("inf"), float("-inf"), 1e308, 5e-324])
FLOAT = Ty("float", "FLOAT", [0.0, 1.0, 2.5, -1.5, 100.0], lit_float,
           special=[float("inf"), float("-inf")])
DOUBLE_NAN = Ty("dnan", "DOUBLE", [0.0, 1.0, 2.5, -1.5], lit_double, cmp=False, special=[float("nan"), float("nan"), float("inf"), -0.0])
FLOAT_NAN = Ty("fnan", "FLOAT", [0.0, 1.0, 2.5, -1.5], lit_float, cmp=False, special=[float("nan"), float("nan"), float("inf"), -0.0])
STRING = Ty("string", "STRING", ["a", "b", "c", "ab", "B", "zz", ""], sql_str,
            special=[LONGSTR + "a", LONGSTR + "b", "é", "日本", "\U0001F600", "a b", "a/b=c%d", "null", "quo'te", "\U0010FFFF" * 40, "z" * 33])
BOOL = Ty("bool", "BOOLEAN", [True, False], lambda v: "true" if v else "false")
DATE = Ty("date", "DATE", [dt.date(2024, 1, 1), dt.date(2024, 1, 2), dt.date(2024, 2, 29), dt.date(1970, 1, 1), dt.date(1969, 12, 31)],
          lit_date, special=[dt.date(9999, 12, 31), dt.date(1, 1, 1), dt.date(1582, 10, 15)])
TS = Ty("ts", "TIMESTAMP", [dt.datetime(2024, 1, 1), dt.datetime(2024, 1, 1, 12, 30, 15, 123456), dt.datetime(2024, 1, 1, 12, 30, 15, 123457),
                            dt.datetime(1970, 1, 1), dt.datetime(1969, 12, 31, 23, 59, 59, 999999)], lit_ts,
        special=[dt.datetime(9999, 12, 31, 23, 59, 59, 999999), dt.datetime(1900, 1, 1)])
NTZ = Ty("ntz", "TIMESTAMP_NTZ", TS.pool, lambda v: lit_ts(v).replace("TIMESTAMP ", "TIMESTAMP_NTZ "), special=TS.special)
DEC = Ty("dec", "DECIMAL(10,2)", [D("0.00"), D("1.00"), D("1.50"), D("-2.25"), D("100.00")], lambda v: "CAST('%s' AS DECIMAL(10,2))" % v,
         special=[D("99999999.99"), D("-99999999.99"), D("0.01")])
DEC38 = Ty("dec38", "DECIMAL(38,6)", [D("0.000000"), D("1.000000"), D("1.500000"), D("-2.250000")], lambda v: "CAST('%s' AS DECIMAL(38,6))" % v,
           special=[D("99999999999999999999999999999999.999999"), D("-99999999999999999999999999999999.999999")])
BINARY = Ty("binary", "BINARY", [b"", b"a", b"\x00\xff", b"abc"], lambda v: "X'%s'" % v.hex().upper(), cmp=False)
TYPES = {t.name: t for t in (INT, LONG, SHORT, BYTE, DOUBLE, FLOAT, STRING, BOOL, DATE, TS, NTZ, DEC, DEC38, BINARY)}


def lit(ty, v):
    return "CAST(NULL AS %s)" % ty.sql if v is None else ty.lit(v)


def gen_value(rng, ty, p_null=0.15, p_special=0.15):
    if rng.random() < p_null:
        return None
    if ty.special and rng.random() < p_special:
        return rng.choice(ty.special)
    return rng.choice(ty.pool)


# ------------------------------------------------------------ canonical rows
def canon(v, keep_negzero=False):
    if v is None or isinstance(v, (bool, int, str)):
        return v
    if isinstance(v, float):
        if math.isnan(v):
            return "NaN"
        if v == 0:
            return "-0.0" if keep_negzero and math.copysign(1, v) < 0 else 0.0
        return v
    if isinstance(v, Decimal):
        return ("dec", str(v))
    if isinstance(v, dt.datetime):
        if v.tzinfo is not None:
            v = v.astimezone(dt.timezone.utc).replace(tzinfo=None)
        return ("ts", v.isoformat())
    if isinstance(v, dt.date):
        return ("date", v.isoformat())
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ("bin", bytes(v).hex())
    if isinstance(v, dt.timedelta):
        return ("td", v.total_seconds())
    if isinstance(v, (list,)):
        return ("list",) + tuple(canon(x, keep_negzero) for x in v)
    if isinstance(v, dict):
        return ("map",) + tuple(sorted(((canon(k, keep_negzero), canon(x, keep_negzero)) for k, x in v.items()), key=repr))
    if isinstance(v, tuple):
        return ("row",) + tuple(canon(x, keep_negzero) for x in v)
    return ("other", repr(v))


def canon_row(r, keep_negzero=False):
    return tuple(canon(x, keep_negzero) for x in r)


def bag(rows, keep_negzero=False):
    from collections import Counter
    return Counter(canon_row(r, keep_negzero) for r in rows)


def bag_diff(expected, actual, limit=6):
    e, a = expected - actual, actual - expected
    return {"missing": [repr(x) for x in list(e.elements())[:limit]], "missing_count": sum(e.values()),
            "unexpected": [repr(x) for x in list(a.elements())[:limit]], "unexpected_count": sum(a.values())}


# ------------------------------------------------------------ comparison with Spark's order
def key(v):
    if isinstance(v, float):
        return (1, 0) if math.isnan(v) else (0, v)
    if isinstance(v, str):
        return v.encode("utf-8")
    return v


def cmp3(op, a, b):
    if op == "<=>":
        return (a is None and b is None) or (a is not None and b is not None and key(a) == key(b))
    if a is None or b is None:
        return None
    a, b = key(a), key(b)
    return {"=": a == b, "<>": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]


def and3(a, b):
    if a is False or b is False:
        return False
    return None if a is None or b is None else True


def or3(a, b):
    if a is True or b is True:
        return True
    return None if a is None or b is None else False


def not3(a):
    return None if a is None else not a


class Pred:
    """A predicate: SQL text and evaluation on a row given as a dict of column values."""

    def __init__(self, sql, fn, cols=()):
        self.sql, self.fn, self.cols = sql, fn, frozenset(cols)

    def __call__(self, row):
        return self.fn(row)


def like_prefix(p):
    return p.replace("\\", "\\\\").replace("%", "\\%").replace("_", "\\_")


def gen_atom(rng, cols, qual=""):
    """cols: list of (name, Ty)."""
    name, ty = rng.choice(cols)
    c = "%s`%s`" % (qual, name)
    pick = lambda: rng.choice(ty.pool + ty.special) if ty.special and rng.random() < 0.35 else rng.choice(ty.pool)
    k = rng.random()
    if ty in (DOUBLE_NAN, FLOAT_NAN) and k < 0.4:
        return Pred("(%s IS NOT NULL AND isnan(%s))" % (c, c), lambda r: r[name] is not None and math.isnan(r[name]), [name])
    if not ty.cmp or k < 0.12:
        if rng.random() < 0.5:
            return Pred("%s IS NULL" % c, lambda r: r[name] is None, [name])
        return Pred("%s IS NOT NULL" % c, lambda r: r[name] is not None, [name])
    if ty is BOOL and k < 0.4:
        return Pred(c, lambda r: r[name], [name])
    if k < 0.62:
        op = rng.choice(["=", "<>", "<", "<=", ">", ">=", "<=>"])
        v = pick()
        if rng.random() < 0.2:
            rev = {"=": "=", "<>": "<>", "<": ">", "<=": ">=", ">": "<", ">=": "<=", "<=>": "<=>"}[op]
            return Pred("%s %s %s" % (lit(ty, v), rev, c), lambda r: cmp3(op, r[name], v), [name])
        return Pred("%s %s %s" % (c, op, lit(ty, v)), lambda r: cmp3(op, r[name], v), [name])
    if k < 0.74:
        vs = [pick() for _ in range(rng.randint(1, 4))]
        if rng.random() < 0.15:
            vs.append(None)
        neg = rng.random() < 0.4

        def f(r):
            x = r[name]
            res = False
            for v in vs:
                res = or3(res, cmp3("=", x, v))
            return not3(res) if neg else res
        return Pred("%s %sIN (%s)" % (c, "NOT " if neg else "", ", ".join(lit(ty, v) for v in vs)), f, [name])
    if k < 0.84:
        a, b = pick(), pick()
        neg = rng.random() < 0.3

        def g(r):
            res = and3(cmp3(">=", r[name], a), cmp3("<=", r[name], b))
            return not3(res) if neg else res
        return Pred("%s %sBETWEEN %s AND %s" % (c, "NOT " if neg else "", lit(ty, a), lit(ty, b)), g, [name])
    if ty is STRING and k < 0.94:
        p = rng.choice(["a", "b", "lo", "long-xx", "z", "", "é", LONGSTR])
        neg = rng.random() < 0.3

        def h(r):
            res = None if r[name] is None else r[name].startswith(p)
            return not3(res) if neg else res
        return Pred("%s %sLIKE %s" % (c, "NOT " if neg else "", sql_str(like_prefix(p) + "%")), h, [name])
    same = [n for n, t in cols if t is ty and n != name]
    if same:
        n2 = rng.choice(same)
        op = rng.choice(["=", "<", ">=", "<>"])
        return Pred("%s %s %s`%s`" % (c, op, qual, n2), lambda r: cmp3(op, r[name], r[n2]), [name, n2])
    if ty in (INT, LONG, SHORT, BYTE) and rng.random() < 0.6:
        m = rng.choice([2, 3])
        return Pred("%s %% %d = 1" % (c, m), lambda r: None if r[name] is None else (abs(r[name]) % m == 1 and r[name] > 0), [name])
    if ty is DOUBLE or ty is FLOAT:
        return Pred("(%s IS NOT NULL AND isnan(%s))" % (c, c), lambda r: r[name] is not None and math.isnan(r[name]), [name])
    v = pick()
    return Pred("%s = %s" % (c, lit(ty, v)), lambda r: cmp3("=", r[name], v), [name])


def gen_pred(rng, cols, depth=2, qual=""):
    if depth == 0 or rng.random() < 0.4:
        return gen_atom(rng, cols, qual)
    k = rng.random()
    if k < 0.2:
        a = gen_pred(rng, cols, depth - 1, qual)
        return Pred("NOT (%s)" % a.sql, lambda r: not3(a(r)), a.cols)
    a, b = gen_pred(rng, cols, depth - 1, qual), gen_pred(rng, cols, depth - 1, qual)
    while " IN (" in a.sql and " IN (" in b.sql and set(a.cols) & set(b.cols):
        b = gen_atom(rng, cols, qual)        # two IN lists over one column: known finding in-lists-of-null of C09
    if k < 0.62:
        return Pred("(%s) AND (%s)" % (a.sql, b.sql), lambda r: and3(a(r), b(r)), a.cols | b.cols)
    return Pred("(%s) OR (%s)" % (a.sql, b.sql), lambda r: or3(a(r), b(r)), a.cols | b.cols)


def values_sql(cols, rows, alias=None):
    """A VALUES relation with every cell written as a literal of the column's type."""
    body = ", ".join("(%s)" % ", ".join(lit(t, v) for (_, t), v in zip(cols, r)) for r in rows)
    return "VALUES %s" % body if alias is None else "(VALUES %s) AS %s(%s)" % (body, alias, ", ".join("`%s`" % n for n, _ in cols))
