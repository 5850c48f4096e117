"""Compares every call of the corpus in Sail and in Spark on random rows and writes data/calls.json (the calls on which they agree, and at which
level of hostility of the arguments) and /tmp/calls_diff.json (the others, with examples). Run by hand: classify_calls.py SEED ROWS [previous calls.json]"""
import json, os, random, re, sys, threading, time
sys.path.insert(0, "/verif/lib")
from concurrent.futures import ThreadPoolExecutor
from vlib import *
from diff import *
import calls, sparkd
import faulthandler
faulthandler.register(__import__("signal").SIGUSR1, all_threads=True)
seed, n = sys.argv[1], int(sys.argv[2])
LEVELS = ["edge", "plain", "own"]
if len(sys.argv) > 3:
    R = json.load(open(sys.argv[3]))
else:
    R = [x for i in range(4) for x in json.load(open("/tmp/calls%d.json" % i))] + calls.operators()
    R = calls.adapt(R)
    for x in R:
        x["level"] = "plain" if x["f"] in calls.SIZES else "edge"
sp = sparkd.Spark(os.path.join(scratch(), "sp")); sp.ready.result(120)
servers = [Server(preexec=calls.limit_memory) for _ in range(4)]
local = threading.local()
cnt = [0]


def sail(q):
    if not hasattr(local, "c"):
        cnt[0] += 1
        local.c = connect(servers[cnt[0] % 4])
    return outcome_typed(local.c, q)


def outcome_typed(c, q):
    for k in range(3):
        try:
            df = c.sql(q)
            t = df.toArrow() if False else None
            rows = df.collect()
            return "ok", [tuple(rnd(v) for v in r) for r in rows], [f.dataType.simpleString() for f in df.schema.fields]
        except Exception as e:
            if "Exception deserializing response" not in str(e) or k == 2:
                return "err", str(e)[:600], None


def spark(q):
    a = sp.sql(q, "s")
    return ("ok", [tuple(rnd(v) for v in r) for r in a[1]], [x[1] for x in a[2]]) if a[0] == "ok" else ("err", a[1][:600], None)


def compare(call, data):
    """(kind, ...): agree / diff / spark-error"""
    q = calls.query([call], [data])
    a = spark(q)
    b = sail(q)
    if a[0] == "ok" and b[0] == "ok":
        if a[2][1:] != b[2][1:]:
            return "type", q, a[2][1:], b[2][1:]
        d = same_rows(a[1], b[1], False)
        return ("diff", q, d, None) if d else ("agree", sum(1 for r in a[1] if r[1] is not None))
    if a[0] == "err" and b[0] == "err":
        return ("both-error",)
    return ("error", q, a[1] if a[0] == "err" else "ok", b[1] if b[0] == "err" else "ok")


def classify(call):
    try:
        return classify_(call)
    except Exception as e:
        return dict(call, level=None), [("exception", call["t"], repr(e)[:300], None)]


def classify_(call):
    out = dict(call)
    out.pop("diffs", None)
    diffs = []
    for level in LEVELS[LEVELS.index(call["level"]):]:
        if level == "own" and not any(p for _, p in call["slots"]):
            continue
        out["level"] = level
        rng = random.Random("%s|%s|%s" % (seed, call["t"], [x[0] for x in call["slots"]]))
        data = calls.rows(rng, out, n)
        r = compare(out, data)
        errs = 0
        if r[0] == "agree":
            vals = r[1]
        elif call["agg"]:
            if r[0] != "both-error":
                diffs.append(r)
            continue
        else:
            vals, bad = 0, None
            for row in data:
                r = compare(out, [row])
                if r[0] == "agree":
                    vals += r[1]
                elif r[0] == "both-error":
                    errs += 1
                else:
                    bad = r
                    break
            if bad:
                diffs.append(bad)
                continue
        if vals == 0:
            continue
        out["errs"] = errs > 0
        return out, diffs
    out["level"] = None
    return out, diffs


t0 = time.time()
res, bad = [], []
with ThreadPoolExecutor(8) as pool:
    for k, (c, d) in enumerate(pool.map(classify, R)):
        if c["level"]:
            res.append(c)
        if d:
            bad.append({"call": c, "diffs": d})
        if k % 200 == 0:
            print(k, len(R), len(res), len(bad), round(time.time() - t0), flush=True)
json.dump(res, open("/tmp/calls_ok.json", "w"))
json.dump(bad, open("/tmp/calls_diff.json", "w"), default=str)
print(len(R), len(res), len(bad))
