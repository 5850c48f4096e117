"""Real Spark (classic, local mode) as a reference: reads pickled requests from stdin, writes pickled replies to fd 3."""
import os, pickle, sys, struct
from concurrent.futures import ThreadPoolExecutor
import threading


def main():
    out = os.fdopen(int(sys.argv[1]), "wb")
    from pyspark.sql import SparkSession
    tmp = sys.argv[2]
    s = (SparkSession.builder.master("local[4]").config("spark.ui.enabled", "false").config("spark.sql.shuffle.partitions", "2")
         .config("spark.sql.session.timeZone", "UTC").config("spark.driver.host", "127.0.0.1").config("spark.driver.bindAddress", "127.0.0.1")
         .config("spark.sql.warehouse.dir", tmp + "/wh").config("spark.local.dir", tmp).config("spark.driver.memory", "3g")
         .config("spark.driver.extraJavaOptions", "-Dderby.system.home=%s" % tmp)
         .config("spark.sql.catalogImplementation", "in-memory").config("spark.log.level", "OFF").getOrCreate())
    sessions = {}
    lock = threading.Lock()

    def reply(x):
        b = pickle.dumps(x)
        with lock:
            out.write(struct.pack("<Q", len(b)) + b)
            out.flush()

    def work(i, sess, q):
        try:
            with lock:
                if sess not in sessions:
                    sessions[sess] = s.newSession()
            df = sessions[sess].sql(q)
            rows = [tuple(r) for r in df.collect()]
            reply((i, "ok", rows, [(f.name, f.dataType.simpleString(), f.nullable) for f in df.schema.fields]))
        except Exception as e:
            reply((i, "err", str(e)[:2000], type(e).__name__))
    reply((-1, "ready", None, None))
    with ThreadPoolExecutor(4) as pool:
        inp = sys.stdin.buffer
        while True:
            h = inp.read(8)
            if len(h) < 8:
                break
            i, sess, q = pickle.loads(inp.read(struct.unpack("<Q", h)[0]))
            pool.submit(work, i, sess, q)


class Spark:
    """Client side."""

    def __init__(self, scratch):
        import subprocess
        from concurrent.futures import Future
        self.Future = Future
        r, w = os.pipe()
        env = {k: v for k, v in os.environ.items() if not k.startswith("SPARK_") and k != "PYTHONPATH"}
        env["TZ"] = "UTC"
        os.makedirs(scratch, exist_ok=True)
        self.err = open(os.path.join(scratch, "spark.stderr"), "wb")
        self.p = subprocess.Popen([sys.executable, os.path.abspath(__file__), str(w), scratch], stdin=subprocess.PIPE, pass_fds=[w],
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=env, cwd=scratch, start_new_session=True)
        os.close(w)
        self.r = os.fdopen(r, "rb")
        self.n = 0
        self.wait = {}
        self.lock = threading.Lock()
        self.ready = Future()
        threading.Thread(target=self.pump, daemon=True).start()

    def pump(self):
        while True:
            h = self.r.read(8)
            if len(h) < 8:
                break
            i, st, a, b = pickle.loads(self.r.read(struct.unpack("<Q", h)[0]))
            if i < 0:
                self.ready.set_result(True)
            else:
                self.wait.pop(i).set_result((st, a, b))
        for f in [self.ready] + list(self.wait.values()):
            if not f.done():
                f.set_exception(RuntimeError("Spark ended"))

    def ask(self, q, sess="s"):
        f = self.Future()
        with self.lock:
            self.n += 1
            self.wait[self.n] = f
            b = pickle.dumps((self.n, sess, q))
            self.p.stdin.write(struct.pack("<Q", len(b)) + b)
            self.p.stdin.flush()
        return f

    def sql(self, q, sess="s", timeout=120):
        """("ok", rows, schema) or ("err", message, class)"""
        return self.ask(q, sess).result(timeout)

    def stop(self):
        import signal
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        self.p.wait()


if __name__ == "__main__":
    main()
