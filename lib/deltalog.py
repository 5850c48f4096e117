"""An independent reader of Delta tables, written from the protocol specification."""
import base64, datetime as dt, json, os, re, struct, urllib.parse
from decimal import Decimal
import pyarrow as pa
import pyarrow.parquet as pq

Z85 = "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ.-:+=^!/*?&<>()[]{}@%$#"


class LogError(Exception):
    """The table does not follow the protocol."""


def z85_decode(s):
    out = bytearray()
    for i in range(0, len(s), 5):
        v = 0
        for c in s[i:i + 5]:
            v = v * 85 + Z85.index(c)
        out += struct.pack(">I", v)
    return bytes(out)


def roaring32(b, off):
    """Portable 32-bit roaring bitmap at an offset: values and the offset after it."""
    cookie = struct.unpack_from("<I", b, off)[0]
    off += 4
    if cookie & 0xFFFF == 12347:
        n = (cookie >> 16) + 1
        flags = b[off:off + (n + 7) // 8]
        off += (n + 7) // 8
        has_off = n >= 4
    elif cookie == 12346:
        n = struct.unpack_from("<I", b, off)[0]
        off += 4
        flags = None
        has_off = True
    else:
        raise LogError("bad roaring cookie %d" % cookie)
    heads = []
    for _ in range(n):
        k, c = struct.unpack_from("<HH", b, off)
        off += 4
        heads.append((k, c + 1))
    if has_off:
        off += 4 * n
    vals = []
    for i, (k, card) in enumerate(heads):
        base = k << 16
        if flags is not None and flags[i // 8] >> (i % 8) & 1:
            nr = struct.unpack_from("<H", b, off)[0]
            off += 2
            for _ in range(nr):
                s, l = struct.unpack_from("<HH", b, off)
                off += 4
                vals.extend(range(base + s, base + s + l + 1))
        elif card <= 4096:
            vals.extend(base + x for x in struct.unpack_from("<%dH" % card, b, off))
            off += 2 * card
        else:
            for w in range(1024):
                x = struct.unpack_from("<Q", b, off)[0]
                off += 8
                while x:
                    l = x & -x
                    vals.append(base + w * 64 + l.bit_length() - 1)
                    x ^= l
    return vals, off


def dv_bitmap(b):
    magic = struct.unpack_from("<I", b, 0)[0]
    if magic != 1681511377:
        raise LogError("bad deletion vector magic %d" % magic)
    n = struct.unpack_from("<Q", b, 4)[0]
    off = 12
    out = set()
    for _ in range(n):
        hi = struct.unpack_from("<I", b, off)[0]
        vals, off = roaring32(b, off + 4)
        out.update((hi << 32) + v for v in vals)
    return out


class Table:
    def __init__(self, path):
        self.path = path
        self.log = os.path.join(path, "_delta_log")

    def versions(self):
        return sorted(int(f[:-5]) for f in os.listdir(self.log) if re.fullmatch(r"\d{20}\.json", f))

    def commit(self, v):
        out = []
        with open(os.path.join(self.log, "%020d.json" % v), encoding="utf-8") as f:
            for line in f.read().split("\n"):
                if line.strip():
                    out.append(json.loads(line))
        return out

    # -------------------------------------------------------- replay
    @staticmethod
    def file_key(a):
        dv = a.get("deletionVector")
        return (urllib.parse.unquote(a["path"]), None if not dv else (dv.get("storageType"), dv.get("pathOrInlineDv"), dv.get("offset")))

    def replay(self, upto=None, start=0, base=None, strict=True):
        """Replays commits and returns {files, metadata, protocol, txns}; checks reconciliation rules on the way."""
        st = base or {"files": {}, "metadata": None, "protocol": None, "txns": {}, "domains": {}}
        vs = [v for v in self.versions() if v >= start and (upto is None or v <= upto)]
        if base is None and (not vs or vs[0] != 0):
            raise LogError("the log does not start at version 0: %s" % vs[:3])
        for a, b in zip(vs, vs[1:]):
            if b != a + 1:
                raise LogError("version gap between %d and %d" % (a, b))
        for v in vs:
            adds, removes = {}, {}
            seen = {"metaData": 0, "protocol": 0, "commitInfo": 0}
            for act in self.commit(v):
                if len(act) != 1:
                    raise LogError("action with keys %s at version %d" % (sorted(act), v))
                k, x = next(iter(act.items()))
                if k in seen:
                    seen[k] += 1
                    if seen[k] > 1:
                        raise LogError("two %s actions at version %d" % (k, v))
                if k == "add":
                    fk = self.file_key(x)
                    if fk in adds:
                        raise LogError("file added twice at version %d: %s" % (v, fk[0]))
                    adds[fk] = x
                elif k == "remove":
                    fk = self.file_key(x)
                    if fk in removes:
                        raise LogError("file removed twice at version %d: %s" % (v, fk[0]))
                    removes[fk] = x
                elif k == "metaData":
                    st["metadata"] = x
                elif k == "protocol":
                    st["protocol"] = x
                elif k == "txn":
                    st["txns"][x["appId"]] = x["version"]
                elif k == "domainMetadata":
                    st["domains"][x["domain"]] = x
            for fk in removes:
                if fk not in st["files"] and strict:
                    raise LogError("version %d removes a file that is not active: %s" % (v, fk[0]))
                st["files"].pop(fk, None)
            for fk, x in adds.items():
                if fk in removes:
                    raise LogError("version %d adds and removes the same file %s" % (v, fk[0]))
                if strict and any(k2[0] == fk[0] for k2 in st["files"]):
                    raise LogError("version %d adds a file that is active: %s" % (v, fk[0]))
                st["files"][fk] = x
            st["version"] = v
        return st

    # -------------------------------------------------------- rows
    def dv_rows(self, dv):
        if not dv:
            return set()
        if dv["storageType"] == "i":
            raw = z85_decode(dv["pathOrInlineDv"])[:dv["sizeInBytes"]]
        else:
            if dv["storageType"] == "u":
                s = dv["pathOrInlineDv"]
                u = z85_decode(s[-20:]).hex()
                uid = "%s-%s-%s-%s-%s" % (u[:8], u[8:12], u[12:16], u[16:20], u[20:])
                p = os.path.join(self.path, s[:-20], "deletion_vector_%s.bin" % uid)
            else:
                p = dv["pathOrInlineDv"]
                if p.startswith("file://"):
                    p = urllib.parse.unquote(p[7:])
            with open(p, "rb") as f:
                f.seek(dv.get("offset") or 0)
                size = struct.unpack(">I", f.read(4))[0]
                if size != dv["sizeInBytes"]:
                    raise LogError("deletion vector size %d, log says %d" % (size, dv["sizeInBytes"]))
                raw = f.read(size)
        rows = dv_bitmap(raw)
        if len(rows) != dv["cardinality"]:
            raise LogError("deletion vector has %d rows, log says %d" % (len(rows), dv["cardinality"]))
        return rows

    def data_path(self, add):
        p = urllib.parse.unquote(add["path"])
        if p.startswith("file://"):
            return p[7:]
        return p if p.startswith("/") else os.path.join(self.path, p)

    @staticmethod
    def schema(st):
        return json.loads(st["metadata"]["schemaString"])["fields"]

    @staticmethod
    def mapping_mode(st):
        return (st["metadata"].get("configuration") or {}).get("delta.columnMapping.mode", "none")

    def phys(self, st, f):
        return f["metadata"]["delta.columnMapping.physicalName"] if self.mapping_mode(st) != "none" else f["name"]

    def file_table(self, add):
        return pq.ParquetFile(self.data_path(add)).read()

    def file_rows(self, st, add, with_positions=False, tbl=None):
        """Live rows of a file as tuples in schema order."""
        tbl = self.file_table(add) if tbl is None else tbl
        dead = self.dv_rows(add.get("deletionVector"))
        if dead and max(dead) >= tbl.num_rows:
            raise LogError("deletion vector refers to row %d of %d" % (max(dead), tbl.num_rows))
        parts = set(st["metadata"]["partitionColumns"])
        cols = []
        for f in self.schema(st):
            ph = self.phys(st, f)
            if f["name"] in parts:
                pv = add["partitionValues"]
                if ph not in pv:
                    raise LogError("no partition value for %s in %s" % (ph, add["path"]))
                cols.append([parse_partition(pv[ph], f["type"])] * tbl.num_rows)
            else:
                i = tbl.schema.get_field_index(ph)
                if i < 0:
                    cols.append([None] * tbl.num_rows)
                else:
                    cols.append([conv(x, f["type"], self.mapping_mode(st) != "none") for x in py_list(tbl.column(i))])
        rows = list(zip(*cols)) if cols else [()] * tbl.num_rows
        return [r for i, r in enumerate(rows) if i not in dead]

    def rows(self, st):
        out = []
        for add in st["files"].values():
            out.extend(self.file_rows(st, add))
        return out

    # -------------------------------------------------------- checkpoints
    def checkpoints(self):
        """{version: list of checkpoint file names}"""
        out = {}
        for f in sorted(os.listdir(self.log)):
            m = re.fullmatch(r"(\d{20})\.checkpoint(\..*)?\.(parquet|json)", f)
            if m:
                out.setdefault(int(m.group(1)), []).append(f)
        return out

    def read_checkpoint(self, fname):
        p = os.path.join(self.log, fname)
        if fname.endswith(".json"):
            acts = [json.loads(x) for x in open(p, encoding="utf-8") if x.strip()]
        else:
            acts = []
            for r in pq.ParquetFile(p).read().to_pylist(maps_as_pydicts="lossy"):
                r = {k: v for k, v in r.items() if v is not None}
                acts.append(r)
        out = []
        for a in acts:
            for k, x in a.items():
                if k == "sidecar":
                    sp = x["path"]
                    sp = sp[7:] if sp.startswith("file://") else sp
                    sp = sp if sp.startswith("/") else os.path.join(self.log, "_sidecars", sp)
                    for r in pq.ParquetFile(sp).read().to_pylist(maps_as_pydicts="lossy"):
                        for k2, x2 in r.items():
                            if x2 is not None:
                                out.append((k2, x2))
                elif k != "checkpointMetadata":
                    out.append((k, x))
        return out

    def checkpoint_state(self, fname):
        st = {"files": {}, "metadata": None, "protocol": None, "txns": {}, "domains": {}}
        for k, x in self.read_checkpoint(fname):
            if k == "add":
                fk = self.file_key(x)
                if fk in st["files"]:
                    raise LogError("checkpoint %s lists %s twice" % (fname, fk[0]))
                st["files"][fk] = x
            elif k == "metaData":
                if st["metadata"]:
                    raise LogError("two metaData in checkpoint")
                st["metadata"] = x
            elif k == "protocol":
                if st["protocol"]:
                    raise LogError("two protocol in checkpoint")
                st["protocol"] = x
            elif k == "txn":
                st["txns"][x["appId"]] = x["version"]
            elif k == "domainMetadata":
                st["domains"][x["domain"]] = x
        return st


def py_list(col):
    """Python values of a column, with microsecond timestamps."""
    col = col.combine_chunks() if isinstance(col, pa.ChunkedArray) else col
    t = col.type
    if pa.types.is_timestamp(t):
        if t.unit == "ns":
            col = col.cast(pa.timestamp("us", tz=t.tz), safe=False)
            t = col.type
        epoch = dt.datetime(1970, 1, 1)
        out = []
        for x in col.cast(pa.int64()).to_pylist():
            try:
                out.append(None if x is None else epoch + dt.timedelta(microseconds=x) if t.unit == "us" else epoch + dt.timedelta(milliseconds=x))
            except OverflowError:
                out.append(("ts-out-of-range", x))
        return out
    if pa.types.is_date32(t):
        out = []
        for x in col.cast(pa.int32()).to_pylist():
            try:
                out.append(None if x is None else dt.date(1970, 1, 1) + dt.timedelta(days=x))
            except OverflowError:
                out.append(("date-out-of-range", x))
        return out
    return col.to_pylist()


def conv(x, ty, mapped=False):
    """A value read from Parquet in the table's type (the file may have a narrower type)."""
    if x is None:
        return None
    if isinstance(ty, str):
        if ty in ("double", "float"):
            return float(x)
        if ty in ("byte", "short", "integer", "long"):
            return int(x)
        if ty == "binary":
            return bytes(x)
        if ty.startswith("decimal"):
            s = int(ty[ty.index(",") + 1:-1])
            return Decimal(x).quantize(Decimal(1).scaleb(-s))
        if ty == "timestamp" and isinstance(x, dt.datetime) and x.tzinfo:
            return x.astimezone(dt.timezone.utc).replace(tzinfo=None)
        return x
    k = ty["type"]
    if k == "struct":
        return tuple(conv(x.get(f["metadata"]["delta.columnMapping.physicalName"] if mapped else f["name"]), f["type"], mapped) for f in ty["fields"])
    if k == "array":
        return [conv(y, ty["elementType"], mapped) for y in x]
    if k == "map":
        return {conv(a, ty["keyType"], mapped): conv(b, ty["valueType"], mapped) for a, b in (x.items() if isinstance(x, dict) else x)}
    return x


def parse_partition(s, ty):
    if s is None or s == "":
        return None
    if ty in ("byte", "short", "integer", "long"):
        return int(s)
    if ty in ("float", "double"):
        return float(s.replace("Infinity", "inf"))
    if ty == "boolean":
        if s not in ("true", "false"):
            raise LogError("boolean partition value %r" % s)
        return s == "true"
    if ty == "date":
        return dt.date.fromisoformat(s)
    if ty in ("timestamp", "timestamp_ntz"):
        t = s[:-1] + "+00:00" if s.endswith("Z") else s
        v = dt.datetime.fromisoformat(t.replace(" ", "T"))
        return v.astimezone(dt.timezone.utc).replace(tzinfo=None) if v.tzinfo else v
    if isinstance(ty, str) and ty.startswith("decimal"):
        return Decimal(s)
    if ty == "binary":
        return s.encode("utf-8").decode("unicode_escape").encode("latin-1") if "\\" in s else s.encode("utf-8")
    return s
