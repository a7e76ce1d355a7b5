"""C29: the Python reader API does what the C++ reader does."""
import ctypes
import gc
import gzip
import json
import logging
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import zlib

import numpy as np

import mlio
from mlio.integ import numpy as mnp

from pbt import ensure, test

DT = mlio.DataType
NAME = {v: k for k, v in DT.__members__.items()}
LIB = ctypes.CDLL(os.path.join(os.environ["MLIO_VERIF_PY"], "libreference.so"))
LIB.mlio_reference.argtypes = [ctypes.c_char_p, ctypes.c_size_t]
LIB.mlio_reference.restype = ctypes.c_void_p
LIB.mlio_reference_free.argtypes = [ctypes.c_void_p]

LOG = []


class Collect(logging.Handler):
    def emit(self, record):
        LOG.append((record.levelname, record.getMessage()))


LOGGER = logging.getLogger("mlio")
LOGGER.addHandler(Collect())
LOGGER.propagate = False


# ---- the reference reader

def encode(cmds):
    out = []
    for c in cmds:
        out.append(b"%d:" % len(c))
        for s in c:
            b = s if isinstance(s, bytes) else str(s).encode()
            out.append(b"%d:%s" % (len(b), b))
    return b"".join(out)


def reference(cmds):
    """Returns the observations and the log of the C++ reader."""
    spec = encode(cmds)
    p = LIB.mlio_reference(spec, len(spec))
    try:
        text = ctypes.string_at(p).decode()
    finally:
        LIB.mlio_reference_free(p)
    obs, log = text.split("\n\n", 1) if not text.startswith("\n") else ("", text[1:])
    lines = []
    for line in log.splitlines():
        lvl, _, msg = line.partition(" ")
        lines.append((lvl, plain(bytes.fromhex(msg).decode("utf-8", "backslashreplace"))))
    return [show_raised(TEXTS.sub(show_texts, NAMED.sub(show_name, o))) for o in obs.splitlines()], lines


NAMED = re.compile(r";([0-9a-f]+) ")
TEXTS = re.compile(r"\[((?:[0-9a-f]*,)*)\]")


def show_name(m):
    """A name that is no text cannot be seen in Python."""
    try:
        bytes.fromhex(m.group(1)).decode()
    except ValueError:
        return ";no-text "
    return m.group(0)


def show_texts(m):
    try:
        for x in m.group(1).split(","):
            bytes.fromhex(x).decode()
    except ValueError:
        return "[no-text]"
    return m.group(0)


FEATURE = re.compile(r"The (?:shape of the )?(?:sparse )?feature '.*?' of the instance (#[0-9,]+) .*", re.S)
ADDRESS = re.compile(r"0x[0-9a-f]+\+0x")


def plain(msg):
    """Without the address of a memory store, and without the feature of a protobuf message
    that was found to be bad first, as its features have no order."""
    return FEATURE.sub(r"A feature of the instance \1", ADDRESS.sub("MEM+0x", msg))


def show_raised(o):
    if not o.startswith("raised "):
        return o
    parts = []
    for p in o[len("raised "):].split(" from "):
        name, _, h = p.partition(" ")
        parts.append(name + " " + plain(bytes.fromhex(h).decode("utf-8", "backslashreplace")))
    return "raised " + " from ".join(parts)


# ---- the same observations in Python

def contents(arr, dt):
    if dt == DT.STRING:
        return "[" + "".join(s.encode().hex() + "," for s in arr) + "]"
    return np.ascontiguousarray(arr).tobytes().hex()


def show_list(xs):
    return "(" + "".join("%d," % x for x in xs) + ")"


def name_of(a):
    try:
        return a.name.encode().hex()
    except UnicodeDecodeError:
        return "no-text"


def show_attribute(a):
    return (name_of(a) + " " + NAME[a.data_type] + show_list(a.shape) + show_list(a.strides) +
            ("sparse" if a.sparse else "dense"))


def show_schema(s):
    return "".join(show_attribute(a) + ";" for a in s.attributes)


def show_tensor(t):
    s = NAME[t.data_type] + show_list(t.shape) + show_list(t.strides)
    if isinstance(t, mlio.DenseTensor):
        try:
            s += contents(mnp.as_numpy(t).ravel(), t.data_type)
        except ValueError as e:
            # Bytes that are no text cannot be seen in Python.
            if t.data_type != DT.STRING or "UTF-8" not in str(e):
                raise
            s += "[no-text]"
    else:
        for i in range(len(t.shape)):
            s += contents(np.array(t.indices(i)), DT.SIZE) + "/"
        s += contents(np.array(t.data), t.data_type)
    return s + ";"


def show_example(e):
    ts = list(e)
    ensure(len(ts) == len(e.schema.attributes) == len(e), "an example has %s features and %s attributes", len(ts),
           len(e.schema.attributes))
    return "padding %d ;" % e.padding + "".join(
        show_attribute(a) + " " + show_tensor(t) for a, t in zip(e.schema.attributes, ts))


def show_error(e):
    parts = []
    while e is not None:
        if isinstance(e, OSError):
            parts.append("OSError%d %s" % (e.errno, plain(e.strerror)))
        else:
            parts.append("%s %s" % (type(e).__name__, plain(str(e))))
        e = e.__cause__
    return "raised " + " from ".join(parts)


ERRORS = (mlio.MLIOError, OSError, ValueError, IndexError, MemoryError, RuntimeError)


# ---- generated settings

ENUMS = {
    "last_example_handling": mlio.LastExampleHandling, "bad_example_handling": mlio.BadExampleHandling,
    "max_field_length_handling": mlio.MaxFieldLengthHandling, "image_frame": mlio.ImageFrame,
}


class Settings:
    """Values of parameters, for Python and as commands for the reference."""

    def __init__(self):
        self.reader = {}
        self.csv = {}
        self.parser = {}
        self.image = {}

    def commands(self):
        out = []
        for d in (self.reader, self.csv, self.parser, self.image):
            for k, v in d.items():
                if k == "parser_options":
                    continue
                if isinstance(v, dict):
                    vals = [x for kv in v.items() for x in (kv[0], NAME[kv[1]])]
                elif isinstance(v, (list, set)):
                    vals = list(v)
                elif k in ENUMS:
                    vals = [v.name]
                elif k == "default_data_type" and v is not None:
                    vals = [NAME[v]]
                else:
                    vals = [v]
                out.append(["set", k] + vals)
        return out


def build(c, cls, values, *first):
    """Passes some of the settings to the constructor and assigns the others."""
    how = c.draw(3)
    early = {k: v for k, v in values.items() if how == 0 or (how == 1 and c.flag())}
    if "batch_size" in values and "batch_size" not in early:
        early["batch_size"] = 1
    if "image_dimensions" in values and "image_dimensions" not in early:
        early["image_dimensions"] = [1]
    obj = cls(*first, **early)
    for k, v in values.items():
        if k not in early or early[k] is not v:
            setattr(obj, k, v)
    return obj


def reader_settings(c):
    p = {"batch_size": 1 + c.size(6)}
    k = c.weighted(3, 3, 2)
    if k == 0:
        p["num_prefetched_examples"] = 1
    elif k == 1:
        p["num_prefetched_examples"] = 1 + c.draw(5)
        if c.flag():
            p["num_parallel_reads"] = 1 + c.draw(4)
    if c.chance(40):
        p["last_example_handling"] = c.pick(list(mlio.LastExampleHandling.__members__.values()))
    if c.chance(50):
        p["bad_example_handling"] = c.pick(list(mlio.BadExampleHandling.__members__.values()))
    if c.chance(40):
        p["warn_bad_instances"] = c.flag()
    if c.chance(25):
        p["num_instances_to_skip"] = c.draw(5)
    if c.chance(25):
        p["num_instances_to_read"] = c.pick([None, 1, 2, 3, 5, 8])
    if c.chance(25):
        p["num_shards"] = c.draw(4)
        p["shard_index"] = c.draw(max(1, p["num_shards"])) if not c.chance(5) else c.draw(5)
    if c.chance(15):
        p["sample_ratio"] = c.pick([None, 0.5, 0.25, 0.125, 0.75, 1.0])
    if c.chance(30):
        p["shuffle_instances"] = True
        p["shuffle_seed"] = c.draw(1 << 20)
        if c.flag():
            p["shuffle_window"] = c.draw(6)
        if c.flag():
            p["reshuffle_each_epoch"] = c.flag()
    if c.chance(2):
        p["batch_size"] = 0
    return p


def csv_cell(c, kind):
    k = c.weighted(12, 2, 1, 1)
    if k == 0:
        if kind == "int":
            return str(c.range(0, 120))
        if kind == "float":
            return c.pick(["%d.%d" % (c.range(-9, 9), c.draw(100)), "1e%d" % c.range(-5, 5), str(c.draw(50))])
        return c.pick(["a", "bc", "x y", "\u00e4", "Z" * (1 + c.draw(9)), "7", ""])
    if k == 1:
        return c.pick(["x1", "NA", "1.5", "-3", "nan", "ff", "300", "70000", "-", "12a"])
    if k == 2:
        return c.pick(["\"q,q\"", "\"a\"\"b\"", "\"\"", "\"l\n2\"", "\"12\""])
    return "9" * c.range(1, 25)


def csv_dataset(c, s):
    cols = 1 + c.size(4)
    names = [c.pick(["a", "b", "c", "d", "e", "a"]) + ("" if c.flag() else str(j)) for j in range(cols)]
    kinds = [c.pick(["int", "float", "text"]) for _ in range(cols)]
    p = s.csv
    delim = ","
    if c.chance(20):
        delim = p["delimiter"] = c.pick([";", "\t", "|", ",", " "])
    if c.chance(10):
        p["quote_char"] = c.pick(["'", "\"", "~"])
    comment = None
    if c.chance(20):
        comment = p["comment_char"] = c.pick(["#", "%", None])
    header = True
    if c.chance(25):
        p["header_row_index"] = c.pick([None, None, 0, 1, 2])
        header = p["header_row_index"] is not None
    if c.chance(15):
        p["has_single_header"] = c.flag()
    if c.chance(20):
        p["column_names"] = [c.pick(["n", "m", "o", "n"]) + str(j) for j in range(cols if c.chance(90) else cols + 1)]
    if c.chance(15):
        p["name_prefix"] = c.pick(["p_", "", "\u00e9"])
    if c.chance(15):
        p["dedupe_column_names"] = c.flag()
    if c.chance(15):
        p["use_columns"] = {c.pick(names + ["zz"]) for _ in range(1 + c.draw(2))}
    elif c.chance(15):
        p["use_columns_by_index"] = {c.draw(cols + (1 if c.chance(10) else 0)) for _ in range(1 + c.draw(2))}
    types = [DT.INT8, DT.INT16, DT.INT32, DT.INT64, DT.UINT8, DT.UINT16, DT.UINT32, DT.UINT64, DT.FLOAT32,
             DT.FLOAT64, DT.STRING, DT.SIZE]
    if c.chance(40):
        p["default_data_type"] = c.pick([None, DT.STRING, c.pick(types)])
    if c.chance(40):
        p["column_types_by_index"] = {c.draw(cols): c.pick(types) for _ in range(1 + c.draw(cols))}
    if c.chance(25):
        p["column_types"] = {c.pick(names): c.pick(types) for _ in range(1 + c.draw(2))}
    if c.chance(20):
        p["allow_quoted_new_lines"] = c.flag()
    if c.chance(20):
        p["skip_blank_lines"] = c.flag()
    if c.chance(15):
        p["max_field_length"] = c.pick([None, 3, 8])
    if c.chance(25):
        p["max_field_length_handling"] = c.pick(list(mlio.MaxFieldLengthHandling.__members__.values()))
    if c.chance(15):
        p["max_line_length"] = c.pick([None, 12, 60])
    enc = "utf-8"
    if c.chance(20):
        enc, p["encoding"] = c.pick([("utf-8", None), ("utf-8", "utf-8"), ("latin-1", "ISO-8859-1"),
                                     ("utf-16-le", "utf-16le"), ("utf-16", None), ("utf-8", "no-such-encoding"),
                                     ("utf-16-be", "UTF-16BE")])
    if c.chance(20):
        s.parser["nan_values"] = {c.pick(["NA", "-", "nil", "x1"]) for _ in range(1 + c.draw(2))}
    if c.chance(15):
        s.parser["number_base"] = c.pick([10, 16, 8, 2, 36])
    dirty = c.chance(8)
    if dirty:
        # Numbers with bytes that are not valid UTF-8 end up in messages.
        enc = "utf-8"
        for k in ("encoding", "column_types", "column_types_by_index"):
            p.pop(k, None)
        p["default_data_type"] = c.pick([DT.INT32, DT.FLOAT64])
    q = p.get("quote_char", "\"")
    eol = c.pick(["\n", "\r\n", "\n"])
    stores = []
    for k in range(1 + c.weighted(5, 2, 1)):
        text = ""
        for _ in range(p.get("header_row_index", 0) or 0):
            text += delim.join("h" for _ in range(cols)) + eol
        if header and (k == 0 or not p.get("has_single_header")):
            text += delim.join(names) + eol
        for _ in range(c.size(16)):
            w = c.weighted(20, 1, 1, 1)
            if w == 1 and comment:
                text += comment + "note" + eol
            elif w == 2:
                text += eol
            else:
                n = cols if w != 3 else c.draw(cols + 2)
                text += delim.join(csv_cell(c, kinds[j % cols]).replace("\"", q) for j in range(n)) + eol
        if text.endswith(eol) and c.chance(20):
            text = text[:-len(eol)]
        data = text.encode(enc, "replace")
        if dirty and eol + "1" in text:
            data = data.replace(eol.encode() + b"1", eol.encode() + c.pick([b"\xff", b"\xe3\x81", b"\xc0\x80"]))
        if dirty and c.chance(15):
            data = c.pick([b"\xff", b"\xe3\x81"]) + data
        if enc.startswith("utf-16") and c.chance(40):
            # A lone surrogate, or half of a character.
            at = 2 * c.draw(len(data) // 2 + 1)
            bad = c.pick(["\udc00", "\ud800x", "\ud800"]).encode("utf-16-be" if enc == "utf-16-be" else "utf-16-le",
                                                               "surrogatepass")
            data = data[:at] + c.pick([bad, bad[:1]]) + data[at:]
        stores.append(data)
    return stores


def text_dataset(c, s):
    out = []
    for _ in range(1 + c.draw(2)):
        out.append(c.pick(["\n", "\r\n"]).join(
            c.pick(["", "line %d" % i, "\u65e5\u672c", "a\tb"]) for i in range(c.size(20))).encode())
    return out


def varint(v):
    out = b""
    while v >= 0x80:
        out += bytes([v & 0x7f | 0x80])
        v >>= 7
    return out + bytes([v])


def field(n, payload):
    return varint(n << 3 | 2) + varint(len(payload)) + payload


def frame(payload):
    return struct.pack("<II", 0xced7230a, len(payload)) + payload + b"\0" * (-len(payload) % 4)


def protobuf_dataset(c, s):
    feats = []
    for i in range(1 + c.draw(3)):
        feats.append((c.pick(["values", "f%d" % i]) if i == 0 else "f%d" % i, c.pick([2, 3, 7]),
                      c.range(1, 4), c.chance(30)))
    label = c.flag()
    out = []
    for _ in range(1 + c.weighted(4, 1)):
        data = b""
        for _ in range(c.size(14)):
            msg = b""
            for which, fs in ((1, feats), (2, [("values", 2, 1, False)] if label else [])):
                for name, typ, n, sparse in fs:
                    flaw = c.draw(30) == 0
                    m = n + 1 if flaw and not sparse else n
                    keys = sorted({c.draw(n + (3 if flaw else 0)) for _ in range(c.draw(n + 1))})
                    vals = [c.range(-50, 50) for _ in (keys if sparse else range(m))]
                    if typ == 7:
                        body = b"".join(varint(v & (1 << 64) - 1) for v in vals)
                    else:
                        body = b"".join(struct.pack("<f" if typ == 2 else "<d", v / 4) for v in vals)
                    t = field(1, body)
                    if sparse:
                        t += field(2, b"".join(varint(k) for k in keys)) + field(3, varint(n))
                    msg += field(which, field(1, name.encode()) + field(2, field(typ, t)))
            if c.draw(40) == 0:
                msg = msg[:-1]
            data += frame(msg)
        if c.draw(15) == 0:
            data = data[:c.draw(len(data) + 1)]
        out.append(data)
    return out


def image_dataset(c, s):
    p = s.image
    chan, h, w = c.pick([1, 3, 3, 4]), c.range(1, 4), c.range(1, 4)
    p["image_dimensions"] = [chan, h, w] if not c.chance(3) else [chan, h]
    if c.flag():
        p["to_rgb"] = c.flag()
    if c.chance(30):
        p["resize"] = c.pick([None, 2, 4, 7])
    framed = c.flag()
    if framed or c.flag():
        p["image_frame"] = mlio.ImageFrame.RECORDIO if framed else mlio.ImageFrame.NONE
    blobs = []
    for i in range(c.size(8)):
        iw, ih, ch = w + c.draw(3), h + c.draw(3), c.pick([1, 3, 4] if chan == 4 else [1, 3])
        if chan == 4:
            ch = 4
        px = c.bytes(iw * ih * ch)
        if c.draw(12) == 0:
            blobs.append(b"garbage")
        elif ch == 4 or c.flag():
            raw = b"".join(b"\0" + px[y * iw * ch:(y + 1) * iw * ch] for y in range(ih))

            def chunk(t, d):
                return struct.pack(">I", len(d)) + t + d + struct.pack(">I", zlib.crc32(t + d))
            blobs.append(b"\x89PNG\r\n\x1a\n" + chunk(b"IHDR", struct.pack(
                ">IIBBBBB", iw, ih, 8, {1: 0, 3: 2, 4: 6}[ch], 0, 0, 0)) +
                chunk(b"IDAT", zlib.compress(raw)) + chunk(b"IEND", b""))
        else:
            blobs.append(b"P%d\n%d %d\n255\n" % (5 if ch == 1 else 6, iw, ih) + px)
    if not framed:
        return blobs
    return [b"".join(frame(struct.pack("<IfQQ", 0, 1.0, i, 0) + b) for i, b in enumerate(blobs))]


class Wrapped(mlio.DataStore):
    """A store written in Python that hands on what another store has."""

    def __init__(self, inner, as_method):
        super().__init__()
        self.inner = inner
        self.as_method = as_method
        self.opened = 0

    def open_read(self):
        self.opened += 1
        return self.inner.open_read()

    @property
    def id(self):
        return (lambda: self.inner.id) if self.as_method else self.inner.id


class Scratch:
    def __init__(self, c):
        self.case = c
        self.dir = None
        self.n = 0

    def __enter__(self):
        return self

    def __exit__(self, *args):
        if self.dir:
            shutil.rmtree(self.dir)

    def path(self, name):
        if self.dir is None:
            self.dir = tempfile.mkdtemp(prefix="c29-", dir=os.getcwd())
        self.n += 1
        return os.path.join(self.dir, name % self.n)


def make_store(c, data, scratch, wrap=True):
    """Returns the store and the command that describes it to the reference."""
    k = c.weighted(4, 2, 2, 1, 1)
    raw = data
    if k in (2, 4):
        raw = gzip.compress(data, c.range(1, 9))
        if c.chance(4):
            raw = raw[:c.draw(len(raw))]
    if k == 0:
        buf = c.pick([bytes, bytearray, lambda b: np.frombuffer(b, np.uint8), lambda b: memoryview(bytearray(b))])(raw)
        store, cmd = mlio.InMemoryStore(buf), ["store", "memory", raw, "NONE"]
    elif k == 4:
        comp = c.pick(["GZIP"] * 8 + ["ZIP", "BZIP2"])
        store = mlio.InMemoryStore(raw, getattr(mlio.Compression, comp))
        cmd = ["store", "memory", raw, comp]
    else:
        path = scratch.path("d%d.txt" if k != 2 else "d%d.gz")
        if not c.chance(2):
            with open(path, "wb") as f:
                f.write(raw)
        mm, comp = True, "INFER"
        args = {}
        if c.flag():
            mm = args["memory_map"] = c.flag()
        if c.chance(30):
            comp = "GZIP" if k == 2 else "NONE"
            args["compression"] = getattr(mlio.Compression, comp)
        store, cmd = mlio.File(path, **args), ["store", "file", path, comp, str(mm)]
    if wrap and c.chance(12):
        store = Wrapped(store, c.flag())
    return store, cmd


KINDS = {"csv": csv_dataset, "text": text_dataset, "protobuf": protobuf_dataset, "image": image_dataset}


def generate(c, scratch, wrap=True):
    """Returns the way to make a Python reader, and the commands for the reference."""
    kind = c.pick(["csv", "csv", "csv", "protobuf", "protobuf", "text", "image"])
    s = Settings()
    s.reader = reader_settings(c)
    data = KINDS[kind](c, s)
    stores = [make_store(c, d, scratch, wrap) for d in data]
    cmds = [["reader", kind]] + [cmd for _, cmd in stores] + s.commands()
    dataset = [st for st, _ in stores]

    def make():
        if c.chance(90):
            params = build(c, mlio.DataReaderParams, s.reader, dataset)
        else:
            params = build(c, mlio.DataReaderParams, s.reader, [])
            params.dataset = dataset
        if kind == "csv":
            if s.parser:
                s.csv["parser_options"] = build(c, mlio.ParserParams, s.parser)
            if s.csv or c.flag():
                return mlio.CsvReader(params, build(c, mlio.CsvParams, s.csv))
            return mlio.CsvReader(params)
        if kind == "text":
            return mlio.TextLineReader(params)
        if kind == "protobuf":
            return mlio.RecordIOProtobufReader(params)
        return mlio.ImageReader(params, build(c, mlio.ImageReaderParams, s.image))

    c.desc("%s %s" % (kind, {**s.reader, **{k: v for k, v in s.csv.items() if k != "parser_options"},
                             **s.parser, **s.image}))
    c.desc("stores %s" % [(cmd[1], d[:200]) for (_, cmd), d in zip(stores, data)])
    c.tag(kind)
    s.wrapped = any(isinstance(st, Wrapped) for st in dataset)
    return kind, s, make, cmds


def reshuffled(s):
    """The order of an epoch after an interrupted one depends on the prefetching."""
    return s.reader.get("shuffle_instances") and s.reader.get("reshuffle_each_epoch", True)


def script(c, s):
    if c.chance(50) or reshuffled(s):
        ops = ["all"]
        for _ in range(c.draw(3)):
            ops += ["reset", "all"]
        return (["schema"] if c.flag() else []) + ops
    return [c.pick(["read", "read", "read", "peek", "schema", "all", "reset"]) for _ in range(1 + c.size(14))]


def observe(c, make, ops):
    """What a Python program sees of a reader."""
    obs = []
    try:
        r = make()
    except ERRORS as e:
        return [show_error(e)]
    it = iter(r) if c.flag() else None
    for op in ops:
        try:
            if op == "read":
                if it is not None and c.flag():
                    e = next(it, None)
                elif c.flag():
                    e = next(iter(r), None)
                else:
                    e = r.read_example()
                obs.append("None" if e is None else show_example(e))
            elif op == "peek":
                e = r.peek_example()
                obs.append("None" if e is None else show_example(e))
            elif op == "schema":
                sc = r.read_schema()
                obs.append("None" if sc is None else "schema ;" + show_schema(sc))
            elif op == "reset":
                r.reset()
                obs.append("bytes %d" % r.num_bytes_read)
            else:
                for e in it if it is not None and c.flag() else r:
                    obs.append(show_example(e))
                obs.append("bytes %d" % r.num_bytes_read)
        except ERRORS as e:
            obs.append(show_error(e))
    return obs


def epochs(obs):
    out = [[]]
    for o in obs:
        if o == "bytes 0":
            out.append([])
        else:
            out[-1].append(o)
    return out


def first_raise(ep):
    for i, o in enumerate(ep):
        if o.startswith("raised"):
            return i
    return len(ep)


def short(o):
    return o if len(o) < 160 else o[:150] + "..."


def compare(got, want, serial, ordered=True, one_failure=False):
    """Returns a description of the difference, if there is one."""
    if not ordered:
        # The order of the features of a protobuf message is that of a hash map.
        got, want = ([o if o.startswith("raised") else ";".join(sorted(o.split(";"))) for o in obs]
                     for obs in (got, want))
    ge, we = epochs(got), epochs(want)
    if len(ge) != len(we):
        return "%d epochs instead of %d" % (len(ge), len(we))
    for k, (g, w) in enumerate(zip(ge, we)):
        if one_failure and k > 0 and any(o.startswith("raised") for o in ge[k - 1] + we[k - 1]):
            break
        i, j = first_raise(g), first_raise(w)
        n = min(i, j)
        for x in range(n):
            if g[x] != w[x]:
                return "observation %d of epoch %d is %s instead of %s" % (x, k, short(g[x]), short(w[x]))
        if i == len(g) and j == len(w):
            if len(g) != len(w):
                return "epoch %d has %d observations instead of %d" % (k, len(g), len(w))
            continue
        if i == len(g) or j == len(w):
            # The failure was not reached in time, or there was none.
            if i == len(g) and any(o.startswith("bytes") for o in g[j:]) or \
                    j == len(w) and any(o.startswith("bytes") for o in w[i:]):
                return "epoch %d: %s instead of %s" % (k, [short(x) for x in g[n:n + 1]],
                                                       [short(x) for x in w[n:n + 1]])
            continue
        if serial and g[i] != w[j]:
            return "epoch %d: %s instead of %s" % (k, g[i][:600], w[j][:600])
    return None


@test("C29", "readers", 10)
def readers(c):
    with Scratch(c) as scratch:
        kind, s, make, cmds = generate(c, scratch)
        ops = script(c, s)
        c.desc("operations %s" % ops)
        cmds = cmds + [["op", o] for o in ops]
        want, wlog = reference(cmds)
        LOG.clear()
        got = observe(c, make, ops)
        log = [(lvl, plain(m)) for lvl, m in LOG]
        # The errors of a store that is written in Python arrive unchanged.
        serial = s.reader.get("num_prefetched_examples") == 1 and not s.wrapped
        how = (serial, kind != "protobuf", reshuffled(s))
        diff = compare(got, want, *how)
        if diff and any("raised" in o for o in got + want):
            # Which of two failures comes first depends on the schedule.
            for _ in range(4):
                for _ in range(5):
                    if compare(got, want, *how) is None:
                        diff = None
                    want, _ = reference(cmds)
                got = observe(c, make, ops)
        ensure(diff is None, "Python and C++ differ: %s", diff)
        failed = any(o.startswith("raised") for o in got + want)
        if not failed and all(o in ("all", "schema") or (o == "reset" and ops[i - 1] == "all")
                              for i, o in enumerate(ops)) and ops[-1] == "all":
            ensure(sorted(log) == sorted(wlog), "Python logs %s in addition and lacks %s",
                   [x for x in log if log.count(x) > wlog.count(x)], [x for x in wlog if wlog.count(x) > log.count(x)])
            c.tag("warnings", bool(wlog))
        c.tag("failure", failed)
        c.nontrivial(sum(o.startswith("padding") for o in want) > 1 or
                     (failed and any(o.startswith("padding") for o in want)))


# ---- parameters

DEFAULTS = {
    mlio.DataReaderParams: dict(
        num_prefetched_examples=0, num_parallel_reads=0, last_example_handling=mlio.LastExampleHandling.NONE,
        bad_example_handling=mlio.BadExampleHandling.ERROR, warn_bad_instances=False, num_instances_to_skip=0,
        num_instances_to_read=None, shard_index=0, num_shards=0, sample_ratio=None, shuffle_instances=False,
        shuffle_window=0, shuffle_seed=None, reshuffle_each_epoch=True),
    mlio.CsvParams: dict(
        column_names=[], name_prefix="", use_columns=set(), use_columns_by_index=set(), default_data_type=None,
        column_types={}, column_types_by_index={}, header_row_index=0, has_single_header=False,
        dedupe_column_names=True, delimiter=",", quote_char="\"", comment_char=None, allow_quoted_new_lines=False,
        skip_blank_lines=True, encoding=None, max_field_length=None,
        max_field_length_handling=mlio.MaxFieldLengthHandling.TREAT_AS_BAD, max_line_length=None),
    mlio.ImageReaderParams: dict(image_frame=mlio.ImageFrame.NONE, resize=None, to_rgb=False),
    mlio.ParserParams: dict(nan_values=set(), number_base=10),
}
# The documented order of the constructor parameters.
ORDER = {
    mlio.DataReaderParams: ["dataset", "batch_size"] + list(DEFAULTS[mlio.DataReaderParams]),
    mlio.CsvParams: list(DEFAULTS[mlio.CsvParams]),
    mlio.ImageReaderParams: ["image_frame", "resize", "image_dimensions", "to_rgb"],
    mlio.ParserParams: ["nan_values", "number_base"],
}


def any_value(c, name):
    sizes = lambda: c.pick([0, 1, 7, 1 << 20, (1 << 32) + 3, (1 << 64) - 1])  # noqa: E731
    if name in ENUMS:
        return c.pick(list(ENUMS[name].__members__.values()))
    if name in ("warn_bad_instances", "shuffle_instances", "reshuffle_each_epoch", "has_single_header",
                "dedupe_column_names", "allow_quoted_new_lines", "skip_blank_lines", "to_rgb"):
        return c.flag()
    if name in ("num_instances_to_read", "shuffle_seed", "header_row_index", "max_field_length",
                "max_line_length", "resize"):
        return None if c.chance(30) else sizes()
    if name == "sample_ratio":
        return c.pick([None, 0.5, 0.25, 1.0, 0.0])
    if name in ("delimiter", "quote_char"):
        return c.pick(list(",;\"'\t x\0"))
    if name == "comment_char":
        return c.pick([None, "#", "%"])
    if name == "encoding":
        return c.pick([None, "utf-8", "UTF-16LE", "whatever"])
    if name == "name_prefix":
        return c.pick(["", "p", "\u00e9\u65e5", "a\0b"])
    words = ["", "a", "b c", "\u00e9", "x\0"]
    if name == "column_names":
        return [c.pick(words) for _ in range(c.draw(4))]
    if name in ("use_columns", "nan_values"):
        return {c.pick(words) for _ in range(c.draw(4))}
    if name == "use_columns_by_index":
        return {sizes() for _ in range(c.draw(4))}
    types = list(DT.__members__.values())
    if name == "default_data_type":
        return c.pick([None] + types)
    if name == "column_types":
        return {c.pick(words): c.pick(types) for _ in range(c.draw(4))}
    if name == "column_types_by_index":
        return {sizes(): c.pick(types) for _ in range(c.draw(4))}
    if name == "image_dimensions":
        return [sizes() for _ in range(c.draw(4))]
    if name == "number_base":
        return c.range(-3, 40)
    if name == "dataset":
        return [c.pick(STORES) for _ in range(c.draw(4))]
    return sizes()


STORES = [mlio.InMemoryStore(b"abc"), mlio.File("/nonexistent/x"), mlio.InMemoryStore(b"abcd")]


@test("C29", "parameters", 3)
def parameters(c):
    """A parameter object holds what it was given, and the documented defaults otherwise."""
    cls = c.pick(list(ORDER))
    order = ORDER[cls]
    values = {k: any_value(c, k) for k in order if c.flag() or k in ("dataset", "batch_size", "image_dimensions")}
    how = c.draw(3)
    c.desc("%s %s" % (cls.__name__, values))
    if how == 0:
        obj = cls(**values)
    elif how == 1:
        # As many positional arguments as possible.
        pos = []
        for k in order:
            if k not in values:
                break
            pos.append(values[k])
        obj = cls(*pos, **{k: values[k] for k in order[len(pos):] if k in values})
        c.tag("positional", len(pos) > 2)
    else:
        need = {mlio.DataReaderParams: dict(dataset=[], batch_size=1),
                mlio.ImageReaderParams: dict(image_dimensions=[])}.get(cls, {})
        obj = cls(**need)
        for k in values:
            setattr(obj, k, values[k])
    for k in order:
        want = values[k] if k in values else DEFAULTS[cls][k]
        got = getattr(obj, k)
        ensure(type(got) is type(want) and got == want, "the parameter %s is %s instead of %s", k, got, want)
    # An assignment changes only that parameter, and an impossible one nothing.
    k = c.pick(order)
    before = {n: getattr(obj, n) for n in order}
    new = c.pick([object(), -1, "xx", 1.5, b"", [object()], 1 << 70, {1: 2}]) if c.flag() else any_value(c, k)
    try:
        setattr(obj, k, new)
        before[k] = getattr(obj, k)
    except (TypeError, ValueError):
        c.tag("refused")
    for n in order:
        ensure(getattr(obj, n) == before[n], "the parameter %s changed from %s to %s by assigning %s", n, before[n],
               getattr(obj, n), k)
    c.nontrivial(len(values) > 2)


# ---- stores written in Python

class Oops(Exception):
    pass


class Script(mlio.DataStore):
    """Each opening does what the script says; the last one is repeated."""

    def __init__(self, data, script, name):
        super().__init__()
        self.data = data
        self.script = list(script)
        self.name = name

    def open_read(self):
        act = self.script.pop(0) if len(self.script) > 1 else self.script[0]
        if act is None:
            return mlio.InMemoryStore(self.data).open_read()
        if isinstance(act, BaseException):
            raise act
        return act()

    @property
    def id(self):
        return self.name


class Plain(mlio.DataStore):
    """Has no identifier of its own."""

    def __init__(self, data):
        super().__init__()
        self.data = data

    def open_read(self):
        return mlio.InMemoryStore(self.data).open_read()


class Bare(mlio.DataStore):
    pass


@test("C29", "stores", 5)
def stores(c):
    """Stores written in Python deliver their data, and their errors reach the reader."""
    n = 1 + c.draw(4)
    bad = c.draw(n + 1) if c.flag() else None
    prefetch = c.draw(4)
    batch = 1 + c.draw(4)
    rows, dataset, fault = [], [], None
    error = None
    for k in range(n):
        lines = ["s%d l%d" % (k, i) for i in range(c.size(6))]
        data = "".join(x + "\n" for x in lines).encode()
        kind = c.draw(4)
        if bad == k:
            fault = len(rows)
            error = c.pick([Oops("no %d" % k), ValueError("v"), KeyError("k"), KeyboardInterrupt(),
                            mlio.StreamError("mine"), mlio.DataReaderError("mine too"), OSError(5, "io"),
                            StopIteration(3), None, 7, "text"])
            if isinstance(error, BaseException):
                act = error
            else:
                def act(v=error):
                    return v
            dataset.append(Script(data, [act], "bad"))
        elif kind == 0:
            dataset.append(Plain(data))
        elif kind == 1:
            dataset.append(Script(data, [None], "s%d" % k))
        else:
            dataset.append(mlio.InMemoryStore(data))
        rows += lines
    params = mlio.DataReaderParams(dataset=dataset, batch_size=batch, num_prefetched_examples=prefetch)
    how = c.draw(3)
    if how == 1:
        params2 = mlio.DataReaderParams(dataset=[], batch_size=batch, num_prefetched_examples=prefetch)
        params2.dataset = dataset
        params = params2
    names = [type(s).__name__ for s in dataset]
    r = mlio.TextLineReader(params)
    if how == 2:
        del params
    failing = dataset[bad] if bad is not None and bad < n else None
    del dataset
    gc.collect()
    c.desc("stores %s, error %r at row %s of %d, prefetch %d, batch %d" % (names, error, fault, len(rows), prefetch,
                                                                           batch))
    epochs_ = 1 + c.draw(3)
    for epoch in range(epochs_):
        repaired = failing is not None and epoch > 0 and c.flag()
        if repaired:
            failing.script = [None]
        broken = failing is not None and failing.script != [None]
        got = []
        stop = c.chance(20)
        seen = None
        while True:
            if stop and c.chance(30):
                break
            try:
                e = r.read_example()
            except BaseException as ex:
                seen = ex
                break
            if e is None:
                break
            got += mnp.as_numpy(e[0]).ravel().tolist()
        if broken:
            ensure(got == rows[:len(got)] and len(got) <= fault, "the rows before the failure are %s", got)
            if seen is None:
                ensure(stop, "the failure did not arrive after %s", got)
            elif isinstance(error, BaseException):
                ensure(type(seen) is type(error), "%s arrives instead of %s", seen, error)
                ensure(seen.args == error.args, "%s arrives instead of %s", seen, error)
            else:
                ensure(isinstance(seen, (TypeError, RuntimeError)), "%s arrives for %s", seen, error)
            if seen is not None:
                for _ in range(c.draw(3)):
                    try:
                        r.peek_example() if c.flag() else r.read_example()
                        ensure(False, "the failure is not repeated")
                    except BaseException as ex:
                        ensure(type(ex) is type(seen), "the failure turns from %s into %s", seen, ex)
        else:
            ensure(seen is None, "the unexpected error %s", seen)
            ensure(got == rows if not stop else got == rows[:len(got)], "the rows are %s instead of %s", got, rows)
        r.reset()
    c.tag("failing", failing is not None)
    c.nontrivial(n > 1 and len(rows) > batch)


@test("C29", "identity", 2)
def identity(c):
    """Equality, hashes and identifiers of stores."""
    datas = [b"one", b"two"]
    with Scratch(c) as scratch:
        paths = [scratch.path("f%d") for _ in range(2)]

        def new():
            k = c.draw(6)
            i = c.draw(2)
            if k == 0:
                return mlio.File(paths[i], memory_map=c.flag()), paths[i]
            if k == 1:
                s = mlio.InMemoryStore(datas[i])
                return s, s.id
            if k == 2:
                return Script(b"", [None], paths[i]), paths[i]
            if k == 3:
                return Wrapped(mlio.File(paths[i]), c.flag()), paths[i]
            s = Plain(b"") if k == 4 else Bare()
            return s, None
        objs = [new() for _ in range(2 + c.draw(4))]
        c.desc(str([type(o).__name__ for o, _ in objs]))
        dataset = mlio.DataReaderParams([o for o, _ in objs], 1).dataset
        for i, (a, x) in enumerate(objs):
            if x is not None and not isinstance(a, Wrapped):
                ensure(a.id == x, "the identifier is %s instead of %s", a.id, x)
            ensure(dataset[i] == a, "a store of the dataset differs from the one given")
            for j, (b, y) in enumerate(objs):
                same = i == j or (x is not None and x == y)
                ensure((a == b) == same and (a != b) != same, "equality of %s and %s", a, b)
                if same:
                    ensure(hash(a) == hash(b), "hashes of %s and %s", a, b)
        ensure(len({o for o, _ in objs}) == len({x if x is not None else id(o) for o, x in objs}), "a set of stores")
        k = c.draw(3)
        if k == 0:
            try:
                Bare().open_read()
                ensure(False, "a store without open_read() was opened")
            except RuntimeError:
                pass
        elif k == 1:
            try:
                e = next(iter(mlio.TextLineReader(mlio.DataReaderParams([Bare()], 1))), None)
                ensure(False, "a store without open_read() was read: %s", e)
            except RuntimeError:
                pass
        c.nontrivial(len(objs) > 2)


# ---- streams and record readers

def change(buf):
    """Tries to change the first byte of a buffer."""
    v = memoryview(buf)
    if not v.readonly and len(v) > 0:
        v[0] ^= 1


@test("C29", "streams", 3)
def streams(c):
    """Streams are sequences of bytes with a position in Python, too."""
    with Scratch(c) as scratch:
        data = c.bytes(c.size(60)) if c.chance(80) else bytes(range(256)) * 40
        zipped = c.chance(25)
        raw = gzip.compress(data) if zipped else data
        k = c.draw(3)
        if k == 0:
            store = mlio.InMemoryStore(raw, mlio.Compression.GZIP if zipped else mlio.Compression.NONE)
        else:
            path = scratch.path("s%d.gz" if zipped else "s%d")
            with open(path, "wb") as f:
                f.write(raw)
            store = mlio.File(path, memory_map=k == 1)
        s = store.open_read()
        if c.chance(20):
            # What is read is not a way to change the data, or to crash.
            change(store.open_read().read(4))
            ensure(bytes(store.open_read().read(4)) == data[:4] and (not zipped or gzip.decompress(raw) == data),
                   "the data of the store can be changed through what is read of it")
        if c.flag():
            del store
        pos = 0
        kept = []
        closed = False
        c.desc("%d bytes, kind %d, zipped %s" % (len(data), k, zipped))
        for _ in range(1 + c.size(12)):
            op = c.weighted(4, 4, 2, 2, 1)
            if closed:
                try:
                    if op == 0:
                        s.read(3)
                    elif op == 1:
                        s.read(bytearray(3))
                    elif op == 2:
                        s.seek(0)
                    else:
                        s.position
                    ensure(False, "operation %s on a closed stream", op)
                except (mlio.StreamError, mlio.NotSupportedError):
                    pass
                ensure(s.closed, "the stream is not closed")
                continue
            ensure(not s.closed, "the stream is closed")
            if op == 0:
                n = c.pick([0, 1, 3, 10, len(data), len(data) + 5])
                b = bytes(s.read(n))
                ensure(b == data[pos:pos + len(b)] and len(b) <= n, "read(%s) at %s returned %s", n, pos, b)
                ensure(len(b) > 0 or n == 0 or pos >= len(data), "read(%s) at %s returned nothing", n, pos)
                pos += len(b)
            elif op == 1:
                n = c.pick([0, 1, 3, 10, len(data) + 5])
                kind = c.draw(3)
                buf = bytearray(b"\xaa" * n) if kind == 0 else np.full(n, 0xaa, np.uint8)
                if kind == 2:
                    buf = memoryview(bytearray(b"\xaa" * (n + 4)))[2:2 + n]
                got = s.read(buf)
                b = bytes(buf)
                ensure(0 <= got <= n, "read() returned %s for a buffer of %s", got, n)
                ensure(b[:got] == data[pos:pos + got], "read() at %s filled in %s", pos, b)
                ensure(got > 0 or n == 0 or pos >= len(data), "read(%s) at %s returned nothing", n, pos)
                if not zipped:
                    ensure(b[got:] == b"\xaa" * (n - got), "read() wrote behind the data")
                pos += got
            elif op == 2 and s.seekable:
                pos = c.pick([0, 1, len(data) // 2, len(data), len(data) + 3])
                s.seek(pos)
            elif op == 3:
                kept.append((s.read(4) if not zipped else None, pos))
                if kept[-1][0] is None:
                    kept.pop()
                else:
                    pos += len(bytes(kept[-1][0]))
            elif op == 4 and c.chance(30):
                if c.flag():
                    s.close()
                else:
                    with s as t:
                        ensure(t is s, "__enter__() returned something else")
                closed = True
                continue
            ensure(s.seekable == (not zipped), "seekable is %s", s.seekable)
            if s.seekable:
                ensure(s.size == len(data), "the size is %s", s.size)
                ensure(s.position == pos or pos > len(data), "the position is %s instead of %s", s.position, pos)
        for x in (b"bytes", memoryview(b"read-only"), "text", None):
            if c.chance(20):
                try:
                    s.read(x)
                    ensure(False, "read() filled %s", x)
                except (TypeError, ValueError, BufferError, mlio.MLIOError, RuntimeError):
                    pass
        del s
        for b, p in kept:
            ensure(bytes(b) == data[p:p + len(bytes(b))], "data handed out earlier changed")
        c.nontrivial(len(data) > 1)


@test("C29", "records", 2)
def records(c):
    """Parquet files come out of a stream one by one."""
    files = []
    for _ in range(c.draw(5)):
        body = b"".join(c.pick([b"PAR1", b"xyz", b"\0\0\0\0", b"a", b"PAR"]) for _ in range(c.size(12)))
        foot = b"\x15" + b"meta" * (2 + c.draw(3)) + b"\0"
        files.append(b"PAR1" + body + foot + struct.pack("<I", len(foot)) + b"PAR1")
    # A body that looks like the end of a file cannot be told from one.
    data = b"".join(files)
    for f in files:
        for i in range(8, len(f) - 4):
            if f[i:i + 4] == b"PAR1" and 9 <= struct.unpack("<I", f[i - 4:i])[0] <= i - 8:
                c.discard()
    cut = c.draw(len(data) + 1) if c.chance(25) and data else None
    store = mlio.InMemoryStore(data if cut is None else data[:cut])
    r = mlio.ParquetRecordReader(store.open_read())
    got = []
    failed = None
    how = c.draw(4)
    it = iter(r)
    # Nobody but the iterator may know the reader.
    alone = how == 0 and c.chance(30)
    if alone:
        r = store = None
        gc.collect()
    c.desc("files %s, cut at %s, how %d%s" % ([len(f) for f in files], cut, how, " alone" if alone else ""))
    try:
        while True:
            if not alone and c.chance(30):
                p = r.peek_record()
                q = r.peek_record()
                ensure((p is None) == (q is None) and (p is None or bytes(p) == bytes(q)), "two peeks differ")
            else:
                p = False
            rec = next(it, None) if how == 0 else next(iter(r), None) if how == 1 else r.read_record()
            if p is not False:
                ensure((p is None) == (rec is None) and (p is None or bytes(p) == bytes(rec)),
                       "a record differs from the peeked one")
            if rec is None:
                break
            ensure(rec.kind == mlio.RecordKind.COMPLETE, "the kind is %s", rec.kind)
            got.append(rec)
    except mlio.RecordError as e:
        failed = e
    del r, it, store
    gc.collect()
    whole = 0
    ends = [0]
    for f in files:
        ends.append(ends[-1] + len(f))
    if cut is not None:
        while whole < len(files) and ends[whole + 1] <= cut:
            whole += 1
    else:
        whole = len(files)
    ensure([bytes(x) for x in got] == files[:len(got)], "the records are %s", [bytes(x) for x in got])
    if cut is None or cut in ends:
        ensure(failed is None and len(got) == whole, "%s records of %s, error %s", len(got), whole, failed)
    else:
        ensure(failed is not None and isinstance(failed, mlio.CorruptRecordError), "the error is %s", failed)
        c.tag("corrupt")
    for x in got:
        change(x)
    ensure(data == b"".join(files), "the data of the store can be changed through its records")
    c.nontrivial(len(files) > 1)


@test("C29", "iterators", 1)
def iterators(c):
    """An iterator needs nobody to hold its reader, and carries on where others stopped."""
    n = c.size(20)
    batch = 1 + c.draw(4)
    p = mlio.DataReaderParams([mlio.InMemoryStore(b"".join(b"line %d\n" % i for i in range(n)))], batch)
    r = mlio.TextLineReader(p)
    its = [iter(r) for _ in range(1 + c.draw(3))]
    c.desc("%d lines, batch %d, %d iterators" % (n, batch, len(its)))
    if c.flag():
        del r, p
        gc.collect()
    got = []
    while its:
        it = c.pick(its)
        ensure(iter(it) is it, "an iterator of an iterator")
        if c.chance(20):
            del it
            its.pop(c.draw(len(its)))
            gc.collect()
            continue
        e = next(it, None)
        if e is None:
            ensure(next(it, None) is None, "the end is not the end")
            break
        got.append(e)
    its = None
    it = None
    gc.collect()
    lines = [str(x) for e in got for x in mnp.as_numpy(e["value"]).ravel().tolist()]
    want = ["line %d" % i for i in range(n)]
    ensure(lines == want[:len(lines)], "the lines are %s", lines)
    c.nontrivial(n > batch and len(got) > 1)


class PyStream(mlio.InputStream):
    """A stream written in Python."""

    def __init__(self, data):
        super().__init__()
        self.data = data
        self.pos = 0

    def read(self, arg):
        if isinstance(arg, int):
            b = self.data[self.pos:self.pos + arg]
            self.pos += len(b)
            return b
        n = min(len(arg), len(self.data) - self.pos)
        memoryview(arg).cast("B")[:n] = self.data[self.pos:self.pos + n]
        self.pos += n
        return n

    def seek(self, pos):
        self.pos = pos

    def close(self):
        pass

    def size(self):
        return len(self.data)

    def position(self):
        return self.pos

    def seekable(self):
        return False

    def closed(self):
        return False


@test("C29", "own_streams", 1)
def own_streams(c):
    """A stream written in Python can be read by the library, or is refused with an error."""
    data = b"PAR1" + c.bytes(c.draw(4)) + b"\x15" + b"m" * 7 + b"\0" + struct.pack("<I", 9) + b"PAR1"
    c.desc("data %s" % data)
    c.nontrivial()
    pid = os.fork()
    if pid == 0:
        try:
            s = PyStream(data)
            got = mlio.ParquetRecordReader(s).read_record()
            os._exit(0 if got is not None and bytes(got) == data else 3)
        except Exception:
            os._exit(0)
        finally:
            os._exit(4)
    status = os.waitpid(pid, 0)[1]
    ensure(status == 0, "the process ends with the status %s when a stream written in Python is read", status,
           key="python-input-stream")


class OwnReader(mlio.DataReader):
    def __init__(self, items):
        super().__init__()
        self.items = items
        self.at = 0
        self.error = None

    def read_example(self):
        if self.at == len(self.items):
            return None
        self.at += 1
        x = self.items[self.at - 1]
        if isinstance(x, BaseException):
            raise x
        return x

    def peek_example(self):
        return self.items[self.at] if self.at < len(self.items) else None

    def read_schema(self):
        return self.items[0].schema

    def reset(self):
        self.at = 0


@test("C29", "own_readers", 1)
def own_readers(c):
    """A reader that is written in Python can be iterated like any other."""
    data = b"".join(b"%d\n" % i for i in range(1 + c.draw(5)))
    examples = list(mlio.TextLineReader(mlio.DataReaderParams(dataset=[mlio.InMemoryStore(data)], batch_size=1)))
    items = []
    for e in examples:
        items.append(e)
        if c.chance(15):
            items.append(c.pick([ValueError("mine"), Oops("mine"), mlio.DataReaderError("mine"), KeyboardInterrupt(),
                                 StopIteration(5)]))
    n = len(items)
    reader = OwnReader(items)
    iterators = [iter(reader) for _ in range(1 + c.draw(2))]
    del reader
    at = 0
    failures = 0
    for _ in range(c.draw(2 * n + 4)):
        it = c.pick(iterators)
        try:
            got = next(it, None)
        except (ValueError, Oops, mlio.DataReaderError, KeyboardInterrupt) as e:
            got = e
        want = items[at] if at < n else None
        at += at < n
        if isinstance(want, StopIteration):
            want = None  # as for any iterator
        failures += isinstance(want, BaseException)
        ensure(got is want or (type(got) is type(want) and str(got) == str(want)),
               "item %s is %s instead of %s", at, got, want)
        if c.chance(10):
            gc.collect()
    c.desc("%s items, %d failures" % (n, failures))
    c.nontrivial(at > 1)
    c.tag("failures", failures > 0)


# ---- the end of the process

EXITS = r"""
import json, logging, sys, threading, time
import mlio

o = json.loads(sys.argv[1])


class Null(logging.Handler):
    def emit(self, record):
        record.getMessage()


log = logging.getLogger("mlio")
log.addHandler(Null())
log.propagate = False
mlio.set_log_level(mlio.LogLevel.DEBUG if o["debug"] else mlio.LogLevel.WARNING)


class Store(mlio.DataStore):
    def __init__(self, data, name):
        super().__init__()
        self.inner = mlio.InMemoryStore(data)
        self.name = name

    def open_read(self):
        return self.inner.open_read()

    @property
    def id(self):
        return self.name

    def __repr__(self):
        return self.name


good, bad = b"1,2\n" * o["good"], b"1,2,3\n" * o["bad"]
keep = []
loop = []
loop.append(loop)


def work(n):
    stores = []
    for i in range(o["stores"]):
        if o["store"] == "python":
            stores.append(Store(good + bad, "s%d" % i))
        else:
            stores.append(mlio.InMemoryStore(bytearray(good + bad)))
    p = mlio.DataReaderParams(dataset=stores, batch_size=o["batch"], num_prefetched_examples=o["prefetch"],
                              num_parallel_reads=o["parallel"], warn_bad_instances=o["warn"],
                              bad_example_handling=mlio.BadExampleHandling.SKIP)
    if o["text"]:
        reader = mlio.TextLineReader(p)
    else:
        reader = mlio.CsvReader(p, mlio.CsvParams(header_row_index=None))
    it = iter(reader)
    got = [e for _, e in zip(range(o["read"]), it)]
    if o["reset"] and o["good"] >= o["batch"]:
        reader.reset()
        reader.read_example()
    if o["views"]:
        from mlio.integ import numpy as mnp
        for e in got:
            keep.append([mnp.as_numpy(t) if n == 0 else memoryview(t) for n, t in enumerate(e)])
            keep.append([e.schema, iter(e)])
        s = stores[0].open_read()
        keep.append([s, s.read(3), stores, p])
    where = o["where"]
    if where == "list":
        keep.append((reader, got))
    elif where == "iterator":
        keep.append(it)
    elif where == "cycle":
        loop.append(reader)
    elif where == "module":
        sys.modules["reader%d" % n] = reader
    elif where == "logger":
        log.reader = [reader, getattr(log, "reader", None)]
    else:
        globals()["reader%d" % n] = reader


threads = []
for n in range(o["readers"]):
    if o["threads"]:
        threads.append(threading.Thread(target=work, args=(n,)))
        threads[-1].start()
    else:
        work(n)
for t in threads:
    t.join()
time.sleep(o["sleep"] / 1000)
if o["end"] == "raise":
    raise RuntimeError("the end")
if o["end"] == "exit":
    sys.exit(7)
"""


@test("C29", "exits", 0.4)
def exits(c):
    """The process ends as it should, whatever the readers that are still alive do in the meantime."""
    o = {"debug": c.chance(20), "good": 1 + c.draw(200), "bad": c.pick([0, 0, 10, 300, 3000]),
         "stores": 1 + c.draw(6), "store": c.pick(["memory", "python"]), "batch": 1 + c.draw(10),
         "prefetch": c.pick([0, 1, 4, 64]), "parallel": c.pick([0, 1, 8]), "warn": not c.chance(25),
         "text": c.chance(20), "read": c.draw(20), "reset": c.chance(20),
         "where": c.pick(["global", "list", "iterator", "cycle", "module", "logger"]),
         "readers": 1 + c.draw(3), "threads": c.chance(25), "sleep": c.pick([0, 0, 1, 10, 50]),
         "end": c.pick(["", "", "exit", "raise"]),
         "views": c.chance(30)}
    o["read"] = min(o["read"], o["good"] // o["batch"])
    c.desc(json.dumps(o))
    p = subprocess.Popen([sys.executable, "-c", EXITS, json.dumps(o)], stdin=subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    try:
        err = p.communicate(timeout=30)[1].decode(errors="replace")
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        ensure(False, "the process does not end")
    want = {"": 0, "exit": 7, "raise": 1}[o["end"]]
    if o["end"] == "raise":
        err = err.replace("RuntimeError: the end\n", "")
        err = re.sub(r'^Traceback .*\n(  .*\n)*', "", err)
    ensure(p.returncode == want, "the process ends with %d instead of %d\n%s" % (p.returncode, want, err[:3000]))
    ensure(not err, "the process leaves a message: %s" % err[:2000])
    c.tag(o["where"])
    c.tag("warnings at the end", o["warn"] and o["bad"] and not o["text"])
    c.nontrivial(o["good"] > o["batch"] * o["read"])


# ---- schemas and examples

def any_attribute(c):
    return (c.pick(["a", "b", "", "\u00e9", "a\0"]), c.pick([DT.INT8, DT.FLOAT32, DT.STRING]),
            tuple(c.pick([0, 1, 2, 3]) for _ in range(c.draw(3))), c.flag())


def make_attribute(c, a):
    name, dt, shape, sparse = a
    strides, n = [], 1
    for s in reversed(shape):
        strides.insert(0, n)
        n *= s
    k = c.draw(3)
    if k == 0:
        return mlio.Attribute(name, dt, shape, None, sparse)
    if k == 1:
        return mlio.Attribute(name, dt, list(shape), strides=tuple(strides), sparse=sparse)
    if sparse:
        return mlio.Attribute(name=name, data_type=dt, shape=shape, sparse=True)
    return mlio.Attribute(name, dt, shape)


@test("C29", "schemas", 3)
def schemas(c):
    """Attributes, schemas and examples made in Python."""
    specs = [any_attribute(c) for _ in range(1 + c.draw(4))]
    attrs = [make_attribute(c, a) for a in specs]
    for a, x in zip(attrs, specs):
        ensure((a.name, a.data_type, tuple(a.shape), a.sparse) == x, "an attribute is %s instead of %s", a, x)
        for b, y in zip(attrs, specs):
            ensure((a == b) == (x == y), "equality of the attributes %s and %s", a, b)
            ensure(x != y or hash(a) == hash(b), "hashes of equal attributes")
    names = [x[0] for x in specs]
    c.desc(str(specs))
    try:
        schema = mlio.Schema(attrs)
    except ValueError:
        ensure(len(set(names)) < len(names), "the schema is refused: %s", names)
        c.tag("duplicates")
        c.nontrivial()
        return
    ensure(len(set(names)) == len(names), "a schema with the names %s", names)
    ensure(list(schema.attributes) == attrs, "the attributes of the schema are %s", list(schema.attributes))
    for x in ["a", "b", "", "\u00e9", "a\0", "zz"]:
        want = names.index(x) if x in names else None
        ensure(schema.get_index(x) == want, "the index of %s is %s", x, schema.get_index(x))
    other = [make_attribute(c, a) for a in specs]
    if c.flag() and len(other) > 1:
        other.reverse()
    s2 = mlio.Schema(other)
    ensure((schema == s2) == (other == attrs), "equality of schemas")
    ensure(schema != s2 or hash(schema) == hash(s2), "hashes of equal schemas")
    tensors = []
    n = len(specs) if c.chance(70) else c.draw(5)
    for i in range(n):
        tensors.append(mlio.DenseTensor((1,), np.array([i], np.int32)))
    try:
        e = mlio.Example(schema, tensors)
    except ValueError:
        ensure(n != len(specs), "the example is refused")
        return
    ensure(n == len(specs), "an example with %s features for %s attributes", n, len(specs))
    del s2, schema, attrs
    ensure(len(e) == n and [t for t in e] == tensors, "the features of the example")
    ensure(e.padding == 0, "the padding is %s", e.padding)
    e.padding = 3
    ensure(e.padding == 3, "the padding is %s", e.padding)
    for x in ["a", "b", "", "\u00e9", "a\0", "zz"]:
        ensure((x in e) == (x in names), "%s in the example", x)
        try:
            t = e[x]
            ensure(x in names and t is tensors[names.index(x)], "the feature %s", x)
        except KeyError:
            ensure(x not in names, "the feature %s is missing", x)
    for i in range(n + 2):
        ensure((i in e) == (i < n), "%s in the example", i)
        try:
            t = e[i]
            ensure(i < n and t is tensors[i], "the feature %s", i)
        except (KeyError, IndexError):
            ensure(i >= n, "the feature %s is missing", i)
    it = iter(e)
    del e
    gc.collect()
    ensure([t for t in it] == tensors, "the features of a released example")
    ensure(list(names) == names, "names")
    c.nontrivial(len(specs) > 1)


# ---- several readers and threads

@test("C29", "threads", 4)
def threads(c):
    """Readers in several Python threads do not disturb each other."""
    with Scratch(c) as scratch:
        plans = []
        for _ in range(2 + c.draw(3)):
            kind, s, make, cmds = generate(c, scratch, wrap=False)
            ops = script(c, s)
            want, _ = reference(cmds + [["op", o] for o in ops])
            again = make  # The choices are made here, not in the threads.
            try:
                r = again()
            except ERRORS:
                r = None
            plans.append((kind, s, r, ops, want, c.draw(3), 1 + c.draw(3)))
        results = [None] * len(plans)
        start = threading.Barrier(len(plans))

        def run(k):
            kind, s, r, ops, want, how, times = plans[k]
            start.wait()
            obs = []
            for op in ops:
                try:
                    if op in ("read", "peek"):
                        e = r.read_example() if op == "read" else r.peek_example()
                        obs.append("None" if e is None else show_example(e))
                    elif op == "schema":
                        sc = r.read_schema()
                        obs.append("None" if sc is None else "schema ;" + show_schema(sc))
                    elif op == "reset":
                        r.reset()
                        obs.append("bytes %d" % r.num_bytes_read)
                    else:
                        for e in r:
                            obs.append(show_example(e))
                        obs.append("bytes %d" % r.num_bytes_read)
                except ERRORS as e:
                    obs.append(show_error(e))
            if how == 1:
                r.reset()
            results[k] = obs
            plans[k] = None
            # The last reference to the reader goes away in this thread.
            del r

        ts = [threading.Thread(target=run, args=(k,)) for k in range(len(plans)) if plans[k][2] is not None]
        start = threading.Barrier(max(1, len(ts)))
        keep = [(kind, s, want) for kind, s, _, _, want, _, _ in plans]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        for k, (kind, s, want) in enumerate(keep):
            if results[k] is None:
                ensure(plans[k] is not None and len(want) == 1 and want[0].startswith("raised"),
                       "thread %s did not finish", k)
                continue
            diff = compare(results[k], want, False, kind != "protobuf", reshuffled(s))
            ensure(diff is None, "thread %s: %s", k, diff)
        c.nontrivial(len(ts) > 1)


# ---- file listing

@test("C29", "listing", 2)
def listing(c):
    """list_files() takes Python predicates and options."""
    with Scratch(c) as scratch:
        root = scratch.path("tree%d")
        os.mkdir(root)
        files = []
        for i in range(c.draw(8)):
            d = os.path.join(root, c.pick(["", "x", "y", "x/z"]))
            os.makedirs(d, exist_ok=True)
            f = os.path.join(d, "%s%d%s" % (c.pick("ab"), i, c.pick([".csv", ".gz", ".txt", ""])))
            with open(f, "wb") as h:
                h.write(gzip.compress(b"zipped") if f.endswith(".gz") else b"plain")
            files.append(f)
        pattern = c.pick(["", "*.csv", "*.gz", "*/a*", "*"])
        pick = {f for f in files if c.flag()}
        calls = []
        mode = c.draw(4)

        def predicate(p):
            calls.append(p)
            if mode == 2 and len(calls) == 2:
                raise Oops("predicate")
            return p in pick
        kw = {}
        if pattern or c.flag():
            kw["pattern"] = pattern
        if mode:
            kw["predicate"] = predicate
        mm = c.flag()
        if c.flag():
            kw["memory_map"] = mm
        raw = c.chance(30)
        if raw:
            kw["compression"] = mlio.Compression.NONE

        def matches(f):
            b = os.path.basename(f)
            return {"": True, "*": True, "*.csv": b.endswith(".csv"), "*.gz": b.endswith(".gz"),
                    "*/a*": "/a" in f}[pattern]
        c.desc("%s of %s, mode %d" % (kw.get("pattern"), sorted(os.path.relpath(f, root) for f in files), mode))
        want = {f for f in files if matches(f) and (not mode or f in pick)}
        try:
            if mode or set(kw) - {"pattern"} or c.flag():
                got = mlio.list_files([root], **kw)
            else:
                got = mlio.list_files(root, **kw)
        except Oops:
            ensure(mode == 2 and len(calls) == 2, "the predicate was called %s times", len(calls))
            c.tag("raised")
            return
        ensure(mode != 2 or len(calls) < 2, "the error of the predicate is lost")
        ids = [s.id for s in got]
        ensure(sorted(ids) == sorted(want), "the files are %s instead of %s", ids, sorted(want))
        if mode:
            ensure(set(calls) == {f for f in files if matches(f)} and len(calls) == len(set(calls)),
                   "the predicate was asked about %s", calls)
        for s in got:
            ensure(type(s) is mlio.File, "a store is a %s", type(s))
            st = s.open_read()
            body = bytes(st.read(100))
            if s.id.endswith(".gz") and raw:
                ensure(body[:2] == b"\x1f\x8b", "%s holds %s", s.id, body)
            else:
                ensure(body == (b"zipped" if s.id.endswith(".gz") else b"plain"), "%s holds %s", s.id, body)
        c.nontrivial(len(files) > 2)
