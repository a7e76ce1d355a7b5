"""C27: tensors, buffers and arrays are converted without changing a value."""
import array
import ctypes
import gc
import sys
import types

import numpy as np
import pandas

import mlio
from mlio.integ import numpy as mnp
from mlio.integ import dlpack as mdl
from mlio.integ.pandas import to_pandas

from pbt import ensure, test


class CooMatrix:
    """Stands in for scipy.sparse.coo_matrix, which this interpreter does not have."""

    def __init__(self, arg, shape=None, copy=False):
        data, (row, col) = arg
        self.data = np.array(data, copy=copy)
        self.row = np.array(row, copy=copy)
        self.col = np.array(col, copy=copy)
        self.shape = tuple(shape)
        if len(self.shape) != 2 or not len(self.data) == len(self.row) == len(self.col):
            raise ValueError("invalid coo_matrix")

    @property
    def nnz(self):
        return len(self.data)

    def tocoo(self, copy=False):
        return CooMatrix((self.data, (self.row, self.col)), self.shape, copy=copy)

    copy = tocoo

    def sum_duplicates(self):
        """As documented: the entries get ordered and unique, and zeros are kept."""
        sums = {}
        for r, k, v in zip(self.row.tolist(), self.col.tolist(), self.data):
            sums[r, k] = sums[r, k] + v if (r, k) in sums else v
        keys = sorted(sums)
        self.row = np.array([r for r, _ in keys], dtype=np.int32)
        self.col = np.array([k for _, k in keys], dtype=np.int32)
        self.data = np.array([sums[k] for k in keys], dtype=self.data.dtype)

    def tocsr(self, copy=False):
        m = self.tocoo(copy=True)
        m.sum_duplicates()
        m.indices = m.col
        m.indptr = np.searchsorted(m.row, np.arange(self.shape[0] + 1)).astype(np.int32)
        return m

    def eliminate_zeros(self):
        keep = self.data != 0
        self.row, self.col, self.data = self.row[keep], self.col[keep], self.data[keep]

    def nonzero(self):
        keep = self.data != 0
        return self.row[keep], self.col[keep]

    def toarray(self):
        a = np.zeros(self.shape, dtype=self.data.dtype)
        np.add.at(a, (self.row, self.col), self.data)
        return a


try:
    import scipy.sparse  # noqa: F401
except ImportError:
    sp = types.ModuleType("scipy.sparse")
    sp.coo_matrix = CooMatrix
    top = types.ModuleType("scipy")
    top.sparse = sp
    sys.modules["scipy"] = top
    sys.modules["scipy.sparse"] = sp
from scipy.sparse import coo_matrix  # noqa: E402
from mlio.integ import scipy as msp  # noqa: E402

DT = mlio.DataType
NUMERIC = {
    "e": DT.FLOAT16, "f": DT.FLOAT32, "d": DT.FLOAT64, "b": DT.INT8, "h": DT.INT16, "i": DT.INT32,
    "q": DT.INT64, "l": DT.INT64, "B": DT.UINT8, "H": DT.UINT16, "I": DT.UINT32, "Q": DT.UINT64,
    "L": DT.UINT64,
}
OTHER = ["?", "F", "D", "S3", "U2", "M8[s]", "g", ">i4", ">f8", [("a", "i4"), ("b", "f8")], "V4"]
REFUSED = (ValueError, TypeError, BufferError, RuntimeError, mlio.MLIOError)


def bits(a):
    """Values for an exact comparison."""
    a = np.ascontiguousarray(a)
    if a.dtype == object:
        return [x for x in a.ravel()]
    return a.tobytes()


def same(a, b):
    return a.shape == b.shape and bits(a) == bits(b)


def fill(c, n, dt):
    """n values of a numeric dtype, every bit pattern possible."""
    size = np.dtype(dt).itemsize
    if c.flag():
        return np.arange(1, n + 1).astype(dt)
    rng = np.random.RandomState(c.draw(1 << 31))
    return np.frombuffer(rng.bytes(n * size), dtype=dt).copy()


def gen_shape(c, rank=None):
    rank = c.weighted(1, 4, 4, 2, 1) if rank is None else rank
    return tuple(c.weighted(1, 3, 3, 3, 2, 1) for _ in range(rank))


def gen_layout(c, make):
    """Returns (array, writable and strides representable)."""
    shape = gen_shape(c)
    kind = c.weighted(4, 2, 4, 1, 1, 1, 2)
    n = int(np.prod(shape))
    if kind == 0:
        a = make(n).reshape(shape)
    elif kind == 1:
        a = np.asfortranarray(make(n).reshape(shape))
    elif kind == 2:
        # A section of a larger array.
        big = tuple(s * 2 + 3 for s in shape)
        a = make(int(np.prod(big))).reshape(big)
        a = a[tuple(slice(c.draw(3), None, c.pick([1, 2, 3])) for _ in shape) + (Ellipsis,)]
        a = a[tuple(slice(0, s) for s in shape) + (Ellipsis,)]
    elif kind == 3:
        a = make(n).reshape(shape)
        for d in range(len(shape)):
            if c.flag():
                a = np.flip(a, d)
    elif kind == 4:
        base = make(int(np.prod(shape[1:])) if shape else 1).reshape(shape[1:])
        a = np.broadcast_to(base, shape)
    elif kind == 5:
        v = make(n)
        odd = c.flag()
        s = np.zeros(n, dtype=[("x", v.dtype), ("y", "V%d" % (v.dtype.itemsize if not odd else 1))])
        s["x"] = v
        a = s["x"].reshape(shape) if n else v.reshape(shape)
    else:
        a = make(n).reshape(shape)
        perm = list(range(len(shape)))
        for i in range(len(perm)):
            j = i + c.draw(len(perm) - i)
            perm[i], perm[j] = perm[j], perm[i]
        a = a.transpose(perm)
    if c.chance(10):
        a = a.view()
        a.flags.writeable = False
    return a, kind


def regular(a):
    """Whether the strides are ones that a tensor can have."""
    return all(d == 1 or (s >= 0 and s % a.itemsize == 0) for d, s in zip(a.shape, a.strides)) or a.size == 0


def contiguous(a):
    return a.flags.c_contiguous


@test("C27", "arrays", 10)
def arrays(c):
    """NumPy arrays of any dtype and layout."""
    known = c.chance(85)
    dt = c.pick(sorted(NUMERIC)) if known else c.pick(OTHER)
    if known:
        a, kind = gen_layout(c, lambda n: fill(c, n, dt))
    else:
        a, kind = gen_layout(c, lambda n: np.zeros(n, dtype=dt))
    c.desc("dtype %s shape %r strides %r writable %s" % (a.dtype, a.shape, a.strides, a.flags.writeable))
    before = a.copy()
    view = c.flag()
    good = known and regular(a) and (a.flags.writeable or not view)
    try:
        t = mnp.as_tensor(a) if view else mnp.to_tensor(a)
    except REFUSED as e:
        ensure(not good, "refused: %s", e)
        c.tag("refused")
        c.nontrivial()
        return
    ensure(known, "an array of dtype %s became a tensor", a.dtype)
    ensure(t.data_type == NUMERIC[dt], "the data type is %s", t.data_type)
    ensure(t.shape == a.shape, "the shape is %s", t.shape)
    for get in (mnp.as_numpy, mnp.to_numpy, lambda x: np.array(memoryview(x))):
        b = get(t)
        ensure(b.dtype == a.dtype, "the dtype is %s", b.dtype)
        ensure(same(b, a), "the values are %s instead of %s", b, a)
    b = mnp.as_numpy(t)
    cp = mnp.to_numpy(t)
    ensure(same(a, before), "the array was changed")
    if a.size:
        if view:
            ensure(np.shares_memory(a, b), "as_tensor() or as_numpy() copied the data")
            idx = tuple(c.draw(d) for d in a.shape)
            a[idx] = 0 if a[idx] != 0 else 1
            ensure(same(b, a), "a change of the array is not seen through the view")
            ensure(same(mnp.as_numpy(t), a), "a change of the array is not seen through the tensor")
            b[idx] = 7
            ensure(same(b, a), "a change of the view is not seen through the array")
        else:
            ensure(not np.shares_memory(a, b), "to_tensor() shares the data")
            ensure(np.shares_memory(mnp.as_numpy(t), b), "as_numpy() copied the data")
            if a.flags.writeable:
                a[...] = 0
            b[...] = 1
            ensure(same(mnp.as_numpy(t), np.ones_like(b)), "as_numpy() is not a view")
        ensure(not np.shares_memory(cp, b) and same(cp, before), "to_numpy() is not a copy")
        cp[...] = 3
    ref = b.copy()
    order = [0, 1]
    if c.flag():
        order.reverse()
    for o in order:
        if o == 0:
            del t
        else:
            del a
        gc.collect()
        ensure(same(b, ref), "the view changed after a deletion")
    c.nontrivial(b.size > 1)
    c.tag("layout%d" % kind)
    c.tag("view" if view else "copy")
    c.tag("rank%d" % b.ndim)


FORMATS = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 8, "L": 8, "q": 8, "Q": 8, "f": 4, "d": 8}
CTYPES = {"b": ctypes.c_int8, "B": ctypes.c_uint8, "h": ctypes.c_int16, "H": ctypes.c_uint16,
          "i": ctypes.c_int32, "I": ctypes.c_uint32, "q": ctypes.c_int64, "Q": ctypes.c_uint64,
          "f": ctypes.c_float, "d": ctypes.c_double}


def gather(flat, shape, strides):
    out = np.empty(shape, dtype=flat.dtype)
    for idx in np.ndindex(*shape):
        out[idx] = flat[sum(i * s for i, s in zip(idx, strides))]
    return out


@test("C27", "buffers", 8)
def buffers(c):
    """Buffer objects other than arrays, with explicit shapes and strides."""
    shape = gen_shape(c)
    n = int(np.prod(shape))
    fmt = c.pick(sorted(FORMATS))
    strides = None
    need = n
    if c.chance(60):
        strides = tuple(c.weighted(1, 4, 3, 2, 2, 2) for _ in shape)
        if c.flag():
            st = []
            k = 1
            for d in reversed(shape):
                st.insert(0, k)
                k *= d
            strides = tuple(st)
        need = 0 if n == 0 else 1 + sum((d - 1) * s for d, s in zip(shape, strides))
    have = max(0, need + c.pick([0, 0, 0, 1, 5, -1, -2]))
    flat = fill(c, have, fmt)
    raw = flat.tobytes()
    kind = c.draw(6)
    if kind == 0:
        buf = array.array(fmt, raw)
    elif kind == 1:
        buf = memoryview(bytearray(raw)).cast(fmt)
    elif kind == 2:
        buf = memoryview(raw).cast(fmt)
    elif kind == 3:
        if fmt in "lL":
            c.discard()
        buf = (CTYPES[fmt] * have).from_buffer_copy(raw)
    elif kind == 4:
        fmt = "B"
        buf = bytes(raw) if c.flag() else bytearray(raw)
        flat = np.frombuffer(raw, dtype="B")
    else:
        step = c.pick([2, -1, 3])
        big = np.zeros(have * abs(step) + 4, dtype=fmt)
        v = big[:have * step:step] if step > 0 else big[have - 1::-1] if have else big[:0]
        v[...] = flat
        buf = memoryview(v)
        c.tag("strided-buffer")
    copy = c.flag()
    readonly = memoryview(buf).readonly
    cont = memoryview(buf).c_contiguous
    c.desc("%s %s of %d elements, shape %r strides %r copy %s" % (type(buf).__name__, fmt, len(flat), shape,
                                                                strides, copy))
    args = dict(copy=copy)
    if strides is not None:
        args["strides"] = strides
    has = len(flat)
    fits = has >= (need if n else 0)
    rank0 = not shape
    try:
        t = mlio.DenseTensor(shape, data=buf, **args)
    except REFUSED as e:
        if readonly and not copy:
            return c.tag("readonly")
        if kind == 3:
            return c.tag("ctypes")  # Its formats have an explicit byte order.
        if not cont:
            # With strides the elements of the buffer are where they are in memory.
            return c.tag("not contiguous")
        ensure(not fits or (n == 0 and has == 0), "refused: %s", e)
        c.tag("too small")
        c.nontrivial()
        return
    ensure(not (readonly and not copy), "a read-only buffer is used without copying")
    if not cont:
        ensure(strides is not None or has <= 1, "a strided buffer became a tensor without strides")
        c.tag("strided taken")
        mnp.to_numpy(t)
        return
    ensure(fits, "the buffer has only %s elements of %s", has, need)
    st = strides
    if st is None:
        st = t.strides
        want = []
        k = 1
        for d in reversed(shape):
            want.insert(0, k)
            k *= d
        ensure(n == 0 or all(s == w or d == 1 for d, s, w in zip(shape, st, want)), "the strides are %s", st)
    ensure(t.shape == shape and t.data_type == NUMERIC[fmt], "%s of type %s", t.shape, t.data_type)
    ensure(tuple(t.strides) == tuple(st), "the strides are %s", t.strides)
    ensure(t.data.size == has and t.data.data_type == t.data_type, "the data has %s elements", t.data.size)
    ensure(memoryview(t.data).tobytes() == flat.tobytes(), "the data differs")
    want = gather(flat, shape, st)
    got = mnp.as_numpy(t)
    ensure(same(got, want), "the values are %s instead of %s", got, want)
    if not copy and kind in (1, 4) or kind == 0 and not copy:
        base = buf.obj if kind == 1 else buf
        locked = True
        try:
            base.append(1)
            locked = False
        except BufferError:
            pass
        ensure(locked, "the buffer can be resized while a tensor uses it")
    del got
    if not copy and has:
        mv = memoryview(buf).cast("B")
        mv[0] = mv[0] ^ 1
        ensure(memoryview(t.data).tobytes()[0] == mv[0], "a change is not seen by the tensor")
    view = mnp.as_numpy(t)
    ref = view.copy()
    if c.flag():
        if kind in (0, 4) and type(buf) is not bytes:
            # Not used by anything else anymore.
            mv = None
            del view, t
            gc.collect()
            buf.append(1)
            c.tag("released")
    else:
        buf = mv = None
        del t
        gc.collect()
        ensure(same(view, ref), "the view changed after the deletion of its owners")
    c.nontrivial(n > 1)
    c.tag("kind%d" % kind)
    c.tag("strides", strides is not None)
    c.tag("rank0", rank0)


TEXTS = ["", "a", "hello", "\u00e4\u00f6", "\u65e5\u672c", "\U0001f600x", "a\x00b", "x" * 50, " ", "\ufeff"]
BAD = [b"\xff", b"a\xc3", b"\xed\xa0\x80", b"ok\x80", b"\xf5\x80\x80\x80"]


@test("C27", "strings", 5)
def strings(c):
    """Tensors of strings, some of which are not valid UTF-8."""
    bad = c.chance(30)
    if bad or c.flag():
        # bytes are taken as they are.
        def conv(s):
            return s.encode()
    else:
        def conv(s):
            return s
    pool = [c.pick(TEXTS) for _ in range(1 + c.size(8))]
    a, kind = gen_layout(c, lambda n: np.array([conv(pool[i % len(pool)]) for i in range(n)] + [None],
                                               dtype=object)[:n])
    if kind == 5 or not isinstance(a, np.ndarray):
        c.discard()
    if a.size and bad and a.flags.writeable and kind != 4:
        idx = tuple(c.draw(d) for d in a.shape)
        a[idx] = c.pick(BAD)
    else:
        bad = False
    c.desc("strings %r shape %r strides %r" % (a, a.shape, a.strides))
    want = np.empty(a.shape, dtype=object)
    for idx in np.ndindex(*a.shape):
        v = a[idx]
        if isinstance(v, bytes):
            try:
                v = v.decode()
            except UnicodeDecodeError:
                v = None
        want[idx] = v
    try:
        mnp.as_tensor(a)
        ensure(False, "strings are used without copying")
    except REFUSED:
        pass
    try:
        t = mnp.to_tensor(a)
    except REFUSED as e:
        ensure(not regular(a), "refused: %s", e)
        return
    ensure(t.data_type == DT.STRING and t.shape == a.shape, "%s of type %s", t.shape, t.data_type)
    for i in range(1 + c.draw(4)):
        get = c.pick([mnp.as_numpy, mnp.to_numpy, memoryview])
        try:
            b = get(t)
        except (ValueError, BufferError) as e:
            ensure(bad, "%s", e)
            continue
        ensure(not bad, "invalid UTF-8 was converted to %s", b)
        b = np.array(b)
        ensure(b.dtype == object and same(b, want), "the values are %s instead of %s", b, want)
    if not bad:
        v = mnp.as_numpy(t)
        del t, a
        gc.collect()
        ensure(same(v, want), "the strings changed after a deletion")
        if v.size:
            v[...] = "other"
        del v
        gc.collect()
    c.nontrivial(want.size > 1)
    c.tag("bad", bad)


@test("C27", "coo", 4)
def coo(c):
    """Tensors in coordinate format and their SciPy counterparts."""
    rank = 1 + c.weighted(2, 4, 1)
    shape = tuple(c.range(1, 6) for _ in range(rank))
    n = c.size(8)
    dt = c.pick(sorted(NUMERIC))
    data = fill(c, n, dt)
    coords = [np.array([c.draw(d) for _ in range(n)], dtype="q") for d in shape]
    copy = c.flag()
    flaw = c.weighted(6, 1, 1, 1)
    use = list(coords)
    k = c.draw(rank)
    if flaw == 1:
        use.pop(k)
    elif flaw == 2:
        use[k] = np.append(use[k], [0])
    elif flaw == 3 and n > 1:
        use[k] = np.repeat(use[k], 2)[::2]
    else:
        flaw = 0
    c.desc("shape %r dtype %s data %r coords %r copy %s flaw %d" % (shape, dt, data, coords, copy, flaw))
    before = data.copy()
    try:
        t = mlio.CooTensor(shape, data, use, copy=copy)
    except REFUSED as e:
        ensure(flaw, "refused: %s", e)
        c.tag("refused")
        return
    ensure(flaw == 0 or flaw == 3, "coordinates that do not match were taken")
    ensure(t.shape == shape and t.data_type == NUMERIC[dt], "%s of type %s", t.shape, t.data_type)
    got = np.array(t.data)
    ensure(same(got, data), "the values are %s", got)
    for d in range(rank):
        got = np.array(t.indices(d))
        ensure(same(got, coords[d]), "the indices of dimension %s are %s", d, got)
    for d in (rank, rank + 5):
        try:
            t.indices(d)
            ensure(False, "there are indices of dimension %s", d)
        except REFUSED + (IndexError,):
            pass
    if n:
        data[0] = 0 if data[0] != 0 else 1
        shared = same(np.array(t.data), data)
        ensure(shared != copy, "the tensor %s its data", "shares" if shared else "copied")
        data[0] = before[0]
        for d in range(rank):
            if flaw == 3 and d == k:
                continue  # a copy anyway
            coords[d][0] += 1
            shared = same(np.array(t.indices(d)), coords[d])
            ensure(shared != copy, "the tensor %s the indices of dimension %s",
                   "shares" if shared else "copied", d)
            coords[d][0] -= 1
    if dt not in "e":
        try:
            m = msp.to_coo_matrix(t)
        except REFUSED as e:
            ensure(rank > 2, "refused: %s", e)
            return
        ensure(rank <= 2, "a tensor of rank %s became a matrix", rank)
        rows = coords[0] if rank == 2 else np.zeros(n, dtype="q")
        ensure(m.shape == ((1,) + shape if rank == 1 else shape), "the shape of the matrix is %s", m.shape)
        ensure(same(m.data, before), "the values of the matrix are %s", m.data)
        ensure(list(m.row) == list(rows) and list(m.col) == list(coords[-1]), "the matrix has indices %s",
               (m.row, m.col))
        if n:
            m.data[...] = 1
            m.row[...] = 0
            ensure(same(np.array(t.data), before), "the matrix shares its data")
            ensure(same(np.array(t.indices(0)), coords[0]), "the matrix shares its indices")
        m = coo_matrix((before.copy(), (coords[0].astype("i"), coords[-1].astype("i"))), shape=(7, 7))
        t = msp.to_tensor(m)
        ensure(t.shape == (7, 7) and same(np.array(t.data), before), "the tensor of a matrix differs")
        if n:
            m.data[...] = 1
            m.row[...] = 0
            m.col[...] = 0
        ensure(same(np.array(t.data), before), "the tensor of a matrix shares its values")
        ensure(same(np.array(t.indices(0)), coords[0]) and same(np.array(t.indices(1)), coords[-1]),
               "the tensor of a matrix shares its indices or changed them")
    views = [np.array(t.data, copy=False), np.array(t.indices(0), copy=False)]
    refs = [v.copy() for v in views]
    m = data = use = coords = None
    del t
    gc.collect()
    ensure(all(same(v, r) for v, r in zip(views, refs)), "a view changed after a deletion")
    c.nontrivial(n > 1)
    c.tag("rank%d" % rank)


def as_dlpack(t):
    try:
        return mdl.as_dlpack(t)
    except mlio.NotSupportedError:
        return mdl.as_dlpack(t, 60)  # The version of the header files of this system.


class Capsule:
    def __init__(self, capsule):
        self.capsule = capsule

    def __dlpack__(self, stream=None):
        return self.capsule

    def __dlpack_device__(self):
        return (1, 0)


@test("C27", "dlpack", 3)
def dlpack(c):
    """Capsules that NumPy takes over, and ones that nobody takes."""
    dt = c.pick(sorted(NUMERIC))
    a, kind = gen_layout(c, lambda n: fill(c, n, dt))
    c.desc("dtype %s shape %r strides %r" % (a.dtype, a.shape, a.strides))
    try:
        t = mnp.to_tensor(a)
    except REFUSED:
        return c.discard()
    cap = as_dlpack(t)
    if c.flag():
        del cap
        cap = as_dlpack(t)
    if c.chance(20):
        del t
        gc.collect()
        del cap
        gc.collect()
        return c.tag("unused")
    v = np.from_dlpack(Capsule(cap))
    ensure(v.dtype == a.dtype and same(v, a), "the values are %s instead of %s", v, a)
    ensure(a.size == 0 or np.shares_memory(v, mnp.as_numpy(t)), "the capsule does not share the data")
    for o in c.pick([(0, 1), (1, 0)]):
        if o:
            del t
        else:
            del cap
        gc.collect()
        ensure(same(v, a), "the view changed after a deletion")
    c.nontrivial(a.size > 1)


def stand_in(name, **members):
    """A stand-in for a library that is not installed."""
    try:
        __import__(name)
        return False
    except ImportError:
        pass
    parts = name.split(".")
    for i in range(len(parts)):
        m = types.ModuleType(".".join(parts[:i + 1]))
        sys.modules.setdefault(m.__name__, m)
        if i:
            setattr(sys.modules[".".join(parts[:i])], parts[i], m)
    for k, v in members.items():
        setattr(sys.modules[name], k, v)
    return True


class SparseTensor:
    """As tf.SparseTensor: a row of indices for each value."""

    def __init__(self, indices, values, dense_shape):
        self.indices = np.asarray(indices)
        self.values = np.asarray(values)
        self.dense_shape = tuple(int(d) for d in dense_shape)
        if self.indices.ndim != 2 or self.values.ndim != 1 or \
                self.indices.shape != (len(self.values), len(self.dense_shape)):
            raise ValueError("indices of shape %s for %s values" % (self.indices.shape, self.values.shape))


STAND_INS = (
    stand_in("tensorflow", SparseTensor=SparseTensor, convert_to_tensor=np.array)
    and stand_in("torch.utils.dlpack", from_dlpack=lambda cap: np.from_dlpack(Capsule(cap)))
    and stand_in("mxnet", ndarray=types.SimpleNamespace(
        from_dlpack=lambda cap: np.from_dlpack(Capsule(cap)))))


@test("C27", "frameworks", 2)
def frameworks(c):
    """Conversions for machine learning libraries, with stand-ins for these."""
    if not STAND_INS:
        return c.discard()
    from mlio.integ import mxnet, tensorflow, torch
    mxnet.as_dlpack = torch.as_dlpack = as_dlpack
    dt = c.pick(sorted(NUMERIC))
    if c.flag():
        a, kind = gen_layout(c, lambda n: fill(c, n, dt))
        c.desc("dtype %s shape %r strides %r" % (a.dtype, a.shape, a.strides))
        try:
            t = mnp.to_tensor(a)
        except REFUSED:
            return c.discard()
        for get in (mxnet.as_mxnet, torch.as_torch, tensorflow.to_tf):
            v = get(t)
            ensure(v.dtype == a.dtype and same(v, a), "the values are %s instead of %s", v, a)
            ensure(a.size == 0 or np.shares_memory(v, mnp.as_numpy(t)) == (get is not tensorflow.to_tf),
                   "%s shares or copies", get)
        c.nontrivial(a.size > 1)
        return c.tag("dense")
    rank = 1 + c.draw(2)
    shape = tuple(1 + c.draw(4) for _ in range(rank))
    n = c.size(6)
    data = np.array([c.draw(4) for _ in range(n)], dtype=dt)
    indices = [np.array([c.draw(d) for _ in range(n)], dtype=np.int64) for d in shape]
    c.desc("sparse dtype %s shape %r: %r at %r" % (dt, shape, data, indices))
    t = mlio.CooTensor(shape, data, indices)
    want = np.zeros(shape, dtype=dt)
    np.add.at(want, tuple(indices), data)
    v = tensorflow.to_tf(t)
    ensure(v.dense_shape == ((1,) + shape)[-2:], "shape %s", v.dense_shape)
    got = np.zeros(v.dense_shape, dtype=dt)
    np.add.at(got, tuple(v.indices.T), v.values)
    ensure(v.values.dtype == np.dtype(dt) and same(got, want.reshape(v.dense_shape)), "the values are %s instead of %s",
           got, want)
    c.nontrivial(n > 1)
    c.tag("sparse")


def reader(c, rows):
    cols = 1 + c.size(4)
    names = ["c%d" % j for j in range(cols)]
    kinds = [c.pick([DT.INT8, DT.UINT16, DT.INT32, DT.INT64, DT.FLOAT32, DT.FLOAT64, DT.STRING,
                     DT.SIZE]) for _ in names]
    text = ",".join(names) + "\n"
    for i in range(rows):
        text += ",".join("s%d\u00e4" % (i * cols + j) if kinds[j] == DT.STRING else str((i * cols + j) % 100)
                         for j in range(cols)) + "\n"
    data = text.encode()
    buf = c.pick([bytes, bytearray, lambda x: memoryview(bytearray(x))])(data)
    p = mlio.DataReaderParams(
        dataset=[mlio.InMemoryStore(buf)], batch_size=1 + c.size(4), num_prefetched_examples=c.draw(4),
        last_example_handling=c.pick([mlio.LastExampleHandling.NONE, mlio.LastExampleHandling.PAD]))
    r = mlio.CsvReader(p, mlio.CsvParams(column_types_by_index=dict(enumerate(kinds))))
    return r, names, kinds


NP = {DT.INT8: "i1", DT.UINT16: "u2", DT.INT32: "i4", DT.INT64: "i8", DT.FLOAT32: "f4", DT.FLOAT64: "f8",
      DT.STRING: "O", DT.FLOAT16: "f2", DT.SIZE: "i8"}


@test("C27", "lifetimes", 8)
def lifetimes(c):
    """Objects that refer to parts of a dataset outlive those they came from."""
    rows = 1 + c.size(12)
    r, names, kinds = reader(c, rows)
    objs = {"reader": r}
    del r
    checks = []  # (function that returns the value, the value)
    seen = 0

    def number(e, j):
        bs = e[j].shape[0]
        vals = []
        for i in range(bs - e.padding):
            x = (seen + i) * len(names) + j
            vals.append("s%d\u00e4" % x if kinds[j] == DT.STRING else x % 100)
        vals += ["" if kinds[j] == DT.STRING else 0] * e.padding
        return vals

    steps = 4 + c.size(16)
    done = False
    history = []
    for _ in range(steps):
        live = sorted(objs)
        op = c.pick([0, 1, 2, 3, 0, 1, 2, 4, 5, 6, 7, 7])
        if op == 0 and "reader" in objs and not done:
            e = objs["reader"].read_example()
            if e is None:
                done = True
                continue
            objs["example%d" % len(history)] = e
            want = [number(e, j) for j in range(len(names))]
            seen += e[0].shape[0] - e.padding
            for j in range(len(names)):
                ensure(mnp.as_numpy(e[j]).ravel().tolist() == want[j], "feature %s is %s instead of %s", j,
                       mnp.as_numpy(e[j]), want[j])
                ensure(mnp.as_numpy(e[j]).dtype == np.dtype(NP[kinds[j]]) or kinds[j] == DT.SIZE,
                       "feature %s has the dtype %s", j, mnp.as_numpy(e[j]).dtype)
            checks.append((e, want))
        elif op <= 3:
            es = [k for k in live if k.startswith("example")]
            if not es:
                continue
            k = c.pick(es)
            e = objs[k]
            j = c.draw(len(names))
            how = c.draw(8)
            if how == 0:
                o = e[names[j]]
            elif how == 1:
                o = list(iter(e))[j]
            elif how == 2:
                o = mnp.as_numpy(e[j])
            elif how == 3:
                o = memoryview(e[j])
            elif how == 4:
                o = e[j].data
            elif how == 5:
                o = e.schema
            elif how == 6:
                o = e.schema.attributes[j]
            else:
                o = iter(e)
            objs["o%d:%d:%d" % (len(history), how, j)] = o
            objs["o%d:%d:%d want" % (len(history), how, j)] = [w for x, w in checks if x is e][0]
        elif op == 4 and "reader" in objs:
            objs["o%d:8:0" % len(history)] = iter(objs["reader"])
        elif op == 5 and "reader" in objs and not done:
            objs["o%d:5:0" % len(history)] = objs["reader"].read_schema()
        elif op == 6 and "reader" in objs:
            objs["reader"].reset()
            seen, done = 0, False
        else:
            k = c.pick([x for x in live if not x.endswith("want")] or ["reader"])
            e = objs.pop(k, None)
            checks = [x for x in checks if x[0] is not e]
            del e
            gc.collect()
            history.append("delete " + k)
            continue
        history.append("op%d" % op)
    checks = None
    c.desc("columns %r rows %d; %s" % (kinds, rows, " ".join(history)))
    e = None
    objs.pop("reader", None)
    for k in [k for k in objs if k.startswith("example")]:
        del objs[k]
    gc.collect()
    n = 0
    for k in sorted(objs):
        if k.endswith("want"):
            continue
        o = objs[k]
        _, how, j = k[1:].split(":")
        how, j = int(how), int(j)
        want = objs.get(k + " want")
        n += 1
        if how <= 1:
            ensure(mnp.as_numpy(o).ravel().tolist() == want[j], "a tensor changed after the deletions")
        elif how in (2, 3, 4):
            ensure(np.array(o).ravel().tolist() == want[j], "a view changed after the deletions")
        elif how == 5:
            ensure([a.name for a in o.attributes] == names, "the schema changed: %s", o)
            ensure([a.data_type for a in o.attributes] == kinds, "the schema changed: %s", o)
        elif how == 6:
            ensure(o.name == names[j] and o.data_type == kinds[j], "the attribute changed: %s", o)
        elif how == 7:
            ensure([mnp.as_numpy(t).ravel().tolist() for t in o] == want, "the features changed")
        elif not done:
            for ex in o:
                pass
    c.nontrivial(n > 1)
    c.tag("objects%d" % min(n, 5))


@test("C27", "frames", 3)
def frames(c):
    """Examples as pandas data frames."""
    rows = 1 + c.size(12)
    r, names, kinds = reader(c, rows)
    c.desc("columns %r rows %d" % (kinds, rows))
    at = 0
    for e in r:
        f = to_pandas(e)
        ensure(list(f.columns) == names, "the columns are %s", list(f.columns))
        good = len(f) - e.padding
        for j, nm in enumerate(names):
            want = ["s%d\u00e4" % ((at + i) * len(names) + j) if kinds[j] == DT.STRING else
                    ((at + i) * len(names) + j) % 100 for i in range(good)]
            want += ["" if kinds[j] == DT.STRING else 0] * e.padding
            ensure(f[nm].tolist() == want, "column %s is %s instead of %s", nm, f[nm].tolist(), want)
            ensure(kinds[j] == DT.SIZE or f[nm].dtype == np.dtype(NP[kinds[j]]), "column %s has the dtype %s",
                   nm, f[nm].dtype)
        ref = f.copy(deep=True)
        at += good
        del e
        gc.collect()
        ensure(f.equals(ref), "the frame changed after a deletion")
    ensure(at == rows, "%s rows instead of %s", at, rows)
    ensure(isinstance(f, pandas.DataFrame), "not a frame")
    c.nontrivial(rows > 2)


@test("C27", "slices", 3)
def slices(c):
    """Slices and records keep the bytes that they refer to."""
    data = bytes(c.draw(256) for _ in range(1 + c.size(60)))
    kind = c.draw(3)
    src = data if kind == 0 else bytearray(data) if kind == 1 else memoryview(bytearray(data))
    store = mlio.InMemoryStore(src)
    s = store.open_read()
    out = []
    pos = 0
    c.desc("%d bytes in a %s" % (len(data), type(src).__name__))
    for _ in range(1 + c.size(8)):
        op = c.draw(4)
        if op == 0:
            n = c.size(len(data) + 3)
            m = s.read(n)
            out.append((m, data[pos:pos + n]))
            pos = min(len(data), pos + n)
        elif op == 1:
            b = bytearray(c.size(20))
            n = s.read(b)
            want = data[pos:pos + len(b)]
            ensure(n <= len(want) and (n > 0 or not want) and bytes(b[:n]) == want[:n], "read %s of %s", n, want)
            pos += n
        elif op == 2:
            p = c.draw(len(data) + 1)
            s.seek(p)
            pos = p
        else:
            ensure(s.position == pos and s.size == len(data) and not s.closed and s.seekable,
                   "position %s size %s", s.position, s.size)
    with s as x:
        ensure(x is s, "the context is another object")
    ensure(s.closed, "the stream is not closed")
    try:
        s.read(1)
        ensure(False, "a closed stream was read")
    except REFUSED:
        pass
    if kind == 1 and not out:
        del s, store, x
        gc.collect()
        src.append(1)
    else:
        del s, store, src, x
        gc.collect()
    views = [memoryview(m) for m, _ in out]
    wants = [w for _, w in out]
    for v, w in zip(views, wants):
        ensure(v.tobytes()[:len(w)] == w[:len(v)], "a slice is %s instead of %s", v.tobytes(), w)
        ensure(len(v) <= len(w) and (len(v) > 0 or not w), "a slice has %s bytes of %s", len(v), len(w))
    out = m = None
    gc.collect()
    for v, w in zip(views, wants):
        ensure(v.tobytes() == w[:len(v)], "a slice changed after a deletion")
    c.nontrivial(len(data) > 1 and len(views) > 0)
