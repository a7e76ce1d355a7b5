"""C37: the effort of analyses, iterations and conversions is proportional to the data."""
import time

import numpy as np
import mlio
from mlio.contrib import insights
from mlio.integ import numpy as mnp

from pbt import ensure, test

try:
    from mlio.integ import pandas as mpd
except ImportError:
    mpd = None

TIMES = 16


def measure(make, n):
    run = make(n)
    begin = time.process_time()
    run()
    return time.process_time() - begin


def check_growth(c, what, n, most, make):
    """Compares the time for n and for 16 n."""
    measure(make, n)
    a = measure(make, n)
    while a < 0.006 and 2 * n <= most:
        n *= 2
        a = measure(make, n)
    b = measure(make, TIMES * n)
    c.desc("%s n=%d: %.1f ms, x16: %.1f ms" % (what, n, a * 1000, b * 1000))
    c.tag(what)
    c.nontrivial(b > 0.02)
    first = b / a
    # The time is not exact: it has to be far too long again and again, and also for more data.
    if b > max(TIMES * 3 * a, 0.15) and b < 1:
        n *= 3
        a = measure(make, n)
        b = measure(make, TIMES * n)
    for _ in range(4):
        if b <= TIMES * 3 * a or b <= 0.15:
            break
        time.sleep(0.2)
        a = max(a, measure(make, n))
        b = min(b, measure(make, TIMES * n))
    ensure(b <= TIMES * 3 * a or b <= 0.15, "%s: %s ms for n = %s, but %s ms for 16 n (at first %s times)",
           what, a * 1000, n, b * 1000, first)


def reader_of(data, batch, **csv):
    params = mlio.DataReaderParams(dataset=[mlio.InMemoryStore(data)], batch_size=batch)
    return mlio.CsvReader(params, mlio.CsvParams(header_row_index=None, **csv))


@test("C37", "analysis")
def analysis(c):
    batch = c.pick([1, 7, 100])
    limit = c.pick([0, 5, 10 ** 6])
    captured = c.pick([set(), {0}, {0, 1}])
    datasets = {
        "analyzed rows": (200, 5000, lambda n: b"1,two words\n" * n),
        "different values": (200, 5000, lambda n: b"".join(b"%d,v%d\n" % (i, i) for i in range(n))),
        "words": (2000, 100000, lambda n: b"1," + b"word " * n + b"\n2,b\n"),
        "blanks": (2000, 100000, lambda n: b"1," + b" " * n + b"\n2,b\n"),
        "digits": (2000, 100000, lambda n: b"0." + b"3" * n + b",1\n2,b\n"),
        "null likes": (100, 3000, lambda n: b"NA,null\n" * n),
        "analyzed columns": (20, 300, lambda n: b"1," * n + b"2\n" + b"2," * n + b"3\n"),
    }
    what = c.pick(sorted(datasets))
    n, most, data = datasets[what]
    c.desc("batch %d, limit %d, captured %s" % (batch, limit, sorted(captured)))

    def make(n):
        r = reader_of(data(n), batch, default_data_type=mlio.DataType.STRING)

        def run():
            a = insights.analyze_dataset(r, {"NA", "null", "none"}, captured, limit)
            for column in a.columns:
                column.to_dict()

        return run

    check_growth(c, what, n, most, make)


@test("C37", "objects")
def objects(c):
    batch = c.pick([1, 5, 50])
    kinds = ["iteration", "wide examples", "as_numpy", "strings", "to_tensor", "strided", "coo",
             "stores", "records", "peeks", "resets"] + (["frames"] if mpd is not None else [])
    what = c.pick(kinds)

    def rows(n):
        return b"1,2.5,x\n" * n

    def iteration(n):
        r = reader_of(rows(n), batch)
        return lambda: [[t.shape for t in e] for e in r]

    def wide(n):
        r = reader_of((b"1," * n + b"2\n") * 4, 2)
        return lambda: [[e[i] is not None and e["1"] for i in range(len(e))] for e in r]

    def numbers(n):
        e = reader_of(b"1\n" * n, n).read_example()
        return lambda: [mnp.as_numpy(e[0]).sum(), mnp.to_numpy(e[0]).sum(), memoryview(e[0]).tolist()]

    def strings(n):
        e = reader_of(b"abc\n" * n, n).read_example()
        return lambda: [list(mnp.as_numpy(e[0]).ravel()), list(mnp.to_numpy(e[0]).ravel())]

    def to_tensor(n):
        a = np.arange(n)
        return lambda: [mlio.DenseTensor([n], a), mnp.to_tensor(a), mnp.as_tensor(a)]

    def coo(n):
        a = np.arange(n)
        return lambda: mlio.CooTensor([n, n], a, [a, a])

    def strided(n):
        a = np.arange(4 * n).reshape(n, 4)[:, ::2]
        return lambda: mnp.to_tensor(a)

    def stores(n):
        d = [mlio.InMemoryStore(b"1,2\n") for _ in range(n)]

        def run():
            p = mlio.DataReaderParams(dataset=d, batch_size=3)
            for e in mlio.CsvReader(p, mlio.CsvParams(header_row_index=None)):
                pass

        return run

    def records(n):
        meta = b"\x15" + b"m" * 9 + b"\0"
        one = b"PAR1body" + meta + bytes([len(meta), 0, 0, 0]) + b"PAR1"
        s = mlio.InMemoryStore(one * n).open_read()
        return lambda: [bytes(r) for r in mlio.ParquetRecordReader(s)]

    def peeks(n):
        r = reader_of(rows(3), 1)
        return lambda: [r.peek_example() for _ in range(n)]

    def resets(n):
        r = reader_of(rows(3), 1)

        def run():
            for _ in range(n):
                r.read_example()
                r.reset()

        return run

    def frames(n):
        e = reader_of(b"1\n" * n, n).read_example()
        return lambda: mpd.to_pandas(e)

    table = {"iteration": (100, 5000, iteration), "wide examples": (20, 300, wide), "as_numpy": (2000, 20000, numbers),
             "strings": (500, 10000, strings), "to_tensor": (20000, 500000, to_tensor),
             "coo": (20000, 300000, coo),
             "strided": (10000, 200000, strided), "stores": (30, 500, stores), "records": (300, 10000, records),
             "peeks": (500, 10000, peeks), "resets": (10, 200, resets), "frames": (5000, 100000, frames)}
    n, most, make = table[what]
    c.desc("batch %d" % batch)
    check_growth(c, what, n, most, make)
