"""C28: the insights equal statistics computed in Python."""
import logging
import math

import mlio
from mlio.contrib.insights import analyze_dataset

from pbt import ensure, test

WORDS = ["abc", "Null", "NA", "none", "x", "hello world", "a b c", "1.2.3", "--5", "$5", "12 34", "nil",
         "\u00e9t\u00e9", "\u65e5\u672c \u8a9e", "q\"uo", "a,b", "it's", "nullx", "xnull"]
NULLS = ["null", "na", "none", "nil", "N/A", "-", "x", "Nan", "abc"]
INF_TEXT = ["1e999", "inf", "-inf", "Infinity"]
NAN_TEXT = ["nan", "NaN"]


def gen_number(c):
    """Returns (text, value)."""
    k = c.weighted(4, 3, 2, 1)
    if k == 0:
        t = str(c.range(-20, 20))
        if t == "0" and c.chance(30):
            t = "00"
    elif k == 1:
        t = "%s%d.%02d" % (c.pick(["", "-"]), c.draw(50), c.range(1, 99))
    elif k == 2:
        t = "%d.0" % c.range(-9, 9) if c.flag() else "%de%d" % (c.range(-9, 9), c.range(0, 12))
    else:
        t = "%d.%de%d" % (c.range(-9, 9), c.draw(1000), c.range(-30, 100))
    return t, float(t)


def gen_cell(c, tame):
    k = c.weighted(6, 5, 2, 2, 2, 1, 1, 2)
    if k == 0:
        return gen_number(c)[0]
    if k == 1:
        return c.pick(WORDS)
    if k == 2:
        return ""
    if k == 3:
        return c.pick([" ", "  ", "\t", " \t "])
    if k == 4:
        w = c.pick(NULLS)
        return "".join(ch.upper() if c.flag() else ch.lower() for ch in w)
    if k == 5:
        return c.pick(INF_TEXT + NAN_TEXT)
    if k == 6 and not tame:
        return c.pick(["  x", "a  b", "b ", " null", "null "])
    return "".join(c.pick("gh jk") for _ in range(1 + c.size(8))).strip() or "w"


NUMBERS = {}


def number(t):
    """The value of an unambiguous decimal number, inf or nan for those texts, or None."""
    if t in INF_TEXT:
        return math.inf
    if t in NAN_TEXT:
        return math.nan
    if t and set(t) <= set("0123456789.-e") and not t.startswith("--"):
        try:
            return float(t)
        except ValueError:
            return None
    return None


def is_space(t):
    return t != "" and t.strip(" \t") == ""


def stats(cells, nulls, capture, limit):
    """The expected statistics; ambiguous ones as sets or ranges."""
    e = {"rows": len(cells)}
    body = [t for t in cells if t != "" and not is_space(t)]
    e["empty"] = sum(t == "" for t in cells)
    e["space"] = sum(is_space(t) for t in cells)
    nums = [(t, number(t)) for t in body]
    fin = [(t, v) for t, v in nums if v is not None and math.isfinite(v)]
    e["finite"] = [v for _, v in fin]
    e["inf"] = sum(1 for _, v in nums if v is not None and math.isinf(v))
    e["text"] = sum(1 for _, v in nums if v is None or math.isnan(v))
    e["int_min"] = sum(1 for t, _ in fin if t.lstrip("-").isdigit())
    e["int_max"] = sum(1 for _, v in fin if abs(v - round(v)) <= 1e-4)
    lens = []
    for f in (len, lambda t: len(t.encode())):
        ls = [f(t) for t in cells]
        ne = [x for x in ls if x]
        lens.append((min(ls), min(ne) if ne else 0, max(ls), sum(ls) / len(ls)))
    e["lens"] = lens
    low = [n.lower() for n in nulls]
    e["null_min"] = sum(t.lower() in low for t in body)
    e["null_max"] = sum(t.strip(" \t").lower() in low for t in body)
    e["words_min"] = sum(len([w for w in t.split(" ") if w]) for t in body)
    e["words_max"] = sum(len(t.split(" ")) for t in cells if t)
    e["vocab"] = len({w for t in body for w in t.split(" ") if w})
    # Words that consist of white space other than spaces, and empty words.
    e["vocab_extra"] = 3
    e["uniq"] = len({t for t in cells if t})
    caps = []
    for keep in (lambda t: t != "" and not is_space(t), lambda t: t != "", lambda t: True):
        d = {}
        over = False
        if capture:
            for t in cells:
                if not keep(t):
                    continue
                if t in d:
                    d[t] += 1
                elif len(d) < limit:
                    d[t] = 1
                else:
                    over = True
        caps.append((d, over))
    e["caps"] = caps
    return e


def card_tolerance(n):
    if n <= 40:
        return 2
    m = 65536.0
    t = n / m
    if t > 1:
        return 0.03 * n
    return 4 + 7 * math.sqrt(m * max(math.exp(t) - t - 1, 0.0))


def close(a, b, scale):
    return abs(a - b) <= 1e-9 * max(scale, 1e-300) + 1e-12


def compare(col, cells, nulls, capture, limit):
    e = stats(cells, nulls, capture, limit)
    n = col.column_name

    def eq(what, got, *want):
        ensure(got in want, "column %s: %s is %s instead of %s", n, what, got, want)

    def between(what, got, lo, hi):
        ensure(lo <= got <= hi, "column %s: %s is %s instead of %s", n, what, got, (lo, hi))

    eq("rows_seen", col.rows_seen, e["rows"])
    eq("string_empty_count", col.string_empty_count, e["empty"])
    eq("string_only_whitespace_count", col.string_only_whitespace_count, e["space"])
    nf = len(e["finite"])
    eq("numeric_finite_count", col.numeric_finite_count, nf)
    between("numeric_count", col.numeric_count, nf, nf + e["inf"])
    eq("numeric_nan_count", col.numeric_nan_count, e["text"] + e["inf"] - (col.numeric_count - nf))
    between("numeric_int_count", col.numeric_int_count, e["int_min"], e["int_max"])
    got = (col.string_min_length, col.string_min_length_not_empty, col.string_max_length,
           col.string_avg_length)
    ensure(any(got[:3] == w[:3] and close(got[3], w[3], w[3]) for w in e["lens"]),
           "column %s: the lengths are %s instead of %s", n, got, e["lens"])
    between("string_null_like_count", col.string_null_like_count, e["null_min"], e["null_max"])
    between("string_num_words", col.string_num_words, e["words_min"], e["words_max"])
    if nf:
        eq("numeric_finite_min", col.numeric_finite_min, min(e["finite"]))
        eq("numeric_finite_max", col.numeric_finite_max, max(e["finite"]))
        mean = math.fsum(e["finite"]) / nf
        ensure(close(col.numeric_finite_mean, mean, max(abs(v) for v in e["finite"])),
               "column %s: numeric_finite_mean is %s instead of %s", n, col.numeric_finite_mean, mean)
    d = col.to_dict()
    tol = card_tolerance(e["uniq"])
    between("string_cardinality", d["string_cardinality"], e["uniq"] - tol, e["uniq"] + tol)
    v = e["vocab"]
    tol = card_tolerance(v)
    between("string_vocab_cardinality", d["string_vocab_cardinality"], v - tol,
            v + tol + e["vocab_extra"])
    ensure(any(col.string_captured_unique_values == d and col.string_captured_unique_values_overflowed == o
               for d, o in e["caps"]),
           "column %s: captured %s instead of %s", n,
           (col.string_captured_unique_values, col.string_captured_unique_values_overflowed), e["caps"][0])
    ensure(col.example_value in cells, "column %s: the example value %s is not in the column", n,
           col.example_value)
    check_dict(col, d, e)
    return d


DICT = {
    "rows_seen": int, "numeric_count": int, "numeric_finite_count": int, "numeric_nan_count": int,
    "numeric_int_count": int, "string_empty_count": int, "string_min_length": int,
    "string_min_length_not_empty": int, "string_max_length": int, "string_only_whitespace_count": int,
    "string_null_like_count": int, "string_num_words": int, "numeric_finite_mean": float,
    "numeric_finite_min": float, "numeric_finite_max": float, "string_avg_length": float,
}


def check_dict(col, d, e):
    for k, t in DICT.items():
        v = getattr(col, k)
        got = t(d[k])
        same = got == v if t is int else (math.isnan(got) and math.isnan(v)) or \
            abs(got - v) <= 1e-6 + 1e-9 * abs(v)
        ensure(same, "to_dict()[%s] is %s instead of %s", k, d[k], v)
    for k in ("example_value", "string_captured_unique_values", "string_captured_unique_values_overflowed"):
        ensure(d[k] == getattr(col, k), "to_dict()[%s] is %s instead of %s", k, d[k], getattr(col, k))
    fin = sorted(e["finite"])
    if fin and len(fin) <= 10000:
        m = float(d["numeric_finite_median_approx"])
        lo, hi = fin[(len(fin) - 1) // 2], fin[len(fin) // 2]
        ensure(lo <= m <= hi, "the median is %s instead of %s", m, (lo, hi))


def quote(t):
    return '"%s"' % t.replace('"', '""')


def result_of(d):
    d = dict(d)
    for k in ("numeric_finite_mean", "string_avg_length", "numeric_finite_median_approx"):
        d[k] = None  # These may differ in rounding, and the median between equal ones.
    return d


@test("C28", "columns", 40)
def columns(c):
    ncol = 1 + c.size(3)
    nrow = 1 + c.size(60)
    tame = c.flag()
    few = [[gen_cell(c, tame) for _ in range(1 + c.size(6))] if c.flag() else None for _ in range(ncol)]
    table = [[c.pick(few[j]) if few[j] else gen_cell(c, tame) for _ in range(nrow)] for j in range(ncol)]
    if c.chance(30):
        for col in table:
            order = sorted(range(nrow), key=lambda i: (number(col[i]) is None, col[i]))
            if c.flag():
                order.reverse()
            col[:] = [col[i] for i in order]
    names = ["c%d" % j for j in range(ncol)]
    nulls = {c.pick(NULLS) for _ in range(c.size(5))}
    capture = {j for j in range(ncol + 1) if c.flag()}
    limit = c.pick([1000, 0, 1, 2, 3, 5, 10])
    bad_rows = c.chance(20)
    lines, good = [], []
    for i in range(nrow):
        if bad_rows and i and c.chance(20):
            lines.append("x" + ",x" * ncol)
        lines.append(",".join(quote(table[j][i]) for j in range(ncol)))
    runs = []
    for _ in range(1 + c.draw(2)):
        bs = 1 + c.size(nrow + 3)
        last = c.pick([mlio.LastExampleHandling.NONE, mlio.LastExampleHandling.PAD,
                       mlio.LastExampleHandling.DROP])
        runs.append((bs, last, c.draw(4)))
    c.desc("table %r" % (table,))
    c.desc("nulls %r capture %r limit %d runs %r bad %r" % (nulls, capture, limit, runs, bad_rows))
    nstore = 1 + c.size(2)
    cuts = sorted(c.draw(len(lines) + 1) for _ in range(nstore - 1))
    cuts = [0] + cuts + [len(lines)]
    seen = []
    for bs, last, pre in runs:
        stores = [mlio.InMemoryStore(("\n".join(lines[a:b])).encode()) for a, b in zip(cuts, cuts[1:])]
        p = mlio.DataReaderParams(dataset=stores, batch_size=bs, num_prefetched_examples=pre,
                                  last_example_handling=last)
        if bad_rows:
            p.bad_example_handling = mlio.BadExampleHandling.PAD
        r = mlio.CsvReader(p, mlio.CsvParams(column_names=names, header_row_index=None,
                                             default_data_type=mlio.DataType.STRING))
        rows = nrow
        if last == mlio.LastExampleHandling.DROP:
            if bad_rows:
                continue
            rows = nrow - nrow % bs
        for _ in range(1 + c.chance(20)):
            if rows == 0:
                try:
                    analyze_dataset(r, nulls, capture, limit)
                    ensure(False, "analyzing an empty dataset does not raise StopIteration")
                except StopIteration:
                    pass
                break
            a = analyze_dataset(r, nulls, capture, limit)
            ensure(len(a.columns) == ncol, "%s columns instead of %s", len(a.columns), ncol)
            dicts = []
            for j, col in enumerate(a.columns):
                ensure(col.column_name == names[j], "column %s is named %s", j, col.column_name)
                dicts.append(compare(col, table[j][:rows], nulls, j in capture, limit))
            if rows == nrow:
                seen.append([result_of(d) for d in dicts])
            r.reset()
    ensure(all(s == seen[0] for s in seen), "the statistics depend on the batches: %s", seen)
    c.nontrivial(nrow > 1 and any(b[0] < nrow for b in runs))
    c.tag("bad", bad_rows)
    c.tag("several-batches", any(b[0] < nrow for b in runs))
    c.tag("padded", any(b[1] == mlio.LastExampleHandling.PAD and nrow % b[0] for b in runs))
    c.tag("overflow", any(len(set(t)) > limit for j, t in enumerate(table) if j in capture))
    c.tag("null-like", bool(nulls))


@test("C28", "lines", 8)
def lines(c):
    """The lines of a text dataset are a column as well."""
    n = 1 + c.size(30)
    cells = [gen_cell(c, True) for _ in range(n)]
    bs = 1 + c.size(n + 2)
    c.desc("lines %r batch size %d" % (cells, bs))
    r = mlio.TextLineReader(mlio.DataReaderParams(
        dataset=[mlio.InMemoryStore("".join(x + "\n" for x in cells).encode())], batch_size=bs,
        num_prefetched_examples=c.draw(3)))
    a = analyze_dataset(r, {"null"}, {0}, 5)
    ensure(len(a.columns) == 1, "%s columns", len(a.columns))
    col = a.columns[0]
    d = compare(col, cells, {"null"}, True, 5)
    ensure(int(d["string_cardinality"]) == col.estimate_string_cardinality(), "to_dict(): string_cardinality")
    ensure(int(d["string_vocab_cardinality"]) == col.estimate_string_vocab_cardinality(),
           "to_dict(): string_vocab_cardinality")
    c.nontrivial(n > bs)


@test("C28", "cardinality", 1)
def cardinality(c):
    """Large numbers of distinct values and words."""
    n = c.pick([50, 200, 1000, 5000, 5000, 20000, 60000])
    n += c.draw(n)
    per = 1 + c.draw(3)
    salt = c.draw(1 << 30)
    repeat = c.flag()
    c.desc("%d distinct values of %d words, salt %d" % (n, per, salt))
    rows = [" ".join("%x" % ((i * per + k) * 2654435761 + salt) for k in range(per)) for i in range(n)]
    text = "\n".join(rows) + "\n"
    if repeat:
        text += text
    r = mlio.CsvReader(mlio.DataReaderParams(dataset=[mlio.InMemoryStore(text.encode())], batch_size=5000),
                       mlio.CsvParams(header_row_index=None, default_data_type=mlio.DataType.STRING))
    col = analyze_dataset(r, set(), set()).columns[0]
    for what, got, want in (("string", col.estimate_string_cardinality(), n),
                            ("vocab", col.estimate_string_vocab_cardinality(), n * per)):
        tol = card_tolerance(want)
        ensure(abs(got - want) <= tol, "%s cardinality is %s instead of about %s", what, got, want)
    ensure(col.rows_seen == n * (1 + repeat), "rows_seen is %s", col.rows_seen)
    c.nontrivial()
    c.tag("n%d" % n.bit_length())


@test("C28", "errors", 8)
def errors(c):
    """Errors of the reader and unsupported columns are raised, warnings do not block."""
    n = c.range(1, 30)
    bs = 1 + c.draw(4)
    k = c.draw(3)
    c.desc("kind %d rows %d batch size %d" % (k, n, bs))
    at = c.draw(n)
    if k == 0:
        at, n = at + 1, n + 1
        rows = ["a,b"] * n
        rows[at] = "a,b,c"
        kw = {}
    elif k == 1:
        rows = ["a,1"] * n
        kw = {"column_types_by_index": {1: mlio.DataType.INT32}}
    else:
        rows = ["a,b"] * n
        for _ in range(1 + c.draw(n)):
            rows.insert(1 + c.draw(len(rows)), "a,b,c")
        kw = {}
    p = mlio.DataReaderParams(dataset=[mlio.InMemoryStore("\n".join(rows).encode())], batch_size=bs,
                              num_prefetched_examples=c.draw(4))
    logged = []
    if k == 2:
        p.bad_example_handling = mlio.BadExampleHandling.PAD_WARN
        p.warn_bad_instances = True
        handler = logging.Handler()
        handler.emit = logged.append
        logging.getLogger("mlio").addHandler(handler)
    r = mlio.CsvReader(p, mlio.CsvParams(header_row_index=None, column_names=["p", "q"],
                                         default_data_type=mlio.DataType.STRING, **kw))
    try:
        a = analyze_dataset(r, set(), set())
        ensure(k == 2, "no error was raised")
        ensure(a.columns[0].rows_seen == n, "rows_seen is %s instead of %s", a.columns[0].rows_seen, n)
    except mlio.DataReaderError:
        ensure(k == 0, "unexpected DataReaderError")
    except RuntimeError:
        ensure(k == 1, "unexpected RuntimeError")
    finally:
        del r
        if k == 2:
            logging.getLogger("mlio").removeHandler(handler)
    ensure(k != 2 or len(logged) >= len(rows) - n, "only %s warnings were logged", len(logged))
    c.nontrivial(n > bs)
    c.tag("kind%d" % k)
