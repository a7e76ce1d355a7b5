"""What each property's check consists of, and how its parts are run."""
import json
import os
import subprocess

import build

VERIF = build.VERIF
JOBS = int(os.environ.get("MLIO_VERIF_JOBS", str(os.cpu_count() or 4)))


def cpp(quick=24, thorough=300, variant="asan", **kw):
    d = {"kind": "cpp", "variant": variant, "seconds": (quick, thorough)}
    d.update(kw)
    return d


def py(quick=24, thorough=300, **kw):
    d = {"kind": "py", "seconds": (quick, thorough)}
    d.update(kw)
    return d


CHECKS = {
    "C01": {
        "parts": [cpp()],
        "rule": 'non-trivial: more than one row, and a quoted field, noise between rows or several stores',
        "note": 'Generated tables and CSV dialects are written by our own CSV writer and read back; oracle: the fields that were written. Excluded: quotes in the middle of unquoted fields, invalid UTF-8, a byte order mark as the first unquoted character.',
    },
    "C13": {
        "parts": [cpp()],
        "rule": "non-trivial: the compressed data has more than one member, is damaged, or is "
                "larger than the inflate buffer or the reads",
        "note": "Generated contents, levels, member splits, buffer and read sizes, truncations and "
                "damage, compared with the original bytes; zlib itself is trusted to deflate.",
    },
    "C17": {
        "parts": [cpp()],
        "rule": 'non-trivial: more than two lines with special line ends or several stores',
        "note": 'Generated texts; oracle: our own line splitter.',
    },
    "C03": {
        "parts": [cpp()],
        "rule": 'non-trivial: more instances than the batch size and an incomplete last batch',
        "note": 'Numbered datasets in six formats; oracle: the numbers of the instances, batch by batch.',
    },
    "C04": {
        "parts": [cpp()],
        "rule": 'non-trivial: some but not all instances are bad',
        "note": 'Numbered datasets with flawed instances (CSV, RecordIO-protobuf, images); oracle: which batches fail, disappear or are padded, and that padding is zero.',
    },
    "C05": {
        "parts": [cpp()],
        "rule": 'non-trivial: instances are selected and skip, limit, shard or sample leaves some out (fixed laws: every case)',
        "note": 'Numbered datasets; oracle: the documented selection, plus partition laws over the shards. Sampling is checked to keep within one of ratio*100 of each block of 100, in order.',
    },
    "C06": {
        "parts": [cpp()],
        "rule": 'non-trivial: at least 3 instances, a window other than 1, and more than one epoch',
        "note": 'Numbered datasets; oracle: permutation, displacement bounded by the window, equal for equal seeds, reshuffled or not per epoch.',
    },
    "C07": {
        "parts": [cpp()],
        "rule": 'non-trivial: a history with resets and peeks over more than one example',
        "note": 'Random histories of peek, read, read_schema and reset against a model of the epoch.',
    },
    "C30": {
        "parts": [cpp()],
        "rule": 'non-trivial: more instances than the batch size',
        "note": 'Numbered datasets; oracle: payload bytes of the delivered instances.',
    },
    "C31": {
        "parts": [cpp()],
        "rule": 'non-trivial: a bad instance that is to be reported, or fields that are truncated in more than one row',
        "note": 'Numbered datasets with bad instances in every format, under every handling; the log and the error are compared with the list of warnings that follows from the position of the bad instances.',
    },
    "C32": {
        "parts": [cpp()],
        "rule": 'non-trivial: a fault was hit (or can be) with more than one batch or file',
        "note": 'Numbered datasets in stores that fail when opened or after some bytes, and in files whose system calls fail; oracle: a prefix of the fault-free examples, then an error, and all of them after a reset.',
    },
    "C33": {
        "parts": [cpp()],
        "rule": 'non-trivial: more than one byte, object, instance or client, a valid URI, or an injected error',
        "note": 'The S3 client of the library compiled with a stand-in for the AWS SDK whose service lives in memory: models of objects, versions, pages, ranges and errors.',
    },
    "C34": {
        "parts": [cpp()],
        "rule": 'non-trivial: more than four pointer operations, more than one tracked object, or a reader that is used',
        "note": 'Sequences of pointer operations against a counting model, the library\'s objects built upon objects that record their destruction, and reader histories with tracked stores, streams, blocks, files and memory.',
    },
    "C35": {
        "parts": [cpp()],
        "rule": 'non-trivial: more instances than the reader may have in hand, or more data than it may hold',
        "note": 'A reader of our own on Parallel_data_reader that counts what it is asked for, stopped at any point of random histories, against bounds that follow from the parameters; and the library\'s readers over long streams with the heap in view.',
    },
    "C36": {
        "parts": [cpp(quick=18, thorough=200), py(quick=8, thorough=100)],
        "rule": 'non-trivial: histories in which several messages are reported, datasets with messages about bad instances',
        "note": 'Histories of levels, handlers (also ones that throw), stores that are opened and bad data that is read, against a model of the messages; and readers that are run again at another level or with another handler.',
    },
    "C38": {
        "parts": [cpp()],
        "rule": 'non-trivial: at least one allocation failed',
        "note": 'Readers of datasets in all formats, with allocations (operator new and the memory allocator of the library, in any thread) that fail once, some times or until the end from a drawn place on.',
    },
    "C37": {
        "parts": [cpp(quick=20, thorough=220), py(quick=9, thorough=80)],
        "rule": 'non-trivial: the larger dataset takes at least 20 ms of processor time',
        "note": 'Datasets that are grown by a factor of sixteen in one of their dimensions (rows, columns, lengths, messages, keys, parts, stores, ...); the effort (processor time, bytes and number of allocations, reads of the stores) must not grow much faster.',
    },
    "C02": {
        "parts": [cpp()],
        "rule": 'non-trivial: more than 8 bytes of data and at least one example',
        "note": 'Differential: the same bytes (valid, damaged or arbitrary) through two deliveries, buffer sizes, parallelism settings and store kinds must give the same examples; when both fail only the common prefix is compared, as which of several errors comes first depends on the schedule.',
    },
    "C08": {
        "parts": [cpp()],
        "rule": 'non-trivial: some decode or read delays over several batches and prefetching, or several readers',
        "note": "A reader of our own on Parallel_data_reader with scripted delays and failures, several readers in turns, and the library's readers in threads; the schedule is perturbed, not controlled. A case that blocks for 45 s is a violation.",
    },
    "C09": {
        "parts": [cpp()],
        "rule": "the text is a number of the type's grammar with more than one character (columns: some rows are accepted and some are not)",
        "note": 'Generated integer and float spellings, at and around the limits of every type and half-way between floats, valid or spoilt; oracle: our own grammars with 128-bit arithmetic and the C library\'s correctly rounded strtof/strtod. Whether "-0" is an unsigned integer is left open.',
    },
    "C10": {
        "parts": [cpp()],
        "rule": 'several columns and duplicates, rejection, selection or overrides; some but not all rows too long; more than one line',
        "note": 'Generated headers, selections, overrides and limits; oracle: the documented rules. Left open: renamed names that meet other names (only uniqueness is checked), selection by name of duplicates, the prefix together with explicit names.',
    },
    "C11": {
        "parts": [cpp()],
        "rule": 'several payloads of which some are split; several records; some records before the damage',
        "note": 'Payloads with embedded magic numbers and records, split at random points; legal and illegal sequences of record kinds; cuts and damaged magic numbers. Oracle: the payloads written and an automaton of the record kinds. Damaged lengths are not part of the property, nor split records that go on in the next data store.',
    },
    "C12": {
        "parts": [cpp()],
        "rule": 'several messages, not all bad, with several features or some bad messages',
        "note": 'Generated layouts and messages (packed or not, in any order, split or not), some of which do not match; oracle: our own model of the schema rules, values compared bit by bit. Sparse features without a shape are generated in the first message only; dense shapes are limited to 10000 elements.',
    },
    "C14": {
        "parts": [cpp()],
        "rule": 'text whose encoded bytes are not already the expected UTF-8, longer than one character or row; every invalid text',
        "note": 'Texts of every plane in UTF-8/16/32 (both byte orders, with and without a byte order mark), Latin-1 and named encodings, through streams with short reads, seekable or not, and tiny conversion buffers; oracle: our own encoders, and a one-shot iconv for named encodings. Texts that begin with U+FEFF or NUL are not generated, UTF-8 input is not validated.',
    },
    "C15": {
        "parts": [cpp()],
        "rule": 'data of more than one byte and more than one call in the history',
        "note": 'Generated histories of read, seek, size, close and zero-copy reads over every kind of stream; oracle: a byte string with a position. Slices returned earlier are compared again at the end.',
    },
    "C16": {
        "parts": [cpp()],
        "rule": 'several files of which one contains the magic bytes inside of its body; every damaged dataset',
        "note": 'Synthetic Parquet files (magic, body, footer length, magic) concatenated; oracle: the list of files. Bodies that cannot be told from a whole framed file are not generated.',
    },
    "C18": {
        "parts": [cpp()],
        "rule": 'tensors of rank > 1 that need more than one element, sparse tensors with elements',
        "note": 'Shapes, strides and data of every type at, around and far from the limit, among them values that overflow; oracle: the reach of the shape and strides computed in 128 bits. Index values of sparse tensors are not checked by the constructor and not generated out of range.',
    },
    "C19": {
        "parts": [cpp()],
        "rule": 'several exports or owners held at a time and released in a random order; every refused export',
        "note": 'Histories of export, copy, read and release of DLPack tensors; oracle: a reference count model, with the memory block of the tensor instrumented, and the contents of the tensor.',
    },
    "C23": {
        "parts": [cpp()],
        "rule": 'histories of more than three calls with at least one resize, mapped files and released blocks of more than a byte',
        "note": 'Histories of allocate, resize, write, slice and release over every kind of block, with sizes around a generated threshold and impossible sizes; oracle: byte strings, the mappings of the process and the temporary files it created.',
    },
    "C21": {
        "parts": [cpp()],
        "rule": 'trees with more than two files below the listed paths, every missing path',
        "note": 'Generated directory trees with links (also cyclic), broken links, FIFOs and sockets, listed from several paths with patterns and predicates, also as a user who may not read all of it; oracle: our own model of the tree, natural order and pattern matching. Names with spaces, with leading zeros of different lengths or with bytes beyond ASCII are not generated.',
    },
    "C22": {
        "parts": [cpp()],
        "rule": 'histories with several openings, pairs of stores with the same identifier, every refused store',
        "note": 'Interleaved and concurrent openings of files (mapped or not) and memory stores, plain or gzip of several members; oracle: the content written.',
    },
    "C24": {
        "parts": [cpp()],
        "rule": 'histories with several openings, readers with several epochs, channels of several threads, every timeout',
        "note": 'Real FIFOs in a scratch directory with writers that write pieces of generated sizes with pauses, before or after the channel is opened, and FIFOs that appear late; oracle: the content written and a model of the FIFO numbers. Pauses of the library of a second or more are replaced by a callback of the harness.',
    },
    "C20": {
        "parts": [cpp()],
        "rule": 'unequal or multi-dimensional attributes, schemas of several attributes, examples with a wrong number of features or several features',
        "note": 'Pairs of attributes and schemas from small domains, so that equal and almost equal ones are common; oracle: our own structures compared field by field. For readers, every delivered example is compared with its schema.',
    },
    "C26": {
        "parts": [cpp()],
        "rule": 'several images or a resize, with at least one image that decodes',
        "note": 'PGM, PPM and PNG images (grey, RGB, RGBA) written by our own encoders, in files and RecordIO frames, mixed with images that are bad; oracle: our own decoding, crop and channel order, and the resizing of OpenCV. The weights of colour to grey conversion are those of OpenCV.',
    },
    "C25": {
        "parts": [cpp()],
        "rule": 'at least 9 bytes of input from which at least one example or one documented failure came',
        "note": 'Structured CSV, text, RecordIO-protobuf, image, Parquet and gzip input, damaged by up to 20 edits (bit flips, special sequences, truncation, duplication), read by every reader with arbitrary parameters (counts up to 2^64-1, all error modes) and by the record readers alone, several epochs, calls after failures; the address and undefined-behaviour sanitizers, a hang limit and the list of documented failures are the oracle. Allocations above 16 MiB are refused: failing for lack of memory is accepted only when data claims such sizes.',
    },
}

CHECKS["C28"] = {
    "parts": [py()],
    "rule": "more than one row and several batches",
    "technique": "property-based testing of the Python module: generated CSV datasets against a "
                 "reference analysis, with shrinking",
    "note": "Generated CSV columns (numbers in many spellings, words, missing values, quotes) read in "
            "batches of every size and analysed; oracle: our own column statistics, exact where the "
            "property is exact, 10 % for the cardinality estimate. Left open: word counts with several "
            "spaces (bounds), integers written as 5.0 or 1e3, infinities, lengths in bytes or "
            "characters beyond ASCII.",
}

CHECKS["C29"] = {
    "parts": [py()],
    "rule": "more than one example delivered (or one before a failure), more than two parameters given, "
            "several stores, records, files or threads",
    "technique": "property-based testing of the Python module: differential against a C++ program with "
                 "the same settings, and models of the Python API, with shrinking",
    "note": "Generated datasets of every format with generated settings (passed to the constructor, by "
            "position or assigned) and histories are run through the Python classes and, as commands, "
            "through a C++ program in the same process; examples, schemas, errors with their causes, "
            "byte counts and log messages must agree. Stores, predicates, streams, schemas and records "
            "are compared with models, readers in several threads with the C++ program. After an "
            "interrupted epoch a reshuffled order is not compared, with prefetching neither which "
            "of several errors comes first. Streams written in Python are a known finding.",
}

CHECKS["C27"] = {
    "parts": [py()],
    "rule": "several elements, or a conversion that is refused",
    "technique": "property-based testing of the Python module: generated arrays and histories of "
                 "views against NumPy, with shrinking",
    "note": "Generated arrays of every type, rank, layout and byte order into tensors and back (NumPy, "
            "pandas, COO, DLPack, buffer protocol), histories of views whose owners are dropped in "
            "any order, memory slices; oracle: NumPy's own values, bit for bit, and the address "
            "sanitizer. A stand-in replaces scipy, which is not installed. Negative strides and "
            "swapped byte orders may be refused.",
}

NOT_APPLICABLE = {}


def build_part(part, prop):
    if part["kind"] == "cpp":
        return build.build_harness(part["variant"], prop)
    if part["kind"] == "py":
        return build.build_py()
    raise build.BuildError("unknown part " + part["kind"])


def run_part(part, prop, tier, seed, seconds, work, replay, known):
    if part["kind"] == "cpp":
        return run_cpp(part, prop, tier, seed, seconds, work, replay, known)
    if part["kind"] == "py":
        return run_py(part, prop, tier, seed, seconds, work, replay, known)
    raise build.BuildError("unknown part " + part["kind"])


def run_cpp(part, prop, tier, seed, seconds, work, replay, known):
    exe = build_part(part, prop)
    out = os.path.join(work, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    cmd = [exe, "--prop", prop, "--tier", tier, "--seed", str(seed), "--seconds", str(seconds),
           "--jobs", str(part.get("jobs", JOBS)), "--out", out, "--work", work,
           "--replay-out", replay, "--hang", str(part.get("hang", 45)),
           "--shrink", os.environ.get("MLIO_VERIF_SHRINK", "40")]
    for k in known:
        cmd += ["--known", k]
    p = subprocess.run(cmd, cwd=work)
    if not os.path.exists(out):
        raise build.BuildError("the harness ended without a result (%d)" % p.returncode)
    with open(out, encoding="utf-8") as f:
        return json.load(f)


def py_env(pkg):
    """The interpreter is not instrumented, so the sanitizer has to be loaded first."""
    def lib(name):
        return subprocess.check_output(["gcc", "-print-file-name=" + name], text=True).strip()
    env = dict(os.environ)
    env.update({
        "LD_PRELOAD": lib("libasan.so") + " " + lib("libstdc++.so.6"),
        "ASAN_OPTIONS": "detect_leaks=0:handle_segv=1:allocator_may_return_null=1",
        "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
        "PYTHONMALLOC": "malloc",
        "PYTHONDONTWRITEBYTECODE": "1",
        "PYTHONHASHSEED": "0",
        "OPENBLAS_NUM_THREADS": "1",
        "OMP_NUM_THREADS": "1",
        "PYTHONPATH": pkg,
        "MLIO_VERIF_PY": os.path.dirname(pkg),
    })
    return env


def py_cmd(*args):
    return ["/usr/bin/python3", "-W", "ignore", os.path.join(VERIF, "pyharness", "main.py")] + list(args)


def run_py(part, prop, tier, seed, seconds, work, replay, known):
    pkg = build.build_py()
    out = os.path.join(work, "result.json")
    if os.path.exists(out):
        os.unlink(out)
    p = subprocess.run(py_cmd("check", prop, str(seed), str(seconds), str(part.get("jobs", JOBS)),
                              work, out, replay, ",".join(known)), cwd=work, env=py_env(pkg))
    if not os.path.exists(out):
        raise build.BuildError("the harness ended without a result (%d)" % p.returncode)
    with open(out, encoding="utf-8") as f:
        return json.load(f)


def replay(rep, work):
    prop = rep["property"]
    if rep.get("part", "cpp") == "cpp":
        exe = build.build_harness("asan", prop)
        ch = os.path.join(work, "choices")
        with open(ch, "w", encoding="utf-8") as f:
            f.write(" ".join(str(x) for x in rep["choices"]))
        return subprocess.run([exe, "--prop", prop, "--replay", rep["test"], "--choices", ch,
                               "--work", work], cwd=work).returncode
    if rep["part"] == "py":
        pkg = build.build_py()
        path = os.path.join(work, "replay.json")
        with open(path, "w", encoding="utf-8") as f:
            json.dump(rep, f)
        return subprocess.run(py_cmd("replay", path, work), cwd=work, env=py_env(pkg)).returncode
    raise build.BuildError("unknown replay file")
