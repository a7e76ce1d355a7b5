"""C36: the messages of the library in the Python logger."""
import logging
import os
import shutil
import tempfile

import mlio

from pbt import ensure, test

LEVELS = [(mlio.LogLevel.OFF, None), (mlio.LogLevel.WARNING, logging.WARNING),
          (mlio.LogLevel.INFO, logging.INFO), (mlio.LogLevel.DEBUG, logging.DEBUG)]
LOG = []


class Collect(logging.Handler):
    def emit(self, record):
        LOG.append((record.levelno, record.name, record.getMessage()))


class Broken(logging.Handler):
    def __init__(self, error):
        super().__init__()
        self.error = error

    def emit(self, record):
        raise self.error


LOGGER = logging.getLogger("mlio")
LOGGER.addHandler(Collect())
LOGGER.propagate = False
PARTS = ["{", "}", "{0}", "%s", "%(a)s", "%", "\\", "'", "#", "a", "\u00e9", "\U0001f600", "$1", "<"]


def wild(c, n):
    return "w" + "".join(c.pick(PARTS) for _ in range(c.draw(n))) + "w"


@test("C36", "python_logger")
def python_logger(c):
    """A history of levels, broken handlers and things to report."""
    top = tempfile.mkdtemp(prefix="logs-", dir=os.getcwd())
    broken = []
    try:
        level = logging.WARNING
        mlio.set_log_level(mlio.LogLevel.WARNING)
        reported = 0
        for i in range(1 + c.size(12)):
            LOG.clear()
            want = []
            what = c.weighted(4, 2, 3, 3, 3)
            if what == 0:
                lvl, level = c.pick(LEVELS)
                c.desc("level %s" % lvl)
                mlio.set_log_level(lvl)
            elif what == 1:
                if broken and c.flag():
                    c.desc("handler removed")
                    LOGGER.removeHandler(broken.pop())
                else:
                    c.desc("broken handler")
                    broken.append(Broken(c.pick([ValueError("x"), KeyboardInterrupt(), SystemExit(3)])))
                    LOGGER.addHandler(broken[-1])
            elif what == 2:
                path = os.path.join(top, wild(c, 4))
                c.desc("open %r" % path)
                with open(path, "w") as f:
                    f.write("x")
                s = mlio.File(path, memory_map=c.flag()).open_read()
                ensure(bytes(s.read(9)) == b"x", "another content")
                want.append((logging.INFO, "The file '%s' is being opened." % path))
            elif what == 3:
                c.desc("open memory")
                s = mlio.InMemoryStore(b"x")
                ensure(bytes(s.open_read().read(9)) == b"x", "another content")
                want.append((logging.INFO, "The in-memory store '%s' is being opened." % s.id))
            else:
                n = 1 + c.draw(4)
                column, value = wild(c, 3), wild(c, 4)
                s = mlio.InMemoryStore(("%s\n1\n" % column + ("%s\n2\n" % value) * n).encode())
                c.desc("read %d bad rows with %r in %r" % (n, value, column))
                error = c.chance(20)
                how = mlio.BadExampleHandling
                r = mlio.CsvReader(
                    mlio.DataReaderParams(dataset=[s], batch_size=1, warn_bad_instances=True,
                                          num_prefetched_examples=1 + c.draw(3),
                                          bad_example_handling=how.ERROR if error else how.SKIP_WARN),
                    mlio.CsvParams(default_data_type=mlio.DataType.INT32))
                try:
                    got = sum(1 for _ in r)
                    ensure(not error and got == n + 1, "%s examples are read", got)
                except mlio.MLIOError as e:
                    ensure(error, "reading fails with %s", e)
                    ensure("'%s'" % value in str(e) and "'%s'" % column in str(e), "the error is %s", str(e))
                del r
                want.append((logging.INFO, "The in-memory store '%s' is being opened." % s.id))
                for k in range(n):
                    want.append((logging.WARNING, "The column '%s' of the row #%d in the data store '%s' cannot be "
                                 "parsed as int32. Its string value is '%s'." % (column, 2 * k + 1, s.id, value)))
                    if not error:
                        want.append((logging.WARNING, "The example #%d " % (2 * k + 1)))
                if error:
                    # How far it was read ahead depends on the schedule.
                    for lvl, name, msg in LOG:
                        ensure(level is not None and lvl >= level and (lvl, msg) in want,
                               "an unexpected message %s", msg)
                    continue
            want = [w for w in want if level is not None and w[0] >= level]
            got = list(LOG)
            ensure(len(got) == len(want), "%s messages instead of %s: %s", len(got), len(want), got)
            for lvl, name, msg in got:
                ensure(name == "mlio", "the logger is %s", name)
                hit = [w for w in want if w[0] == lvl and (w[1] == msg or (w[1].startswith("The example") and
                                                                           msg.startswith(w[1])))]
                ensure(hit, "an unexpected message %s %s", lvl, msg)
                want.remove(hit[0])
                reported += 1
        c.nontrivial(reported > 1)
        c.tag("broken handlers", bool(broken))
    finally:
        for b in broken:
            LOGGER.removeHandler(b)
        mlio.set_log_level(mlio.LogLevel.WARNING)
        shutil.rmtree(top)
