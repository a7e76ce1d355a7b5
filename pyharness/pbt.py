"""A small property-based testing engine for the Python package.

A case draws all of its random choices from a Case. The choices of a failing case are
shrunk and written to a replay file. The cases run in forked workers, so that crashes
(AddressSanitizer), deadlocks and memory growth end up as failures of a single case.
"""
import hashlib
import json
import mmap
import os
import pickle
import random
import resource
import signal
import struct
import sys
import time
import traceback

TESTS = {}
HANG_SECONDS = 45
MAX_RSS = 1500 << 20
MEMORY_LIMIT = 3000 << 20
KILLED = "the case was ended as it took too much memory, or from outside"


class Fail(Exception):
    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


class Discard(Exception):
    pass


def test(prop, name, weight=1):
    def deco(f):
        TESTS.setdefault(prop, {})[name] = (f, weight)
        return f
    return deco


def ensure(cond, msg, *args, key=None):
    if not cond:
        raise Fail(msg % tuple(repr(a)[:300] for a in args) if args else msg, key)


class Case:
    """Choices come from a given sequence first, then from a generator (if any)."""

    def __init__(self, prefix, seed, log=None):
        self.prefix = prefix
        self.rng = random.Random(seed) if seed is not None else None
        self.choices = []
        self.interesting = False
        self.descs = []
        self.tags = []
        self.log = log

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest one."""
        i = len(self.choices)
        if i < len(self.prefix):
            v = self.prefix[i] % n
        elif self.rng is not None:
            v = self.rng.randrange(n)
        else:
            v = 0
        self.choices.append(v)
        if self.log is not None:
            os.write(self.log, b"%d\n" % v)
        return v

    def range(self, a, b):
        return a + self.draw(b - a + 1)

    def chance(self, p, q=100):
        """True with a probability of p/q; the simplest choice is False."""
        return self.draw(q) >= q - p

    def flag(self):
        return self.draw(2) == 1

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def weighted(self, *ws):
        v = self.draw(sum(ws))
        for i, w in enumerate(ws):
            if v < w:
                return i
            v -= w
        raise AssertionError

    def size(self, n):
        """A number in [0, n], mostly small."""
        k = self.draw(4)
        return self.draw(min(n, (2, 6, 20, n)[k]) + 1)

    def bytes(self, n):
        return bytes(self.draw(256) for _ in range(n))

    def desc(self, text):
        if len(self.descs) < 12:
            self.descs.append(str(text)[:400])

    def nontrivial(self, cond=True):
        self.interesting = self.interesting or bool(cond)

    def tag(self, name, cond=True):
        if cond:
            self.tags.append(name)

    def discard(self):
        raise Discard()


def run_case(prop, name, prefix, seed, known, log=None):
    """Returns (status, message, case); status: ok, discard, known or fail."""
    case = Case(prefix, seed, log)
    try:
        TESTS[prop][name][0](case)
        return "ok", "", case
    except Discard:
        return "discard", "", case
    except Fail as e:
        if e.key is not None and e.key in known:
            return "known", str(e), case
        return "fail", str(e), case
    except Exception as e:  # An error the test did not expect.
        tb = traceback.extract_tb(e.__traceback__)
        at = " < ".join("%s:%d" % (os.path.basename(f.filename), f.lineno) for f in reversed(tb[-4:]))
        return "fail", "unexpected %s: %s (at %s)" % (type(e).__name__, str(e)[:500], at), case


def takes_too_much(pid):
    """Whether the process takes more memory than any case should need."""
    try:
        with open("/proc/%d/statm" % pid) as f:
            _, resident, common = f.read().split()[:3]
    except OSError:
        return False
    return (int(resident) - int(common)) * resource.getpagesize() > MEMORY_LIMIT


def forked(prop, name, prefix, seed, known, work, want_log=False, timeout=HANG_SECONDS):
    """Runs one case in a child; returns (status, message, choices)."""
    out = os.path.join(work, "fork-%d" % os.getpid())
    log = out + ".choices"
    for p in (out, log):
        if os.path.exists(p):
            os.unlink(p)
    pid = os.fork()
    if pid == 0:
        try:
            redirect(out + ".log")
            fd = os.open(log, os.O_CREAT | os.O_WRONLY | os.O_APPEND, 0o600) if want_log else None
            st, msg, case = run_case(prop, name, prefix, seed, known, fd)
            with open(out + ".tmp", "wb") as f:
                pickle.dump((st, msg, case.choices, case.descs), f)
            os.rename(out + ".tmp", out)
        finally:
            os._exit(0)
    end = time.time() + timeout
    hang = False
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() > end:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            hang = True
            break
        if takes_too_much(pid):
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return "fail", "the case takes more than %d bytes of memory" % MEMORY_LIMIT, list(prefix), []
        time.sleep(0.002)
    try:
        with open(out, "rb") as f:
            res = pickle.load(f)
        if not hang and os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0:
            return res
    except FileNotFoundError:
        pass
    choices = list(prefix)
    if want_log:
        with open(log, "rb") as f:
            choices = [int(x) for x in f.read().split()]
    if hang:
        return "fail", "the case did not end within %d s" % timeout, choices, []
    return "fail", crash_text(out + ".log", status), choices, []


def crash_text(logfile, status):
    try:
        with open(logfile, "rb") as f:
            f.seek(0, 2)
            n = f.tell()
            f.seek(max(0, n - 60000))
            text = f.read().decode("utf-8", "replace")
    except OSError:
        text = ""
    what = "exit status %d" % status
    for line in text.splitlines():
        if "ERROR: AddressSanitizer" in line or "runtime error:" in line or "terminate called" in line \
                or line.startswith("  what()"):
            what += "; " + line.strip()[:300]
            if len(what) > 700:
                break
    frames = [ln.strip() for ln in text.splitlines() if ln.strip().startswith("#") and "mlio" in ln][:6]
    return "the process died: %s %s" % (what, " | ".join(f[:160] for f in frames))


def redirect(path):
    fd = os.open(path, os.O_CREAT | os.O_WRONLY | os.O_TRUNC, 0o600)
    os.dup2(fd, 1)
    os.dup2(fd, 2)
    os.close(fd)


def worker(prop, k, seed, deadline, known, work, shared):
    """Runs cases until the deadline; leaves its results in a file."""
    redirect(os.path.join(work, "worker-%d.log" % k))
    rng = random.Random(seed)
    names = sorted(TESTS[prop])
    weights = [TESTS[prop][n][1] for n in names]
    res = {"cases": 0, "discards": 0, "known": 0, "hashes": set(), "samples": [], "tests": {}, "tags": {}}
    corpus = []
    seen = set()
    fail = None
    n = 0
    while time.time() < deadline:
        n += 1
        if n % 64 == 0 and resource.getrusage(resource.RUSAGE_SELF).ru_maxrss * 1024 > MAX_RSS:
            break
        name = rng.choices(names, weights)[0]
        prefix = []
        if corpus and rng.random() < 0.35:
            name, base = rng.choice(corpus)
            prefix = list(base)
            for _ in range(rng.choice((1, 1, 2, 4))):
                if prefix:
                    op = rng.random()
                    i = rng.randrange(len(prefix))
                    if op < 0.6:
                        prefix[i] = rng.randrange(1 << rng.choice((1, 3, 7, 16)))
                    elif op < 0.8:
                        del prefix[i:]
                    else:
                        prefix.insert(i, prefix[i])
        cseed = rng.getrandbits(48)
        blob = pickle.dumps((name, prefix, cseed))
        if len(blob) > len(shared) - 32:
            continue
        shared[16:24] = struct.pack("d", 0.0)
        shared[32:32 + len(blob)] = blob
        shared[24:32] = struct.pack("q", len(blob))
        shared[16:24] = struct.pack("d", time.time())
        st, msg, case = run_case(prop, name, prefix, cseed, known)
        shared[16:24] = struct.pack("d", 0.0)
        res["cases"] += 1
        t = res["tests"].setdefault(name, {"cases": 0, "nontrivial": 0, "discards": 0})
        t["cases"] += 1
        if st == "discard":
            res["discards"] += 1
            t["discards"] += 1
            continue
        if st == "known":
            res["known"] += 1
            continue
        if st == "fail":
            fail = (name, case.choices, msg)
            break
        for g in set(case.tags):
            res["tags"][name + "/" + g] = res["tags"].get(name + "/" + g, 0) + 1
        if case.interesting:
            t["nontrivial"] += 1
            h = hashlib.blake2b(pickle.dumps((name, case.choices)), digest_size=8).digest()
            if h not in res["hashes"]:
                res["hashes"].add(h)
                if len(res["samples"]) < 6 or rng.random() < 0.002:
                    smp = {"test": name, "case": "; ".join(case.descs)[:800]}
                    if len(res["samples"]) < 6:
                        res["samples"].append(smp)
                    else:
                        res["samples"][rng.randrange(6)] = smp
        key = (name, tuple(sorted(set(case.tags))), len(case.choices).bit_length())
        if key not in seen and len(corpus) < 2000:
            seen.add(key)
            corpus.append((name, case.choices))
    with open(os.path.join(work, "worker-%d-%d.res" % (k, seed)), "wb") as f:
        pickle.dump((res, fail), f)


def shrink(prop, name, choices, msg, known, work, budget):
    """Looks for a shorter and simpler sequence of choices that fails as well."""
    end = time.time() + budget
    best, bmsg, bdesc = list(choices), msg, []

    def attempt(cand):
        nonlocal best, bmsg, bdesc
        if time.time() > end or cand == best:
            return False
        st, m, ch, ds = forked(prop, name, cand, None, known, work, timeout=20)
        if st != "fail" or m.startswith("the case did not end") != msg.startswith("the case did not end"):
            return False
        ch = ch[:len(cand)] if len(ch) < len(cand) else list(cand)
        while ch and ch[-1] == 0:
            ch.pop()
        if (len(ch), ch) < (len(best), best):
            best, bmsg, bdesc = ch, m, ds
            return True
        return False

    attempt(best + [0])
    progress = True
    while progress and time.time() < end:
        progress = False
        n = max(1, len(best) // 2)
        while n >= 1:
            i = 0
            while i < len(best):
                if attempt(best[:i] + best[i + n:]):
                    progress = True
                elif any(best[i:i + n]) and attempt(best[:i] + [0] * len(best[i:i + n]) + best[i + n:]):
                    progress = True
                else:
                    i += n
                if time.time() > end:
                    break
            n //= 2
        for i in range(len(best)):
            lo = 0
            while i < len(best) and lo < best[i] and time.time() < end:
                mid = (lo + best[i]) // 2
                if attempt(best[:i] + [mid] + best[i + 1:]):
                    progress = True
                else:
                    lo = mid + 1
    return best, bmsg, bdesc


def main(prop, seed, seconds, jobs, work, known, out, replay_out):
    t0 = time.time()
    deadline = t0 + seconds
    workers = {}
    total = {"cases": 0, "discards": 0, "known": 0, "hashes": set(), "samples": [], "tests": {},
             "tags": {}, "notes": ""}
    fails = []
    rng = random.Random("%s-%d" % (prop, seed))

    def start(k):
        shared = mmap.mmap(-1, 1 << 20)
        s = rng.getrandbits(40)
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                worker(prop, k, s, deadline, known, work, shared)
                code = 0
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(code)
        workers[k] = (pid, shared, s)

    def collect(k, s):
        nonlocal fails
        try:
            with open(os.path.join(work, "worker-%d-%d.res" % (k, s)), "rb") as f:
                res, fail = pickle.load(f)
        except FileNotFoundError:
            return False
        for key in ("cases", "discards", "known"):
            total[key] += res[key]
        total["hashes"] |= res["hashes"]
        total["samples"] += res["samples"]
        for n, t in res["tests"].items():
            d = total["tests"].setdefault(n, {"cases": 0, "nontrivial": 0, "discards": 0})
            for x in t:
                d[x] += t[x]
        for n, c in res["tags"].items():
            total["tags"][n] = total["tags"].get(n, 0) + c
        if fail:
            fails.append((fail[0], fail[1], None, fail[2]))
        return True

    for k in range(jobs):
        start(k)
    while workers:
        time.sleep(0.02)
        for k in list(workers):
            pid, shared, s = workers[k]
            p, status = os.waitpid(pid, os.WNOHANG)
            began = struct.unpack("d", shared[16:24])[0]
            hang = began > 0 and time.time() - began > HANG_SECONDS
            full = not p and not hang and began > 0 and takes_too_much(pid)
            if not p and (hang or full):
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
            elif not p:
                continue
            del workers[k]
            ok = collect(k, s)
            if not ok and began > 0:
                n = struct.unpack("q", shared[24:32])[0]
                name, prefix, cseed = pickle.loads(shared[32:32 + n])
                killed = full or (p and os.WIFSIGNALED(status) and os.WTERMSIG(status) == signal.SIGKILL)
                msg = KILLED if killed else "hang" if hang else crash_text(os.path.join(work, "worker-%d.log" % k), status)
                fails.append((name, prefix, cseed, msg))
            elif not ok:
                raise RuntimeError("worker %d ended: %s\n%s" % (k, status, tail(work, k)))
            if not fails and time.time() < deadline - 1:
                start(k)
        if fails:
            for k in list(workers):
                pid, _, _ = workers.pop(k)
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
    violation = None
    for name, prefix, cseed, msg in fails:
        # A failure counts if the case fails again on its own.
        for _ in range(5):
            st, m, choices, ds = forked(prop, name, prefix, cseed, known, work, want_log=True)
            if st == "fail":
                break
        if st == "known":
            continue
        if st != "fail" and msg == KILLED:
            # The memory was taken by something else.
            continue
        if st != "fail":
            # It depends on the schedule or on earlier cases.
            violation = (name, prefix if cseed is None else choices, msg + " (not seen again in 5 repetitions)", ds)
            continue
        best, m, ds2 = shrink(prop, name, choices, m, known, work,
                              float(os.environ.get("MLIO_VERIF_SHRINK", "60")))
        violation = (name, best, m, ds2 or ds)
        break
    result = {
        "cases": total["cases"], "distinct": len(total["hashes"]), "discards": total["discards"],
        "known": total["known"], "samples": total["samples"][:12], "tests": total["tests"],
        "tags": total["tags"], "notes": "", "violation": None,
    }
    if violation:
        name, choices, msg, ds = violation
        result["violation"] = {"test": name, "message": msg}
        with open(replay_out, "w", encoding="utf-8") as f:
            json.dump({"property": prop, "part": "py", "test": name, "message": msg,
                       "case": ds, "choices": choices}, f, indent=1)
            f.write("\n")
        print("%s/%s: %s" % (prop, name, msg))
        for d in ds:
            print("  " + d)
    with open(out, "w", encoding="utf-8") as f:
        json.dump(result, f)
    return 0


def tail(work, k):
    try:
        with open(os.path.join(work, "worker-%d.log" % k), encoding="utf-8", errors="replace") as f:
            return f.read()[-2000:]
    except OSError:
        return ""


def replay(rep, work, known=()):
    st, m, _, ds = forked(rep["property"], rep["test"], rep["choices"], None, known, work)
    print("%s/%s: %s %s" % (rep["property"], rep["test"], st, m))
    for d in ds:
        print("  " + d)
    if st == "fail":
        with open(os.path.join(work, "fork-%d.log" % os.getpid()), errors="replace") as f:
            print(f.read()[-6000:])
    return 1 if st == "fail" else 0
