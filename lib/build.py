"""Content-addressed incremental build of /repo's current working tree.

Nothing here looks at time stamps: an object is reused only if the command line
and the contents of every non-system file it was compiled from are unchanged, so
it does not matter whether the tree was copied, checked out again or patched.
All output goes to /verif/build (ignored by git).
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import sysconfig
import threading

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("MLIO_REPO", "/repo")
OUT = os.environ.get("MLIO_VERIF_BUILD", os.path.join(VERIF, "build"))
COMPAT = "/opt/vp/compat"
JOBS = int(os.environ.get("MLIO_VERIF_JOBS", str(os.cpu_count() or 4)))

_hash_lock = threading.Lock()
_hashes = {}


class BuildError(Exception):
    pass


def file_hash(path):
    with _hash_lock:
        h = _hashes.get(path)
    if h is None:
        try:
            with open(path, "rb") as f:
                h = hashlib.sha1(f.read()).hexdigest()
        except OSError:
            h = "missing"
        with _hash_lock:
            _hashes[path] = h
    return h


def forget_hash(path):
    with _hash_lock:
        _hashes.pop(path, None)


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                       errors="replace", **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def parse_depfile(path):
    with open(path, encoding="utf-8", errors="replace") as f:
        text = f.read()
    text = text.replace("\\\n", " ")
    text = text.split(":", 1)[1]
    return [w.replace("\\ ", " ") for w in re.findall(r"(?:\\ |\S)+", text)]


def up_to_date(meta, cmd):
    try:
        with open(meta, encoding="utf-8") as f:
            m = json.load(f)
    except (OSError, ValueError):
        return False
    if m["cmd"] != cmd:
        return False
    return all(file_hash(p) == h for p, h in m["deps"].items())


def compile_unit(src, obj, flags, compiler):
    cmd = [compiler] + flags + ["-c", src, "-o", obj]
    meta = obj + ".meta"
    if os.path.exists(obj) and up_to_date(meta, cmd):
        return False
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    dep = obj + ".d"
    run(cmd + ["-MMD", "-MF", dep])
    deps = {p: file_hash(os.path.abspath(p)) for p in parse_depfile(dep)}
    with open(meta + ".tmp", "w", encoding="utf-8") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    return True


def compile_units(units, compiler):
    """units: list of (src, obj, flags). Returns the number compiled."""
    with concurrent.futures.ThreadPoolExecutor(JOBS) as ex:
        futs = [ex.submit(compile_unit, s, o, f, compiler) for s, o, f in units]
        n = 0
        for f in futs:
            n += bool(f.result())
    return n


def link(out, objs, libs, flags, compiler):
    cmd = [compiler] + flags + ["-o", out] + objs + libs
    meta = out + ".meta"
    for o in objs:
        forget_hash(o)
    if os.path.exists(out) and up_to_date(meta, cmd):
        return False
    os.makedirs(os.path.dirname(out), exist_ok=True)
    run(cmd)
    deps = {o: file_hash(o) for o in objs}
    with open(meta + ".tmp", "w", encoding="utf-8") as f:
        json.dump({"cmd": cmd, "deps": deps}, f)
    os.replace(meta + ".tmp", meta)
    return True


class Lock:
    def __enter__(self):
        os.makedirs(OUT, exist_ok=True)
        self.f = open(os.path.join(OUT, ".lock"), "w")
        fcntl.flock(self.f, fcntl.LOCK_EX)
        return self

    def __exit__(self, *a):
        self.f.close()


def write_if_changed(path, data):
    try:
        with open(path, "rb") as f:
            if f.read() == data:
                return
    except OSError:
        pass
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(data)


def prepare_generated():
    """natsort (copied and patched as third-party/CMakeLists.txt does) and protoc output."""
    nat = os.path.join(OUT, "gen", "natsort")
    stage = os.path.join(OUT, "gen", "natsort.stage")
    shutil.rmtree(stage, ignore_errors=True)
    os.makedirs(stage)
    for f in glob.glob(os.path.join(REPO, "third-party", "natsort", "*")):
        shutil.copy(f, stage)
    patch = os.path.join(stage, "strnatcmp.h.patch")
    if os.path.exists(patch):
        with open(patch, "rb") as pf:
            p = subprocess.run(["patch", "-s"], cwd=stage, stdin=pf, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise BuildError("natsort patch: " + p.stdout.decode(errors="replace"))
    for f in os.listdir(stage):
        with open(os.path.join(stage, f), "rb") as fh:
            write_if_changed(os.path.join(nat, f), fh.read())
    shutil.rmtree(stage, ignore_errors=True)

    src = os.path.join(REPO, "src", "mlio", "detail", "protobuf")
    gen = os.path.join(OUT, "gen", "inc", "mlio", "detail", "protobuf")
    tmp = os.path.join(OUT, "gen", "proto.tmp")
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp)
    run(["protoc", "--cpp_out=" + tmp, "-I" + src, os.path.join(src, "recordio_protobuf.proto")])
    for f in os.listdir(tmp):
        with open(os.path.join(tmp, f), "rb") as fh:
            write_if_changed(os.path.join(gen, f), fh.read())
    shutil.rmtree(tmp, ignore_errors=True)
    return nat, os.path.join(OUT, "gen", "inc")


def includes(nat, gen):
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"),
            "-isystem", COMPAT + "/include", "-isystem", gen, "-isystem", nat,
            "-isystem", "/usr/include/opencv4"]


DEFS = ["-DFMT_DEPRECATED_OSTREAM", "-DFMT_SHARED", "-DMLIO_BUILD_IMAGE_READER",
        "-DMLIO_COMPILE_LIB", "-D_GLIBCXX_ASSERTIONS"]

SAN = ["-fsanitize=address",
       "-fsanitize=signed-integer-overflow,integer-divide-by-zero,null,return,shift,unreachable,"
       "vla-bound,bool,array-bounds,builtin",
       "-fno-sanitize-recover=all"]
COV = ["-fsanitize-coverage=inline-8bit-counters"]

PY_SAN = ["-fsanitize=address",
          "-fsanitize=signed-integer-overflow,integer-divide-by-zero,null,return,shift,unreachable,"
          "vla-bound,bool,bounds,builtin",
          "-fno-sanitize-recover=all"]

SYSLIBS = ["-labsl_strings", "-labsl_strings_internal", "-labsl_base", "-labsl_throw_delegate",
           "-labsl_raw_logging_internal", "-labsl_int128",
           "-lfmt", "-lprotobuf", "-ltbb", "-lz", "-lopencv_imgcodecs", "-lopencv_imgproc",
           "-lopencv_core", "-lpthread"]

LIB_EXCLUDE = set()


def lib_sources():
    src = os.path.join(REPO, "src", "mlio")
    out = sorted(glob.glob(os.path.join(src, "**", "*.cc"), recursive=True))
    return [s for s in out if os.path.relpath(s, src) not in LIB_EXCLUDE]


def build_lib(variant):
    """Compiles the library; returns (objects, common flags, compiler, link flags)."""
    nat, gen = prepare_generated()
    base = ["-std=c++17", "-w"] + DEFS + includes(nat, gen)
    if variant == "asan":
        compiler = "clang++"
        common = base + ["-O1", "-g1", "-fno-omit-frame-pointer", "-DMLIO_VERIF_HOOKS"] + SAN
        libflags = common + COV
        lflags = SAN + ["-fsanitize-coverage=inline-8bit-counters"]
    elif variant == "tsan":
        compiler = "clang++"
        common = base + ["-O1", "-g1", "-fno-omit-frame-pointer", "-DMLIO_VERIF_HOOKS",
                         "-fsanitize=thread"]
        libflags = common
        lflags = ["-fsanitize=thread"]
    elif variant == "py":
        compiler = "g++"
        common = base + ["-O1", "-g1", "-fno-omit-frame-pointer", "-fPIC", "-DMLIO_VERIF_HOOKS",
                         "-isystem", sysconfig.get_path("include")] + PY_SAN
        libflags = common
        lflags = PY_SAN
    else:
        raise BuildError("unknown variant " + variant)
    odir = os.path.join(OUT, variant)
    units = []
    srcroot = os.path.join(REPO, "src", "mlio")
    for s in lib_sources():
        units.append((s, os.path.join(odir, "mlio", os.path.relpath(s, srcroot) + ".o"), libflags))
    pb = os.path.join(gen, "mlio", "detail", "protobuf", "recordio_protobuf.pb.cc")
    units.append((pb, os.path.join(odir, "gen", "recordio_protobuf.pb.o"), common))
    for c in sorted(glob.glob(os.path.join(nat, "*.c"))):
        units.append((c, os.path.join(odir, "gen", os.path.basename(c) + ".o"),
                      [f for f in libflags if f != "-std=c++17"] + ["-x", "c"]))
    units.append((COMPAT + "/absl_string_view.cc", os.path.join(odir, "gen", "absl_sv.o"),
                  ["-std=c++17", "-O2", "-g1", "-fPIC"]))
    return units, common, compiler, lflags


def harness_files(prop):
    """The harness sources that a property's check consists of: the shared ones and
    those that name the property (c05_c06_selection.cc serves C05 and C06)."""
    hdir = os.path.join(VERIF, "harness")
    out = []
    for s in sorted(glob.glob(os.path.join(hdir, "*.cc"))):
        ids = re.findall(r"c\d\d+", os.path.basename(s))
        if not ids or prop is None or prop.lower() in ids:
            out.append(s)
    return out


def with_fake_s3(units, odir, compiler):
    """The parts of the library that need the AWS SDK, and the harness of C33, compiled
    with a stand-in for it. If a part needs more of the SDK than the stand-in has, all of
    them are left as they are, without S3."""
    hdir = os.path.join(VERIF, "harness")
    fake = ["-I" + os.path.join(hdir, "aws_fake")]
    names = {"s3_client.cc", "init_aws.cc", "config.cc"}
    new = []
    try:
        for s, o, f in units:
            if os.path.basename(s) in names:
                o = os.path.join(odir, "mlio_s3", os.path.basename(s) + ".o")
                f = f + ["-DMLIO_BUILD_S3"] + fake
                compile_unit(s, o, f, compiler)
            elif os.path.basename(s).startswith("c33"):
                f = f + fake
            new.append((s, o, f))
        return new
    except BuildError as e:
        print("the S3 client does not compile with the stand-in for the AWS SDK, checking without it:\n%s" % e)
        return [(s, o, f + ["-DNO_FAKE_S3"] if os.path.basename(s).startswith("c33") else f)
                for s, o, f in units]


def build_harness(variant="asan", prop=None, quiet=True):
    """Builds the harness of a property and returns the path of the binary; without a
    property all files are compiled, but not linked."""
    with Lock():
        units, common, compiler, lflags = build_lib(variant)
        hdir = os.path.join(VERIF, "harness")
        for s in harness_files(prop):
            units.append((s, os.path.join(OUT, variant, "harness", os.path.basename(s) + ".o"),
                          common + ["-I" + hdir]))
        if prop in (None, "C33"):
            units = with_fake_s3(units, os.path.join(OUT, variant), compiler)
        # Largest first: the harness files take longest to compile.
        units.sort(key=lambda u: -os.path.getsize(u[0]))
        n = compile_units(units, compiler)
        if prop is None:
            # The files of several properties replace the same functions (operator new).
            return None
        exe = os.path.join(OUT, variant, "vharness-" + prop)
        link(exe, [u[1] for u in units], SYSLIBS, lflags, compiler)
        if not quiet:
            print("built %s (%d units compiled)" % (exe, n))
        return exe


def build_py(quiet=True):
    """Builds the library, the Python extensions and the reference reader of the Python
    checks; returns the folder to put in PYTHONPATH."""
    with Lock():
        units, common, compiler, lflags = build_lib("py")
        odir = os.path.join(OUT, "py")
        pkg = os.path.join(odir, "pkg")
        src = os.path.join(REPO, "src", "mlio-py", "mlio")
        nlib = len(units)
        ext = common + ["-fvisibility=hidden", "-I" + os.path.join(src, "contrib/insights/hll")]
        parts = {}
        for name, sub in (("_core", "core"), ("contrib/insights", "contrib/insights")):
            parts[name] = []
            files = glob.glob(os.path.join(src, sub, "**", "*.cc"), recursive=True)
            files += glob.glob(os.path.join(src, sub, "**", "*.c"), recursive=True)
            for s in sorted(files):
                o = os.path.join(odir, "ext", os.path.relpath(s, src) + ".o")
                fl = ext if s.endswith(".cc") else [f for f in ext if f != "-std=c++17"] + ["-x", "c"]
                units.append((s, o, fl))
                parts[name].append(o)
        ref = os.path.join(VERIF, "pyharness", "reference.cc")
        refo = os.path.join(odir, "ext", "reference.o")
        units.append((ref, refo, common))
        order = sorted(units, key=lambda u: -os.path.getsize(u[0]))
        n = compile_units(order, compiler)
        lib = os.path.join(odir, "libmlio.so")
        sh = lflags + ["-shared"]
        link(lib, [u[1] for u in units[:nlib]], SYSLIBS, sh + ["-Wl,-soname,libmlio.so"], compiler)
        more = ["-L" + odir, "-lmlio", "-Wl,-rpath," + odir, "-lfmt"]
        forget_hash(lib)
        suffix = sysconfig.get_config_var("EXT_SUFFIX")
        for name, objs in parts.items():
            # The library is a dependency only through its path; it is loaded at run time.
            link(os.path.join(pkg, "mlio", name + suffix), objs, more, sh, compiler)
        link(os.path.join(odir, "libreference.so"), [refo], more, sh, compiler)
        want = set()
        for s in glob.glob(os.path.join(src, "**", "*.py"), recursive=True):
            rel = os.path.relpath(s, src)
            want.add(rel)
            with open(s, "rb") as f:
                write_if_changed(os.path.join(pkg, "mlio", rel), f.read())
        for s in glob.glob(os.path.join(pkg, "mlio", "**", "*.py"), recursive=True):
            if os.path.relpath(s, os.path.join(pkg, "mlio")) not in want:
                os.unlink(s)
        # The package asks for its own version, which setup.py would register.
        write_if_changed(os.path.join(pkg, "pkg_resources.py"),
                         b"class _D:\n    version = '0'\n\n\n"
                         b"def get_distribution(name):\n    return _D()\n")
        if not quiet:
            print("built %s (%d units compiled)" % (pkg, n))
        return pkg


if __name__ == "__main__":
    try:
        build_harness(sys.argv[1] if len(sys.argv) > 1 else "asan",
                      sys.argv[2] if len(sys.argv) > 2 else None, quiet=False)
    except BuildError as e:
        print(e)
        sys.exit(2)
