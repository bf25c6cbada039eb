"""Build riptide_cpp (and optional extra artefacts) from /repo's current working tree.

Objects are cached by the hash of their *preprocessed* text (comments gone, line markers gone) plus
the flags, so a build is decided by content and never by time stamps: an unchanged tree is a no-op and
any change of what is compiled is always seen.  Nothing is written in /repo.
"""
import hashlib, os, re, subprocess, sys, time, concurrent.futures as cf, tempfile

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.environ.get("VERIF_CACHE", os.path.join(VERIF, ".cache"))
VENV = "/opt/vp/venv"
PY = VENV + "/bin/python3"
SITE = VENV + "/lib/python3.12/site-packages"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"
NCPU = os.cpu_count() or 4

# the project's own Release flags (cmake/AddCommonSettings.cmake, GNU front end), without -g1/-Werror
BASE = ("-isystem /opt/vp/compat -DNDEBUG -std=c++20 -fPIC -x c++ -mavx2 -mbmi2 -fpermissive -pthread "
        "-falign-functions=32 -fno-strict-aliasing -w -Wa,-mbranches-within-32B-boundaries").split()
INC = ["-I" + SITE + "/numpy/core/include", "-isystem", "/usr/include/python3.12", "-isystem", VENV + "/include"]
DEFS = ["-DBUILDING_RIPTIDE_CPP", "-Driptide_cpp_EXPORTS"]
LIBS = ["-Wl,-rpath," + VENV + "/lib", "/usr/lib/x86_64-linux-gnu/libpython3.12.so",
        "-lzstd", VENV + "/lib/libtbb.so", VENV + "/lib/libtbbmalloc.so", "-lrt", "-pthread"]
# longest compilations first, so that they do not end the build alone
SLOW = ["HashLinear.cpp", "GroupBy.cpp", "Ema.cpp", "Bins.cpp", "SDSFile.cpp", "Sort.cpp", "Reduce.cpp",
        "one_input.cpp", "BasicMath.cpp", "Convert.cpp", "Merge.cpp", "UnaryOps.cpp"]


class BuildError(Exception):
    pass


def sources(repo=None):
    repo = repo or REPO
    text = open(os.path.join(repo, "src/CMakeLists.txt")).read()
    m = re.search(r"set\(SOURCES(.*?)\)", text, re.S)
    names = [n for n in m.group(1).split() if n.endswith(".cpp")]
    if not names:
        raise BuildError("no sources found")
    return sorted(names, key=lambda n: SLOW.index(n) if n in SLOW else 99)


def _run(cmd, what):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if p.returncode:
        raise BuildError("%s failed:\n%s" % (what, p.stderr.decode("utf8", "replace")[-4000:]))
    return p.stdout


_line = re.compile(rb'^# \d+ ".*$', re.M)


def compile_one(src, flags, compiler, objdir):
    pre = _run([compiler, "-E"] + flags + [src], "preprocessing " + src)
    key = _line.sub(b"", pre)
    key = re.sub(rb"\n\s*\n+", b"\n", key)
    h = hashlib.sha256()
    h.update(("\0".join([compiler] + [f for f in flags if not f.startswith("-I")])).encode())
    h.update(key)
    obj = os.path.join(objdir, os.path.basename(src) + "." + h.hexdigest()[:24] + ".o")
    if not os.path.exists(obj):
        fd, tmp = tempfile.mkstemp(dir=objdir, suffix=".tmp")
        os.close(fd)
        _run([compiler] + flags + ["-c", src, "-o", tmp], "compiling " + src)
        os.replace(tmp, obj)
        return obj, h.hexdigest(), True
    os.utime(obj)
    return obj, h.hexdigest(), False


def build_objects(srcs, flags, compiler, objdir):
    os.makedirs(objdir, exist_ok=True)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        futs = [ex.submit(compile_one, s, flags, compiler, objdir) for s in srcs]
        res = [f.result() for f in futs]
    return res


def prune(d, keep, maxn):
    fs = [os.path.join(d, f) for f in os.listdir(d)]
    fs = sorted((f for f in fs if f not in keep), key=os.path.getmtime)
    for f in fs[:max(0, len(fs) - maxn)]:
        try:
            if os.path.isdir(f):
                for g in os.listdir(f):
                    os.unlink(os.path.join(f, g))
                os.rmdir(f)
            else:
                os.unlink(f)
        except OSError:
            pass


def build_module(variant="release", verbose=True):
    """-> directory to put on PYTHONPATH."""
    t0 = time.time()
    repo = REPO
    flags = list(BASE) + DEFS + INC
    compiler = "/usr/bin/g++"
    link = []
    if variant == "release":
        flags = ["-O2"] + flags
    elif variant == "asan":
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"]
        flags = ["-O1", "-g1"] + san + flags
        link = san
    elif variant == "debugassert":
        flags = ["-O1", "-D_GLIBCXX_ASSERTIONS"] + flags
    else:
        raise ValueError(variant)
    objdir = os.path.join(CACHE, "obj-" + variant)
    srcs = [os.path.join(repo, "src", n) for n in sources(repo)]
    res = build_objects(srcs, flags, compiler, objdir)
    h = hashlib.sha256("".join(r[1] for r in res).encode()).hexdigest()[:20]
    outdir = os.path.join(CACHE, "mod-" + variant, h)
    so = os.path.join(outdir, "riptide_cpp" + SUFFIX)
    if not os.path.exists(so):
        os.makedirs(outdir, exist_ok=True)
        tmp = so + ".tmp%d" % os.getpid()
        _run([compiler, "-shared", "-o", tmp] + link + [r[0] for r in res] + LIBS, "linking")
        os.replace(tmp, so)
    os.utime(outdir)
    prune(objdir, {r[0] for r in res}, 150)
    prune(os.path.join(CACHE, "mod-" + variant), {outdir}, 6)
    if verbose:
        print("build[%s]: %d of %d objects compiled, %.1f s" % (variant, sum(r[2] for r in res), len(res), time.time() - t0),
              flush=True)
    return outdir


if __name__ == "__main__":
    for v in sys.argv[1:] or ["release"]:
        print(build_module(v))
