#!/usr/bin/env python3
"""Random small changes of the original lines of REPO's sources, each judged by the checks of its file; survivors are listed for reading.

usage: mutate.py WORKDIR N SEED [FILE...]     (WORKDIR: scratch; a clone of $VERIF_REPO and a copy of /verif are made in it)
"""
import os, random, re, subprocess, sys, shutil, time
BASE = "bf5f971"
MAP = {"SDSFile.cpp": "C01 C02 C04 C03 C05 C07 C06", "SDSFilePython.cpp": "C01 C04 C03 C02 C05 C07", "GroupBy.cpp": "C15 C16 C13", "HashLinear.cpp": "C10 C19 C12 C20 C21 C11 C13", "Sort.cpp": "C22 C13 C15",
       "Convert.cpp": "C25 C26", "BasicMath.cpp": "C27 C28", "UnaryOps.cpp": "C29", "one_input.cpp": "C29", "one_input_impl.h": "C29", "Reduce.cpp": "C30 C18", "Ema.cpp": "C17 C18", "MultiKey.cpp": "C10 C14 C13 C11 C12 C20",
       "Bins.cpp": "C31 C36", "Merge.cpp": "C24 C21 C20 C36", "Compare.cpp": "C28 C36", "DateTime.cpp": "C32", "strptime5.cpp": "C32", "TimeWindow.cpp": "C18", "Recycler.cpp": "C33", "RipTide.cpp": "C33 C26 C36",
       "Compress.cpp": "C08", "SharedMemory.cpp": "C07", "BitCount.cpp": "C36", "CRC32.cpp": "C36", "TileRepeat.cpp": "C36", "Heap.h": "C22 C15", "HashFunctions.cpp": "C20 C10 C19", "HashLinear.h": "C10 C19", "is_member_tg.h": "C19",
       "MathWorker.h": "C34 C15", "MathWorker.cpp": "C34", "MathThreads.h": "C34", "missing_values.h": "C25 C29", "basic_ops.h": "C27", "RollingWindow.h": "C18", "CommonInc.h": "C30"}
SKIP = re.compile(r'^\s*(//|\*|/\*|#|LOGGING|LOG|printf|PyErr|return NULL|break;|case |default:|\}|\{|else$|$|template|static_assert|typedef|using |namespace|extern|PyObject \*|CHECK_MEM|Py_)|_mm|__m256|__m128|PREFETCH|prefetch|rdtsc')
OPS = [(r' < ', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '), (r' \+ 1\b', ''), (r' - 1\b', ''), (r' \+ ', ' - '), (r' - ', ' + '),
       (r'\+\+', '--'), (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \* ', ' / '), (r' / ', ' * '), (r'= 0;', '= 1;'), (r'= 1;', '= 0;'), (r'\(! ', '('), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' & ', ' | '), (r' >> ', ' << '),
       (r'\bi\]', 'i + 1]'), (r'NPY_FLOAT64', 'NPY_FLOAT32'), (r'NPY_INT64', 'NPY_INT32'), (r'int64_t', 'int32_t'), (r'\bdouble\b', 'float'), (r'\b16\b', '8'), (r'\b8\b', '4'), (r'continue;', 'break;'), (r'start', 'length'), (r'^(\s+)[a-zA-Z_\[\]>.-]+ [-+*]?= [^;]+;$', r'\1;')]


def sh(*a, **k):
    return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def main():
    W, N, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    only = sys.argv[4:]
    repo, ver = W + "/repo", W + "/verif"
    if not os.path.isdir(repo):
        os.makedirs(W, exist_ok=True)
        subprocess.check_call(["git", "clone", "-q", os.environ.get("VERIF_REPO", "/repo"), repo])
        os.makedirs(ver)
        for d in ("lib", "checks", "tools", "known_findings.json", "MANIFEST.json", "properties.jsonl"):
            subprocess.check_call(["cp", "-a", "/verif/" + d, ver])
        os.makedirs(ver + "/evidence/replay", exist_ok=True)
        subprocess.check_call(["cp", "-a", "/verif/.cache", W + "/cache"])
    env = dict(os.environ, VERIF_REPO=repo, VERIF_CACHE=W + "/cache", VERIF_SEED="1", VERIF_TIER="quick")
    orig = {}
    rng = random.Random(seed)
    def lines(f):
        if f not in orig:
            p = "src/" + f
            b = sh("git", "-C", repo, "blame", "-s", "-l", p).stdout.decode("utf8", "replace").splitlines()
            t = open(repo + "/" + p, newline="").read().split("\n")
            orig[f] = [i for i, l in enumerate(b) if l.startswith("^" + BASE) and i < len(t) and not SKIP.search(t[i])]
        return orig[f]
    files = only or list(MAP)
    wt = [len(lines(f)) ** .7 for f in files]
    done = 0
    while done < N:
        f = rng.choices(files, wt)[0]
        i = rng.choice(lines(f))
        p = repo + "/src/" + f
        src = open(p, newline="").read().split("\n")
        old = src[i]
        code = old.split("//")[0]
        c = [(m, r) for pat, r in OPS for m in re.finditer(pat, code)]
        if not c:
            continue
        m, r = rng.choice(c)
        new = code[:m.start()] + m.expand(r) + code[m.end():]
        if new.strip() == old.strip():
            continue
        src[i] = new
        open(p, "w", newline="").write("\n".join(src))
        done += 1
        res, t0 = "SURVIVED", time.time()
        try:
            b = sh("python3", "lib/build.py", "release", cwd=ver, env=env)
            if b.returncode:
                res = "nobuild"
            else:
                for k in MAP[f].split():
                    try:
                        q = sh("timeout", "-k", "5", "600", "python3", "lib/run.py", k, "--no-shrink", cwd=ver, env=env)
                        if q.returncode:
                            res = "killed " + k + (" (%d)" % q.returncode if q.returncode != 1 else "")
                            break
                    except Exception as e:
                        res = repr(e)
        finally:
            sh("git", "-C", repo, "checkout", "--", ".")
        print("%s | %s:%d | %s  ->  %s | %.0fs" % (res, f, i + 1, old.strip(), new.strip(), time.time() - t0), flush=True)


main()
