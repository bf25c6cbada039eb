"""Driver of one property's check.

run.py <prop> [--replay FILE] [--law NAME]... [--cases N] [--keep-going] [--seed N] [--tier quick|thorough] [--workers N]

exit 0: held on everything explored; 1: VIOLATION line printed; anything else: the check itself failed.
"""
import glob, argparse, importlib, json, mmap, os, struct, subprocess, sys, time, tempfile, signal, shutil, selectors

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build, pbt

PY = build.PY


QUICK_SCALE = 5       # the laws' case counts were chosen for a run of a few seconds


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [e for e in json.load(open(p))["findings"] if e["property"] == prop and e.get("status") == "known"]


def child_env(moddir, extra=None):
    env = {k: v for k, v in os.environ.items() if not k.startswith(("PYTHON", "LD_"))}
    env["PYTHONPATH"] = moddir
    env["PYTHONHASHSEED"] = "0"
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["OMP_NUM_THREADS"] = env["OPENBLAS_NUM_THREADS"] = env["MKL_NUM_THREADS"] = "1"
    env["LANG"] = "C.UTF-8"
    env["TZ"] = "UTC"
    env.update(extra or {})
    return env


class Worker:
    def __init__(self, prop, spec, env, tmp, tag):
        self.spec = dict(spec)
        self.progress = os.path.join(tmp, "prog" + tag)
        with open(self.progress, "wb") as f:
            f.write(struct.pack("<qqqd", -2, 0, 0, time.time()).ljust(4096, b"\0"))
        self.mm = mmap.mmap(os.open(self.progress, os.O_RDWR), 4096)
        r, w = os.pipe()
        self.spec.update(progress=self.progress, fd=w)
        self.logname = os.path.join(tmp, "log" + tag)
        log = open(self.logname, "wb")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), "run", prop, json.dumps(self.spec)],
                                  stdin=subprocess.DEVNULL, stdout=log, stderr=log, pass_fds=[w], env=env, cwd=tmp)
        os.close(w)
        log.close()
        self.r = r
        os.set_blocking(r, False)
        self.buf = b""
        self.msgs = []
        self.done = None
        self.eof = False

    def pump(self):
        while not self.eof:
            try:
                b = os.read(self.r, 1 << 16)
            except BlockingIOError:
                break
            if not b:
                self.eof = True
                os.close(self.r)
                break
            self.buf += b
        while b"\n" in self.buf:
            line, self.buf = self.buf.split(b"\n", 1)
            m = json.loads(line)
            if m["t"] == "done":
                self.done = m
            else:
                self.msgs.append(m)

    def prog(self):
        """the worker's position; the record is written while we read, so it counts when two readings agree"""
        for _ in range(1000):
            a = struct.unpack_from("<qqqd", self.mm, 0)
            time.sleep(0.0002)
            if a == struct.unpack_from("<qqqd", self.mm, 0) and a[3] > 1e9:
                break
        return a

    def stuck(self, hang):
        """no new case for `hang` seconds, seen twice"""
        a = self.prog()
        if a[0] < 0 or a[3] < 1e9 or time.time() - a[3] <= hang:
            return None
        time.sleep(0.05)
        return a if self.prog() == a else None

    def kill(self):
        try:
            self.p.kill()
        except OSError:
            pass
        self.p.wait()

    def logtail(self, n=1500):
        try:
            with open(self.logname, "rb") as f:
                f.seek(0, 2)
                f.seek(max(0, f.tell() - n))
                return f.read().decode("utf8", "replace")
        except OSError:
            return ""


class Server:
    """fork server for replays and shrinking"""
    def __init__(self, prop, env, tmp):
        a, self.w = os.pipe()
        self.r, b = os.pipe()
        self.log = open(os.path.join(tmp, "serve.log"), "wb")
        self.p = subprocess.Popen([PY, os.path.join(HERE, "worker.py"), "serve", prop, str(a), str(b)],
                                  stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, pass_fds=[a, b], env=env, cwd=tmp)
        os.close(a)
        os.close(b)
        self.f = os.fdopen(self.r, "r")

    def ask(self, **req):
        os.write(self.w, (json.dumps(req) + "\n").encode())
        line = self.f.readline()
        if not line:
            raise pbt.HarnessError("replay server ended")
        return json.loads(line)

    def close(self):
        os.close(self.w)
        self.f.close()
        try:
            self.p.wait(5)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()


def spec_for(w, W, seed, laws, mod_opts, deadline, keep_going):
    n = build.NCPU
    if mod_opts.get("wide"):
        cpus = None
    else:
        # thread pools of several sizes; one worker has the whole machine
        width = (2, 3, 2, 4, 2, 6, 3, n)[w % 8]
        cpus = None if (w == W - 1 and not mod_opts.get("narrow")) else sorted({(w + i) % n for i in range(width)})
    return dict(seed=seed, w=w, W=W, laws=laws, cpus=cpus, deadline=deadline, keep_going=keep_going)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--law", action="append")
    ap.add_argument("--cases", type=int)
    ap.add_argument("--keep-going", action="store_true")
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick") or "quick")
    ap.add_argument("--workers", type=int)
    ap.add_argument("--no-shrink", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    prop = a.prop
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    meta = json.load(open(os.path.join(VERIF, "checks", "index.json"))).get(prop, {}) if os.path.exists(
        os.path.join(VERIF, "checks", "index.json")) else {}
    variant = meta.get("variant", "release")
    moddir = build.build_module(variant)
    extra = {}
    if variant == "asan":
        lib = subprocess.check_output(["g++", "-print-file-name=libasan.so"]).decode().strip()
        extra = {"LD_PRELOAD": lib + " " + subprocess.check_output(["g++", "-print-file-name=libstdc++.so.6"]).decode().strip(), "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1:handle_segv=1"}
        if meta.get("malloc"):
            extra["PYTHONMALLOC"] = "malloc"
            extra["ASAN_OPTIONS"] += ":max_allocation_size_mb=2000"
    if meta.get("sdslib"):
        extra["VERIF_SDSLIB"] = build.build_sdsharness()
    env = child_env(moddir, extra)
    tmpbase = "/dev/shm" if os.access("/dev/shm", os.W_OK) and meta.get("shm", True) else None
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % prop, dir=tmpbase)
    env["VERIF_TMP"] = tmp
    try:
        rc = check(a, prop, meta, env, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
        for f in glob.glob("/dev/shm/Global_*%s*" % os.path.basename(tmp)):   # shares left by a worker that died
            os.unlink(f)
    sys.stdout.flush()
    sys.exit(rc)


def check(a, prop, meta, env, tmp, t0):
    # the list of laws is asked from the module in the venv's python
    code = ("import sys,json;sys.path[:0]=[%r,%r];import importlib;m=importlib.import_module(%r);"
            "print(json.dumps([[l.name,l.quick,l.thorough,l.doc] for l in m.LAWS]+[dict(rule=getattr(m,'RULE',''),opts=getattr(m,'OPTS',{}),"
            "assumptions=getattr(m,'ASSUMPTIONS',[]),probes=sorted(getattr(m,'PROBES',{})))]))" % (HERE, os.path.join(VERIF, "checks"), prop))
    info = json.loads(subprocess.check_output([PY, "-c", code], env=env, cwd=tmp))
    mod = info.pop()
    opts = mod["opts"]
    hang = opts.get("hang", 60)

    if a.replay:
        rep = json.load(open(a.replay))
        if rep.get("kind") == "batch":
            res = run_batch(prop, rep["spec"], env, tmp, hang)
            print("replay (batch):", res or "held")
            return 1 if res else 0
        srv = Server(prop, env, tmp)
        r = srv.ask(law=rep["law"], choices=rep["choices"], timeout=hang, cpus=rep.get("cpus"))
        srv.close()
        print("law:", rep["law"])
        print("case:", r.get("desc") or rep.get("desc"))
        print("result:", r["msg"] if r["fail"] else "held")
        if r["fail"]:
            print("VIOLATION property=%s replay=%s" % (prop, a.replay))
        return 1 if r["fail"] else 0

    laws = []
    for name, q, t, doc in info:
        if a.law and name not in a.law:
            continue
        laws.append([name, a.cases if a.cases else (q * QUICK_SCALE if a.tier == "quick" else max(t, q * QUICK_SCALE))])
    W = a.workers or opts.get("workers", build.NCPU)
    budget = (opts.get("budget_quick", 420) if a.tier == "quick" else opts.get("budget_thorough", 3600))
    deadline = time.time() + budget
    workers = [Worker(prop, spec_for(w, W, a.seed, laws, opts, deadline, a.keep_going), env, tmp, str(w)) for w in range(W)]
    fails = []
    harness_errors = []
    live = list(workers)
    while live:
        time.sleep(0.05)
        for wk in list(live):
            wk.pump()
            rc = wk.p.poll()
            if rc is None:
                st = wk.stuck(hang)
                if st:
                    pos, li, idx, ts = st
                    wk.kill()
                    wk.pump()
                    fails.append(dict(law=laws[li][0], idx=idx, pos=pos, w=wk.spec["w"], msg="hang: no result within %d s" % hang,
                                      choices=None, hang=True))
                    live.remove(wk)
                continue
            wk.pump()
            live.remove(wk)
            if wk.done is None:
                pos, li, idx, ts = wk.prog()
                tail = wk.logtail()
                if pos < 0:
                    harness_errors.append("worker %d ended with %s before its first case\n%s" % (wk.spec["w"], rc, tail))
                elif rc < 0 or "AddressSanitizer" in tail or rc not in (0, 1):
                    fails.append(dict(law=laws[li][0], idx=idx, pos=pos, w=wk.spec["w"], msg="crash: worker ended with %s; log: %s"
                                      % (rc, tail[-1200:]), choices=None, crash=True))
                else:
                    harness_errors.append("worker %d ended with %s\n%s" % (wk.spec["w"], rc, tail))
        for wk in workers:
            for m in wk.msgs:
                m["cpus"] = wk.spec.get("cpus")
                fails.append(m)
            wk.msgs = []
        if fails and not a.keep_going:
            for wk in live:
                wk.kill()
                wk.pump()
            live = []
    if harness_errors and not fails:
        print("CHECK ERROR: " + harness_errors[0])
        return 3

    # ---- totals
    stats, samples, digests, truncated = {}, [], set(), False
    for wk in workers:
        if wk.done:
            truncated |= wk.done["truncated"]
            digests.update(wk.done["digests"])
            for k, v in wk.done["stats"].items():
                s = stats.setdefault(k, {"n": 0, "nontrivial": 0, "events": {}})
                s["n"] += v["n"]
                s["nontrivial"] += v["nontrivial"]
                for e, c in v["events"].items():
                    s["events"][e] = s["events"].get(e, 0) + c
            for sm in wk.done["samples"]:
                if len([x for x in samples if x["law"] == sm["law"]]) < 2:
                    samples.append(sm)
    nviol = 0
    unrepro = []
    if fails:
        bylaw = {}
        for f in fails:
            bylaw.setdefault(f["law"], []).append(f)
        for name, fl in bylaw.items():
            res = settle(a, prop, env, tmp, hang, laws, opts, fl, W)
            if res:
                nviol += 1
                print("VIOLATION property=%s replay=%s" % (prop, res["path"]))
                print("  law: %s" % name)
                print("  case: %s" % res.get("desc"))
                print("  what: %s" % res.get("msg"))
                sys.stdout.flush()
                if not a.keep_going:
                    break
            else:
                unrepro.append({"law": name, "msg": fl[0]["msg"], "idx": fl[0]["idx"]})
                print("NOTE: a failure of law %s did not reproduce (case %s): %s" % (name, fl[0]["idx"], fl[0]["msg"][:500]))

    # ---- known findings: each is probed on its specific input
    known = load_known(prop)
    if known:
        code = ("import sys,json;sys.path[:0]=[%r,%r];import importlib,numpy;numpy.seterr(all='ignore');m=importlib.import_module(%r);"
                "r=m.PROBES[sys.argv[1]]();sys.stdout.flush();import os;os.write(int(sys.argv[2]),json.dumps(r).encode());os._exit(0)"
                % (HERE, os.path.join(VERIF, "checks"), prop))
        for k in known:
            r, w = os.pipe()
            p = subprocess.Popen([PY, "-c", code, k["id"], str(w)], env=env, cwd=tmp, pass_fds=[w], stdin=subprocess.DEVNULL,
                                 stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
            os.close(w)
            try:
                p.wait(120)
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            out = os.read(r, 65536)
            os.close(r)
            died = p.returncode < 0
            if (out and json.loads(out)) or died:
                print("KNOWN-FINDING: property=%s %s: %s" % (prop, k["id"], k["what"]))
            elif not out:
                print("CHECK ERROR: probe %s: %s" % (k["id"], p.stderr.read().decode()[-800:]))
                return 3
            else:
                print("note: known finding %s no longer fails" % k["id"])

    total = sum(s["n"] for s in stats.values())
    ev = {"property": prop, "tier": a.tier if a.tier in ("quick", "thorough") else "quick", "seed": a.seed, "level": meta.get("level", "exploration"),
          "coverage": {"evaluations": total, "distinct_nontrivial": len(digests), "rule": mod["rule"], "samples": samples[:60],
                       "laws": {k: {"cases": v["n"], "nontrivial": v["nontrivial"], "classes": v["events"]} for k, v in sorted(stats.items())},
                       "truncated_by_time_budget": truncated, "unreproduced": unrepro},
          "assumptions": mod["assumptions"], "wall_s": round(time.time() - t0, 2), "violations": nviol}
    if not a.law and not a.cases:
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    for k, v in sorted(stats.items()):
        print("  %-34s cases %6d  nontrivial %6d  %s" % (k, v["n"], v["nontrivial"],
                                                          " ".join("%s:%d" % e for e in sorted(v["events"].items()))[:400]))
    print("%s %s: %d cases, %d distinct non-trivial, %.1f s%s%s" % (prop, "VIOLATED" if nviol else "held", total, len(digests),
                                                                    time.time() - t0, " (truncated)" if truncated else "",
                                                                    ""))
    return 1 if nviol else 0


def run_batch(prop, spec, env, tmp, hang):
    spec = dict(spec, deadline=time.time() + 600)
    wk = Worker(prop, spec, env, tmp, "batch")
    while True:
        time.sleep(0.05)
        wk.pump()
        rc = wk.p.poll()
        pos, li, idx, ts = wk.prog()
        if rc is None:
            if wk.stuck(hang):
                wk.kill()
                return "hang in law %s case %d" % (spec["laws"][li][0], idx)
            continue
        wk.pump()
        if wk.msgs:
            return wk.msgs[0]["msg"]
        if wk.done is None and pos >= 0 and rc != 1:
            return "crash (%s) in law %s case %d: %s" % (rc, spec["laws"][li][0], idx, wk.logtail(600))
        return None


def settle(a, prop, env, tmp, hang, laws, opts, fl, W):
    f = fl[0]
    name = f["law"]
    repdir = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(repdir, exist_ok=True)
    path = os.path.join(repdir, "%s-%s.json" % (prop, name))
    n = build.NCPU
    cpus = f.get("cpus")
    srv = Server(prop, env, tmp)
    got = None
    count = 0
    tries = 3 if f.get("hang") else 6
    k = 0
    while k < tries:
        k += 1
        req = dict(law=name, timeout=hang, cpus=cpus)
        if f.get("choices") is not None:
            req["choices"] = f["choices"]
        else:
            req.update(choices=None, seed=a.seed, idx=f["idx"])
        r = srv.ask(**req)
        if r.get("harness"):
            print("NOTE:", r["msg"])
            continue
        if r["fail"]:
            count += 1
            got = r
            if count == 1 and k <= 3:
                tries = 3
    if got:
        choices = f["choices"] if f.get("choices") is not None else got["choices"]
        best = choices
        if count == k and not a.no_shrink and not f.get("hang"):
            def test(seq):
                r = srv.ask(law=name, choices=seq, timeout=20, cpus=cpus)
                return bool(r["fail"] and not r.get("hang")), r["choices"]
            best, used = pbt.shrink(choices, test, 600, time.time() + opts.get("shrink_s", 60), time.time)
            r = srv.ask(law=name, choices=best, timeout=hang, cpus=cpus)
            if r["fail"]:
                got = r
            else:
                best = choices
        srv.close()
        out = dict(kind="case", property=prop, law=name, choices=best, cpus=cpus, seed=a.seed, idx=f["idx"], msg=got["msg"], desc=got.get("desc") or f.get("desc"),
                   reproduced="%d of %d" % (count, k))
        json.dump(out, open(path, "w"), indent=1)
        out["path"] = os.path.relpath(path, VERIF)
        return out
    srv.close()
    # not alone: replay the whole history of that worker up to the failing case
    spec = spec_for(f["w"], W, a.seed, laws, opts, time.time() + 600, False)
    spec["stop"] = f["pos"]
    for _ in range(3):
        msg = run_batch(prop, spec, env, tmp, hang)
        if msg:
            out = dict(kind="batch", property=prop, law=name, spec=spec, msg=msg, desc="history of worker %d, cases up to position %d; last: %s"
                       % (f["w"], f["pos"], f.get("desc")))
            json.dump(out, open(path, "w"), indent=1)
            out["path"] = os.path.relpath(path, VERIF)
            return out
    return None


if __name__ == "__main__":
    try:
        main()
    except build.BuildError as e:
        print("CHECK ERROR: build failed\n%s" % e)
        sys.exit(2)
