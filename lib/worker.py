"""Worker process: runs cases of one property's laws; all native output goes to a log.

worker.py run <prop> <seed> <tier> <w> <W> <progressfile> <protofd> [law...]
worker.py serve <prop> <protofd_in> <protofd_out>     (fork per request; used for shrinking and replay)
"""
import sys, os, json, mmap, struct, traceback, hashlib, time, signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(os.path.dirname(HERE), "checks"))
import pbt
import importlib
import warnings
warnings.filterwarnings("ignore")


def run_case(law, case):
    """-> None if it held, else message"""
    try:
        law.fn(case)
        return None
    except pbt.HarnessError:
        raise
    except (KeyboardInterrupt, SystemExit):
        raise
    except pbt.Fail as e:
        return "Fail: " + str(e)
    except MemoryError:
        raise
    except BaseException as e:
        tb = traceback.format_exc().strip().split("\n")
        cause = " caused by %r" % e.__cause__ if e.__cause__ is not None else ""
        return "%s: %s%s | %s" % (type(e).__name__, e, cause, " / ".join(x.strip() for x in tb[-5:-1]))


def digest(law, case):
    return hashlib.blake2b((law.name + repr(case.choices)).encode(), digest_size=8).digest()


def main():
    mode, prop = sys.argv[1], sys.argv[2]
    mod = importlib.import_module(prop)
    laws = {l.name: l for l in mod.LAWS}
    import numpy as np
    np.seterr(all="ignore")
    if mode == "run":
        spec = json.loads(sys.argv[3])
        seed, w, W = spec["seed"], spec["w"], spec["W"]
        out = os.fdopen(spec["fd"], "w", buffering=1)
        f = open(spec["progress"], "r+b")
        mm = mmap.mmap(f.fileno(), 4096)
        if spec.get("cpus"):
            os.sched_setaffinity(0, spec["cpus"])
        if hasattr(mod, "setup_worker"):
            mod.setup_worker(w, spec)
        todo = []
        for li, (name, n) in enumerate(spec["laws"]):
            only = spec.get("only")
            idxs = range(w, n, W)
            for k, i in enumerate(idxs):
                todo.append((k / max(1, len(idxs)), li, i))
        todo.sort()
        skip = set()
        resume = spec.get("resume", 0)
        stop = spec.get("stop")
        stats = {}
        samples = []
        dig = set()
        deadline = spec["deadline"]
        truncated = False
        for pos, (_, li, i) in enumerate(todo):
            if pos < resume:
                continue
            if stop is not None and pos > stop:
                break
            if time.time() > deadline:
                truncated = True
                break
            name = spec["laws"][li][0]
            if name in skip:
                continue
            law = laws[name]
            struct.pack_into("<qqqd", mm, 0, pos, li, i, time.time())
            case = pbt.Case(rng=pbt.case_rng(seed, prop, name, i))
            msg = run_case(law, case)
            st = stats.setdefault(name, {"n": 0, "nontrivial": 0, "events": {}})
            st["n"] += 1
            for k, v in case.events.items():
                st["events"][k] = st["events"].get(k, 0) + (1 if v else 0)
            if case.nontriv:
                st["nontrivial"] += 1
                dig.add(digest(law, case))
                if len([s for s in samples if s["law"] == name]) < 2:
                    samples.append({"law": name, "case": i, "desc": "; ".join(case.desc)[:600]})
            if msg is not None:
                out.write(json.dumps({"t": "fail", "law": name, "idx": i, "pos": pos, "w": w, "choices": case.choices,
                                      "msg": msg[:3000], "desc": "; ".join(case.desc)[:3000]}) + "\n")
                skip.add(name)
                if not spec.get("keep_going"):
                    break
        struct.pack_into("<qqqd", mm, 0, -1, 0, 0, time.time())
        out.write(json.dumps({"t": "done", "stats": stats, "samples": samples, "truncated": truncated,
                              "digests": [d.hex() for d in dig]}) + "\n")
        out.flush()
        os._exit(0)
    elif mode == "serve":
        fin = os.fdopen(int(sys.argv[3]), "r")
        fout = int(sys.argv[4])
        for line in fin:
            req = json.loads(line)
            r, wfd = os.pipe()
            mem = os.memfd_create("choices")
            notes = os.memfd_create("notes")
            pid = os.fork()
            if pid == 0:
                os.close(r)
                if req.get("cpus"):
                    os.sched_setaffinity(0, req["cpus"])
                if hasattr(mod, "setup_worker"):
                    mod.setup_worker(0, {})
                if req.get("choices") is None:
                    case = pbt.Case(rng=pbt.case_rng(req["seed"], prop, req["law"], req["idx"]))
                else:
                    case = pbt.Case(prefix=req["choices"])
                case.sink = mem
                case.notesink = notes
                try:
                    msg = run_case(laws[req["law"]], case)
                    res = {"fail": msg is not None, "msg": msg, "choices": case.choices, "desc": "; ".join(case.desc)[:6000]}
                except BaseException as e:
                    res = {"fail": False, "msg": "harness: %r" % e, "harness": True}
                os.write(wfd, json.dumps(res).encode())
                os._exit(0)
            os.close(wfd)
            buf = b""
            import select
            t0 = time.time()
            hung = False
            while True:
                left = req.get("timeout", 60) - (time.time() - t0)
                if left <= 0:
                    hung = True
                    os.kill(pid, signal.SIGKILL)
                    break
                rl, _, _ = select.select([r], [], [], left)
                if rl:
                    b = os.read(r, 65536)
                    if not b:
                        break
                    buf += b
            os.close(r)
            _, status = os.waitpid(pid, 0)
            if hung:
                res = {"fail": True, "msg": "hang: no result within %s s" % req.get("timeout", 60), "hang": True}
            elif buf:
                res = json.loads(buf)
            else:
                res = {"fail": True, "msg": "crash: process ended with status %d (signal %d)" % (status, status & 127), "crash": True}
            os.lseek(mem, 0, 0)
            data = b""
            while True:
                b = os.read(mem, 1 << 16)
                if not b:
                    break
                data += b
            os.close(mem)
            os.lseek(notes, 0, 0)
            d = os.read(notes, 3000)
            os.close(notes)
            if not res.get("desc"):
                res["desc"] = d.decode("utf8", "replace")
            res["choices"] = [int(x) for x in data.split()]
            os.write(fout, (json.dumps(res) + "\n").encode())


if __name__ == "__main__":
    main()
