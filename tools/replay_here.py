"""development helper: run the replay file's case in this process (native output visible).  tools/asan FILE runs it under ASAN"""
import sys, json, os
sys.path[:0] = ["/verif/lib", "/verif/checks"]
import pbt, importlib, worker
import tempfile
os.environ.setdefault("VERIF_TMP", "/dev/shm")
rep = json.load(open(sys.argv[1]))
mod = importlib.import_module(rep["property"])
l = {x.name: x for x in mod.LAWS}[rep["law"]]
for i in range(int(sys.argv[2]) if len(sys.argv) > 2 else 1):
    c = pbt.Case(prefix=rep["choices"])
    print(worker.run_case(l, c))
print("; ".join(c.desc))
