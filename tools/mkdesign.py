"""Writes DESIGN.md from the texts below, the laws' own docstrings, the checks' assumptions, known_findings.json and seeded/."""
import ast, glob, json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
idx = json.load(open(V + "/checks/index.json"))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
SCALE = 5

HEAD = open(V + "/tools/design_head.md").read()
TAIL = open(V + "/tools/design_tail.md").read()
TEXT = {}
cur = None
for line in open(V + "/tools/design_props.md"):
    if line.startswith("## "):
        cur = line[3:].split()[0]
        TEXT[cur] = ""
    elif cur:
        TEXT[cur] += line


def module(pid):
    f = V + "/checks/%s.py" % pid
    if not os.path.exists(f):
        return [], "", []
    t = ast.parse(open(f).read())
    laws, rule, ass = [], "", []
    env = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
            if n.targets[0].id == "RULE":
                try: rule = ast.literal_eval(n.value)
                except ValueError: rule = ""
            if n.targets[0].id == "ASSUMPTIONS":
                try: ass = ast.literal_eval(n.value)
                except ValueError: ass = []
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and getattr(d.func, "id", "") == "law":
                    try:
                        a = [ast.literal_eval(x) for x in d.args]
                    except ValueError:
                        a = []
                    laws.append((n.name, a, (ast.get_docstring(n) or "").split("\n")[0]))
    return laws, rule, ass


kf = json.load(open(V + "/known_findings.json"))["findings"]
seeded = {}
for m in sorted(glob.glob(V + "/seeded/*/meta.json")):
    d = json.load(open(m))
    d["id"] = os.path.basename(os.path.dirname(m))
    seeded.setdefault(d["property"], []).append(d)
caught = json.load(open(V + "/tools/caught.json")) if os.path.exists(V + "/tools/caught.json") else {}

out = [HEAD]
out.append("\n# Properties\n")
for p in props:
    i = p["id"]
    out.append("\n## %s %s%s\n" % (i, p["title"], "" if i in idx else " (not claimed)"))
    out.append("*Property.* %s\n" % p["statement"])
    out.append("*Anchored in* %s.\n" % ", ".join(p["anchors"]["files"]))
    if TEXT.get(i):
        out.append(TEXT[i].strip() + "\n")
    laws, rule, ass = module(i)
    if laws and i in idx:
        out.append("Laws (cases in the quick run):\n")
        for n, a, doc in laws:
            q = a[0] * SCALE if a else None
            out.append("- `%s`%s: %s" % (n, " (%d)" % q if q else "", doc or "see the code"))
        out.append("")
        if rule:
            out.append("Generated and non-trivial: %s.\n" % rule)
        if ass:
            out.append("Bounds and assumptions:\n" + "\n".join("- " + x for x in ass) + "\n")
        ev = V + "/evidence/%s.json" % i
        cost = json.load(open(V + "/tools/cost.json")).get(i) if os.path.exists(V + "/tools/cost.json") else None
        if cost:
            out.append("Cost: about %d s for %s cases (quick tier, 8 cores).\n" % (cost[0], cost[1]))
    f = [k for k in kf if k["property"] == i]
    if f:
        out.append("Defects found here (%d):\n" % len(f) + "\n".join("- " + (k["what"].split(" ", 2)[2] if k["what"].startswith("fixed:") else "open: " + k["what"]) for k in f) + "\n")
    if i in seeded:
        out.append("Planted bugs:\n" + "\n".join("- `%s` (%s): %s" % (d["id"], caught.get(d["id"], "detection not recorded"), d["needs"]) for d in seeded[i]) + "\n")
out.append(TAIL)
open(V + "/DESIGN.md", "w").write("\n".join(out))
print("DESIGN.md: %d lines" % "\n".join(out).count("\n"))
