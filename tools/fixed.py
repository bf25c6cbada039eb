"""adds 'fixed:' entries to known_findings.json:  fixed.py PROP id-slug 'substring of the commit subject' 'what'"""
import sys, json, subprocess
log = subprocess.check_output(["git", "-C", "/repo", "log", "--format=%h %s"], text=True).splitlines()
k = json.load(open("/verif/known_findings.json"))
def add(prop, slug, sub):
    m = [l for l in log if sub in l]
    assert len(m) == 1, (sub, m)
    h, s = m[0].split(" ", 1)
    what = s.replace("fix: ", "")
    if any(x["id"] == slug for x in k["findings"]):
        return
    k["findings"].append({"property": prop, "id": slug, "status": "fixed", "what": "fixed: property=%s %s %s" % (prop, h, what)})
for line in sys.stdin:
    line = line.strip()
    if line:
        add(*[x.strip() for x in line.split("|")])
json.dump(k, open("/verif/known_findings.json", "w"), indent=1)
