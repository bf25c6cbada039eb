"""mkbug.bug(id, property, [(file, old, new, nth)], needs, breaks, demo): writes seeded/<id>/{patch.diff,demo.sh,demo.py,meta.json} from textual edits of /repo's HEAD"""
import os, json, difflib, subprocess
def bug(id, prop, edits, needs, breaks, demo):
    d = "/verif/seeded/" + id
    os.makedirs(d, exist_ok=True)
    src, new = {}, {}
    for e in edits:
        f, o, n = e[:3]
        if f not in src:
            src[f] = new[f] = subprocess.check_output(["git", "-C", "/repo", "show", "HEAD:" + f]).decode("utf8", "surrogateescape")
        t = new[f]
        k = t.count(o)
        want = e[3] if len(e) > 3 else None
        assert k, (id, f, "text not found")
        if want is None:
            assert k == 1, (id, f, "%d occurrences" % k)
            new[f] = t.replace(o, n)
        else:
            p = -1
            for _ in range(want + 1):
                p = t.index(o, p + 1)
            new[f] = t[:p] + n + t[p + len(o):]
    out = ""
    for f in src:
        crlf = "\r\n" in src[f]
        out += "diff --git a/%s b/%s\n" % (f, f)
        out += "".join(difflib.unified_diff(src[f].splitlines(True), new[f].splitlines(True), "a/" + f, "b/" + f))
    open(d + "/patch.diff", "w", errors="surrogateescape", newline="").write(out)
    open(d + "/demo.sh", "w").write('#!/bin/bash\n# exit 0 when the property holds\nexport PYTHONPATH=/repo/_build/src HOME=$(mktemp -d)\ntrap \'rm -rf "$HOME"\' EXIT\n/opt/vp/venv/bin/python3 "$(dirname "$0")/demo.py"\n')
    open(d + "/demo.py", "w").write("import os, sys, tempfile\nimport numpy as np\nimport riptide_cpp as rc\n" + demo)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    subprocess.check_call(["git", "-C", "/repo", "apply", "--check", d + "/patch.diff"])
    print("ok", id)
