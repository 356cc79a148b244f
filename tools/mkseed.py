#!/usr/bin/env python3
"""tools/mkseed.py SPEC.py: SPEC defines seed(id, prop, [(file, old, new)...], needs, breaks, demo);
writes seeded/<id>/ (patch.diff against /repo's working tree, demo.cpp, demo.sh, meta.json)."""
import sys, os, json, subprocess, difflib, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def seed(id, prop, edits, needs, breaks, demo):
    d = f"{V}/seeded/{id}"; os.makedirs(d, exist_ok=True)
    out = ""
    files = {}
    for f, o, n in edits:
        s = files.get(f, open(f"/repo/{f}").read())
        assert s.count(o) == 1, (id, f, s.count(o), o)
        files[f] = s.replace(o, n)
    for f, n in files.items():
        a = open(f"/repo/{f}").read()
        out += "".join(difflib.unified_diff(a.splitlines(1), n.splitlines(1), f"a/{f}", f"b/{f}"))
    open(f"{d}/patch.diff", "w").write(out)
    pre = '#include "rpp/base.h"\n'
    open(f"{d}/demo.cpp", "w").write(demo.lstrip("\n"))
    shutil.copy(f"{V}/tools/demo_template.sh", f"{d}/demo.sh"); os.chmod(f"{d}/demo.sh", 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{d}/meta.json", "w"), indent=1)
exec(open(sys.argv[1]).read())
