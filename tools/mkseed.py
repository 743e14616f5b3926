#!/usr/bin/env python3
"""dev tool: mkseed.py SPEC.py — (re)creates /verif/seeded/<id> from a spec: edits, demo source, meta."""
import json, os, subprocess, sys, shutil
spec = {}
exec(open(sys.argv[1]).read(), spec)
for s in spec["SEEDS"]:
    if len(sys.argv) > 2 and s["id"] not in sys.argv[2:]:
        continue
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    w = "/tmp/mkseed"
    if os.path.exists(w):
        shutil.rmtree(w)
    for f, a, b in s["edits"]:
        src = open("/repo/" + f).read()
        n = src.count(a)
        assert n == s.get("count", 1), (s["id"], f, n, a)
        for side, txt in (("a", src), ("b", src.replace(a, b))):
            p = os.path.join(w, side, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if side == "b" and os.path.exists(p):
                txt = open(p).read().replace(a, b)
            if side == "a" and os.path.exists(p):
                continue
            open(p, "w").write(txt)
    r = subprocess.run(["git", "diff", "--no-index", "--no-prefix", "a", "b"], cwd=w, capture_output=True, text=True)
    diff = r.stdout
    open(d + "/patch.diff", "w").write(diff)
    shutil.copy(s.get("demo_sh", "/verif/tools/demo_template.sh"), d + "/demo.sh")
    if "demo" in s:
        open(d + "/main.rs", "w").write(s["demo"].lstrip())
    for k, v in s.get("files", {}).items():
        p = os.path.join(d, k)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, "w").write(v.lstrip())
    json.dump({"property": s["property"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    print(s["id"])
