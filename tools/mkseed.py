#!/usr/bin/env python3
"""mkseed.py SPEC.py...: writes /verif/seeded/<id>/ from a spec defining ID, PROP, NEEDS, WHAT, EDITS [(file, old, new)], DEMO (python text), CLI (no driver)."""
import difflib, json, os, shutil, stat, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for f in sys.argv[1:]:
    s = {}
    exec(open(f).read(), s)
    d = os.path.join(V, "seeded", s["ID"]); os.makedirs(d, exist_ok=True)
    new = {}
    for file, old, repl in s["EDITS"]:
        t = new.get(file) or open("/repo/" + file, newline="").read()
        if "\r\n" in t:
            old, repl = old.replace("\n", "\r\n"), repl.replace("\n", "\r\n")
        n = t.count(old)
        assert n == 1, "%s: %d matches in %s of\n%s" % (s["ID"], n, file, old)
        new[file] = t.replace(old, repl)
    with open(d + "/patch.diff", "w", newline="") as o:
        for file, t in new.items():
            a = open("/repo/" + file, newline="").read().split("\n"); b = t.split("\n")
            a = [x + "\n" for x in a[:-1]] + ([a[-1]] if a[-1] else []); b = [x + "\n" for x in b[:-1]] + ([b[-1]] if b[-1] else [])
            for l in difflib.unified_diff(a, b, "a/" + file, "b/" + file):
                o.write(l if l.endswith("\n") else l + "\n\\ No newline at end of file\n")
    T = V + "/tools/seed_tmpl/"
    shutil.copy(T + "demo.sh", d)
    for x in ("gsdrv.cpp", "lib.py"):
        if not s.get("CLI") or x == "lib.py":
            shutil.copy(T + x, d)
    open(d + "/demo.py", "w").write("from lib import *\n" + s["DEMO"].strip() + "\n")
    json.dump({"property": s["PROP"], "needs": s["NEEDS"], "what_it_breaks": s["WHAT"]}, open(d + "/meta.json", "w"), indent=1)
    print("wrote", d)
