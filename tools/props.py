#!/usr/bin/env python3
"""Source of properties.jsonl and MANIFEST.json: `python3 tools/props.py` rewrites both."""
import importlib, json, os, subprocess, sys
here = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(here)
sys.path[:0] = [here, os.path.join(V, "checks")]
sys.dont_write_bytecode = True
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "state": [{"name": a, "meaning": b, "where": c} for a, b, c in state], "observe_at": observe}})
exec(open(os.path.join(here, "props_data.py")).read())

NA = {}     # id -> reason
def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for x in P:
            assert len(x["title"]) <= 80, x["id"]
            f.write(json.dumps(x) + "\n")
    checks, na = [], []
    for x in P:
        i = x["id"]
        if os.path.exists(os.path.join(V, "checks", i.lower() + ".py")) and i not in NA:
            c = importlib.import_module(i.lower()).CHECK
            assert c.prop == i
            checks.append({"property": i, "quick_cmd": "python3 tools/run.py %s" % i,
                           "thorough_cmd": "python3 tools/run.py %s --tier thorough" % i, "evidence_file": "evidence/%s.json" % i,
                           "technique": c.technique, "level": c.level,
                           "level_note": (c.note if isinstance(getattr(c, "note", None), str) else "") or ("Sampled, not exhaustive: " + c.rule + (" Assumes: " + "; ".join(c.assumptions) if c.assumptions else ""))})
        else:
            na.append({"property": i, "reason": NA.get(i, "the check for it is not built yet")})
    hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.split("\n")
    m = {"version": 1, "setup_cmd": "python3 tools/build.py " + " ".join(SETUP),
         "hooks": {"guard": "GSTORE_VERIF", "enable": "tools/build.py compiles /repo's sources with -DGSTORE_VERIF into /verif/build",
                   "source_commits": [h.split()[0] for h in hooks if "verification hook" in h]},
         "checks": checks, "not_applicable": na,
         "notes": "Every check is tools/run.py <ID>: it rebuilds what changed in /repo into /verif/build (content-hashed), runs the known findings and the saved inputs, then the generated cases. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    print(len(checks), "checks", len(na), "not applicable")
main()
