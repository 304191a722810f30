#!/usr/bin/env python3
"""seedtest.py ID... [-t] [-c P1,P2] [-n]: tries planted changes in private copies of /repo and /verif (mount namespaces).
Builds, runs the demo without and with the patch, with -t the stable tests, and the check of its property (or those of -c).
-n: no patch (the checks must be quiet)."""
import json, os, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor
args = sys.argv[1:]
tests = "-t" in args; args = [a for a in args if a != "-t"]
only = None
if "-c" in args:
    k = args.index("-c"); only = args[k + 1].split(","); del args[k:k + 2]
par = 3
if "-j" in args:
    k = args.index("-j"); par = int(args[k + 1]); del args[k:k + 2]
nodemo = "-d" in args; args = [a for a in args if a != "-d"]
def one(i):
    src = "/verif/seeded/" + i
    meta = json.load(open(src + "/meta.json"))
    props = only or [meta["property"]]
    W = "/dev/shm/seed_" + i
    shutil.rmtree(W, ignore_errors=True); os.mkdir(W)
    out = []
    try:
        subprocess.run(["cp", "-a", "/repo", W + "/repo"], check=True); subprocess.run(["chown", "-R", "root:root", W + "/repo"], check=True)
        shutil.copytree("/verif", W + "/verif", ignore=shutil.ignore_patterns(".git", "seeded", "replays"), symlinks=True)
        shutil.copytree(src, W + "/demo", ignore=shutil.ignore_patterns("*.diff", "meta.json"))
        def ns(cmd, timeout=1000):
            full = "mount --bind %s/repo /repo && mount --bind %s/verif /verif && cd %s && %s" % (W, W, "/verif" if "run.py" in cmd else "/repo", cmd)
            p = subprocess.run(["unshare", "-Urm", "--pid", "--fork", "--kill-child", "--mount-proc", "bash", "-c", full], stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, env=dict(os.environ, VERIF_SEED=os.environ.get("VERIF_SEED", "1"), VERIF_TIER="quick"))
            return p.returncode, p.stdout.decode(errors="replace")
        if not nodemo:
            ns("bash /opt/vp/build.sh")
            rc, o = ns("bash %s/demo/demo.sh" % W, 300)
            out.append("demo clean: %s %s" % ("ok" if rc == 0 else "BAD rc=%d" % rc, "" if rc == 0 else o[-800:]))
        r = subprocess.run(["git", "apply", src + "/patch.diff"], cwd=W + "/repo", capture_output=True, text=True)
        if r.returncode:
            return i, out + ["PATCH DOES NOT APPLY " + r.stderr]
        if not nodemo or tests:
            rc, o = ns("bash /opt/vp/build.sh")
            if rc:
                return i, out + ["DOES NOT BUILD " + "\n".join(l for l in o.split("\n") if "error" in l)[:1500]]
        if not nodemo:
            rc, o = ns("bash %s/demo/demo.sh" % W, 300)
            out.append("demo patched: %s %s" % ("ok rc=%d" % rc if rc else "BAD (passes)", o[-500:].strip()))
        if tests:
            rc, o = ns("bash /opt/vp/test.sh /tmp/out_%s.json" % i)
            base = json.load(open("/opt/vp/BASELINE.json"))
            st = base["stable"]
            got = set(json.load(open("/tmp/out_%s.json" % i))["passed"]); os.unlink("/tmp/out_%s.json" % i)
            miss = [t for t in st if t not in got] if isinstance(st, list) else ["?%s" % list(base)]
            out.append("tests: %s" % ("ok" if not miss else "BAD %s" % miss[:5]))
        for p in props:
            t0 = time.time()
            rc, o = ns("python3 tools/run.py %s" % p)
            ls = [l for l in o.split("\n") if l.startswith("VIOLATION")]
            out.append("check %s: %s %.0fs %s" % (p, "CAUGHT" if rc == 1 and ls else "MISSED rc=%d" % rc, time.time() - t0, o[-700:].strip() if rc not in (0,) else ""))
    except Exception as e:
        out.append("EXC %r" % e)
    finally:
        shutil.rmtree(W, ignore_errors=True)
    return i, out
with ThreadPoolExecutor(par) as ex:
    for i, o in ex.map(one, args):
        print("==", i); print("\n".join("   " + x for x in o), flush=True)
