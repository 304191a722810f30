"""Property-based testing engine: generated JSON cases, parallel workers, 3x confirmation, structural shrinking,
known findings, saved inputs and evidence. A check subclasses Check; `run.py <ID>` executes it.

Everything random comes from random.Random("<VERIF_SEED>:<prop>:<index>"): a run is a function of the code and the seed.
"""
import hashlib, json, multiprocessing as mp, os, queue, random, shutil, sys, time, traceback
import gs
from gs import VERIF, DriverDied

class Violation(Exception):
    """The property does not hold on this case."""

class Skip(Exception):
    """The case lies outside the property's domain (only shrunk cases get here; generators construct valid ones)."""

class Report:
    """What one worker explored."""
    def __init__(self):
        self.evals = 0; self.labels = {}; self.keys = set(); self.samples = []; self.excluded = {}
    def ev(self, n=1): self.evals += n
    def label(self, *names):
        for n in names: self.labels[n] = self.labels.get(n, 0) + 1
    def exclude(self, name, n=1): self.excluded[name] = self.excluded.get(name, 0) + n
    def nontrivial(self, key):
        if not isinstance(key, str): key = json.dumps(key, sort_keys=True)
        self.keys.add(hashlib.blake2b(key.encode("utf-8", "surrogatepass"), digest_size=8).digest())
    def sample(self, x, cap=3):
        if len(self.samples) < cap: self.samples.append(x)
    def merge(self, o):
        self.evals += o.evals; self.keys |= o.keys
        for a, b in ((self.labels, o.labels), (self.excluded, o.excluded)):
            for k, v in b.items(): a[k] = a.get(k, 0) + v
        self.samples += o.samples

class Ctx:
    """A scratch directory and the drivers running in it."""
    def __init__(self, exes, check=None):
        self.exes, self.check = exes, check
        self.dir = None; self.drivers = {}
        self.seq = 0
    def open(self):
        if self.dir is None:
            self.dir = gs.scratch()
        return self.dir
    def driver(self, target="gsdrv", timeout=None):
        self.open()
        if target not in self.drivers:
            self.drivers[target] = gs.Driver(self.exes[target], self.dir, timeout=(timeout or getattr(self.check, "timeout", 40)) * (4 if self.exes[target].endswith("-asan") else 1))
        return self.drivers[target]
    def path(self, *p): return os.path.join(self.open(), *p)
    def fresh(self, prefix="d"):
        self.seq += 1
        return "%s%d" % (prefix, self.seq)
    def write(self, name, data):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, "wb") as f: f.write(data if isinstance(data, bytes) else data.encode("utf-8", "surrogateescape"))
        return p
    def rmdb(self, name): shutil.rmtree(self.path(name + ".db"), ignore_errors=True)
    def reset(self):
        for d in self.drivers.values(): d.kill()
        self.drivers = {}
        if self.dir: gs.drop(self.dir)
        self.dir = None

class Check:
    prop = "C00"; title = ""; level = "exploration"; technique = "property-based testing"
    rule = ""               # how cases are made, what makes one non-trivial
    targets = ("gsdrv",)
    asan = True             # thorough tier: every fourth worker runs the driver built with AddressSanitizer
    quick = 200; thorough = 2000      # number of cases
    quick_s = 25; thorough_s = 900    # wall cap of the generated phase (reaching it is reported, never a violation)
    recycle = 100           # cases run in one driver process before it is replaced
    timeout = 40
    workers = 8
    attempts = 6            # extra replays of a failure that does not reproduce every time
    assumptions = []
    def gen(self, r, i, tier): raise NotImplementedError
    def run(self, ctx, case, rep): raise NotImplementedError
    def setup(self, exes): pass
    def valid(self, case): return True
    def describe(self, case): return case

def one(check, ctx, case, rep):
    """None when the property held, else the failure text."""
    try:
        check.run(ctx, case, rep)
        return None
    except Violation as e:
        ctx.reset(); return str(e)
    except DriverDied as e:
        ctx.reset(); return "process died: %s" % e
    except Skip:
        ctx.reset(); rep.label("skipped"); return None

def gen_case(check, seed, i, tier):
    return check.gen(random.Random("%d:%s:%d" % (seed, check.prop, i)), i, tier)

def worker(check, exes, seed, tier, w, n, deadline, out, stop):
    rep = Report(); ctx = Ctx(exes, check); done = 0
    session = []
    try:
        for i in range(w, n, check.workers):
            if stop.is_set() or time.monotonic() > deadline: break
            if len(session) >= check.recycle:
                ctx.reset(); session = []
            case = gen_case(check, seed, i, tier)
            session.append(i)
            msg = one(check, ctx, case, rep)
            done += 1
            if msg is not None:
                out.put(("fail", w, i, list(session), msg))
                session = []
        out.put(("done", w, done, rep, None))
    except BaseException:
        out.put(("crash", w, traceback.format_exc(), None, None))
    finally:
        ctx.reset()

def fails(check, exes, cases):
    """Runs a sequence of cases in a fresh context; failure text of the last one, or None."""
    ctx = Ctx(exes, check); rep = Report(); msg = None
    try:
        for k, c in enumerate(cases):
            msg = one(check, ctx, c, rep)
            if msg is not None: return msg
    finally:
        ctx.reset()
    return None

def shrink(check, exes, case, msg, budget):
    """Greedy structural shrinking of a JSON case that keeps failing."""
    end = time.monotonic() + budget
    best, bmsg = case, msg
    died = "timeout" in msg
    ctx = Ctx(exes, check); rep = Report()
    def attempt(c):
        nonlocal best, bmsg
        if time.monotonic() > end or not safe_valid(check, c): return False
        try:
            m = one(check, ctx, c, rep)
        except Exception:
            ctx.reset(); return False
        if m is None or ("timeout" in m) != died: return False
        best, bmsg = c, m
        return True
    def get(c, path):
        for p in path: c = c[p]
        return c
    def with_(c, path, val):
        c = json.loads(json.dumps(c))
        if not path: return val
        x = c
        for p in path[:-1]: x = x[p]
        x[path[-1]] = val
        return c
    def paths(c, pre=()):
        yield pre
        if isinstance(c, dict):
            for k in c: yield from paths(c[k], pre + (k,))
        elif isinstance(c, list):
            for k in range(len(c)): yield from paths(c[k], pre + (k,))
    progress = True
    while progress and time.monotonic() < end:
        progress = False
        for p in list(paths(best)):
            try: v = get(best, p)
            except (KeyError, IndexError, TypeError): continue
            if isinstance(v, list) and v and p:
                size = len(v)
                while size >= 1:
                    k = 0
                    while True:
                        try: v = get(best, p)
                        except (KeyError, IndexError, TypeError): break
                        if not isinstance(v, list) or k >= len(v) or time.monotonic() > end: break
                        if attempt(with_(best, p, v[:k] + v[k + size:])): progress = True
                        else: k += size
                    size //= 2
            elif isinstance(v, str) and len(v) > 1 and getattr(check, "shrink_strings", False):
                size = len(v) // 2
                while size >= 1:
                    k = 0
                    while True:
                        try: v = get(best, p)
                        except (KeyError, IndexError, TypeError): break
                        if not isinstance(v, str) or k >= len(v) or time.monotonic() > end: break
                        if attempt(with_(best, p, v[:k] + v[k + size:])): progress = True
                        else: k += size
                    size //= 2
            elif isinstance(v, bool): 
                if v and p and attempt(with_(best, p, False)): progress = True
            elif isinstance(v, int) and p and v > 0:
                for t in (0, 1, v // 2, v - 1):
                    if 0 <= t < v and attempt(with_(best, p, t)): progress = True; break
    ctx.reset()
    return best, bmsg

def safe_valid(check, c):
    try: return bool(check.valid(c))
    except Exception: return False

def load_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            if line.startswith("{"):
                d = json.loads(line)
                if d.get("property") == prop: out.append(d)
    return out

def write_replay(check, seed, tier, i, cases, msg, asan=False):
    d = os.path.join(VERIF, "replays")
    os.makedirs(d, exist_ok=True)
    h = hashlib.sha256(json.dumps(cases, sort_keys=True).encode()).hexdigest()[:10]
    p = os.path.join(d, "%s_%s.json" % (check.prop, h))
    with open(p, "w") as f:
        json.dump({"property": check.prop, "seed": seed, "tier": tier, "index": i, "failure": msg, "cases": cases, "asan": asan,
                   "run": "python3 tools/run.py %s --replay %s" % (check.prop, os.path.relpath(p, VERIF))}, f, indent=1)
    return os.path.relpath(p, VERIF)

def evidence(check, tier, seed, rep, wall, violations, extra):
    cov = {"evaluations": rep.evals, "distinct_nontrivial": len(rep.keys), "rule": check.rule,
           "samples": rep.samples[:6] or ["(none: the run stopped before a sample was taken)"],
           "classes": dict(sorted(rep.labels.items())), "excluded_by_construction": rep.excluded}
    cov.update(extra)
    p = os.path.join(VERIF, "evidence", check.prop + ".json")
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "w") as f:
        json.dump({"property": check.prop, "tier": tier, "seed": seed, "level": check.level, "coverage": cov,
                   "assumptions": check.assumptions, "wall_s": round(wall, 2), "violations": violations}, f, indent=1)

def main(check, argv):
    t0 = time.monotonic()
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv: tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"): tier = "quick"
    try: seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError: seed = 1
    import build
    try:
        asan = check.asan and "gsdrv" in check.targets and (tier == "thorough" or "VERIF_ASAN" in os.environ)
        exes = build.build(*check.targets + (("gsdrv-asan",) if asan else ()))
    except RuntimeError as e:
        sys.stderr.write("cannot build /repo: %s\n" % e); return 2
    tb = time.monotonic() - t0
    def exes_of(w): return dict(exes, gsdrv=exes["gsdrv-asan"]) if asan and (w % 4 == 3 or os.environ.get("VERIF_ASAN") == "all") else exes
    check.setup(exes)
    if "--replay" in argv:
        f = json.load(open(argv[argv.index("--replay") + 1]))
        if f.get("asan"): exes = dict(exes, gsdrv=build.build("gsdrv-asan")["gsdrv-asan"])
        m = fails(check, exes, f["cases"])
        print("reproduced: " + m if m else "held"); return 1 if m else 0
    rep = Report(); violations = 0
    findings_seen = []
    for k in load_findings(check.prop):
        if k.get("status") != "open": continue
        m = fails(check, exes, [k["case"]])
        if m is not None:
            print("KNOWN-FINDING: property=%s %s" % (check.prop, k["what"])); findings_seen.append(k["id"])
    # saved inputs: shrunk failures of past planted bugs and repaired defects
    failures = []
    cdir = os.path.join(VERIF, "corpus", check.prop)
    saved = sorted(os.listdir(cdir)) if os.path.isdir(cdir) else []
    if saved:
        ctx = Ctx(exes, check)
        for name in saved:
            for c in json.load(open(os.path.join(cdir, name)))["cases"]:
                m = one(check, ctx, c, rep)
                if m is not None: failures.append((-1, [c], m))
        ctx.reset()
    n = int(os.environ.get("VERIF_CASES", check.quick if tier == "quick" else check.thorough))
    cap = float(os.environ.get("VERIF_CAP", check.quick_s if tier == "quick" else check.thorough_s))
    exes_f = exes; asan_cases = 0
    done = 0; irrepro = []; flaky = False
    if not failures:
        out = mp.Queue(); stop = mp.Event()
        deadline = time.monotonic() + cap
        ps = [mp.Process(target=worker, args=(check, exes_of(w), seed, tier, w, n, deadline, out, stop)) for w in range(check.workers)]
        for p in ps: p.start()
        live = len(ps); raw = []; crashed = None
        while live:
            try: kind, w, a, b, c = out.get(timeout=5)
            except queue.Empty:
                if not any(p.is_alive() for p in ps) and out.empty():
                    crashed = crashed or "a worker ended without a report"; break
                continue
            if kind == "done": live -= 1; done += a; rep.merge(b); asan_cases += a if exes_of(w) is not exes else 0
            elif kind == "crash": live -= 1; crashed = a; stop.set()
            elif kind == "fail":
                raw.append((a, b, c, w))
                if len(raw) >= 3: stop.set()
        for p in ps: p.join(30)
        if crashed and not raw:
            sys.stderr.write("check error: %s\n" % crashed)
            return 2
        # confirmation is bounded too: a failure that could not be reproduced by then is reported in the evidence only
        confirm_end = time.monotonic() + float(os.environ.get("VERIF_CONFIRM_S", "200"))
        for i, session, msg, w in sorted(raw)[:4]:
            if time.monotonic() > confirm_end:
                irrepro.append({"index": i, "failure": msg[:400], "reproduced": "not tried: out of time"}); continue
            exes_f = exes_of(w)
            case = gen_case(check, seed, i, tier)
            hits = [fails(check, exes_f, [case]) for _ in range(3)]
            if all(hits):
                failures.append((i, [case], hits[0])); break
            cases = [gen_case(check, seed, j, tier) for j in session]
            if len(cases) > 1:
                hits2 = []
                while len(hits2) < 3 and all(hits2) and time.monotonic() < confirm_end: hits2.append(fails(check, exes_f, cases))
                if len(hits2) == 3 and all(hits2):
                    failures.append((i, cases, hits2[0])); break
            # plans are sampled and threads scheduled, so a real failure may need several attempts: two more reproductions confirm it
            for _ in range(check.attempts):
                if time.monotonic() > confirm_end or sum(1 for h in hits if h and "timeout" not in h) >= 2: break
                hits.append(fails(check, exes_f, [case]))
            if sum(1 for h in hits if h and "timeout" not in h) >= 2:
                flaky = True
                failures.append((i, [case], [h for h in hits if h][0])); break
            irrepro.append({"index": i, "failure": msg[:400], "reproduced": sum(1 for h in hits if h)})
        real = [x for x in sorted(raw) if "timeout" not in x[2]]
        if not failures and check.attempts > 6 and len(real) >= 3:      # different cases failed in one run: no accident
            i, session, msg, w = real[0]; flaky = True
            failures.append((i, [gen_case(check, seed, i, tier)], msg)); exes_f = exes_of(w)
    for i, cases, msg in failures[:1]:
        violations += 1
        if len(cases) == 1 and not flaky:
            c, m = shrink(check, exes_f, cases[0], msg, float(os.environ.get("VERIF_SHRINK_S", "45")))
            cases = [c]; msg = m
        p = write_replay(check, seed, tier, i, cases, msg, exes_f is not exes)
        print("failure: " + msg[:3000])
        print("VIOLATION property=%s replay=%s" % (check.prop, p))
    wall = time.monotonic() - t0
    evidence(check, tier, seed, rep, wall, violations,
             {"cases_run": done, "cases_planned": n, "stopped_by_wall_cap": bool(done < n and not violations),
              "cases_under_address_sanitizer": asan_cases, "saved_inputs_replayed": len(saved), "known_findings_still_failing": findings_seen,
              "failures_not_reproduced": irrepro, "build_s": round(tb, 1)})
    if irrepro: print("note: %d failing case(s) did not reproduce in a fresh process; see the evidence file" % len(irrepro))
    print("%s %s seed=%d cases=%d/%d evaluations=%d nontrivial=%d violations=%d wall=%.1fs" %
          (check.prop, tier, seed, done, n, rep.evals, len(rep.keys), violations, wall))
    return 1 if violations else 0

