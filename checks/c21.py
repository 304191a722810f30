import os, re, shutil, subprocess, zipfile
import gs, rdf, pbt
from history import *
from c17 import read_nt
from c24 import figures

TOOLS = ("ginit", "gbuild", "gadd", "gsub", "gquery", "gshow", "gmonitor", "gexport", "gbackup", "grestore", "gdrop")
NAMES = ["tab", "tab2", "tabb", "d-1", "Tab", "kg_1", "a.b", "\u6570\u636e", "long" * 20]
ALL = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"
QLITS = [L("v0"), L("v1"), L("a b"), L("\u00e9\u65e5\u672c"), L("5", None, XSD + "integer"), L("2.5", None, XSD + "double"), L("hello", "en"), L("hello"), L("x^^y"), L("w" * 300), L("z", None, "http://x.org/dt"), L("it's <b> & ?x {y}")]

def cell(x):
    if x[0] == '<': return U(x[1:-1])
    m = re.fullmatch(r'"(.*)"(?:@([A-Za-z-]+)|\^\^<([^>]*)>)?', x, re.S)
    if not m: raise Violation("not a term: %r" % x)
    return L(m[1], m[2], m[3]) if m[2] or m[3] else L(m[1])

def table(text):
    """Rows of the last table printed between lines of dashes."""
    ls = text.split("\n"); d = [i for i, l in enumerate(ls) if re.fullmatch("-{5,}", l)]
    if len(d) < 3: raise Violation("no table is printed: %r" % text[-400:])
    rows = []
    for l in ls[d[-3] + 1:d[-1]]:
        if re.fullmatch("-{5,}", l): continue
        if l[:2] != "| " or l[-2:] != " |": raise Violation("broken line in a table: %r" % l)
        rows.append([c.strip() for c in l[2:-2].split(" | ")])
    return rows

class C21(pbt.Check):
    prop = "C21"
    title = "The command line tools act on the database they name, and on no other"
    technique = "stateful property-based testing of the tools against a model"
    rule = ("a case runs up to a dozen command lines of gbuild, gadd, gsub, gquery (queries and updates), gexport, gbackup, grestore and gdrop in one working directory, over up to three databases (names that are prefixes of each other, "
            "with special characters; inputs as files, zip archives of files and directories; exports and backups used as input again; databases that do not exist or exist already), and compares what gquery, gshow, gmonitor and the exported files show with a model. "
            "Non-trivial: a command that changed a database; distinct by case and step.")
    targets = TOOLS
    asan = False
    quick = 500; thorough = 12000; quick_s = 40
    recycle = 40
    timeout = 60
    ND = 3
    W = {"build": 5, "add": 4, "sub": 3, "update": 3, "export": 2, "backup": 3, "restore": 3, "drop": 2, "buildx": 2, "addx": 1, "subx": 1, "bad": 1}
    # ------------------------------------------------ generation
    def gen(self, r, i, tier):
        p = Pool(r); p.l = r.sample(QLITS, 6)
        c = {"names": r.sample(NAMES, self.ND), "ops": []}
        m = {}; exp = []; bak = []
        for _ in range(r.randrange(3, 13)):
            k = wchoice(r, self.W if m else {"build": 6, "bad": 1}); d = r.randrange(self.ND)
            if m and r.random() < (.5 if k not in ("build", "buildx") else .1): d = r.choice(sorted(m))
            if not m.get(d) and k in ("build", "buildx", "restore") and r.random() < .5: pass
            if k == "build":
                how = r.choice(["nt", "nt", "nt", "zip", "empty"])
                o = [k, d, how, self.files(r, p, how)]
            elif k == "add":
                how = r.choice(["nt", "nt", "zip", "dir"])
                o = [k, d, how, self.files(r, p, how)]
            elif k == "sub":
                ts = sorted(m.get(d, ()), key=repr)
                o = [k, d, r.sample(ts, min(len(ts), r.randrange(1, 5))) + p.triples(0, 3) or p.triples(1, 2)]
            elif k == "update":
                x = gen_op(r, r.choice(["ins", "ins", "del", "delw", "mod"]), p, Model(m.get(d, ())))
                if not x: continue
                o = [k, d, jl(x)]
            elif k == "export": o = [k, d, r.random() < .4]
            elif k == "backup": o = [k, d, r.choice(["", "bk%d", "bk%d/deep"])]
            elif k == "restore":
                if not bak: continue
                o = [k, d if r.random() < .15 else r.choice(bak)[0], r.randrange(len(bak))]
                if r.random() < .85: o[1] = bak[o[2]][0]
            elif k in ("buildx", "addx", "subx"):
                if not exp: continue
                o = [k, d, r.randrange(len(exp))]
            elif k == "drop": o = [k, d]
            else: o = [k, r.choice(["gbuild", "gadd", "gsub", "gquery", "gexport", "gbackup", "gdrop"]), r.choice(["system", "x.db"])]
            o = jl(o); c["ops"].append(o)
            s = sim(m, exp, bak, o)
        return jl(c)
    def files(self, r, p, how):
        if how == "empty": return []
        if how == "nt": return [["a.nt", p.triples(1, 10)]]
        n = r.choice([1, 1, 2, 3]); sub = how == "zip" and r.random() < .5
        names = []
        for j in range(n):
            while True:     # namesakes in different directories
                f = "%sf%d.nt" % (r.choice(["", "x/", "x/y/", "x/"]) if sub else "", r.randrange(2) if sub else j)
                if f not in names: names.append(f); break
        return [[f, p.triples(1, 6)] for f in names]
    def valid(self, case):
        if len(case["names"]) != self.ND or len(set(case["names"])) != self.ND or not all(n in NAMES for n in case["names"]): return False
        for o in case["ops"]:
            k = o[0]
            if k not in self.W or k != "bad" and not (isinstance(o[1], int) and 0 <= o[1] < self.ND): return False
            if k in ("build", "add"):
                if len(o) != 4 or (not o[3]) != (o[2] == "empty") or not all(len(f) == 2 and f[1] and valid_graph(f[1]) and re.fullmatch(r"(x/|x/y/)?[af][0-9]?\.nt", f[0]) for f in o[3]): return False
                if len({f[0] for f in o[3]}) != len(o[3]) or o[2] not in ("nt", "zip", "dir", "empty") or (o[2] == "nt" and len(o[3]) != 1): return False
            if k == "sub" and not (o[2] and valid_graph(o[2])): return False
            if k == "update" and not (HistoryCheck.valid_op(self, o[2]) and o[2][0] in ("ins", "del", "delw", "mod")): return False
        return True
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        return True
    # ------------------------------------------------ running
    def env(self, ctx):
        d = ctx.open(); marker = os.path.join(d, "data", "system", "system.nt")
        if not os.path.exists(marker):
            os.makedirs(os.path.dirname(marker), exist_ok=True)
            shutil.copy(os.path.join(gs.REPO, "data/system/system.nt"), marker)
            for f in ("slog.properties", "slog.stdout.properties"):
                with open(os.path.join(d, f), "w") as fh: fh.write("log4cplus.rootLogger=ERROR, A\nlog4cplus.appender.A=log4cplus::NullAppender\n")
            self.ctx = ctx
            self.tool("ginit")
            if not os.path.exists(ctx.path("system.db", "success.txt")): raise RuntimeError("ginit failed")
        return d
    def tool(self, exe, *args):
        e = dict(os.environ); e["OMP_NUM_THREADS"] = "2"
        p = subprocess.Popen([self.ctx.exes[exe]] + list(args), cwd=self.ctx.dir, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e, start_new_session=True, preexec_fn=gs._limit(6))
        try: out = p.communicate(timeout=self.timeout)[0]
        except subprocess.TimeoutExpired:
            p.kill(); p.communicate(); raise Violation("does not end within %d s: %s %s" % (self.timeout, exe, " ".join(args)))
        self.last = "%s %s" % (exe, " ".join(args))
        if p.returncode < 0 or p.returncode > 255: raise Violation("ends with signal %d: %s" % (-p.returncode, self.last))
        return out.decode("utf-8", "replace").replace("\r", "\n")
    def text(self, name, s):
        self.ctx.write(name, s); return name
    def src(self, how, files):
        """Writes the input; returns its path."""
        self.n += 1
        if how == "empty": return None
        if how == "nt": return self.text("in%d.nt" % self.n, rdf.nt(files[0][1]))
        if how == "dir":
            for n, ts in files: self.ctx.write("in%d/%s" % (self.n, n.replace("/", "_")), rdf.nt(ts))
            return "in%d" % self.n
        with zipfile.ZipFile(self.ctx.path("in%d.zip" % self.n), "w", zipfile.ZIP_DEFLATED if self.n % 2 else zipfile.ZIP_STORED) as z:
            if self.n % 3 == 0:
                for d in sorted({"/".join(n.split("/")[:k]) + "/" for n, _ in files for k in range(1, n.count("/") + 1)}): z.writestr(d, "")
            for n, ts in files: z.writestr(n, rdf.nt(ts))
        return "in%d.zip" % self.n
    def contents(self, d):
        name = self.names[d]; self.n += 1
        f = "r%d.txt" % self.n
        out = self.tool("gquery", "-db", name, "-q", "all.sparql", "-f", f)
        if not os.path.exists(self.ctx.path(f)): return None
        text = open(self.ctx.path(f), encoding="utf-8", errors="surrogateescape").read()
        os.unlink(self.ctx.path(f))
        ls = text.split("\n")
        if ls and ls[-1] == "": ls.pop()
        return [tuple(cell(c) for c in l.split("\t")) for l in ls[1:] if l != "[empty result]"]
    def look(self, d, what):
        got = self.contents(d); exp = self.m.get(d)
        if (got is None) != (exp is None): raise Violation("%s, database %s %s" % (what, self.names[d], "is there" if exp is None else "cannot be queried"))
        if exp is not None: compare(got, sorted(exp, key=repr), "contents of %s %s" % (self.names[d], what))
    def look_all(self, what):
        for d in range(self.ND): self.look(d, what)
        rows = table(self.tool("gshow"))
        exp = sorted([["system", "root"]] + [[self.names[d], "root"] for d in self.m])
        got = sorted(r[:2] for r in rows[1:])
        if rows[0][:2] != ["database", "creator"] or got != exp: raise Violation("gshow lists %s, there are %s (%s)" % (got, exp, what))
        for d in self.m:
            rows = table(self.tool("gmonitor", "-db", self.names[d]))
            got = {r[0]: r[1] for r in rows[1:] if len(r) == 2}
            f = figures(self.m[d])
            exp = {"database": self.names[d], "creator": "root", "triple_num": str(f["triples"]), "subject_num": str(f["subjects"]), "entity_num": str(f["entities"]), "literal_num": str(f["literals"]), "predicate_num": str(f["predicates"])}
            if any(got.get(k) != v for k, v in exp.items()): raise Violation("gmonitor reports %s, there is %s (%s)" % (got, exp, what))
    def done(self, out, ok, word):
        if (word in out) != ok: raise Violation("%s %s: %s" % (self.last, "does not succeed" if ok else "claims success", out[-500:]))
    def step(self, o, rep):
        k, d = o[0], o[1]; m = self.m
        if k == "bad":
            before = sorted(os.listdir(self.ctx.dir))
            if o[1] != "gbuild" and o[2] == "system" and o[1] in ("gquery", "gexport"): return False
            self.text("q.sparql", "INSERT DATA { <x> <y> <z> . }"); self.text("b.nt", "<x> <y> <z> .\n")
            a = {"gquery": ["-q", "q.sparql"], "gexport": ["-f", "exbad", "-z", "0"], "gbackup": ["-p", "bkbad"]}.get(o[1], [] if o[1] == "gdrop" else ["-f", "b.nt"])
            self.tool(o[1], "-db", o[2], *a)
            return False
        name = self.names[d]; there = d in m
        old = {x: set(s) for x, s in m.items()}
        if k in ("build", "buildx"):
            if k == "buildx":
                if o[2] >= len(self.exp) or not self.exp[o[2]]: return False
                path, ts = self.exp[o[2]]
            else: path = self.src(o[2], o[3]); ts = [t for f in o[3] for t in f[1]]
            out = self.tool("gbuild", "-db", name, *(["-f", path] if path else []))
            self.done(out, not there, "Build RDF database %s successfully!" % name)
            if not there: m[d] = set(tuple(tt(x) for x in t) for t in ts)
        elif k in ("add", "addx"):
            if k == "addx":
                if o[2] >= len(self.exp) or not self.exp[o[2]]: return False
                path, ts = self.exp[o[2]]; how = "nt"; n = 1
            else: how = o[2]; path = self.src(how, o[3]); ts = [t for f in o[3] for t in f[1]]
            out = self.tool("gadd", "-db", name, "-dir" if how == "dir" else "-f", path)
            self.done(out, there, "after inserted triples num")
            if there:
                if not re.search(r"after inserted triples num \d+,failed num 0,", out): raise Violation("correct files are reported as %s: %s" % (re.findall("after inserted.*", out), self.last))
                m[d] |= set(tuple(tt(x) for x in t) for t in ts)
        elif k in ("sub", "subx"):
            if k == "subx":
                if o[2] >= len(self.exp) or not self.exp[o[2]] or self.exp[o[2]][0].endswith(".zip"): return False
                path, ts = self.exp[o[2]]
            else: path = self.src("nt", [["a.nt", o[2]]]); ts = o[2]
            out = self.tool("gsub", "-db", name, "-f", path)
            self.done(out, there, "after remove, used")
            if there: m[d] -= set(tuple(tt(x) for x in t) for t in ts)
        elif k == "update":
            mo = Model(m.get(d, ()))
            text, nd, ni = mo.apply(o[2])
            out = self.tool("gquery", "-db", name, "-q", self.text("q%d.sparql" % self.n, text))
            self.n += 1
            self.done(out, there, "query database successfully")
            if there: m[d] = mo.s
        elif k == "export":
            self.n += 1; f = "ex%d" % self.n
            out = self.tool("gexport", "-db", name, "-f", f, *([] if o[2] else ["-z", "0"]))
            self.done(out, there, "exported successfully")
            fs = [os.path.join(dp, x) for dp, _, xs in os.walk(self.ctx.path(f)) for x in xs]
            if not there:
                self.exp.append(None)
                return False
            if len(fs) != 1 or not fs[0].endswith(".zip" if o[2] else ".nt"): raise Violation("the export leaves %s: %s" % (fs, self.last))
            if o[2]:
                with zipfile.ZipFile(fs[0]) as z:
                    if len(z.namelist()) != 1 or z.testzip(): raise Violation("the exported archive holds %s: %s" % (z.namelist(), self.last))
                    data = z.read(z.namelist()[0])
            else: data = open(fs[0], "rb").read()
            compare(read_nt(data.decode("utf-8", "surrogateescape")), sorted(m[d], key=repr), "exported file of %s" % name)
            self.exp.append((os.path.relpath(fs[0], self.ctx.dir), set(m[d])))
            return False
        elif k == "backup":
            self.n += 1
            base = o[2] % self.n if o[2] else "bkd%d" % self.n
            out = self.tool("gbackup", "-db", name, "-p", base)
            fs = sorted(x for x in os.listdir(self.ctx.path(base))) if os.path.isdir(self.ctx.path(base)) else []
            if not there:
                if fs: raise Violation("backup of an absent database leaves %s" % fs)
                self.bak.append(None); return False
            if len(fs) != 1 or not fs[0].startswith(name + ".db_"): raise Violation("the backup leaves %s: %s: %s" % (fs, self.last, out[-300:]))
            self.bak.append((d, base + "/" + fs[0], set(m[d])))
            return False
        elif k == "restore":
            if o[2] >= len(self.bak) or not self.bak[o[2]]: return False
            bd, path, ts = self.bak[o[2]]
            out = self.tool("grestore", "-db", name, "-p", path + ("/" if self.n % 2 else ""))
            self.n += 1
            self.done(out, bd == d, "Database %s restore done!" % name)
            if bd == d: m[d] = set(ts)
            if not os.path.isdir(self.ctx.path(path)): raise Violation("the backup is gone after: %s" % self.last)
        elif k == "drop":
            out = self.tool("gdrop", "-db", name)
            self.done(out, there, "is dropped successfully")
            m.pop(d, None)
            if os.path.exists(self.ctx.path(name + ".db")): raise Violation("files of the database remain after: %s" % self.last)
        return m != old
    def run(self, ctx, case, rep):
        self.ctx = ctx; self.env(ctx)
        self.names = case["names"]; self.m = {}; self.exp = []; self.bak = []; self.n = 0
        self.text("all.sparql", ALL)
        keep = set(os.listdir(ctx.dir))
        for i, o in enumerate(case["ops"]):
            ch = self.step(o, rep); rep.ev()
            rep.label("op " + o[0])
            if o[0] != "bad": self.look(o[1], "after step %d: %s" % (i, str(o)[:300]))
            if ch: rep.nontrivial([case, i])
        self.look_all("after " + str(case["ops"])[:500]); rep.ev()
        rep.sample({"names": self.names, "commands": [o[:2] if o[0] != "bad" else o for o in case["ops"]], "triples": {self.names[d]: len(s) for d, s in self.m.items()}})
        for d in list(self.m): self.tool("gdrop", "-db", self.names[d])
        for x in set(os.listdir(ctx.dir)) - keep:
            if os.path.isdir(ctx.path(x)): shutil.rmtree(ctx.path(x), ignore_errors=True)
            else: os.unlink(ctx.path(x))

def sim(m, exp, bak, o):
    """Approximate effect, for the generator."""
    k, d = o[0], o[1]; S = lambda fs: set(tuple(tt(x) for x in t) for f in fs for t in f[1])
    if k == "build" and d not in m: m[d] = S(o[3])
    elif k == "buildx" and d not in m and exp[o[2]] is not None: m[d] = set(exp[o[2]])
    elif k == "add" and d in m: m[d] |= S(o[3])
    elif k == "sub" and d in m: m[d] -= set(tuple(tt(x) for x in t) for t in o[2])
    elif k == "update" and d in m:
        mo = Model(m[d]); mo.apply(o[2]); m[d] = mo.s
    elif k == "export": exp.append(set(m[d]) if d in m else None)
    elif k == "backup": bak.append((d, set(m.get(d, ()))))
    elif k == "restore" and bak[o[2]][0] == d: m[d] = set(bak[o[2]][1])
    elif k == "drop": m.pop(d, None)
CHECK = C21()
