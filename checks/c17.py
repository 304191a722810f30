import re
from history import *
import c01

TOK = re.compile(r'<([^<>"{}|^`\\\x00-\x20]|\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8})*>|"(?:[^"\\\n\r]|\\[tbnrf"\'\\]|\\u[0-9A-Fa-f]{4}|\\U[0-9A-Fa-f]{8})*"(?:@[A-Za-z]+(?:-[A-Za-z0-9]+)*|\^\^<[^<>" ]*>)?|_:[^\s.]+|[ \t]+|\.')
ESC = {"t": "\t", "b": "\b", "n": "\n", "r": "\r", "f": "\f", '"': '"', "'": "'", "\\": "\\"}
def unesc(s):
    return re.sub(r'\\(u[0-9A-Fa-f]{4}|U[0-9A-Fa-f]{8}|.)', lambda m: ESC[m[1]] if m[1] in ESC else chr(int(m[1][1:], 16)), s)

def term(x):
    if x[0] == '<': return U(unesc(x[1:-1]))
    if x[0] == '_': return U(x)
    i = x.rindex('"'); s = unesc(x[1:i]); r = x[i + 1:]
    if r[:1] == '@': return L(s, r[1:])
    return L(s, None, r[3:-1]) if r else L(s)

def read_nt(text):
    """N-Triples as the W3C grammar has it, independently of gStore's reader."""
    out = []
    for n, line in enumerate(text.split("\n"), 1):
        pos = 0; ts = []
        while pos < len(line):
            m = TOK.match(line, pos)
            if not m: raise Violation("line %d of the exported file is not an N-Triples statement (at column %d): %s" % (n, pos + 1, line[:400]))
            if m[0].strip(): ts.append(m[0])
            pos = m.end()
        if not ts: continue
        if len(ts) != 4 or ts[3] != '.' or ts[0][0] == '"' or ts[1][0] != '<': raise Violation("line %d of the exported file is not an N-Triples statement: %s" % (n, line[:400]))
        out.append(tuple(tt(term(x)) for x in ts[:3]))
    return out

class C17(HistoryCheck):
    prop = "C17"
    title = "An exported database is a document that rebuilds exactly the same triples"
    technique = "round-trip property-based testing: database, exported file, independent parse, rebuilt database"
    rule = ("a case builds a database (0-14 triples of plain names, up to 20 of IRIs and literals with escapes, control characters, non-ASCII text, languages and datatypes, or up to 3000), updates, "
            "saves and reopens it, and exports it between the steps and at the end. Each exported file is read by an independent N-Triples parser: its statements are those of the set model, each once; "
            "a database built from it then holds exactly that set and exports the same statements again; the exported database is unchanged. Non-trivial: an export after an update took effect, or of terms that need escapes; distinct by case.")
    quick = 900; thorough = 20000
    W = {"ins": 3, "del": 3, "fins": 2, "fdel": 1, "rich": 2, "delw": 1, "mod": 1, "save": 1, "reopen": 1, "export": 3}
    WB = {"fins": 4, "fdel": 4, "ins": 1, "del": 1, "reopen": 1, "export": 3}
    timeout = 60
    def rich(self, r, n):
        e = [jl(c01.gen_iri(r)) for _ in range(4)] + [U("_:b1")]
        p = [jl(c01.gen_iri(r)) for _ in range(3)]
        return jl([[r.choice(e), r.choice(p), r.choice(e) if r.random() < .3 else c01.gen_lit(r)] for _ in range(n)])
    def gen(self, r, i, tier):
        x = i % 25
        if x == 24: return gen_bulk(r, self.WB, r.randrange(2, 6))
        n = r.randrange(1, 9)
        if x % 2: c = gen_history(r, self.WB if r.random() < .3 else dict(self.W, rich=0), n)
        else:
            pool = Pool(r)
            c = gen_history(r, dict(self.W, rich=0), n, pool)
            c["init"] = c["init"][:4] + self.rich(r, r.choice([1, 3, 8, 20]))
        ops = []
        for o in c["ops"]:
            if r.random() < .25 and not x % 2: ops.append(["fins", self.rich(r, r.randrange(1, 6))])
            if r.random() < .15 and not x % 2: ops.append(["fdel", r.sample(c["init"], min(len(c["init"]), r.randrange(1, 5))) or self.rich(r, 1)])
            ops.append(o)
        c["ops"] = jl(ops)
        return c
    def valid_op(self, o): return o == ["export"] or HistoryCheck.valid_op(self, o)
    def op_domain(self, o):
        if o[0] == 'delw': return upd_ok(o[1])
        if o[0] == 'mod': return upd_ok([t for t in o[3] if t[0] == 't'])
        if o[0] in ('ins', 'del'): return not any(self.special(x) for t in o[1] for x in t)     # C07 decides what update texts can carry
        return self.lits_ok(o[1]) if o[0] in ('fins', 'fdel') else True
    def special(self, x): return x[0] == 'l' and any(c in x[1] for c in '\\"\n\r\t')
    def lits_ok(self, ts): return all(t[2][0] != 'l' or c01.CHECK.lit_ok(t[2]) for t in ts)
    def valid(self, case): return HistoryCheck.valid(self, case) and self.lits_ok(case["init"])
    def export(self, name):
        f = name + "_x.nt"
        x = self.ctx.driver().cmd("export", name, f)
        if x.get("exc"): raise Violation("export failed: %s" % x)
        b = open(self.ctx.path(f), "rb").read()
        try: return f, b.decode("utf-8")
        except UnicodeDecodeError as e: raise Violation("the exported file is not UTF-8: %s" % e)
    def round(self, what, rep):
        f, text = self.export(self.name)
        compare(read_nt(text), list(self.m.s), "statements exported " + what)
        n2 = self.ctx.fresh(); D = self.ctx.driver()
        x = D.cmd("build", n2, f if text else "")
        if not x.get("ok"): raise Violation("building from the exported file failed %s: %s" % (what, x))
        load_db(self.ctx, n2)
        compare(dump(self.ctx, n2), list(self.m.s), "database built from the file exported " + what)
        f2, t2 = self.export(n2)
        compare(read_nt(t2), list(self.m.s), "statements exported again from the rebuilt database, " + what)
        os.unlink(self.ctx.path(f)); os.unlink(self.ctx.path(f2))
        close_db(self.ctx, n2)
        rep.ev(); rep.label("export")
    def run(self, ctx, case, rep):
        self.start(ctx, case)
        changed = nt = False
        for i, op in enumerate(case["ops"]):
            if op[0] == "export":
                self.round("after step %d" % i, rep); nt |= changed
                self.verify("after the export of step %d" % i)
            else:
                nd, ni = self.do(op, rep); changed |= nd + ni > 0
        self.verify("at the end")
        self.round("at the end", rep); nt |= changed
        if any(self.special(x) for t in self.m.s for x in t): nt = True; rep.label("terms that need escapes")
        self.verify("after the last export")
        if nt: rep.nontrivial(case); rep.sample({"init": len(case["init"]), "ops": [o[0] for o in case["ops"]], "a triple": rdf.nt(sorted(self.m.s, key=repr)[-1:]).strip()[:200]})
        self.finish()
CHECK = C17()
