import os, re, shutil, subprocess
import gs, rdf, pbt, console
from gs import DriverDied
from history import *
from c17 import read_nt
from c21 import cell, table, ALL, C21

PRIV = ["query", "load", "unload", "update", "backup", "restore", "export"]
USERS = ["u1", "u2"]; DBS = ["dbxy", "dbxy2"]
PWS = ["pw1", "Secret-2", "a.b,c", "123456", "x%y&z", "p" * 40]
P = re.compile
E = lambda s: P(s + "$")
CLITS = [L("v0"), L("a b"), L("x;y"), L("#1"), L("p; q #r"), L("5", None, XSD + "integer"), L("hello", "en"), L("it's"), L(";"), L("z", None, "http://x.org/dt#t"), L("\u00e9\u65e5")]

class C25(pbt.Check):
    prop = "C25"
    title = "A console session does what its user may do, and only that"
    technique = "stateful property-based testing of the interactive console (on a pseudo terminal) against a model"
    rule = ("a case is a few sessions of gconsole: a user (root, one with some privileges, or none) logs in with right, wrong or no password (end of input) and types commands: create, use, drop, queries and updates on one or several lines, files of queries with comments, "
            "show, showdbs, backup, restore, export, addusr, delusr, setpswd, setpriv, pusr, showusrs. Every reply, the redirected output and the files left are compared with a model of users, passwords, privileges and databases; "
            "after the last session gquery and a root session show the same state. Non-trivial: a command that changed the state or was refused; distinct by case and step.")
    targets = ("gconsole", "ginit", "gquery", "gshow")
    asan = False
    quick = 300; thorough = 6000; quick_s = 40
    recycle = 25
    timeout = 40
    # ------------------------------------------------ generation
    def gen(self, r, i, tier):
        p = Pool(r); p.l = r.sample(CLITS, 6)
        if r.random() < .4:
            p.e = [U("http://ex.org/e#%d" % k) for k in range(5)]; p.p = [U("http://ex.org/p#%d" % k) for k in range(3)]
        us, ds, nb = {}, {}, 0; pr = {}
        ops = []
        for s in range(r.randrange(2, 6)):
            u = "root" if s == 0 or not us or r.random() < .4 else r.choice(sorted(us) * 3 + USERS)
            x = r.random()
            mode = "ok" if x < .78 or s == 0 else r.choice(["wrong1", "wrong3", "wrong7", "eof", "empty"])
            ops.append(["login", u, mode])
            if mode in ("wrong7", "eof") or (u != "root" and u not in us): continue
            cur = None
            for _ in range(r.randrange(2, 9)):
                d = r.choice(sorted(ds) * 4 + DBS)
                root = u == "root"
                w = {"create": 4 if len(ds) < 2 else 1, "use": 6 if cur is None and ds else 2, "drop": 1, "q": 4, "upd": 5, "file": 2, "show": 1, "showdbs": 1, "backup": 2, "restore": 2 if nb else 0, "export": 1, "pusr": 1, "setpswd": 1,
                     "addusr": (4 if len(us) < 2 else 1) if root else .3, "delusr": .7, "setpriv": 3 if root and us and ds else .3, "pdb": .3, "bad": .3}
                if not root: w["create"] = .3; w["drop"] = .5
                k = r.choices(list(w), list(w.values()))[0]
                m = Model(ds.get(cur, ()))
                if k == "create":
                    ts = p.triples(1, 8) if r.random() < .7 else None
                    o = [k, d, ts]
                    if root: ds.setdefault(d, Model(ts or ()).s)
                elif k == "use":
                    o = [k, d]
                    if d in ds and (root or pr.get((u, d), set()) >= {1, 2}): cur = d
                elif k == "drop":
                    o = [k, d]
                    if d in ds and d != cur and root: del ds[d]; pr = {x: v for x, v in pr.items() if x[1] != d}
                elif k == "q": o = [k, r.choice(["all", "all", "p", "lit"]), jl(p.triple()), r.random() < .3]
                elif k == "upd":
                    x = gen_op(r, r.choice(["ins", "ins", "del", "delw", "mod"]), p, m, 3)
                    if not x: continue
                    o = [k, jl(x), r.random() < .3]
                    if cur: m.apply(o[1]); ds[cur] = m.s
                elif k == "file":
                    xs = []
                    for _ in range(r.randrange(1, 4)):
                        x = gen_op(r, r.choice(["ins", "ins", "del", "q"]), p, m, 3)
                        if x: xs.append(jl(x)); m.apply(xs[-1])
                    o = [k, xs, r.randrange(8)]
                    if cur: ds[cur] = m.s
                elif k in ("show",): o = [k, r.choice([None, d])]
                elif k in ("showdbs", "pdb"): o = [k]
                elif k == "backup": o = [k]; nb += 1
                elif k == "restore": o = [k, d, r.randrange(nb)]
                elif k == "export": o = [k]
                elif k == "pusr": o = [k, r.choice([None, d]), None if r.random() < .5 else r.choice(USERS)]
                elif k == "setpswd": o = [k, None if r.random() < .5 else r.choice(USERS), r.choice(PWS), r.choice(["ok", "ok", "ok", "wrong7", "mismatch"])]
                elif k == "addusr":
                    o = [k, r.choice(USERS), r.choice(PWS), r.choice(["ok", "ok", "ok", "wrong1", "wrong7"])]
                    if root and o[3] != "wrong7": us.setdefault(o[1], 1)
                elif k == "delusr":
                    o = [k, r.choice(USERS), r.choice(["ok", "ok", "wrong7"])]
                    if root and o[2] == "ok": us.pop(o[1], None)
                elif k == "setpriv":
                    v = sorted(r.sample(range(7), r.choice([0, 1, 2, 3, 4, 6, 7])))
                    if r.random() < .5: v = sorted(set(v) | {0, 1, 2})
                    o = [k, r.choice(sorted(us) or USERS), d, v, r.choice(["ok", "ok", "ok", "wrong1", "wrong7"])]
                    if root and o[4] != "wrong7": pr[(o[1], d)] = set(v)
                else: o = [k, r.choice(["drop system", "create system", "use system", "use nope", "frobnicate", "create x.db", "sparql nofile", "drop nope", "use"])]
                ops.append(jl(o))
        return jl({"ops": ops})
    def valid(self, case):
        for o in case["ops"]:
            k = o[0]
            if k in ("create",) and not (o[1] in DBS and (o[2] is None or o[2] and valid_graph(o[2]))): return False
            if k == "upd" and not (HistoryCheck.valid_op(self, o[1]) and o[1][0] in ("ins", "del", "delw", "mod")): return False
            if k == "file" and not (o[1] and all(x == ["q"] or HistoryCheck.valid_op(self, x) for x in o[1])): return False
            if k == "q" and not (o[1] in ("all", "p", "lit") and valid_graph([o[2]])): return False
            if k == "setpriv" and not all(isinstance(x, int) and 0 <= x < 7 for x in o[3]): return False
        return True
    def op_domain(self, o): return C21.op_domain(self, o)
    # ------------------------------------------------ environment
    def env(self, ctx):
        C21.env(self, ctx); os.makedirs(ctx.path("bin"), exist_ok=True)
    def tool(self, *a): return C21.tool(self, *a)
    def text(self, *a): return C21.text(self, *a)
    def pw(self, u): return "123456" if u == "root" else self.us.get(u)
    def login(self, u, mode):
        c = console.Console(self.ctx.exes["gconsole"], self.ctx.dir, u, self.timeout)
        self.con = c; n = [0]; pw = self.rootpw if u == "root" else self.us.get(u)
        bad = {"wrong1": 1, "wrong3": 3, "wrong7": 7}.get(mode, 0)
        def answer():
            n[0] += 1
            if n[0] > 40: raise Violation("the console keeps asking for the password of %s" % u)
            if mode == "eof" and n[0] == 1: return "\x04"
            if pw is None: return "nopw\n"
            if mode == "empty" and n[0] == 1: return "\n"
            return (pw + "x" if n[0] <= bad else pw) + "\n"
        users = [0]
        def name():
            users[0] += 1
            return "nobody\n"
        ok, out = c.talk(None, [(E("Enter password: "), answer), (E("Enter user name: "), name)])
        exp = pw is not None and mode not in ("wrong7", "eof")
        if mode == "eof" and ok and n[0] > 1: exp = pw is not None      # asking again is as good as ending
        if ok != exp: raise Violation("%s (%s password%s) %s: %s" % (u, mode, "" if pw is not None else ", no such user", "is not let in" if exp else "is let in", out[-300:]))
        if not ok: c.kill(); self.con = None
        self.u = u if ok else None; self.cur = None
        return ok
    def end(self, line="quit;\n"):
        if self.con is None: return
        ok, out = self.con.talk(line)
        if ok: raise Violation("the session goes on after %r" % line)
        self.con.kill(); self.con = None; self.u = None
    def cmd(self, line, answers=()):
        ok, out = self.con.talk(line, answers)
        if not ok: raise Violation("the session ends at %r: %s" % (line, out[-300:]))
        return out
    def pwans(self, mode, pat="Enter your password: "):
        """Answers to the question for the own password; wrong ones are repeated as told."""
        n = [0]; pw = self.rootpw if self.u == "root" else self.us[self.u]
        def f():
            n[0] += 1
            if n[0] > 20: raise Violation("the console keeps asking for the password")
            if mode == "wrong7" or mode == "wrong1" and n[0] == 1: return pw + "x\n"
            return pw + "\n"
        return (E(pat), f)
    def may(self, d, *ps): return d in self.ds and (self.u == "root" or all((self.u, p, d) in self.priv for p in ps))
    def say(self, out, ok, word, what):
        if (word in out) != ok: raise Violation("%s by %s %s: %s" % (what, self.u, "is not done" if ok else "claims success", out[-500:]))
        if not ok: self.refused = True
    def lines(self, text, split):
        """The command typed on one or several lines."""
        if split:
            k = text.find("{"); j = text.rfind(" .", k)
            for x in sorted({k, j}, reverse=True):
                if x > 0: text = text[:x] + "\n" + text[x:]
        return text + ";\n"
    # ------------------------------------------------ one command
    def step(self, o, rep):
        k = o[0]; u = self.u; what = "%s" % o
        if k == "login":
            self.end("\x04" if self.n % 2 else "quit;\n"); self.n += 1
            self.login(o[1], o[2]); self.refused = u is None or o[2] != "ok"
            return
        if u is None: return
        root = u == "root"; ds = self.ds
        if k == "create":
            d, ts = o[1:]; self.n += 1
            ok = root and d not in ds
            out = self.cmd("create %s%s;\n" % (d, " " + self.text("in%d.nt" % self.n, rdf.nt(ts)) if ts else ""))
            self.say(out, ok, "created successfully", what)
            if ok:
                ds[d] = Model(ts).s if ts else None
                if ts is None: ds[d] = set(self.contents(d))       # its creation time
        elif k == "use":
            ok = self.may(o[1], "load", "unload")
            out = self.cmd("use %s;\n" % o[1])
            self.say(out, ok, "Current database switch to %s successfully." % o[1], what)
            if ok: self.cur = o[1]
        elif k == "drop":
            d = o[1]; ok = d in ds and d != self.cur and self.may(d, *PRIV)
            out = self.cmd("drop %s;\n" % d)
            self.say(out, ok, "dropped successfully", what)
            if ok: del ds[d]; self.priv = {x for x in self.priv if x[2] != d}
        elif k == "q":
            self.n += 1; f = "out%d.txt" % self.n
            s, p, ob = [tt(x) for x in o[2]]
            if o[1] == "all": text, pat = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }", [V("s"), V("p"), V("o")]
            elif o[1] == "p": text, pat = "SELECT ?s ?o WHERE { ?s %s ?o . }" % rdf.show(p), [V("s"), p, V("o")]
            else: text, pat = "SELECT ?s ?p WHERE { ?s ?p %s . }" % rdf.show(ob), [V("s"), V("p"), ob]
            ok = self.cur is not None and self.may(self.cur, "query")
            self.cmd(self.lines(text, o[3])[:-2] + " > %s;\n" % f)
            out = open(self.ctx.path(f), errors="replace").read()
            self.say(out, ok, "query database successfully", what)
            if ok:
                rows = table(out)
                if rows[0] == ["[empty result]"]: rows = [[]]
                rows = [tuple(cell(x) for x in y) for y in rows[1:]]
                compare(rows, shape_expect(rdf.Graph(ds[self.cur]), [x[1] for x in pat if x[0] == 'v'], pat), text)
        elif k == "upd":
            mo = Model(ds.get(self.cur) or ()); text, nd, ni = mo.apply(o[1])
            ok = self.cur is not None and self.may(self.cur, "query", "update")
            out = self.cmd(self.lines(text, o[2]))
            self.say(out, ok, "query database successfully", what)
            if ok: ds[self.cur] = mo.s
        elif k == "file":
            parts = []; n = 0; may = self.cur is not None and self.may(self.cur, "query")
            for j, x in enumerate(o[1]):
                if x == ["q"]: text = ALL; ok = may
                else:
                    mo = Model(ds.get(self.cur) or ()); text, _, _ = mo.apply(x)
                    ok = may and self.may(self.cur, "update")
                    if ok: ds[self.cur] = mo.s
                n += ok
                if o[2] & 1: text = "# note; here\n" + text
                if o[2] & 2: text = text + " # ; the end"
                parts.append(text + "\n")
            self.n += 1; f = self.text("q%d.sparql" % self.n, ";".join(parts) + (";\n" if o[2] & 4 else ""))
            out = self.cmd("sparql %s;\n" % f)
            got = out.count("query database successfully")
            if got != n: raise Violation("%d of %d queries of a file succeed, %d must: %s" % (got, len(parts), n, parts))
            self.refused = n < len(parts)
        elif k == "show":
            d = o[1] or self.cur; ok = d is not None and self.may(d, "query")
            out = self.cmd("show%s;\n" % (" " + o[1] if o[1] else ""))
            self.say(out, ok, "triple_num", what)
            if ok:
                g = {m[1]: m[2] for m in re.finditer(r"^\| (\w+) +\| (\S+) +\|$", out, re.M)}
                if g.get("database") != d or g.get("triple_num") != str(len(ds[d])) or g.get("creator") != "root": raise Violation("show of %s with %d triples prints %s" % (d, len(ds[d]), g))
        elif k == "showdbs":
            rows = table(self.cmd("showdbs;\n"))
            got = sorted(x[0] for x in rows[1:]); exp = sorted(["system"] + list(ds)) if root else sorted(d for d in ds if (u, "query", d) in self.priv)
            if got != exp: raise Violation("showdbs of %s shows %s, it must be %s" % (u, got, exp))
        elif k == "pdb":
            out = self.cmd("pdb;\n")
            if self.cur and ("\n%s\n" % self.cur) not in out: raise Violation("pdb prints %r in %s" % (out, self.cur))
        elif k == "backup":
            self.n += 1; b = "bk%d" % self.n
            ok = self.cur is not None and self.may(self.cur, "backup")
            out = self.cmd("backup %s;\n" % b)
            self.say(out, ok, "backup successfully", what)
            fs = os.listdir(self.ctx.path(b)) if os.path.isdir(self.ctx.path(b)) else []
            if ok != (len(fs) == 1 and fs[0].startswith(self.cur + ".db_")): raise Violation("a backup leaves %s" % fs)
            self.bak.append((self.cur, b + "/" + fs[0], set(ds[self.cur])) if ok else None)
        elif k == "restore":
            if o[2] >= len(self.bak) or not self.bak[o[2]]: return
            bd, path, ts = self.bak[o[2]]; d = o[1]
            ok = self.may(d, "restore") and d == bd
            out = self.cmd("restore %s %s;\n" % (d, path))
            if d not in ds and "restored successfully" in out: raise Violation("unknown database restored: " + what)
            self.say(out, ok, "restored successfully", what)
            if ok: ds[d] = set(ts)
            elif self.cur == d: self.cur = None; self.cmd("use %s;\n" % d) if self.may(d, "load", "unload") else None; self.cur = d if self.may(d, "load", "unload") else None
        elif k == "export":
            self.n += 1; b = "ex%d" % self.n
            ok = self.cur is not None and self.may(self.cur, "export")
            out = self.cmd("export %s;\n" % b)
            self.say(out, ok, "exported successfully", what)
            fs = os.listdir(self.ctx.path(b)) if os.path.isdir(self.ctx.path(b)) else []
            if ok != (len(fs) == 1): raise Violation("an export leaves %s" % fs)
            if ok: compare(read_nt(open(self.ctx.path(b, fs[0]), encoding="utf-8", errors="surrogateescape").read()), sorted(ds[self.cur], key=repr), "exported file of %s" % self.cur)
        elif k == "pusr":
            d, t = o[1:]
            if d is None: t = None
            out = self.cmd("pusr%s%s;\n" % (" " + d if d else "", " " + t if t else ""))
            if d is not None:
                ok = d in ds and (t is None or root)
                word = "privilege on %s:" % d
                self.say(out, ok, word, what)
                if ok:
                    got = out[out.index(word) + len(word):].split("\n")[0].split(); who = t or u
                    exp = ["root"] if who == "root" else [x for x in PRIV if (who, x, d) in self.priv]
                    if got != exp: raise Violation("pusr says %s has %s on %s, it has %s" % (who, got, d, exp))
        elif k == "setpswd":
            t, pw, mode = o[1:]
            if t is not None and not root or t is not None and t not in self.us: return
            who = t or u
            q = [self.pwans(mode, "Enter (?:your|old) password: ")]
            n = [0]
            def new():
                return pw + "\n"
            def again():
                n[0] += 1
                return (pw + "y" if mode == "mismatch" and n[0] < 3 else pw) + "\n"
            out = self.cmd("setpswd%s;\n" % (" " + t if t else ""), q + [(E("Enter new password: "), new), (E("Enter new password again: "), again)])
            ok = mode != "wrong7"
            self.say(out, ok, "Password set successfully", what)
            if ok:
                if who == "root": self.rootpw = pw
                else: self.us[who] = pw
        elif k == "addusr":
            t, pw, mode = o[1:]
            out = self.cmd("addusr %s;\n" % t, [self.pwans(mode), (E("Enter password for new user: "), pw + "\n")])
            ok = root and mode != "wrong7" and t not in self.us
            self.say(out, ok, "Add usr %s successfully" % t, what)
            if ok: self.us[t] = pw
        elif k == "delusr":
            t, mode = o[1:]
            out = self.cmd("delusr %s;\n" % t, [self.pwans(mode)])
            ok = root and mode != "wrong7" and t in self.us
            self.say(out, ok, "Del usr %s successfully" % t, what)
            if ok: del self.us[t]; self.priv = {x for x in self.priv if x[0] != t}
        elif k == "setpriv":
            t, d, v, mode = o[1:]
            if t not in self.us and root: return
            out = self.cmd("setpriv %s %s;\n" % (t, d), [self.pwans(mode), (E("separated by whitespace: \n"), ("8" if len(v) == 7 else " ".join(str(x + 1) for x in v)) + "\n")])
            ok = root and d in ds and mode != "wrong7"
            self.say(out, ok, "Privilege set successfully", what)
            if ok: self.priv = {x for x in self.priv if (x[0], x[2]) != (t, d)} | {(t, PRIV[x], d) for x in v}
        elif k == "bad":
            out = self.cmd(o[1] + ";\n")
            if o[1] != "use system" or not root: self.say(out, False, "successfully", what)
            else: self.cmd("use %s;\n" % self.cur) if self.cur else self.relogin()
    def relogin(self):
        u = self.u; self.end(); self.login(u, "ok")
    def contents(self, d):
        self.n += 1; f = "r%d.txt" % self.n
        self.tool("gquery", "-db", d, "-q", "all.sparql", "-f", f)
        if not os.path.exists(self.ctx.path(f)): return None
        ls = open(self.ctx.path(f), encoding="utf-8", errors="surrogateescape").read().split("\n")
        return [tuple(cell(c) for c in l.split("\t")) for l in ls[1:] if l and l != "[empty result]"]
    def run(self, ctx, case, rep):
        self.ctx = ctx; self.env(ctx); self.text("all.sparql", ALL)
        keep = set(os.listdir(ctx.dir))
        self.rootpw = "123456"; self.us = {}; self.priv = set(); self.ds = {}; self.bak = []; self.n = 0; self.con = None; self.u = None; self.cur = None
        try:
            for i, o in enumerate(case["ops"]):
                old = (dict(self.us), set(self.priv), {d: set(s) for d, s in self.ds.items()}); self.refused = False
                self.step(o, rep); rep.ev(); rep.label("op " + o[0])
                ch = old != (self.us, self.priv, self.ds)
                if ch or self.refused: rep.nontrivial([case, i]); rep.label("changed" if ch else "refused")
            self.end()
            for d in DBS:
                got = self.contents(d)
                if (got is not None) != (d in self.ds): raise Violation("after the sessions, database %s %s" % (d, "is there" if got is not None else "is gone"))
                if got is not None: compare(got, sorted(self.ds[d], key=repr), "contents of %s after the sessions" % d)
            self.login("root", "ok")
            out = self.cmd("showusrs;\n"); rep.ev()
            got = {}; cur = None; ls = out.split("\n")
            for a, b in zip(ls, ls[1:]):
                if re.fullmatch("-+", b) and len(b) == len(a): cur = a; got[cur] = {}
                m = re.fullmatch(r"(\S+): ((?:\w+ )*)", a)
                if m and cur and cur != "root": got[cur][m[1]] = m[2].split()
            got.pop("root", None)
            exp = {t: {d: [x for x in PRIV if (t, x, d) in self.priv] for d in {z[2] for z in self.priv if z[0] == t}} for t in self.us}
            if got != exp: raise Violation("showusrs prints %s, there is %s (%s)" % (got, exp, out[-600:]))
            for d in list(self.ds): self.step(["drop", d], rep)
            for t in list(self.us): self.step(["delusr", t, "ok"], rep)
            if self.rootpw != "123456": self.step(["setpswd", None, "123456", "ok"], rep)
            self.end()
        finally:
            if self.con: self.con.kill()
        rep.sample({"sessions": [o[:3] if o[0] != "create" else o[:2] for o in case["ops"]][:25]})
        for x in set(os.listdir(ctx.dir)) - keep:
            if os.path.isdir(ctx.path(x)): shutil.rmtree(ctx.path(x), ignore_errors=True)
            else: os.unlink(ctx.path(x))
CHECK = C25()
