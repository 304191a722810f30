"""Histories of HTTP requests to a ghttp server, and the state they must lead to."""
import base64, glob, hashlib, itertools, json, os, shutil, time, urllib.parse
import httpd, gs
from gs import DriverDied
from history import *

ROOTPW = "123456"
PRIVS = {1: "query", 2: "load", 3: "unload", 4: "update", 5: "backup", 6: "restore", 7: "export"}
EVERYONE = {"login", "testConnect", "getCoreVersion", "check", "show", "userpassword", "funquery"}
NEEDS = dict({p: p for p in PRIVS.values()}, monitor="query", **{k: "update" for k in ("batchInsert", "batchRemove", "begin", "tquery", "commit", "rollback", "checkpoint")})
USUF = ["", "", "", "\u00e9", "\u7528\u6237", "-x", ".b", "'", "%41", "+", "&=", "@", "#1", "?", "/"]
DSUF = ["", "", "", "\u00e9", "-x", ".1", "_2", "%41", "+", "=", "@", "\u4e2d"]
PWS = ["pw1", "pw2", "secret", 'a"b', "p\u00e4ss", "x y", "%41", "+&=?#", "'", "\u4e2d", "a;b", '"', "</x>", "123456", "^^", '"@en', "p" * 60, " lead", "a,b", "$1", "root"]
ALL = "SELECT ?s ?p ?o WHERE { ?s ?p ?o . }"

SEQ = itertools.count(1)     # of addresses, files and databases; threads share it
class HModel:
    def __init__(self):
        self.users = {}     # index -> password
        self.priv = set()   # (user index, privilege, database index)
        self.dbs = {}       # index -> [creator, loaded, contents, contents on disk, transactions committed]
        self.baks = []      # [path, database index, contents]

class HttpCheck(pbt.Check):
    targets = ("ghttp", "ginit")
    asan = False
    timeout = 60
    recycle = 40
    NU, ND = 3, 3
    # ------------------------------------------------ the server and its names
    def server(self, ctx):
        if "http" not in ctx.drivers:
            s = httpd.Server(ctx.exes, ctx.path("h"), timeout=self.timeout, conf=self.conf)
            ctx.drivers["http"] = s; s.start()
        return ctx.drivers["http"]
    def conf(self, cwd): pass
    def uname(self, i): return "root" if i == -1 else "u%s_%d%s" % (self.tag, i, "" if i >= self.NU or i < 0 else self.case["us"][i])
    def dname(self, i): return "d%s_%d%s" % (self.tag, i, "" if i >= self.ND else self.case["ds"][i])
    def ip(self):
        n = next(SEQ)
        return {"X-Real-IP": "10.%d.%d.%d" % (n >> 16 & 255, n >> 8 & 255, n & 255)}
    def send(self, params, via=0, headers=None):
        h = dict(self.ip(), **(headers or {}))
        if via == 2 and any(c in v for v in params.values() for c in "&=%+#?"): via = 1
        if via == 0: x = self.S.post(params, h)
        elif via == 1: x = self.S.get(params, h)
        else: x = self.S.body(self.S.raw("GET", "/" + urllib.parse.quote("?" + "&".join("%s=%s" % kv for kv in params.items()), safe=""), None, h), params)
        if not isinstance(x, dict) or type(x.get("StatusCode")) is not int: raise Violation("the answer has no StatusCode: %s -> %s" % (params, str(x)[:300]))
        return x
    def rootdo(self, op, **k):
        return self.send(dict({"operation": op, "username": "root", "password": ROOTPW}, **k))
    # ------------------------------------------------ what a request must do
    def begin(self, ctx, case):
        self.ctx, self.case, self.m = ctx, case, HModel()
        self.S = self.server(ctx)
        self.tag = "%x" % next(SEQ)
        self.denied = self.changed = 0; self.pending = set()
    def actor_pw(self, actor, mode):
        """(username, password, encryption, whether it authenticates)"""
        pw = ROOTPW if actor == -1 else self.m.users.get(actor)
        n = self.uname(actor)
        known = pw is not None
        if not known: pw = "nopass"
        if mode == 0: return n, pw, "0", known
        if mode == 2: return n, hashlib.md5(pw.encode()).hexdigest(), "1", known
        if mode == 1: return n, pw + "x", "0", False
        if mode == 3: return n, "", "0", False
        if mode == 4: return n, hashlib.md5(pw.encode()).hexdigest(), "0", False
        if mode == 5: return n, pw, "1", False
        return n, pw.upper() if pw.upper() != pw else pw[:-1], "0", False
    def allowed(self, actor, operation, d):
        if actor == -1: return True
        if operation in EVERYONE: return True
        p = NEEDS.get(operation)
        return p is not None and d is not None and (actor, p, d) in self.m.priv
    def request(self, op, operation, d=None, **params):
        """Sends it as op's actor; answer, or None when it is (rightly) refused."""
        _, actor, mode, via = op[:4]
        n, pw, enc, good = self.actor_pw(actor, mode)
        p = {"operation": operation, "username": n, "password": pw}
        if enc == "1" or mode == 5: p["encryption"] = "1"
        if d is not None: p["db_name"] = self.dname(d)
        p.update(params)
        x = self.send(p, via)
        c, msg = x["StatusCode"], str(x.get("StatusMsg"))
        if operation == "check": return x
        what = "%s as %s (%s)" % (p, n, "right password" if good else "wrong password")
        if not good:
            self.denied += 1
            if c != 1001: raise Violation("request with a wrong password is answered %d %s: %s" % (c, msg, what))
            return None
        if c == 1001: raise Violation("request with the right password is refused (%s): %s" % (msg, what))
        if not self.allowed(actor, operation, d):
            self.denied += 1
            if c == 0: raise Violation("request without the privilege is obeyed: %s (privileges %s)" % (what, sorted(x[1:] for x in self.m.priv if x[0] == actor)))
            if c != 1004: raise Violation("request without the privilege is answered %d %s: %s" % (c, msg, what))
            return None
        if c == 1004 and msg.startswith("You have no"): raise Violation("request with the privilege is refused: %s: %s" % (msg, what))
        x["_what"] = what
        return x
    def outcome(self, x, ok):
        if x is None: return False
        if (x["StatusCode"] == 0) != ok:
            raise Violation("request that must %s is answered %d %s: %s" % ("succeed" if ok else "fail", x["StatusCode"], x.get("StatusMsg"), x["_what"]))
        if ok: self.changed += 1
        return ok
    def rows(self, x, exp, what):
        sel = ["s", "p", "o"]
        try: hv, rows = rdf.rows_of(json.dumps(x), sel)
        except (ValueError, KeyError, TypeError) as e: raise Violation("result is not well-formed (%s): %s -> %s" % (e, what, str(x)[:300]))
        compare(rows, sorted(exp, key=repr), what)
    def perform(self, op, rep):
        k, a = op[0], op[4:]
        m = self.m; U_, D_ = m.users, m.dbs
        loaded = lambda d: d in D_ and D_[d][1]
        if k in ("query", "update", "bins", "brem", "backup", "export", "monitor", "drop"): self.settle(a[0])
        if k == "adduser":
            x = self.request(op, "usermanage", type="1", op_username=self.uname(a[0]), op_password=a[1])
            if x is not None and self.outcome(x, a[0] not in U_ and a[0] != -1 and a[1] != ""): U_[a[0]] = a[1]
        elif k == "deluser":
            x = self.request(op, "usermanage", type="2", op_username=self.uname(a[0]))
            if x is not None and self.outcome(x, a[0] in U_):
                del U_[a[0]]; m.priv = {t for t in m.priv if t[0] != a[0]}
        elif k == "setpw":
            x = self.request(op, "usermanage", type="3", op_username=self.uname(a[0]), op_password=a[1])
            if x is not None and self.outcome(x, a[0] in U_ and a[1] != ""): U_[a[0]] = a[1]
        elif k == "mypw":
            x = self.request(op, "userpassword", op_password=a[0])
            if x is not None and self.outcome(x, a[0] != ""): U_[op[1]] = a[0]
        elif k == "priv":
            t, u, ps, d = a
            x = self.request(op, "userprivilegemanage", d, type=str(t), op_username=self.uname(u), privileges=",".join(map(str, ps)))
            if x is not None:
                if t == 3:
                    if self.outcome(x, u in U_): m.priv = {q for q in m.priv if q[0] != u}
                elif t == 1:
                    if self.outcome(x, u in U_ and d in D_): m.priv |= {(u, PRIVS[p], d) for p in ps}
                else:
                    # taking away what is not held may be called a failure
                    if u in U_ and all((u, PRIVS[p], d) in m.priv for p in ps): self.outcome(x, True)
                    elif u not in U_ or d not in D_: self.outcome(x, False)
                    m.priv -= {(u, PRIVS[p], d) for p in ps}
        elif k == "build":
            d, ts = a; p = {}
            if ts is not None:
                f = "f%s_%d.nt" % (self.tag, next(SEQ))
                self.ctx.write("h/" + f, rdf.nt(ts)); p["db_path"] = f
            x = self.request(op, "build", d, **p)
            if x is not None and self.outcome(x, d not in D_):
                s = Model(ts or ()).s; D_[d] = [op[1], False, set(s), set(s), False]
                if x.get("failed_num") not in (0, None): raise Violation("build of a correct file reports failed_num %s: %s" % (x.get("failed_num"), x["_what"]))
        elif k == "load":
            x = self.request(op, "load", a[0], **({"csr": "1"} if a[1] else {}))
            if x is not None and self.outcome(x, a[0] in D_): D_[a[0]][1] = True
        elif k == "unload":
            x = self.request(op, "unload", a[0])
            if x is not None and self.outcome(x, loaded(a[0])): v = D_[a[0]]; v[1] = False; v[3] = set(v[2]); self.pending.discard(a[0])
        elif k == "drop":
            x = self.request(op, "drop", a[0], **({"is_backup": a[1]} if a[1] else {}))
            if x is not None and self.outcome(x, a[0] in D_):
                del D_[a[0]]; m.priv = {t for t in m.priv if t[2] != a[0]}
        elif k == "rename":
            d, e = a
            x = self.request(op, "rename", d, new_name=self.dname(e))
            if x is not None and self.outcome(x, d in D_ and not D_[d][1] and e not in D_):
                D_[e] = D_.pop(d)
                m.priv = {t for t in m.priv if t[2] != d} | {(t[0], t[1], e) for t in m.priv if t[2] == d}
        elif k == "monitor":
            x = self.request(op, "monitor", a[0])
            if x is not None and self.outcome(x, a[0] in D_):
                v = D_[a[0]]
                if x.get("creator") != self.uname(v[0]): raise Violation("monitor reports creator %s, not %s: %s" % (x.get("creator"), self.uname(v[0]), x["_what"]))
                if not v[4] and v[2] == v[3] and str(x.get("tripleNum")) != str(len(v[2])):
                    raise Violation("monitor reports %s triples of %d: %s" % (x.get("tripleNum"), len(v[2]), x["_what"]))
        elif k == "show":
            x = self.request(op, "show")
            if x is not None and self.outcome(x, True): self.check_show(x, op[1])
        elif k == "showuser":
            x = self.request(op, "showuser")
            if x is not None and self.outcome(x, True): self.check_users(x)
        elif k == "query":
            x = self.request(op, "query", a[0], sparql=ALL, format="json")
            if x is not None and self.outcome(x, loaded(a[0])): self.rows(x, D_[a[0]][2], x["_what"])
        elif k == "update":
            d, o = a
            text = Model(()).apply(o)[0]
            x = self.request(op, "query", d, sparql=text, format="json")
            if x is not None:
                ok = loaded(d) and self.allowed(op[1], "update", d)
                if loaded(d) and not ok:
                    self.denied += 1
                    if x["StatusCode"] == 0: raise Violation("update text without the update privilege is obeyed: %s" % x["_what"])
                if self.outcome(x, ok): self.apply(D_[d][2], o)
        elif k in ("bins", "brem"):
            d, ts = a
            f = "b%s_%d.nt" % (self.tag, next(SEQ))
            self.ctx.write("h/" + f, rdf.nt(ts))
            x = self.request(op, "batchInsert" if k == "bins" else "batchRemove", d, file=f)
            if x is not None and self.outcome(x, loaded(d)):
                v = D_[d]; n = self.apply(v[2], ["ins" if k == "bins" else "del", ts]); v[3] = set(v[2])
                if k == "bins" and x.get("failed_num") not in (0, None): raise Violation("batch of a correct file reports failed_num %s: %s" % (x.get("failed_num"), x["_what"]))
        elif k == "txn":
            d, iso, ops, end = a
            x = self.request(op, "begin", d, isolevel=str(iso))
            if x is not None and self.outcome(x, loaded(d)):
                tid = x.get("TID"); mine = set(D_[d][2]); v = D_[d]
                for o in ops:
                    if o[0] == "q":
                        x = self.request(op, "tquery", d, tid=tid, sparql=ALL)
                        if self.outcome(x, True): self.rows(x, mine, x["_what"])
                    else:
                        x = self.request(op, "tquery", d, tid=tid, sparql=Model(()).apply(o)[0])
                        if self.outcome(x, True): self.apply(mine, o)
                if end in ("commit", "rollback"):
                    x = self.request(op, end, d, tid=tid)
                    if self.outcome(x, True) and end == "commit":
                        if mine != v[2]: v[4] = True; self.pending.add(d)
                        v[2] = mine
                    for again in ("commit", "rollback"):
                        x = self.request(op, again, d, tid=tid)
                        if x["StatusCode"] == 0: raise Violation("%s of a transaction that ended is answered 0: %s" % (again, x["_what"]))
                elif end == "unload":       # a transaction that is still open then is rolled back
                    self.pending.discard(d)
                    x = self.rootdo("unload", db_name=self.dname(d))
                    if x["StatusCode"] == 0: v[1] = False; v[3] = set(v[2])
                    else: raise Violation("unload with an open transaction fails: %s" % x)
        elif k == "ckpt":
            x = self.request(op, "checkpoint", a[0])
            if x is not None and self.outcome(x, loaded(a[0])): D_[a[0]][3] = set(D_[a[0]][2])
        elif k == "backup":
            bp = "backups" if not a[1] else "bk%s" % self.tag
            if m.baks and time.time() - self.lastbak < 1.01: time.sleep(1.02 - (time.time() - self.lastbak))      # the names of backups have seconds
            x = self.request(op, "backup", a[0], **({"backup_path": bp} if a[1] else {}))
            if x is not None and self.outcome(x, loaded(a[0])):
                v = D_[a[0]]; v[3] = set(v[2]); self.lastbak = time.time()
                m.baks.append([x.get("backupfilepath"), a[0], set(v[2])])
        elif k == "restore":
            b, d = a
            if b < len(m.baks): path, of, s = m.baks[b]
            else: path, of, s = ["backups/none.db_200101010101", "h", ""][b % 3], None, None
            if d is None: d = of if of is not None else 0
            x = self.request(op, "restore", d, backup_path=path)
            if x is not None and self.outcome(x, of == d and not loaded(d)):
                if d in D_: D_[d][2], D_[d][3], D_[d][4] = set(s), set(s), True
                else:
                    D_[d] = [op[1], False, set(s), set(s), True]
                    if op[1] != -1: m.priv |= {(op[1], p, d) for p in PRIVS.values()}
        elif k == "export":
            x = self.request(op, "export", a[0], db_path="ex%s_%d" % (self.tag, next(SEQ)), compress="0")
            if x is not None and self.outcome(x, loaded(a[0])):
                try: text = open(self.ctx.path("h", x.get("filepath", "?")), "rb").read()
                except OSError: raise Violation("export names a file that is not there: %s" % x)
                exp = sorted(rdf.nt(D_[a[0]][2]).replace(" ", "\t").encode().split(b"\n"))
                if sorted(l.replace(b" ", b"\t").replace(b"\t.", b".") for l in text.split(b"\n")) != sorted(l.replace(b"\t.", b".") for l in exp):
                    raise Violation("export differs from the contents: %s" % x["_what"])
        elif k == "plain":
            operation = a[0]
            x = self.request(op, operation, a[1] if len(a) > 1 else None)
            if x is not None and operation in ("login", "testConnect", "getCoreVersion", "check"): self.outcome(x, True)
        elif k == "restart":
            if self.S.shutdown() is not None and not self.S: pass
            for v in D_.values():
                if v[1]: v[3] = set(v[2]); v[1] = False
            self.pending = set(); self.S.start()
        elif k == "kill":
            for d, v in D_.items():
                if v[1] and v[2] != v[3]:
                    x = self.rootdo("checkpoint", db_name=self.dname(d))
                    if x["StatusCode"]: raise Violation("checkpoint fails: %s" % x)
                    v[3] = set(v[2])
            self.S.kill(); self.pending = set()
            for v in D_.values(): v[1] = False
            self.S.start()
        elif k == "lock": self.lockout(a[0], rep)
        rep.label("op " + (a[0] if k == "plain" else k))
        if not self.S.alive(): raise Violation("the server process died at %s" % op)
    def settle(self, d):
        """What transactions committed is seen by ordinary requests from the next checkpoint on (C13)."""
        if d in self.pending and d in self.m.dbs and self.m.dbs[d][1]:
            x = self.rootdo("checkpoint", db_name=self.dname(d))
            if x["StatusCode"]: raise Violation("checkpoint fails: %s" % x)
            self.m.dbs[d][3] = set(self.m.dbs[d][2])
        self.pending.discard(d)
    def apply(self, s, o):
        ts = {tuple(tt(x) for x in t) for t in o[1]}
        if o[0] == "ins": s |= ts
        else: s -= ts
        return s
    def lockout(self, seq, rep):
        """One client address: more than four failures lock it out; a login that succeeds forgives."""
        h = self.ip(); e = 0
        for s in seq:
            good = s in ("good", "login")
            x = self.S.post({"operation": "login" if s in ("login", "badlogin") else "show", "username": "root", "password": ROOTPW if good else "no"}, h)["StatusCode"]
            if s in ("good", "bad") and e > 4: exp = 1101
            elif good: exp = 0
            else: exp = 1001; e += 1
            if x != exp: raise Violation("client address after %d failures: %s is answered %d, not %d (%s)" % (e, s, x, exp, seq))
            if s == "login": e = 0
            if exp == 1101: self.denied += 1
    # ------------------------------------------------ the state as the server reports it
    def check_show(self, x, actor):
        m = self.m; mine = {self.dname(d): d for d in range(self.ND + 1)}
        got = {}
        for y in x["ResponseBody"]:
            if y["database"] in mine: got[mine[y["database"]]] = (y["creator"], y["status"])
            elif actor != -1: raise Violation("show lists %s to a user without its query privilege" % y)
        exp = {d: (self.uname(v[0]), "loaded" if v[1] else "unloaded") for d, v in m.dbs.items() if actor == -1 or (actor, "query", d) in m.priv}
        if got != exp: raise Violation("show for %s lists %s, expected %s" % (self.uname(actor), got, exp))
    def check_users(self, x):
        m = self.m; mine = {self.uname(u): u for u in range(self.NU + 1)}; dn = {self.dname(d): d for d in range(self.ND + 1)}
        got, gp = {}, set()
        for y in x["ResponseBody"]:
            if y["username"] not in mine: continue
            u = mine[y["username"]]; got[u] = y["password"]
            for p in PRIVS.values():
                for n in y.get(p + "_privilege", "").split(","):
                    if n: gp.add((u, p, dn.get(n, n)))
        if got != m.users: raise Violation("users and passwords are %s, expected %s" % (got, m.users))
        if gp != m.priv: raise Violation("privileges: %s too many, %s missing" % (sorted(map(str, gp - m.priv)), sorted(map(str, m.priv - gp))))
    def check_state(self, contents=True):
        x = self.rootdo("showuser")
        if x["StatusCode"]: raise Violation("showuser fails: %s" % x)
        self.check_users(x)
        x = self.rootdo("show")
        if x["StatusCode"]: raise Violation("show fails: %s" % x)
        self.check_show(x, -1)
        for u, pw in self.m.users.items():
            x = self.send({"operation": "testConnect", "username": self.uname(u), "password": pw})
            if x["StatusCode"]: raise Violation("user %s is refused with its password %r: %s" % (self.uname(u), pw, x))
        if contents:
            for d, v in self.m.dbs.items():
                self.settle(d)
                if not v[1]:
                    x = self.rootdo("load", db_name=self.dname(d))
                    if x["StatusCode"]: raise Violation("load of %s fails: %s" % (self.dname(d), x))
                    v[1] = True
                x = self.rootdo("query", db_name=self.dname(d), sparql=ALL, format="json")
                if x["StatusCode"]: raise Violation("query of %s fails: %s" % (self.dname(d), x))
                self.rows(x, v[2], "contents of database %d" % d)
    def cleanup(self):
        for d in list(self.m.dbs): self.rootdo("drop", db_name=self.dname(d), is_backup="false")
        for u in list(self.m.users): self.rootdo("usermanage", type="2", op_username=self.uname(u))
        h = self.ctx.path("h")
        for f in os.listdir(h):
            if f.endswith(".nt") or f.endswith(".bak") or ".bak." in f: 
                p = os.path.join(h, f)
                os.unlink(p) if os.path.isfile(p) else shutil.rmtree(p, ignore_errors=True)
        for g in ("bk*", "ex*", "backups/d%s_*" % self.tag):
            for p in glob.glob(os.path.join(h, g)): shutil.rmtree(p, ignore_errors=True)
    # ------------------------------------------------ generation
    def gen_case(self, r, W, n, pool):
        """Ops drawn from W; a light shadow of the state keeps most of them meaningful."""
        us, ds = set(), {}
        ops = [[ "adduser", -1, 0, 0, 0, r.choice(PWS)]]; us.add(0)
        via = lambda: 0 if r.random() < .7 else r.choice([1, 1, 2])
        def actor(k):
            x = r.random()
            if x < .45 or not us: a = -1
            elif x < .95: a = r.choice(sorted(us))
            else: a = r.randrange(self.NU + 1)
            x = r.random()
            return [a, 0 if x < .78 else 2 if x < .88 else r.choice([1, 3, 4, 5, 6]), via()]
        rooty = lambda k: [-1, 0, via()] if r.random() < .8 else actor(k)
        db = lambda: r.choice(sorted(ds)) if ds and r.random() < .9 else r.randrange(self.ND)
        user = lambda: r.choice(sorted(us)) if us and r.random() < .9 else r.randrange(self.NU)
        trs = lambda a=1, b=5: jl(pool.triples(a, b)) or jl([pool.triple()])
        live = []
        nb = 0
        def upd():
            if r.random() < .4 and live: return ["del", jl(r.sample(live, min(len(live), r.randrange(1, 4))))]
            t = trs(); live.extend(t); return ["ins", t]
        for _ in range(n):
            k = wchoice(r, W)
            if k == "again":        # a user or a database that goes and comes back
                R = [-1, 0, 0]; u = user(); d = db()
                ops.append(["priv"] + R + [1, u, r.sample(range(1, 8), r.choice([2, 4, 7])), d])
                if r.random() < .6: ops.append(["deluser"] + R + [u]); ops.append(["adduser"] + R + [u, r.choice(PWS)]); us.add(u)
                else:
                    ops.append(["drop"] + R + [d, "false"]); ops.append(["build"] + R + [d, trs(0, 4)]); ds[d] = False
                if r.random() < .6: ops.append([r.choice(["restart", "kill"]), -1, 0, 0])
                if r.random() < .5: k = "export"; ops.append(["load"] + R + [d, 0]); o = [k, u, 0, 0, d]
                else: o = ["showuser"] + R
            elif k == "adduser": u = r.randrange(self.NU); o = [k] + rooty(k) + [u, r.choice(PWS)]; us.add(u)
            elif k == "deluser": u = user(); o = [k] + rooty(k) + [u if r.random() < .95 else -1]; us.discard(u)
            elif k == "setpw": o = [k] + rooty(k) + [user(), r.choice(PWS)]
            elif k == "mypw": o = [k] + actor(k) + [r.choice(PWS)]; o[1] = user()
            elif k == "priv":
                t = r.choice([1, 1, 1, 1, 2, 2, 3])
                o = [k] + rooty(k) + [t, user(), r.sample(range(1, 8), r.choice([1, 1, 2, 3, 7])), db()]
            elif k == "build":
                d = r.choice([x for x in range(self.ND) if x not in ds] or [0]) if r.random() < .8 else r.randrange(self.ND)
                t = trs(0, 8) if r.random() < .8 else None
                if t: live.extend(t)
                o = [k] + rooty(k) + [d, t]; ds.setdefault(d, False)
            elif k == "load": d = db(); o = [k] + (rooty(k) if r.random() < .5 else actor(k)) + [d, int(r.random() < .1)]
            elif k in ("unload", "monitor", "query", "ckpt", "export"): o = [k] + actor(k) + [db()]
            elif k == "drop": o = [k] + rooty(k) + [db(), r.choice(["false", "false", "true", ""])]
            elif k == "rename": d = db(); e = r.randrange(self.ND); o = [k] + rooty(k) + [d, e]; ds[e] = False
            elif k in ("show", "showuser"): o = [k] + (actor(k) if k == "show" else rooty(k))
            elif k == "update": o = [k] + actor(k) + [db(), upd()]
            elif k == "bins": t = trs(); live.extend(t); o = [k] + actor(k) + [db(), t]
            elif k == "brem": o = [k] + actor(k) + [db(), jl(r.sample(live, min(len(live), 3))) if live else trs()]
            elif k == "txn": o = [k] + actor(k) + [db(), r.choice([1, 2, 3]), [["q"] if r.random() < .35 else upd() for _ in range(r.randrange(1, 5))], r.choice(["commit", "commit", "commit", "rollback", "unload"])]
            elif k == "backup": o = [k] + actor(k) + [db(), int(r.random() < .4)]; nb += 1
            elif k == "restore": o = [k] + actor(k) + [r.randrange(nb) if nb and r.random() < .9 else 90 + r.randrange(3), None if r.random() < .85 else r.randrange(self.ND)]
            elif k == "plain":
                w = r.choice(["login", "testConnect", "getCoreVersion", "check", "stat", "txnlog", "querylog", "querylogdate", "accesslogdate", "ipmanage", "backuppath", "nosuchoperation", "", "showuser", "funquery", "tquery", "commit", "rollback"])
                o = [k] + actor(k) + [w] + ([db()] if r.random() < .5 or w in ("tquery", "commit", "rollback") else [])
            elif k in ("restart", "kill"): o = [k, -1, 0, 0]
            elif k == "lock": o = [k, -1, 0, 0, [r.choice(["bad", "bad", "bad", "bad", "good", "badlogin"] + ["login"] * (r.random() < .3)) for _ in range(r.randrange(4, 10))] + ["good"]]
            ops.append(o)
        return {"us": [r.choice(USUF) for _ in range(self.NU)], "ds": [r.choice(DSUF) for _ in range(self.ND)], "ops": ops}
    def valid(self, case):
        if set(case) != {"us", "ds", "ops"}: return False
        if len(case["us"]) != self.NU or len(case["ds"]) != self.ND or any(x not in USUF for x in case["us"]) or any(x not in DSUF for x in case["ds"]): return False
        return all(self.valid_op(o) for o in case["ops"])
    def valid_op(self, o):
        if not isinstance(o, list) or len(o) < 4 or any(type(x) is not int for x in o[1:4]): return False
        k, a = o[0], o[4:]
        if not (-1 <= o[1] <= self.NU and 0 <= o[2] <= 6 and 0 <= o[3] <= 2): return False
        U = lambda u: type(u) is int and -1 <= u < self.NU
        D = lambda d: type(d) is int and 0 <= d < self.ND
        N = lambda *t: len(a) == len(t) and all(f(x) for f, x in zip(t, a))
        P = lambda p: p in PWS
        T = lambda t: valid_graph(t) and bool(t)
        X = lambda q: q == ["q"] or isinstance(q, list) and len(q) == 2 and q[0] in ("ins", "del") and T(q[1])
        if k == "adduser": return N(lambda u: U(u) and u >= 0, P)
        if k == "deluser": return N(U)
        if k == "setpw": return N(lambda u: U(u) and u >= 0, P)
        if k == "mypw": return N(P) and o[1] >= 0
        if k == "priv": return N(lambda t: t in (1, 2, 3), lambda u: U(u) and u >= 0, lambda p: isinstance(p, list) and p and all(x in PRIVS for x in p) and len(set(p)) == len(p), D)
        if k == "build": return N(D, lambda t: t is None or valid_graph(t))
        if k == "load": return N(D, lambda x: x in (0, 1))
        if k in ("unload", "monitor", "query", "ckpt", "export"): return N(D)
        if k == "drop": return N(D, lambda x: x in ("false", "true", ""))
        if k == "rename": return N(D, D)
        if k in ("show", "showuser", "restart", "kill"): return N()
        if k == "update": return N(D, lambda q: X(q) and q != ["q"])
        if k in ("bins", "brem"): return N(D, T)
        if k == "txn": return N(D, lambda i: i in (1, 2, 3), lambda l: isinstance(l, list) and all(X(q) for q in l), lambda e: e in ("commit", "rollback", "unload"))
        if k == "backup": return N(D, lambda x: x in (0, 1))
        if k == "restore": return N(lambda b: type(b) is int and b >= 0, lambda d: d is None or D(d))
        if k == "plain": return len(a) in (1, 2) and isinstance(a[0], str) and (len(a) == 1 or D(a[1]))
        if k == "lock": return N(lambda l: isinstance(l, list) and all(s in ("bad", "good", "login", "badlogin") for s in l))
        return False
    def run_ops(self, case, rep):
        self.lastbak = 0
        for i, op in enumerate(case["ops"]):
            try: self.perform(op, rep); rep.ev()
            except Violation as e: raise Violation("step %d: %s" % (i, e))
            if op[0] in ("restart", "kill"):
                self.check_state(False)
