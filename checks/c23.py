import copy, gzip, itertools, socket, threading
from httpcheck import *
OPS = {     # operation -> (required parameters of the right type, whether it changes state)
 "build": (["db_name"], 1), "load": (["db_name"], 1), "unload": (["db_name"], 1), "drop": (["db_name"], 1), "rename": (["db_name", "new_name"], 1), "monitor": (["db_name"], 0), "show": ([], 0),
 "usermanage": (["type", "op_username"], 1), "showuser": ([], 0), "userprivilegemanage": (["type", "op_username"], 1), "userpassword": (["op_password"], 1), "backup": (["db_name"], 1),
 "backuppath": (["db_name"], 0), "restore": (["db_name", "backup_path"], 1), "query": (["db_name", "sparql"], 0), "export": (["db_name", "db_path"], 1), "login": ([], 0), "begin": (["db_name", "isolevel"], 1),
 "tquery": (["db_name", "tid", "sparql"], 1), "commit": (["db_name", "tid"], 1), "rollback": (["db_name", "tid"], 1), "txnlog": ([], 0), "checkpoint": (["db_name"], 0), "testConnect": ([], 0),
 "getCoreVersion": ([], 0), "batchInsert": (["db_name"], 1), "batchRemove": (["db_name", "file"], 1), "querylog": (["date"], 0), "querylogdate": ([], 0), "accesslog": (["date"], 0), "accesslogdate": ([], 0),
 "ipmanage": (["type"], 1), "funquery": ([], 0), "stat": ([], 0), "check": ([], 0), "nosuch": ([], 0)}
OPT = {"pageNo": ["1", "0", "-1", "99999999999", "x", ""], "pageSize": ["1", "0", "-5", "4294967296", "1e9"], "format": ["json", "file", "json+file", "html", "", "xml\r\n"], "disk": ["0", "1", "x"], "csr": ["0", "2", "y"],
       "encryption": ["0", "2", ""], "is_backup": ["x"], "port": ["1", "x"], "funInfo": ["{}"], "compress": ["9"]}
TEXTS = ["", "x", "SELECT", ALL[:-2], "ASK { }", "SELECT ?s WHERE { ?s ?p \udcff }", "SELECT ?s WHERE { ?s ?p \"\udcc3\" }", "\udcf0\udc9f", "{" * 400, "SELECT * WHERE { " + "{ " * 200 + "?s ?p ?o" + " }" * 200 + " }",
         "SELECT ?s WHERE { ?s ?p ?o . } LIMIT 99999999999999999999", "SELECT ?s WHERE { ?s ?p ?o . FILTER(?o = 99999999999999999999999) }", "SELECT (MYFUN(?s) AS ?x) WHERE { ?s ?p ?o . }", "SELECT (kHopReachable(<a>, <b>, 1, {<p>}) AS ?x) WHERE { }",
         "INSERT DATA { ?s ?p ?o }", "DELETE WHERE { }", "LOAD <x>", "CLEAR ALL", "\u0000", "SELECT\u00a0?s WHERE { ?s ?p ?o }", "PREFIX : <> SELECT ?s { :a : ?s }", "SELECT ?s WHERE { ?s <%00> ?o }", "%", "+", "DESCRIBE <a>", "CONSTRUCT { ?s ?p ?o } WHERE { ?s ?p ?o }"]
ODD = [None, 0, -1, 1.5, True, [], {}, ["x"], {"a": "b"}, "", 1 << 40]
ODDS = ["nosuch", "../x", "/", ".", "..", "system", "x.db", "a b", "\u0000", "%2e%2e", "x" * 300, "x" * 5000, "\udcff", "'", "\"", "\\", ";ls", "$(ls)", "`ls`", "*", "-rf", "\n", "\u4e2d", "99999999999999999999", "-1", "0x1"]
CLAIMS = ("adduser", "build", "load", "unload", "drop", "rename", "begin", "commit", "insert", "query")
IPS = ["192.168.0.1", "192.168.0.9", "192.168.0.10", "192.168.1.0", "192.168.0.255", "192.168.10.2", "172.16.0.1", "172.16.255.255", "172.17.0.0", "9.255.255.255", "11.0.0.0", "1.2.3.4", "255.255.255.255", "0.0.0.0", "::1", "nonsense"]
class C23(HttpCheck):
    prop = "C23"
    title = "The HTTP server answers every request and does what its answers say"
    technique = "stateful property-based testing of the running server with malformed, repeated and concurrent requests"
    rule = ("a case is 2-14 steps: data requests (build, load, update, batches, transactions, backup, restore, export, restart, kill), malformed requests (missing, mistyped and odd parameters, damaged JSON and URLs, raw bytes), "
            "query formats and compression, uploads and downloads, IP rules, sessions of 2-4 clients on names of their own at once, and 2-6 clients claiming the same thing at once. Every request must be answered with a JSON "
            "object with a StatusCode while the server stays up; a request that lacks something it needs is not obeyed; what was answered with 0 must be there and nothing else, also after restarts; exactly one of "
            "competing clients wins. Non-trivial: a malformed or concurrent step and a database with triples at the end; distinct by case.")
    quick = 520; thorough = 16000; quick_s = 24; workers = 8; attempts = 40
    W = {"adduser": 1, "priv": 1, "build": 3, "load": 3, "unload": 1, "drop": .6, "rename": .6, "monitor": .6, "query": 2, "update": 6, "bins": 1.5, "brem": 1.2, "txn": 2, "ckpt": .7, "backup": .5, "restore": .6, "export": 1,
         "restart": .35, "kill": .35}
    SW = {"adduser": 2, "deluser": 1, "setpw": 1, "priv": 4, "build": 2, "load": 3, "unload": 1.2, "drop": .7, "rename": .7, "monitor": .7, "show": .7, "showuser": .7, "query": 3, "update": 5, "bins": 1, "brem": 1, "txn": 2, "ckpt": .5, "export": .7}
    # ---------------------------------------------------------------- generation
    def gen(self, r, i, tier):
        pool = Pool(r, ents=4, preds=2, lits=3)
        case = self.gen_case(r, self.W, r.randrange(3, 12), pool)
        case["ops"][1:1] = [["build", -1, 0, 0, 0, jl(pool.triples(1, 6)) or jl([pool.triple()])], ["load", -1, 0, 0, 0, 0]]
        for _ in range(r.randrange(1, 6)):
            x = r.random()
            if x < .52: o = self.gen_bad(r)
            elif x < .62: o = ["format", -1, 0, 0, 0, r.choice(["json", "gzip", "file", "json+file", "file+json", "sparql-results+json"])]
            elif x < .70: o = ["upload", -1, 0, 0, r.choice(["a.nt", "a b.nt", "x.ttl", "\u4e2d.n3", "../up.nt", "d/e.txt", "no", "x.exe", ".nt", "a.b.nt", "q'.nt", "50%.nt", "c:\\d\\f.nt"]), self.gen_bytes(r), r.choice([0, 0, 0, 0, 1]), r.randrange(2)]
            elif x < .76: o = ["steal", -1, 0, 0, r.choice(["/etc/hostname", "../x", "system.db/success.txt", "./system.db/success.txt", "data/../system.db/success.txt", "nosuch.txt", ".", "", "system.db", "logs/../system.db/success.txt"]), r.randrange(2)]
            elif x < .82: o = ["ipm", -1, 0, 0, self.gen_rules(r), r.sample(IPS, 5), int(r.random() < .15), int(r.random() < .25)]
            elif x < .92:
                n = r.choice([2, 2, 3, 4])
                o = ["storm", -1, 0, 0, [self.gen_case(r, self.SW, r.randrange(3, 9), Pool(r, ents=3, preds=2, lits=2)) for _ in range(n)]]
            elif x < .97: o = ["claim", -1, 0, 0, r.choice(CLAIMS), r.choice([2, 3, 4, 6])]
            else: o = ["long", -1, 0, 0, r.choice(["build", "build0", "rename", "load", "restore"]), r.choice(["z", "\u4e2d"]), r.choice([253, 254, 256, 300, 1200, 5000])]
            case["ops"].insert(r.randrange(3, len(case["ops"]) + 1), o)
        return jl(case)
    def needed(self, op): return OPS[op][0] if op in OPS and (OPS[op][1] or op == "query") else []      # the others may have defaults
    def gen_bytes(self, r):
        x = r.random()
        if x < .4: return rdf.nt(Pool(r, ents=3, preds=2, lits=2).triples(0, 5))
        return "".join(r.choice(["\r\n", "--", "\n", "\r", "\0", "\xff", "a", "\r\n--", "Content-Disposition: form-data; name=\"x\"\r\n\r\n", " ", "\x1a", "zz"]) for _ in range(r.randrange(0, 30)))
    def gen_rules(self, r):
        out = []
        for _ in range(r.randrange(1, 5)):
            x = r.random()
            if x < .5: out.append(r.choice(IPS[:-2]))
            elif x < .85: out.append("%s-%s" % tuple(r.sample(IPS[:-2], 2)))
            else: out.append(r.choice(["192.168.0", "192.168.0.1-", "-192.168.0.1", "a-b-c-d", "192.168.0.1-192.168.0", "300.1.1.1-301.1.1.1", "nonsense", "1.2.3.4-1.2.3.4", "192.168.*.*"]))
        return out
    def gen_bad(self, r):
        op = r.choice(list(OPS)); req, ch = OPS[op]
        p = {"operation": op, "username": "root", "password": ROOTPW}
        for k in req: p[k] = r.choice(ODDS) if r.random() < .7 else "x"
        if op == "query": p["db_name"] = "@0"; p["sparql"] = r.choice(TEXTS)
        for k in OPT:
            if r.random() < .12: p[k] = r.choice(OPT[k])
        if op == "query" and r.random() < .6: p.setdefault("format", "json")
        must = False
        if ch or r.random() < .4:
            k = r.choice(self.needed(op) + ["username", "password", "operation"])
            x = r.random()
            if x < .45: p.pop(k, None)
            else: p[k] = r.choice(ODD)
            must = True
        kind = r.choice(["post", "post", "post", "get", "get", "cut", "bytes", "other", "deep"])
        if ch and kind in ("bytes",): kind = "post"
        return ["bad", -1, 0, 0, kind, p, must, r.randrange(1 << 30)]
    def valid_op(self, o):
        if not isinstance(o, list) or len(o) < 4 or o[1:4] != [-1, 0, 0] or o[0] not in ("bad", "format", "upload", "steal", "ipm", "storm", "claim", "long"): return HttpCheck.valid_op(self, o)
        a = o[4:]
        if o[0] == "bad":
            if not (len(a) == 4 and a[0] in ("post", "get", "cut", "bytes", "other", "deep") and isinstance(a[1], dict) and type(a[3]) is int): return False
            op = a[1].get("operation"); q = OPS.get(op) if isinstance(op, str) else None
            if not a[2]: return q is not None and not q[1] and a[1].get("username") == "root" and a[1].get("password") == ROOTPW and all(isinstance(a[1].get(k), str) for k in q[0])
            if not isinstance(op, str): return True
            return q is not None and any(not isinstance(a[1].get(k), str) or a[1][k] == "" for k in self.needed(op) + ["username", "password"])
        if o[0] == "long": return len(a) == 3 and a[0] in ("build", "build0", "rename", "load", "restore") and a[1] in ("z", "\u4e2d") and type(a[2]) is int and 253 <= a[2] <= 5000
        if o[0] == "format": return len(a) == 2 and a[0] == 0
        if o[0] == "storm": return len(a) == 1 and isinstance(a[0], list) and len(a[0]) > 1 and all(isinstance(c, dict) and HttpCheck.valid(self, c) and not any(o[0] in ("restart", "kill", "lock", "storm", "claim") for o in c["ops"]) for c in a[0])
        if o[0] == "claim": return len(a) == 2 and a[0] in CLAIMS and type(a[1]) is int and 2 <= a[1] <= 6
        if o[0] == "upload": return len(a) == 4 and all(isinstance(x, str) and x for x in a[:1]) and isinstance(a[1], str)
        if o[0] == "steal": return len(a) == 2 and isinstance(a[0], str)
        return len(a) == 4 and isinstance(a[0], list) and a[0] and all(isinstance(x, str) and x for x in a[0]) and isinstance(a[1], list)
    # ---------------------------------------------------------------- execution
    def run(self, ctx, case, rep):
        self.begin(ctx, case); self.odd = 0
        self.run_ops(case, rep)
        self.check_state()
        for d, v in self.m.dbs.items():     # no request may leave a database locked
            for t in ("INSERT DATA { <z%s> <z> <z> . }", "DELETE DATA { <z%s> <z> <z> . }"):
                x = self.rootdo("query", db_name=self.dname(d), sparql=t % self.tag, format="json")
                if x["StatusCode"]: raise Violation("update at the end fails: %s" % x)
            x = self.rootdo("unload", db_name=self.dname(d))
            if x["StatusCode"]: raise Violation("unload at the end fails: %s" % x)
        if self.odd and any(v[2] for v in self.m.dbs.values()):
            rep.nontrivial(case); rep.sample({"ops": [o[0] if o[0] not in ("bad", "claim") else o[0] + ":" + str(o[4] if o[0] == "claim" else o[5].get("operation")) for o in case["ops"]][:14]})
        for d in list(self.m.dbs):
            x = self.rootdo("drop", db_name=self.dname(d), is_backup="false")
            if x["StatusCode"]: raise Violation("drop at the end fails: %s" % x)
        self.m.dbs.clear()
        self.cleanup()
    def perform(self, op, rep):
        k, a = op[0], op[4:]
        f = getattr(self, "do_" + k, None)
        if f is None: return HttpCheck.perform(self, op, rep)
        f(a, rep); self.odd += k in ("bad", "storm", "claim", "upload", "long"); rep.label("op " + k)
        if not self.S.alive(): raise Violation("the server process died at %s" % str(op)[:1500])
    def answered(self, x, what):
        y = self.S.body(x, what)
        if not isinstance(y, dict) or type(y.get("StatusCode")) is not int: raise Violation("the answer has no StatusCode: %s -> %s" % (str(what)[:600], str(y)[:300]))
        return y
    def do_long(self, a, rep):
        """A name that no directory can have."""
        op, c, n = a; name = c * -(-n // len(c.encode())); p = {"db_name": name}
        if op == "build":
            f = "f%s_l.nt" % self.tag; self.ctx.write("h/" + f, "<a> <b> <c> .\n"); p["db_path"] = f
        elif op == "rename":
            HttpCheck.perform(self, ["unload", -1, 0, 0, 0], rep)
            p = {"db_name": self.dname(0), "new_name": name}
        elif op == "restore": p["backup_path"] = "backups"
        x = self.rootdo(op.rstrip("0"), **p)
        if x["StatusCode"] == 0: raise Violation("%s with a name of %d bytes claims success: %s" % (op, n, x))
    def do_bad(self, a, rep):
        import random
        kind, p, must, seed = a; r = random.Random(seed)
        p = dict(p)
        if p.get("db_name") == "@0": p["db_name"] = self.dname(0)
        h = self.ip()
        if kind == "other":
            # answers are not required, but the server has to stay up
            m = r.choice(["PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "TRACE", "FOO"])
            try: self.S.raw(m, r.choice(["/", "/shutdown", "/file/upload", "/file/download", "/x", "//", "/?a=b", "*"]), r.choice([None, b"", b"x" * 100, b"{}"]), h, 3)
            except DriverDied as e:
                if "timeout" in e.what and m != "FOO": rep.label("no answer to " + m)
            return
        if kind == "bytes":
            s = socket.create_connection(("127.0.0.1", self.S.port), 5)
            try:
                b = r.choice([b"", b"\r\n\r\n", b"GET", b"GET / HTTP/1.1\r\n", b"POST / HTTP/1.1\r\nContent-Length: -1\r\n\r\n", b"POST / HTTP/1.1\r\nContent-Length: x\r\n\r\nabc", b"POST / HTTP/1.1\r\nContent-Length: 99999999999999999999\r\n\r\nabc",
                              b"POST / HTTP/1.1\r\nContent-Length: 100\r\n\r\nabc", b"\x00\xff\x16\x03\x01" * 10, b"GET / HTTP/9.9\r\n\r\n", b"GET /?operation=check HTTP/1.0\r\nHost\r\n\r\n", b"A" * 9000, b"GET /" + b"a" * 9000 + b" HTTP/1.1\r\n\r\n",
                              b"POST /file/upload HTTP/1.1\r\nContent-Type: multipart/form-data\r\nContent-Length: 3\r\n\r\nabc", b"POST /file/upload HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=\r\nContent-Length: 3\r\n\r\nabc",
                              b"POST /file/upload HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 60\r\n\r\n--x\r\nContent-Disposition: form-data; name=\"username\"\r\n\r\nroot\r\n--", b"POST /file/upload HTTP/1.1\r\nContent-Length: 0\r\n\r\n",
                              b"POST /file/upload HTTP/1.1\r\nContent-Type: multipart/form-data; boundary=x\r\nContent-Length: 9\r\n\r\n--x\r\n--x--", b"POST /file/download HTTP/1.1\r\nContent-Length: 20\r\n\r\nusername=&&&=&%%=%4&", b"POST /file/download HTTP/1.1\r\nContent-Length: 0\r\n\r\n"])
                s.sendall(b); s.shutdown(socket.SHUT_WR); s.settimeout(.4)
                try:
                    while s.recv(65536): pass
                except OSError: pass
            except OSError: pass
            finally: s.close()
            return
        if kind == "get":
            q = {k: v if isinstance(v, str) else "" if v is None else json.dumps(v) for k, v in p.items() if not (must and not isinstance(v, str) and r.random() < .5)}
            if must and not any(q.get(k, "") == "" for k in self.needed(q.get("operation")) + ["username", "password"]) and q.get("operation") in OPS: must = False
            if must is False and OPS.get(q.get("operation"), ([], 0))[1]: return     # 1.5 or {} is a legal name in a URL
            path = "/?" + "&".join(k + (("=" + urllib.parse.quote(v.encode("utf-8", "surrogateescape"), safe="")) if v or r.random() < .7 else "") for k, v in q.items())
            if r.random() < .15: path += r.choice(["&", "&&=", "&=x", "#f", "&operation", "?", "&%", "&%4", "%zz"])
            if len(path) > 7000: return
            x = self.S.raw("GET", path, None, h, 20); what = path
        else:
            b = json.dumps(p, ensure_ascii=r.random() < .5 and all(ord(c) < 0xd800 for v in p.values() if isinstance(v, str) for c in v)).encode("utf-8", "surrogateescape")
            if kind == "cut": b = r.choice([b[:r.randrange(len(b))], b[:-1] + b",}", b"", b"null", b"[]", b"7", b"\"x\"", b + b"}", b"{" + b, b.replace(b":", b"", 1), b"\xff" + b, b"{}", b"[" + b + b"]", b"{\"operation\":\"query\"}"]); must = True
            if kind == "deep": b = r.choice([b"[", b"{\"a\":"]) * r.choice([100, 5000, 200000]); must = True
            x = self.S.raw("POST", r.choice(["/", "/", "/", "/x", "/?operation=check"][:3]), b, dict(h, **{"Content-Type": r.choice(["application/json", "text/plain", "application/x-www-form-urlencoded"])}), 20)
            what = b[:600]
        y = self.answered(x, what)
        rep.label("bad %s %s" % (kind, p.get("operation") if isinstance(p.get("operation"), str) else "?"))
        if must and y["StatusCode"] == 0 and p.get("operation") not in ("check",): raise Violation("a request that lacks something it needs is answered 0: %s -> %s" % (what, str(y)[:200]))
    def do_format(self, a, rep):
        d, fmt = a
        if d not in self.m.dbs or not self.m.dbs[d][1]: return
        self.settle(d)
        p = {"operation": "query", "username": "root", "password": ROOTPW, "db_name": self.dname(d), "sparql": ALL, "format": "json" if fmt == "gzip" else fmt}
        x = self.S.raw("POST", "/", json.dumps(p).encode(), dict(self.ip(), **({"Accept-Encoding": "gzip, deflate"} if fmt == "gzip" else {})))
        b = x[2]
        if x[1].get("content-encoding") == "gzip":
            try: b = gzip.decompress(b); rep.label("compressed answer")
            except (OSError, EOFError) as e: raise Violation("compressed answer cannot be read: %s" % e)
        what = "query as %s" % fmt
        y = self.S.body((x[0], x[1], b), what); exp = self.m.dbs[d][2]
        if fmt != "sparql-results+json":
            if y.get("StatusCode") != 0: raise Violation("%s is answered %s" % (what, str(y)[:300]))
            if y.get("AnsNum") != len(exp): raise Violation("%s reports AnsNum %s of %d" % (what, y.get("AnsNum"), len(exp)))
        if "file" in fmt:
            try: t = open(self.ctx.path("h", "logs/query_result", y["FileName"]), encoding="utf-8").read()
            except (OSError, KeyError) as e: raise Violation("%s: the result file cannot be read: %s" % (what, e))
            self.rows(json.loads(t), exp, what + " (file)")
        if fmt != "file": self.rows(y, exp, what)
    def do_upload(self, a, rep):
        name, text, mode, via = a
        data = text.encode("utf-8" if "\xff" not in text else "latin-1", "replace"); bd = "----b%s" % self.tag
        part = lambda n, v, f="": b"--%s\r\nContent-Disposition: form-data; name=\"%s\"%s\r\n\r\n%s\r\n" % (bd.encode(), n.encode(), f.encode(), v)
        body = part("username", b"root") + part("password", (ROOTPW + "x" * mode).encode()) + part("file", data, "; filename=\"%s\"\r\nContent-Type: application/octet-stream" % name) + b"--%s--\r\n" % bd.encode()
        what = "upload of %r (%r)" % (name, data[:60])
        y = self.answered(self.S.raw("POST", "/file/upload", body, dict(self.ip(), **{"Content-Type": "multipart/form-data; boundary=" + bd})), what)
        ok = not mode and name.rsplit(".", 1)[-1] in ("nt", "ttl", "n3", "txt") and "." in name
        if (y["StatusCode"] == 0) != ok: raise Violation("%s is answered %s" % (what, y))
        if not ok: return
        f = y.get("filepath", "")
        try: got = open(self.ctx.path("h", f), "rb").read()
        except OSError as e: raise Violation("%s: %s is not there" % (what, f))
        if not os.path.realpath(self.ctx.path("h", f)).startswith(os.path.realpath(self.ctx.path("h", "upload"))): raise Violation("%s is written to %s" % (what, f))
        if got != data: raise Violation("%s is stored as %r" % (what, got[:200]))
        q = urllib.parse.urlencode({"username": "root", "password": ROOTPW, "filepath": f})
        x = self.S.raw("GET", "/file/download?" + q, None, self.ip()) if via else self.S.raw("POST", "/file/download", q.encode(), self.ip())
        if x[2] != data: raise Violation("%s is downloaded as %r" % (what, x[2][:200]))
        os.unlink(self.ctx.path("h", f))
    def do_steal(self, a, rep):
        f, via = a
        q = urllib.parse.urlencode({"username": "root", "password": ROOTPW, "filepath": f})
        x = self.S.raw("GET", "/file/download?" + q, None, self.ip()) if via else self.S.raw("POST", "/file/download", q.encode(), self.ip())
        y = self.answered(x, "download of %r" % f)
        if y["StatusCode"] == 0: raise Violation("download of %r is answered %s" % (f, y))
    def do_ipm(self, a, rep):
        rules, probes, white, restart = a
        def num(s):
            try: b = socket.inet_pton(socket.AF_INET, s)
            except OSError: return None
            return int.from_bytes(b, "big")
        def hit(ip):
            n = num(ip)
            for x in rules:
                if x == ip and len(x) >= 7: return True
                p = x.split("-", 1)
                if len(p) == 2 and len(x) >= 7:
                    l, h = num(p[0]), num(p[1])
                    if None not in (n, l, h) and l <= n <= h: return True
            return False
        if white: rules = rules + ["10.0.0.0-10.255.255.255"]
        if hit("10.0.0.5") != bool(white): return
        if white: self.again(True)
        x = self.rootdo("ipmanage", type="2", ip_type="2" if white else "1", ips=",".join(rules))
        if x["StatusCode"]: raise Violation("IP rules %s are answered %s" % (rules, x))
        if restart: self.again(bool(white), True)
        x = self.rootdo("ipmanage", type="1")
        if x["StatusCode"] or sorted(x["ResponseBody"]["ips"]) != sorted({s for s in rules if len(s) >= 7}): raise Violation("IP rules %s are reported as %s" % (rules, x))
        for ip in probes:
            x = self.S.post({"operation": "testConnect", "username": "root", "password": ROOTPW}, {"X-Real-IP": ip})
            if (x["StatusCode"] == 0) != (hit(ip) == bool(white)): raise Violation("with the %s list %s the address %s is answered %s" % ("allow" if white else "deny", rules, ip, x))
            rep.ev()
        if white: self.again(False)
        x = self.rootdo("ipmanage", type="2", ip_type="1", ips="255.255.255.254")
        if x["StatusCode"]: raise Violation("IP rules are answered %s" % x)
    def again(self, white, keep=False):
        """Restarts with an allow list instead of the deny list, or back."""
        c = self.ctx.path("h", "conf.ini"); t = open(c).read().split("\n")
        t = ["ip_allow_path=" + ('"ipAllow.config"' if white else "") if l.startswith("ip_allow_path") else l for l in t]
        if white and not keep:
            with open(self.ctx.path("h", "ipAllow.config"), "w") as f: f.write("10.0.0.0-10.255.255.255\n")
        self.S.shutdown()
        for v in self.m.dbs.values():
            if v[1]: v[3] = set(v[2]); v[1] = False
        self.pending = set()
        with open(c, "w") as f: f.write("\n".join(t))
        self.S.start()
        for d, v in self.m.dbs.items():
            x = self.rootdo("load", db_name=self.dname(d))
            if x["StatusCode"]: raise Violation("load of %s fails: %s" % (self.dname(d), x))
            v[1] = True
    # ---------------------------------------------------------------- many clients at once
    def at_once(self, fs):
        res = [None] * len(fs); go = threading.Barrier(len(fs))
        def t(i):
            try: go.wait(10); res[i] = fs[i]()
            except BaseException as e: res[i] = e
        ts = [threading.Thread(target=t, args=(i,)) for i in range(len(fs))]
        for t in ts: t.start()
        for t in ts: t.join()
        for x in res:
            if isinstance(x, DriverDied) and not self.S.alive(): raise Violation("the server process died: %s" % x)
        for x in res:
            if isinstance(x, BaseException): raise x
        return res
    def do_storm(self, a, rep):
        subs = []
        for i, c in enumerate(a[0]):
            s = copy.copy(self); s.case = c; s.m = HModel(); s.tag = "%ss%d" % (self.tag, i); s.denied = s.changed = 0; s.pending = set(); s.lastbak = 0
            subs.append(s)
        self.at_once([lambda s=s: [s.perform(o, rep) for o in s.case["ops"]] for s in subs])
        for i, s in enumerate(subs):
            try: s.check_state()
            except Violation as e: raise Violation("client %d of %d: %s" % (i, len(subs), e))
            self.changed += s.changed
        for s in subs: s.cleanup()
    def do_claim(self, a, rep):
        what, n = a; t = self.tag
        D = "c%s_%d" % (t, next(SEQ)); root = dict(username="root", password=ROOTPW)
        ask = lambda op, **k: self.send(dict({"operation": op}, **root, **k))
        def must(op, **k):
            x = ask(op, **k)
            if x["StatusCode"]: raise Violation("%s %s fails: %s" % (op, k, x))
            return x
        def race(op, ks):
            return [x["StatusCode"] for x in self.at_once([lambda k=k: ask(op, **k) for k in ks])]
        def one(codes):
            if codes.count(0) != 1: raise Violation("%d clients at once: %s of the same thing is answered %s" % (n, what, codes))
            return codes.index(0)
        def contents(d, exp):
            x = must("query", db_name=d, sparql=ALL, format="json")
            self.rows(x, exp, "contents of %s after %d clients at once: %s" % (d, n, what))
        U = lambda x: ('u', x)
        if what == "adduser":
            w = one(race("usermanage", [dict(type="1", op_username=D, op_password="p%d" % i) for i in range(n)]))
            x = self.send({"operation": "testConnect", "username": D, "password": "p%d" % w})
            if x["StatusCode"]: raise Violation("the user added by the winning request is refused: %s" % x)
            self.again_users(D, "p%d" % w)
            must("usermanage", type="2", op_username=D); return
        T = {(U("a"), U("p"), U("b")), (U("a"), U("q"), U("c"))}
        f = "f%s_%s.nt" % (t, D)
        if what == "build":
            for i in range(n): self.ctx.write("h/%s%d" % (f, i), rdf.nt(sorted(T | {(U("i%d" % i), U("p"), U("b"))}, key=repr)))
            w = one(race("build", [dict(db_name=D, db_path="%s%d" % (f, i)) for i in range(n)]))
            must("load", db_name=D); contents(D, T | {(U("i%d" % w), U("p"), U("b"))})
            for i in range(n): os.unlink(self.ctx.path("h", "%s%d" % (f, i)))
        else:
            self.ctx.write("h/" + f, rdf.nt(sorted(T, key=repr)))
            must("build", db_name=D, db_path=f)
            if what == "load":
                c = race("load", [dict(db_name=D) for i in range(n)])
                if 0 not in c: raise Violation("%d clients at once: load is answered %s" % (n, c))
                must("query", db_name=D, sparql="INSERT DATA { <n> <p> <n> . }"); T = T | {(U("n"), U("p"), U("n"))}
                contents(D, T); must("unload", db_name=D); must("load", db_name=D); contents(D, T)
            elif what == "drop":
                if n % 2: must("load", db_name=D)
                one(race("drop", [dict(db_name=D, is_backup="false")] * n))
                must("build", db_name=D, db_path=f); must("load", db_name=D); contents(D, T)
            elif what == "unload":
                must("load", db_name=D); one(race("unload", [dict(db_name=D)] * n))
                must("load", db_name=D); contents(D, T)
            elif what == "rename":
                w = one(race("rename", [dict(db_name=D, new_name="%s_%d" % (D, i)) for i in range(n)]))
                D = "%s_%d" % (D, w); must("load", db_name=D); contents(D, T)
            else:
                must("load", db_name=D)
                if what == "begin":
                    xs = self.at_once([lambda: ask("begin", db_name=D, isolevel="2")] * n)
                    if any(x["StatusCode"] for x in xs) or len({x["TID"] for x in xs}) != n: raise Violation("%d clients at once: begin is answered %s" % (n, xs))
                    exp = set(T)
                    ys = self.at_once([lambda i=i: ask("tquery", db_name=D, tid=xs[i]["TID"], sparql="INSERT DATA { <n%d> <p> <b> . }" % i) for i in range(n)])
                    zs = self.at_once([lambda i=i: ask("commit", db_name=D, tid=xs[i]["TID"]) for i in range(n)])
                    for i in range(n):
                        if ys[i]["StatusCode"] == 0 and zs[i]["StatusCode"] == 0: exp.add((U("n%d" % i), U("p"), U("b")))
                    must("checkpoint", db_name=D); contents(D, exp)
                elif what == "commit":
                    x = must("begin", db_name=D, isolevel="1"); must("tquery", db_name=D, tid=x["TID"], sparql="INSERT DATA { <n> <p> <n> . }")
                    one(race("commit", [dict(db_name=D, tid=x["TID"])] * n)); must("checkpoint", db_name=D); contents(D, T | {(U("n"), U("p"), U("n"))})
                elif what == "insert":
                    # some of the clients may be told that the lock is taken; then they changed nothing
                    for i in range(n): self.ctx.write("h/%s%d" % (f, i), rdf.nt([(U("j%d" % i), U("p"), U("b"))]))
                    c = [x["StatusCode"] for x in self.at_once([lambda i=i: ask("query", db_name=D, sparql="INSERT DATA { <n%d> <p> <b> . <n%d> <p%d> <x> . }" % (i, i, i)) if i % 2 else ask("batchInsert", db_name=D, file="%s%d" % (f, i)) for i in range(n)])]
                    exp = set(T)
                    for i in range(n):
                        if c[i] == 0: exp |= {(U("n%d" % i), U("p"), U("b")), (U("n%d" % i), U("p%d" % i), U("x"))} if i % 2 else {(U("j%d" % i), U("p"), U("b"))}
                    contents(D, exp); must("unload", db_name=D); must("load", db_name=D); contents(D, exp)
                    for i in range(n): os.unlink(self.ctx.path("h", "%s%d" % (f, i)))
                elif what == "query":
                    # queries while the database is unloaded: each sees all of it or is refused
                    def q():
                        for _ in range(4):
                            x = ask("query", db_name=D, sparql=ALL, format="json")
                            if x["StatusCode"] == 0: self.rows(x, T, "query while the database is unloaded")
                    def u():
                        for _ in range(3):
                            x = ask("unload", db_name=D)
                            if x["StatusCode"] == 0: must("load", db_name=D)
                    self.at_once([u] + [q] * (n - 1))
                    x = ask("load", db_name=D); contents(D, T)
            os.unlink(self.ctx.path("h", f))
        must("drop", db_name=D, is_backup="false")
    def again_users(self, name, pw):
        x = self.rootdo("showuser")
        l = [y for y in x["ResponseBody"] if y["username"] == name]
        if len(l) != 1 or l[0]["password"] != pw: raise Violation("user %s is listed as %s" % (name, l))
CHECK = C23()
