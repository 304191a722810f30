import threading
from httpcheck import *

def norm(s):
    for x in ("\r\n", "\n", "    "): s = s.replace(x, "")
    return s
QS = ["SELECT ?s ?p ?o WHERE { ?s ?p ?o . }", "SELECT ?s WHERE { ?s ?p ?o . } LIMIT %d", "SELECT DISTINCT ?p WHERE { ?s ?p ?o . }", "SELECT ?s ?o WHERE { ?s <p0> ?o . } ORDER BY ?s LIMIT %d OFFSET %d",
      "SELECT ?o\nWHERE { ?s ?p ?o .\r\n }", "ASK WHERE { ?s <p0> ?o . }", "SELECT ?s WHERE { ?s ?p \"quo\\\"ted\u00e9\" . }", "SELECT (COUNT(*) AS ?n) WHERE { ?s ?p ?o . }", "SELECT ?s WHERE { ?s ?p \"a,b\\t{}\" . }",
      "SELECT ?s WHERE {\t?s <http://x.org/%%41?a=b&c=d> ?o . }", "SELECT ?s ?t WHERE { ?s ?p ?o . ?t ?q ?o . }", "SELECT ?s WHERE { ?s ?p ?o . } OFFSET %d", "SELECT ?s WHERE { ?s ?p 'x%s' . }"]
BAD = ["SELECT", "", "nonsense \"quoted\" \\ text", "SELECT ?x WHERE { ?x <p0> }", "INSERT DATA { <a> <p0> <b> . }", "DELETE DATA { <a> <p0> <b> . }", "x\ny\r\nz    w\u00e9"]
OPS = ["show", "login", "testConnect", "getCoreVersion", "showuser", "monitor", "load", "build", "stat", "querylogdate", "accesslogdate", "nosuchoperation", "we\"ird\\op", "\u00e9\u4e2d", "a,b", "", "usermanage", "rename", "drop", "checkpoint",
       "backuppath", "userprivilegemanage", "begin", "commit", "tquery", "batchInsert", "restore", "ipmanage", "backup"]
DBN = ["nodb", "x/../y", "a\"b", "\u00e9", "", "system", "z" * 3000, "b\nc"]

FMTS = ["json"] * 5 + ["file", "json+file", "file+json", ""]
GONE = ("drop", "begin", "backup", "restore", "checkpoint")      # asked of databases that are not there only

class C26(HttpCheck):
    prop = "C26"
    title = "The server's logs record every request, query and transaction"
    technique = "stateful property-based testing of the running server's three logs against a model that keeps them"
    rule = ("a case is 5-30 steps: requests of every kind by root, a user and a stranger from addresses of their own, queries that succeed and fail, bursts of requests at once, transactions that are committed, rolled back, "
            "ended twice or left open, pages of the logs of all sizes, stops, kills and starts of the server. The access log must hold one entry for each request answered otherwise than by a query's result, the query log one for each "
            "query answered with a result (address, text, database, number of answers, format), the transaction log one for each transaction begun (user, database, state, times), newest first; every page must be the slice of that list. "
            "Non-trivial: both logs gained entries and a page was read that is not the first one; distinct by case.")
    quick = 250; thorough = 8000; quick_s = 25; workers = 6
    NU, ND = 2, 2
    def gen(self, r, i, tier):
        ops = []
        dbs = [jl(Pool(r, ents=4, preds=2, lits=3).triples(0, 9)) for _ in range(self.ND)]
        def req():
            x = r.random(); via = r.choice([0, 0, 0, 1, 1, 2])
            who = [r.choice([-1, -1, -1, 0, 0, 5]), int(r.random() < .15), via]
            if x < .45:
                q = r.choice(QS)
                if "%s" in q: q %= r.choice(["", "y" * 500, "y" * 3000, "\u4e2d"])
                elif "%d" in q: q %= tuple(r.choice([0, 1, 2, 3, 50]) for _ in range(q.count("%d")))
                else: q = q.replace("%%", "%")
                return ["query"] + who + [r.randrange(self.ND), q if r.random() < .8 else r.choice(BAD), r.choice(FMTS)]
            w = r.choice(OPS)
            return ["op"] + who + [w, r.choice(DBN if w in GONE else list(range(self.ND)) + DBN)]
        for _ in range(r.randrange(5, 30)):
            x = r.random()
            if x < .45: ops.append(req())
            elif x < .68: ops.append(["page", r.choice(["accesslog", "accesslog", "querylog", "querylog", "txnlog"]), r.choice([1, 1, 2, 2, 3, 4, 5, 9, -1, 0]), r.choice([1, 2, 3, 4, 5, 7, 10, 50, -1, 0]), r.randrange(2)])
            elif x < .82: ops.append(["txn", r.choice([-1, 0]), r.randrange(self.ND), r.choice([1, 2, 3]), r.randrange(0, 3), r.choice(["commit", "commit", "rollback", "rollback", "none"]), r.random() < .3])
            elif x < .92: ops.append(["burst", [req() for _ in range(r.randrange(2, 9))]])
            elif x < .95: ops.append(["end", r.choice(["commit", "rollback"]), r.randrange(4)])
            elif x < .975: ops.append(["restart"])
            else: ops.append(["kill"])
        return {"us": [r.choice(USUF) for _ in range(self.NU)], "ds": [r.choice(DSUF) for _ in range(self.ND)], "dbs": dbs, "ops": ops, "long": r.choice([0] * 10 + [300, 1200])}
    def ip(self): return {"X-Real-IP": HttpCheck.ip(self)["X-Real-IP"].replace("10.", "11.", 1)}      # 10.0.0.5 is the address of the requests that wait for the server
    def uname(self, i):
        n = HttpCheck.uname(self, i)
        return n + "n" * self.case["long"] if i == 0 else n
    def valid(self, case):
        if set(case) != {"us", "ds", "dbs", "ops", "long"} or case["long"] not in (0, 300, 1200) or len(case["us"]) != self.NU or len(case["ds"]) != self.ND or len(case["dbs"]) != self.ND: return False
        if any(x not in USUF for x in case["us"]) or any(x not in DSUF for x in case["ds"]) or not all(valid_graph(g) for g in case["dbs"]): return False
        def okreq(o):
            if not isinstance(o, list) or len(o) < 4 or o[1] not in (-1, 0, 5) or o[2] not in (0, 1) or o[3] not in (0, 1, 2): return False
            if o[0] == "query": return len(o) == 7 and o[4] in range(self.ND) and isinstance(o[5], str) and o[6] in FMTS
            return o[0] == "op" and len(o) == 6 and o[4] in OPS and (o[5] in DBN or o[4] not in GONE and type(o[5]) is int and o[5] in range(self.ND))
        def ok(o):
            if not isinstance(o, list) or not o: return False
            if o[0] == "page": return len(o) == 5 and o[1] in ("accesslog", "querylog", "txnlog") and all(type(x) is int for x in o[2:4]) and o[4] in (0, 1)
            if o[0] == "txn": return len(o) == 7 and o[1] in (-1, 0) and o[2] in range(self.ND) and o[3] in (1, 2, 3) and type(o[4]) is int and 0 <= o[4] < 5 and o[5] in ("commit", "rollback", "none")
            if o[0] == "burst": return len(o) == 2 and isinstance(o[1], list) and all(okreq(x) for x in o[1])
            if o[0] == "end": return len(o) == 3 and o[1] in ("commit", "rollback") and type(o[2]) is int
            if o[0] in ("restart", "kill"): return len(o) == 1
            return okreq(o)
        return all(ok(o) for o in case["ops"])
    # ------------------------------------------------------------ requests, and the entries they must leave
    def today(self): return time.strftime("%Y%m%d")
    def pw(self, u): return ROOTPW if u == -1 else "pw1"
    def whole(self, which):
        """Every entry of a log, oldest first."""
        x = self.tell({"operation": which, "username": "root", "password": ROOTPW, "pageNo": 1, "pageSize": 1000000, "date": self.date})
        if x["StatusCode"]: raise Violation("%s fails: %s" % (which, str(x)[:300]))
        return x, x["list"][::-1]
    def tell(self, p, via=0):
        """Sends a request from an address of its own; notes the access log entry when it must leave one."""
        h = self.ip(); p = {k: str(v) if via else v for k, v in p.items()}
        if via == 2 and any(c in v for v in p.values() for c in "&=%+#?"): via = 1
        if via == 0: x = self.S.post(p, h)
        elif via == 1: x = self.S.get(p, h)
        else: x = self.S.body(self.S.raw("GET", "/" + urllib.parse.quote("?" + "&".join("%s=%s" % kv for kv in p.items()), safe=""), None, h), p)
        if not isinstance(x, dict) or type(x.get("StatusCode")) is not int: raise Violation("the answer has no StatusCode: %s -> %s" % (p, str(x)[:300]))
        c, msg = x["StatusCode"], x.get("StatusMsg", "")
        op = "authcheck" if c == 1001 else "privilegecheck" if c == 1004 and msg.startswith("You have no") else "operationcheck" if c == 1100 else p["operation"]
        e = {"ip": h["X-Real-IP"], "operation": op.lower(), "code": c, "msg": norm(msg)}
        x["_entry"] = e
        if p["operation"] == "query" and x["StatusCode"] == 0 and "AnsNum" in x:
            n = len(x["results"]["bindings"]) if "results" in x else None
            q = {"RemoteIP": e["ip"], "Sparql": p["sparql"], "Format": p.get("format") or "json", "StatusCode": 0, "DbName": p["db_name"], "AnsNum": x["AnsNum"], "FileName": x.get("FileName", "")}
            if n is not None and n != x["AnsNum"]: raise Violation("a query's answer has %d rows and says %d: %s" % (n, x["AnsNum"], p))
            x["_query"] = q
        return x
    def note(self, x):
        if "_query" in x: self.qlog.append(x["_query"])
        else: self.alog.append(x["_entry"])
        return x
    def request(self, o):
        who, badpw, via = o[1:4]
        p = {"username": "root" if who == -1 else self.uname(0) if who == 0 else "nobody", "password": self.pw(who) + ("x" if badpw else "")}
        if o[0] == "query": p.update(operation="query", db_name=self.dname(o[4]), sparql=o[5], format=o[6])
        else: p.update(operation=o[4], db_name=self.dname(o[5]) if type(o[5]) is int else o[5])
        return p, via
    def match(self, which, got, exp, what):
        """Entries as the server lists them against those expected; a burst's entries come in any order."""
        keys = {"accesslog": ("ip", "operation", "code", "msg"), "querylog": ("RemoteIP", "Sparql", "Format", "StatusCode", "DbName", "AnsNum", "FileName"), "txnlog": ("db_name", "TID", "user", "state")}[which]
        g = [tuple(x.get(k).lower() if k == "operation" else x.get(k) for k in keys) for x in got]; e = [tuple(x.get(k).lower() if k == "operation" else x.get(k) for k in keys) for x in exp]
        if which == "txnlog":       # a transaction the server forgot when it stopped is not said to have been committed
            g = [x if y[3] != "?" or x[3] == "COMMITED" else x[:3] + ("?",) for x, y in zip(g, e)] + g[len(e):]
        if g != e:
            i = next((i for i in range(min(len(g), len(e))) if g[i] != e[i]), min(len(g), len(e)))
            raise Violation("%s: %d entries for %d expected; from entry %d on the log has\n  %s\nexpected\n  %s" % (what, len(g), len(e), i, str(g[i:i + 3])[:600], str(e[i:i + 3])[:600]))
        for x in got:
            if which == "txnlog":
                b, t = x["begin_time"], x["end_time"]
                if not b.isdigit() or x["state"] == "RUNNING" and t != "INF" or x["state"] != "RUNNING" and not (t.isdigit() and int(t) >= int(b)): raise Violation("%s: times of %s" % (what, x))
    def restart(self, kill):
        if kill: self.S.kill()
        else:
            x = self.S.shutdown()
        for i in self.open: self.tlog[i]["state"] = "?"
        self.open.clear()
        self.S.start(); self.rebase()
    def rebase(self):
        """The requests that waited for the server to start have left entries too; the ones before must still be there."""
        x, l = self.whole("accesslog"); n = len(self.base["accesslog"])
        rest = [e for e in l[n:] if e["ip"] != "10.0.0.5"]
        self.match("accesslog", rest, self.alog, "access log after a restart")
        self.base["accesslog"] = l; self.alog = [x["_entry"]]
        for d in range(self.ND): self.note(self.tell({"operation": "load", "username": "root", "password": ROOTPW, "db_name": self.dname(d)}))
    def root(self, **k):
        x = self.note(self.tell(dict({"username": "root", "password": ROOTPW}, **k)))
        if x["StatusCode"]: raise Violation("%s fails: %s" % (k, str(x)[:300]))
        return x
    def run(self, ctx, case, rep):
        self.begin(ctx, case)
        self.date = self.today()
        self.alog, self.qlog, self.tlog = [], [], []; self.open = {}; self.base = {}
        for which in ("querylog", "txnlog", "accesslog"): x, self.base[which] = self.whole(which)
        self.alog.append(x["_entry"])
        self.root(operation="usermanage", type="1", op_username=self.uname(0), op_password="pw1")
        for d, g in enumerate(case["dbs"]):
            f = "f%s_%d.nt" % (self.tag, d); ctx.write("h/" + f, rdf.nt(g))
            self.root(operation="build", db_name=self.dname(d), db_path=f); self.root(operation="load", db_name=self.dname(d))
            self.root(operation="userprivilegemanage", type="1", op_username=self.uname(0), privileges="1,2,3,4", db_name=self.dname(d))
        paged = False
        for i, o in enumerate(case["ops"]):
            try: paged |= bool(self.step(o, rep))
            except Violation as e:
                if self.today() != self.date: return        # midnight: the logs are another day's now
                raise Violation("step %d: %s" % (i, e))
            if not self.S.alive(): raise Violation("the server process died at %s" % o)
            rep.ev(); rep.label("step " + o[0])
        for which in ("accesslog", "querylog", "txnlog"): self.sync1(which)
        if self.alog and self.qlog and paged:
            rep.nontrivial(case); rep.sample({"access log": self.alog[-3:], "query log": self.qlog[-2:], "transaction log": self.tlog[-2:]})
        for d in range(self.ND): self.rootdo("drop", db_name=self.dname(d), is_backup="false")
        self.rootdo("usermanage", type="2", op_username=self.uname(0))
        for f in os.listdir(ctx.path("h")):
            if f.endswith(".nt"): os.unlink(ctx.path("h", f))
    def sync1(self, which):
        x, l = self.whole(which)
        if x["totalSize"] != len(l) or x["totalPage"] != (1 if l else 0): raise Violation("%s says %s entries in %s pages and lists %d" % (which, x["totalSize"], x["totalPage"], len(l)))
        n = len(self.base[which])
        if which != "txnlog" and l[:n] != self.base[which]: raise Violation("%s: entries of before have changed" % which)
        self.match(which, l[n:], {"accesslog": self.alog, "querylog": self.qlog, "txnlog": self.tlog}[which], which)
        self.alog.append(x["_entry"])
    def step(self, o, rep):
        k = o[0]
        if k in ("query", "op"): self.note(self.tell(*self.request(o)))
        elif k == "page":
            which, n, size, via = o[1:]
            p = {"operation": which, "username": "root", "password": ROOTPW, "pageNo": n, "pageSize": size}
            if which != "txnlog": p["date"] = self.date
            all_ = self.base[which] + {"accesslog": self.alog, "querylog": self.qlog, "txnlog": self.tlog}[which]
            x = self.note(self.tell(p, via))
            n, size = max(n, 1), size if size >= 1 else 10
            pages = -(-len(all_) // size)
            if n > pages and all_:
                if x["StatusCode"] != 1005: raise Violation("page %d of %d of %s is answered %s" % (n, pages, which, str(x)[:300]))
                return False
            if x["StatusCode"]: raise Violation("page %d of %d of %s fails: %s" % (n, pages, which, str(x)[:300]))
            if (x["totalSize"], x["totalPage"]) != (len(all_), pages) or all_ and (x["pageNo"], x["pageSize"]) != (n, size): raise Violation("page %d of %s (%d entries, %d a page) says %s" % (n, which, len(all_), size, {k: v for k, v in x.items() if k != "list"}))
            self.match(which, x["list"], all_[::-1][(n - 1) * size:n * size], "page %d of %s, %d a page" % (n, which, size))
            return n > 1
        elif k == "txn":
            _, u, d, iso, nq, end, twice = o
            p = {"username": self.uname(u), "password": self.pw(u), "db_name": self.dname(d)}
            x = self.note(self.tell(dict(p, operation="begin", isolevel=str(iso))))
            if x["StatusCode"]: raise Violation("begin fails: %s" % x)
            tid = x["TID"]
            y = self.whole1()
            e = {"db_name": p["db_name"], "TID": y["TID"] if y else None, "user": p["username"], "state": "RUNNING"}
            if not y or y["TID"].split("_")[-1] != str(tid): raise Violation("the transaction log's newest entry is %s after transaction %s of %s began" % (y, tid, p["db_name"]))
            self.tlog.append(e)
            t = dict(p, tid=str(tid))
            for j in range(nq):
                x = self.note(self.tell(dict(t, operation="tquery", sparql=ALL if j % 2 == 0 else "INSERT DATA { <t%d> <p0> <t%d> . }" % (len(self.tlog), j))))
                if x["StatusCode"] and e["state"] == "RUNNING": e["state"] = "ABORTED" if "abort" in x["StatusMsg"] else "ROLLBACK"
            if end == "none": self.open[len(self.tlog) - 1] = t; return
            self.finish(e, t, end, e["state"] == "RUNNING" or None)
            if twice: self.finish(e, t, "rollback" if end == "commit" else "commit", False)
        elif k == "end":
            l = sorted(self.open)
            if not l: return
            i = l[o[2] % len(l)]; self.finish(self.tlog[i], self.open.pop(i), o[1], None)
        elif k == "burst":
            out = []; errs = []
            def go(q):
                try: out.append(self.tell(*self.request(q)))
                except (Violation, DriverDied) as e: errs.append(e)
            th = [threading.Thread(target=go, args=(q,)) for q in o[1]]
            for t in th: t.start()
            for t in th: t.join()
            if errs: raise errs[0]
            # their order is the log's; each must be there once
            for which, key, mine in (("accesslog", "ip", self.alog), ("querylog", "RemoteIP", self.qlog)):
                new = [x["_entry" if which == "accesslog" else "_query"] for x in out if ("_query" in x) == (which == "querylog")]
                x = self.tell({"operation": which, "username": "root", "password": ROOTPW, "pageNo": 1, "pageSize": len(new) + 1, "date": self.date})
                if which == "accesslog" or self.base[which] or mine or new:
                    if x["StatusCode"]: raise Violation("%s fails: %s" % (which, str(x)[:300]))
                    got = [y[key] for y in x["list"][::-1]][-len(new):] if new else []
                    if sorted(got) != sorted(y[key] for y in new): raise Violation("%s after %d requests at once: newest entries %s, expected those of %s" % (which, len(out), got, [y[key] for y in new]))
                    mine += sorted(new, key=lambda y: got.index(y[key]))
                if which == "accesslog": first = x["_entry"]
                else: self.alog += [first, x["_entry"]]
        else: self.restart(k == "kill")
    def whole1(self):
        x = self.note(self.tell({"operation": "txnlog", "username": "root", "password": ROOTPW, "pageNo": 1, "pageSize": 1}))
        return x["list"][0] if x["StatusCode"] == 0 and x["list"] else None
    def finish(self, e, t, end, must):
        x = self.note(self.tell(dict(t, operation=end)))
        if must is True and x["StatusCode"]: raise Violation("%s fails: %s" % (end, x))
        if must is False and x["StatusCode"] == 0: raise Violation("%s of a transaction that ended succeeds: %s" % (end, x))
        if e["state"] == "RUNNING": e["state"] = ("COMMITED" if end == "commit" else "ROLLBACK") if x["StatusCode"] == 0 else "ROLLBACK"
CHECK = C26()
