import json, select, subprocess, sys
def esc(s):
    return s.replace("%", "%25").replace("\t", "%09").replace("\n", "%0A").replace("\r", "%0D")
class D:
    def __init__(self, exe=None):
        self.p = subprocess.Popen([exe or sys.argv[1]], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    def cmd(self, *a, timeout=60):
        self.p.stdin.write(("\t".join(esc(str(x)) for x in a) + "\n").encode()); self.p.stdin.flush()
        r, _, _ = select.select([self.p.stdout], [], [], timeout)
        if not r:
            self.p.kill(); fail("no answer to", a)
        ln = self.p.stdout.readline()
        if not ln:
            fail("the process died during", a)
        return json.loads(ln.decode())
    def quit(self):
        self.p.stdin.write(b"exit\n"); self.p.stdin.flush(); self.p.wait()
    def new(self, db, nt=""):
        if nt:
            open(db + ".nt", "w").write(nt)
        check(self.cmd("build", db, db + ".nt" if nt else "").get("ok"), "build"); check(self.cmd("load", db).get("ok"), "load")
    def rows(self, db, q):
        r = self.cmd("q", db, q)["r"]
        if r.get("ret") != -100:
            fail("query failed:", q, r)
        j = json.loads(r["body"])
        return sorted(tuple(b[v]["value"] if v in b else None for v in j["head"]["vars"]) for b in j["results"]["bindings"])
    def upd(self, db, q):
        return self.cmd("q", db, q)["r"]["ret"]
def fail(*m):
    print("FAIL:", *[str(x)[:1500] for x in m]); sys.exit(1)
def check(c, *m):
    if not c:
        fail(*m)
class H:
    """A server of its own in the current (scratch) directory."""
    def __init__(self):
        import os, shutil
        os.makedirs("data/system", exist_ok=True)
        shutil.copy("/repo/data/system/system.nt", "data/system"); shutil.copy("/repo/bin/ghttp", "ghttp")
        for f in ("slog.properties", "slog.stdout.properties"):
            open(f, "w").write("log4cplus.rootLogger=ERROR, A\nlog4cplus.appender.A=log4cplus::NullAppender\n")
        subprocess.run(["/repo/bin/ginit"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        check(os.path.exists("system.db/success.txt"), "ginit")
        self.p = None; self.start()
    def start(self):
        import atexit, socket, time
        s = socket.socket(); s.bind(("127.0.0.1", 0)); self.port = s.getsockname()[1] % 12000 + 20000; s.close()
        self.p = subprocess.Popen(["./ghttp", "-p", str(self.port), "-c", "0"], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        atexit.register(self.kill)
        for _ in range(600):
            try: socket.create_connection(("127.0.0.1", self.port), 1).close(); break
            except OSError: time.sleep(.05)
        else: fail("the server does not start")
        time.sleep(.5)
    def kill(self):
        import os, signal
        if self.p:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait(); self.p = None
    def stop(self):
        import http.client
        pw = open("system.db/password%d.txt" % self.port).read().strip()
        try:
            c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=20)
            c.request("POST", "/shutdown", json.dumps({"username": "system", "password": pw}), {"Content-Type": "application/json"}); c.getresponse().read()
        except (OSError, http.client.HTTPException): pass
        self.p.wait(60); self.kill()
    def ask(self, op, user="root", password="123456", **k):
        import http.client
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=60)
        c.request("POST", "/", json.dumps(dict({"operation": op, "username": user, "password": password}, **k)), {"Content-Type": "application/json", "X-Real-IP": "10.0.0.5"})
        return json.loads(c.getresponse().read().decode())
    def ok(self, op, **k):
        x = self.ask(op, **k); check(x["StatusCode"] == 0, op, k, x)
        return x
