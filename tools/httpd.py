"""A ghttp server of its own in a scratch directory, spoken to over the loopback interface."""
import http.client, json, os, random, resource, shutil, signal, socket, subprocess, time, urllib.parse
import gs
from gs import DriverDied

def free_port(r=random.SystemRandom()):
    for _ in range(200):
        p = r.randrange(20000, 32000)
        s = socket.socket()
        try:
            s.bind(("0.0.0.0", p)); return p
        except OSError: continue
        finally: s.close()
    raise RuntimeError("no free port")

class Server:
    """cwd is prepared once (binary copy, system.db); start/stop/kill can alternate on the same directory."""
    def __init__(self, exes, cwd, timeout=40, conf=None):
        self.exes, self.cwd, self.timeout = exes, cwd, timeout
        self.p = None; self.starts = 0
        os.makedirs(os.path.join(cwd, "data", "system"), exist_ok=True)
        for c in gs.CONF: shutil.copy(os.path.join(gs.REPO, c), cwd)
        for sub in ("logs", "backups", ".tmp", ".debug", "lib"): os.makedirs(os.path.join(cwd, sub), exist_ok=True)
        shutil.copy(os.path.join(gs.REPO, "data/system/system.nt"), os.path.join(cwd, "data/system"))
        self.exe = os.path.join(cwd, "ghttp")
        shutil.copy(exes["ghttp"], self.exe)       # a file of its own: ghttp refuses to start when the same file is running
        # quiet logging: the console appender is enough
        with open(os.path.join(cwd, "slog.properties"), "w") as f:
            f.write("log4cplus.rootLogger=ERROR, A\nlog4cplus.appender.A=log4cplus::NullAppender\n")
        shutil.copy(os.path.join(cwd, "slog.properties"), os.path.join(cwd, "slog.stdout.properties"))
        if conf: conf(cwd)
        r = subprocess.run([exes["ginit"]], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120)
        if not os.path.exists(os.path.join(cwd, "system.db", "success.txt")):
            raise RuntimeError("ginit failed: " + r.stdout.decode(errors="replace")[-500:])
    def start(self, db=None):
        for attempt in range(5):
            self.port = free_port()
            cmd = [self.exe, "-p", str(self.port), "-c", "0"] + (["-db", db] if db else [])
            e = dict(os.environ); e["OMP_NUM_THREADS"] = "2"
            self.p = subprocess.Popen(cmd, cwd=self.cwd, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                      stderr=open(os.path.join(self.cwd, "ghttp.err"), "ab"), env=e, start_new_session=True, preexec_fn=gs._limit(12))
            end = time.monotonic() + 60
            while time.monotonic() < end:
                if self.p.poll() is not None: break
                try:
                    c = socket.create_connection(("127.0.0.1", self.port), 1); c.close()
                    if self.post({"operation": "check"}, {"X-Real-IP": "10.0.0.5"}).get("StatusCode") == 0:
                        self.starts += 1
                        self.child = self.children()
                        return self
                except (OSError, DriverDied): time.sleep(.01)
            self.kill()
        raise DriverDied("the server did not start", cmd)
    def children(self):
        try: return open("/proc/%d/task/%d/children" % (self.p.pid, self.p.pid)).read().split()
        except OSError: return []
    def raw(self, method, path, body=None, headers=None, timeout=None):
        """(status, headers, body bytes) of one request on one connection; DriverDied when there is no complete answer."""
        c = http.client.HTTPConnection("127.0.0.1", self.port, timeout=timeout or self.timeout)
        what = "%s %s %s" % (method, path[:300], "" if body is None else repr(body)[:600])
        try:
            c.request(method, path, body=body, headers=headers or {})
            r = c.getresponse()
            return r.status, dict((k.lower(), v) for k, v in r.getheaders()), r.read()
        except socket.timeout: raise DriverDied("timeout", what)
        except (OSError, http.client.HTTPException) as e: raise DriverDied("no answer (%s %s)" % (type(e).__name__, e), what)
        finally: c.close()
    def body(self, x, what):
        try: return json.loads(x[2].decode("utf-8", "replace"))      # damaged requests are quoted as they are
        except ValueError: raise DriverDied("answer is not JSON: %r" % x[2][:300], what)
    def post(self, params, headers=None, timeout=None):
        b = json.dumps(params).encode("utf-8", "surrogateescape")
        return self.body(self.raw("POST", "/", b, dict({"Content-Type": "application/json"}, **(headers or {})), timeout), params)
    def get(self, params, headers=None, timeout=None):
        q = "&".join("%s=%s" % (k, urllib.parse.quote(v, safe="")) for k, v in params.items())
        return self.body(self.raw("GET", "/?" + q, None, headers, timeout), params)
    def alive(self):
        return self.p is not None and self.p.poll() is None and self.children() == self.child
    def shutdown(self):
        """The documented clean stop: /shutdown with the password the server wrote to its system database."""
        pw = open(os.path.join(self.cwd, "system.db", "password%d.txt" % self.port)).read().strip()
        try: x = self.body(self.raw("POST", "/shutdown", json.dumps({"username": "system", "password": pw}).encode(), {"X-Real-IP": "10.0.0.5"}), "shutdown")
        except DriverDied as e:
            if "no answer" not in e.what: raise
            x = None        # the server may exit before its answer is flushed
        try: self.p.wait(60)
        except subprocess.TimeoutExpired: raise DriverDied("the server did not stop", "shutdown")
        self.kill()
        return x
    def kill(self):
        if self.p is not None:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
            self.p.wait(); self.p = None
