"""Python side of the gStore drivers: scratch directories, subprocess control, result parsing."""
import atexit, json, os, resource, select, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CONF = ["init.conf", "conf.ini", "backup.json", "ipAllow.config", "ipDeny.config", "slog.properties", "slog.stdout.properties"]
SCRATCH_ROOT = os.environ.get("VERIF_SCRATCH") or ("/dev/shm" if os.access("/dev/shm", os.W_OK) else None)

class DriverDied(Exception):
    def __init__(self, what, cmd):
        Exception.__init__(self, "%s during %s" % (what, cmd)); self.what = what; self.cmd = cmd

_dirs = []
def scratch(prefix="gsv_"):
    d = tempfile.mkdtemp(prefix=prefix, dir=SCRATCH_ROOT)
    _dirs.append((os.getpid(), d))
    for c in CONF:
        shutil.copy(os.path.join(REPO, c), d)
    for sub in ("logs", "backups", ".tmp", ".debug", "lib"):
        os.mkdir(os.path.join(d, sub))
    return d

def cleanup():
    for pid, d in _dirs:
        if pid == os.getpid():
            shutil.rmtree(d, ignore_errors=True)
atexit.register(cleanup)

def drop(d):
    shutil.rmtree(d, ignore_errors=True)

def esc(s):
    return s.replace("%", "%25").replace("\t", "%09").replace("\n", "%0A").replace("\r", "%0D").replace("\0", "%00")

def _limit(gb):
    def f():
        resource.setrlimit(resource.RLIMIT_AS, (gb << 30, gb << 30))
        resource.setrlimit(resource.RLIMIT_FSIZE, (4 << 30, 4 << 30))       # a runaway write must not fill the disk
    return f

class Driver:
    """One gsdrv process working in directory cwd."""
    def __init__(self, exe, cwd, timeout=60, log=None, env=None):
        self.exe, self.cwd, self.timeout, self.log, self.env = exe, cwd, timeout, log, env
        self.p = None
        self.ncmd = 0
    def start(self):
        e = dict(os.environ); e["OMP_NUM_THREADS"] = "2"
        e["ASAN_OPTIONS"] = "detect_leaks=0:alloc_dealloc_mismatch=0:exitcode=77:log_path=%s/asan" % self.cwd
        e.update(self.env or {})
        self.p = subprocess.Popen([self.exe] + ([self.log] if self.log else []), cwd=self.cwd, stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=e, start_new_session=True,
                                  preexec_fn=None if self.exe.endswith("-asan") else _limit(6))   # a runaway query ends itself, not the sandbox
        self.buf = b""
        self.out_fd = self.p.stdout.fileno()
    def __enter__(self):
        return self
    def __exit__(self, *a):
        self.kill()
    def kill(self):
        if self.p is not None:
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()
            self.p.stdin.close() if not self.p.stdin.closed else None
            self.p.stdout.close()
            self.p = None
    def cmd(self, *args, timeout=None):
        if self.p is None:
            self.start()
        self.ncmd += 1
        line = "\t".join(esc(str(a)) for a in args) + "\n"
        try:
            self.p.stdin.write(line.encode("utf-8", "surrogateescape"))
            self.p.stdin.flush()
        except (BrokenPipeError, OSError):
            self._dead(args)
        deadline = time.monotonic() + (timeout or self.timeout)
        while b"\n" not in self.buf:
            left = deadline - time.monotonic()
            if left <= 0:
                self.kill()
                raise DriverDied("timeout", str(args)[:600])
            r, _, _ = select.select([self.out_fd], [], [], min(left, 5))
            if r:
                chunk = os.read(self.out_fd, 1 << 20)
                if not chunk:
                    self._dead(args)
                self.buf += chunk
        ln, self.buf = self.buf.split(b"\n", 1)
        return json.loads(ln.decode("utf-8", "surrogateescape"))
    def _dead(self, args):
        rc = self.p.wait()
        self.kill()
        what = "signal %d" % -rc if rc < 0 else "exit %d" % rc
        for f in os.listdir(self.cwd):
            if f.startswith("asan."):
                t = open(os.path.join(self.cwd, f), errors="replace").read().split("\n")
                what += " " + " ".join(l.strip() for l in t[1:12])
                os.unlink(os.path.join(self.cwd, f))
        raise DriverDied(what, str(args)[:600])
    def quit(self):
        if self.p is not None:
            try:
                self.p.stdin.write(b"exit\n"); self.p.stdin.flush()
                self.p.wait(20)
            except Exception:
                pass
            self.kill()
