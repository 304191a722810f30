"""A gconsole process on a pseudo terminal."""
import fcntl, os, pty, re, select, signal, struct, subprocess, termios, time
import gs
from gs import DriverDied
MAIN = re.compile(r"gstore\[([^\]\n]*)\]> $")
class Console:
    def __init__(self, exe, cwd, user, timeout=40):
        self.timeout = timeout; self.buf = ""; self.last = "start as %s" % user
        m, s = pty.openpty()
        fcntl.ioctl(s, termios.TIOCSWINSZ, struct.pack("HHHH", 200, 20000, 0, 0))
        e = dict(os.environ); e.update(TERM="dumb", LC_ALL="C.UTF-8", OMP_NUM_THREADS="2", INPUTRC="/dev/null")
        self.p = subprocess.Popen(["stdbuf", "-o0", exe] + (["-u", user] if user else []), cwd=cwd, stdin=s, stdout=s, stderr=s, env=e, start_new_session=True, preexec_fn=gs._limit(6))
        os.close(s); self.fd = m
    def kill(self):
        if self.p.poll() is None:
            try: os.killpg(self.p.pid, signal.SIGKILL)
            except OSError: pass
        self.p.wait()
        if self.fd is not None: os.close(self.fd); self.fd = None
    def read(self, pats):
        """Text up to the first moment it ends with one of the patterns; (index, text). Index -1: the process ended."""
        end = time.monotonic() + self.timeout
        while True:
            for i, p in enumerate(pats):
                if p.search(self.buf):
                    t = self.buf; self.buf = ""
                    return i, t
            left = end - time.monotonic()
            if left <= 0: raise DriverDied("no answer within %d s (%r)" % (self.timeout, self.buf[-300:]), self.last)
            r, _, _ = select.select([self.fd], [], [], min(left, .5))
            if r:
                try: b = os.read(self.fd, 65536)
                except OSError: b = b""
                if not b:
                    rc = self.p.wait(); t = self.buf; self.buf = ""
                    if rc < 0: raise DriverDied("the console ended with signal %d (%s)" % (-rc, t[-300:]), self.last)
                    return -1, t
                self.buf += b.decode("utf-8", "replace").replace("\r", "")
    def send(self, text): os.write(self.fd, text.encode())
    def talk(self, line, answers=()):
        """Sends a line and answers the questions that follow it: answers = [(pattern, reply)...]; the text printed up to the next prompt."""
        self.last = line
        if line is not None: self.send(line)
        out = ""; pats = [MAIN] + [p for p, _ in answers]
        while True:
            i, t = self.read(pats)
            out += t
            if i <= 0: return i == 0, out
            rep = answers[i - 1][1]
            self.send(rep if isinstance(rep, str) else rep())
