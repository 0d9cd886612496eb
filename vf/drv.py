"""Long-lived unit drivers (C programs linked with the repository's objects): one request line, one answer."""
import os, select, subprocess, tempfile, time
from . import build
from .core import SCALE, Inconclusive, Timeout, Violation

_live = {}


class Driver:
    def __init__(self, name, kind="asan", args=(), env=None):
        self.name, self.kind, self.args, self.env = name, kind, list(args), env
        self.exe = build.driver(name, kind)
        self.p = None

    def start(self):
        self.errf = tempfile.TemporaryFile()
        e = {"PATH": os.environ["PATH"], "LC_ALL": "C", "VF_SEED": "1",
             "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:detect_stack_use_after_return=0",
             "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=98"}
        e.update(self.env or {})
        self.p = subprocess.Popen([self.exe] + self.args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.errf, env=e)
        self.buf = b""

    def stop(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.errf.close()
            self.p = None

    def err(self):
        self.errf.seek(0)
        return self.errf.read().decode("latin-1")

    def ask(self, line, timeout=60):
        """The answer line; a dead driver is a Violation (its stderr says why)."""
        if self.p is None or self.p.poll() is not None:
            self.stop()
            self.start()
        assert "\n" not in line
        try:
            self.p.stdin.write(line.encode("latin-1") + b"\n")
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        timeout *= SCALE[0]
        end = time.time() + timeout
        while not (self.buf.endswith(b"\n.\n")):
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                self.stop()
                raise Timeout("no answer within %d s" % timeout)
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d:
                rc = self.p.wait()
                e = self.err()
                self.stop()
                if "stack overflows" in e or "not enough memory" in e:
                    raise Inconclusive("resources")
                raise Violation("driver %s died (rc %s) on request %r: %s" % (self.name, rc, line[:500], _report(e)), "crash")
            self.buf += d
        out, self.buf = self.buf[:-3].decode("latin-1"), b""
        return out

    def tokens(self, line, **kw):
        return self.ask(line, **kw).split()


def _report(e):
    i = max(e.find("ERROR: AddressSanitizer"), e.find("runtime error"))
    return e[max(0, i - 200):i + 1800] if i >= 0 else e[-1500:]


def get(name, kind="asan", args=(), env=None):
    k = (name, kind, tuple(args), tuple(sorted((env or {}).items())))
    if k not in _live:
        _live[k] = Driver(name, kind, args, env)
    return _live[k]


def stop_all():
    for d in _live.values():
        d.stop()
    _live.clear()
