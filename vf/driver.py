import os, subprocess, tempfile, shutil, atexit
from . import build

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:allocator_may_return_null=0:"
                    "max_malloc_fill_size=1073741824:symbolize=0:"
                    "handle_abort=0:max_allocation_size_mb=2048",
    "UBSAN_OPTIONS": "exitcode=99:print_stacktrace=0:symbolize=0",
}


class InfraError(Exception):
    """The check itself could not run (never a verdict about the code)."""


class Result:
    __slots__ = ("kind", "code", "res", "out", "err")

    def __init__(self, kind, code, res, out, err):
        self.kind, self.code, self.res, self.out, self.err = kind, code, res, out, err

    def sanitizer(self):
        for mark in ("AddressSanitizer", "runtime error:", "LeakSanitizer", "UndefinedBehaviorSanitizer"):
            if mark in self.err:
                return True
        return self.kind == "E" and self.code == 99

    def hang(self):
        return self.kind == "T"

    def crashed(self):
        """Sanitizer report, memory fault or out of time: never an allowed outcome."""
        if self.sanitizer() or self.hang():
            return True
        if self.aborted() and "Assertion '" in self.err:
            return True  # an element of a container or string that is not there
        # SIGABRT is how an uncaught C++ exception ends the program
        return self.kind == "S" and self.code != 6

    def aborted(self):
        return self.kind == "S" and self.code == 6

    def refused(self):
        """Clean refusal: non-zero exit or uncaught C++ exception."""
        if self.crashed():
            return False
        if self.aborted():
            return "terminat" in self.err or "uncaught" in self.err
        return self.kind == "E" and self.code != 0

    def ok(self):
        return self.kind == "E" and self.code == 0 and not self.sanitizer()

    def brief(self):
        return "kind=%s code=%s\n--res--\n%s\n--out--\n%s\n--err--\n%s" % (
            self.kind, self.code, self.res[-1500:], self.out[-1500:], self.err[-2500:])


class Driver:
    def __init__(self, exe, fill=190):
        self.exe = exe
        self.fill = fill
        self.p = None
        self.session = False  # several cases in one process, until end()
        self.used = False

    def _start(self):
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["ASAN_OPTIONS"] += ":malloc_fill_byte=%d" % self.fill
        env["LC_ALL"] = "C"
        self.p = subprocess.Popen([self.exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL, env=env)

    def close(self):
        if self.p is not None:
            try:
                self.p.stdin.close()
                self.p.kill()
                self.p.wait()
            except OSError:
                pass
            self.p = None

    def _ask(self, data):
        self.p.stdin.write(data)
        self.p.stdin.flush()
        head = self.p.stdout.readline().split()
        if len(head) != 5:
            raise InfraError("driver died: %r" % (head,))
        kind, code = head[0].decode(), int(head[1])
        parts = [self.p.stdout.read(int(x)).decode("latin-1") for x in head[2:]]
        if kind in ("F", "W"):
            raise InfraError("driver: %s %d" % (kind, code))
        return Result(kind, code, *parts)

    def run(self, body):
        if isinstance(body, str):
            body = body.encode("latin-1")
        if self.session:
            if self.p is None or self.p.poll() is not None:
                self._start()
            self.used = True
            return self._ask(b"S%d\n" % len(body) + body)
        last = None
        for attempt in range(3):
            if self.p is None or self.p.poll() is not None:
                self._start()
            try:
                return self._ask(b"%d\n" % len(body) + body)
            except (OSError, InfraError) as e:
                last = e
                self.close()
        raise InfraError("driver failed three times: %s" % last)

    def end(self):
        """Ends the session."""
        self.session = False
        if self.used:
            self.used = False
            try:
                self._ask(b"Q\n")
            except (OSError, InfraError, ValueError):
                self.close()


def hx(s):
    if isinstance(s, str):
        s = s.encode("latin-1")
    return "%" + s.hex()


def unhx(t):
    return bytes.fromhex(t[1:]).decode("latin-1")


_scratch = None


def scratch():
    """This process's scratch directory (removed at exit)."""
    global _scratch
    if _scratch is None or _scratch[0] != os.getpid():
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else None
        _scratch = (os.getpid(), tempfile.mkdtemp(prefix="vf-", dir=base))
    return _scratch[1]


def drop_scratch():
    global _scratch
    if _scratch is not None and _scratch[0] == os.getpid():
        shutil.rmtree(_scratch[1], ignore_errors=True)
        _scratch = None


class Env:
    """What a check sees: its drivers and a scratch directory, per process."""

    def __init__(self, exes):
        # the variant of a driver also gets another content of fresh heap memory
        self.session = False
        self.asked = []  # what the earlier cases of a session asked (rd.run)
        self.drv = {n: Driver(e, 0 if n.endswith("@zero") else 190) for n, e in exes.items()}

    def calcj(self, argv, cwd=None, name="calcj", environ=None):
        body = "cwd %s\n" % hx(cwd or scratch())
        for k, v in sorted((environ or {}).items()):
            body += "env %s %s\n" % (hx(k), hx(v))
        for a in ["calc_J"] + list(argv):
            body += hx(a) + "\n"
        return self.drv[name].run(body)

    def run(self, name, body):
        return self.drv[name].run(body)

    def begin(self):
        """From here to end() the library drivers run all cases in one process.
        calc_J stays a process per run, as it is for its users."""
        self.session = True
        for n, d in self.drv.items():
            d.session = not n.startswith("calcj")
        self.asked = []

    def end(self):
        self.session = False
        for d in self.drv.values():
            d.end()

    @property
    def dir(self):
        return scratch()

    def close(self):
        for d in self.drv.values():
            d.close()
        drop_scratch()
