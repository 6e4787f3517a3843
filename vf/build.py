"""Builds /repo's current working tree (a copy of it) with sanitizers, plus the drivers.

Nothing is written below /repo: CMake's configure_file writes into the source
directory, so the sources are copied first.  The build directory is keyed by a
content hash of everything copied and of the drivers, so a change in either is
never served from a stale build.
"""
import fcntl, glob, hashlib, os, shutil, subprocess, sys, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BASE = os.path.join(ROOT, ".build")
SAN = ("-g1 -O1 -fsanitize=address,undefined -fno-sanitize-recover=undefined -D_GLIBCXX_ASSERTIONS "
       "-fno-omit-frame-pointer -ftrivial-auto-var-init=")
VARIANTS = {"": "pattern", "zero": "zero", "verbose": "pattern",
            "fuzz": "pattern -fsanitize=fuzzer-no-link"}  # what uninitialised local variables hold
CMAKE_EXTRA = {"verbose": ["-DLOG_LEVEL=3"]}


class BuildError(Exception):
    pass


def _sources():
    out = []
    for top in ("CMakeLists.txt", "src"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p):
            out.append(top)
            continue
        for d, dirs, files in os.walk(p):
            dirs.sort()
            for f in sorted(files):
                out.append(os.path.relpath(os.path.join(d, f), REPO))
    # generated by configure, ignored by git: it is regenerated in the copy
    return [s for s in out if not s.endswith("calcJconfig.hpp")]


def _digest(srcs, san):
    h = hashlib.sha256()
    for s in srcs:
        h.update(s.encode() + b"\0")
        with open(os.path.join(REPO, s), "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    h.update(san.encode())
    return h.hexdigest()[:16]


def _run(cmd, log, **kw):
    with open(log, "ab") as f:
        f.write(("\n$ " + " ".join(cmd) + "\n").encode())
        f.flush()
        r = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, **kw)
    if r.returncode != 0:
        with open(log, "rb") as f:
            tail = f.read()[-4000:].decode("utf8", "replace")
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), tail))


def _prune(keep):
    try:
        ds = [d for d in glob.glob(os.path.join(BASE, "t-*")) if d != keep]
        ds.sort(key=os.path.getmtime)
        for d in ds[:-5]:
            if time.time() - os.path.getmtime(d) < 1800:  # another check may be using it
                continue
            shutil.rmtree(d, ignore_errors=True)
    except OSError:
        pass


def tree(variant=""):
    """Build the library and calc_J of the current tree; return the directory."""
    os.makedirs(BASE, exist_ok=True)
    srcs = _sources()
    san = SAN + VARIANTS[variant]
    d = os.path.join(BASE, "t-" + _digest(srcs, san + " ".join(CMAKE_EXTRA.get(variant, []))))
    with open(d + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            for s in srcs:
                t = os.path.join(d, "src", s)
                os.makedirs(os.path.dirname(t), exist_ok=True)
                shutil.copy2(os.path.join(REPO, s), t)
            log = os.path.join(d, "build.log")
            env = dict(os.environ, CC="clang", CXX="clang++")
            for v in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
                env.pop(v, None)
            _run(["cmake", "-S", os.path.join(d, "src"), "-B", os.path.join(d, "b"),
                  "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Debug",
                  "-DCMAKE_POLICY_VERSION_MINIMUM=3.5", "-DENABLE_TESTS=OFF",
                  "-DENABLE_INTEGRATION_TESTS=OFF", "-DDOWNLOAD_TUTORIAL_FILES=OFF",
                  "-DCMAKE_CXX_FLAGS_DEBUG=" + san] + CMAKE_EXTRA.get(variant, []), log, env=env)
            _run(["ninja", "-C", os.path.join(d, "b")], log, env=env)
            open(os.path.join(d, "ok"), "w").close()
        os.utime(d)
        _prune(d)
    return d


def _calcj_objects(d, log):
    """calc_J's own object file with main renamed, so that a driver can call it."""
    out = []
    for i, o in enumerate(sorted(glob.glob(os.path.join(d, "b", "CMakeFiles", "calc_J.dir", "**", "*.o"), recursive=True))):
        n = os.path.join(d, "calcj-%d-%d.o" % (i, os.getpid()))
        _run(["objcopy", "--redefine-sym", "main=calcj_entry", o, n], log)
        out.append(n)
    return out


def fuzzer():
    """Build the libFuzzer target against the current tree; return the executable."""
    d = tree("fuzz")
    src = os.path.join(ROOT, "drivers", "fuzz", "target.cpp")
    with open(src, "rb") as f:
        exe = os.path.join(d, "fuzz-%s" % hashlib.sha256(f.read()).hexdigest()[:12])
    with open(exe + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            log = os.path.join(d, "fuzz.log")
            libs = glob.glob(os.path.join(d, "b", "**", "*.a"), recursive=True)
            _run(["clang++", "-std=c++11", "-w", "-Wl,--wrap=exit", "-fsanitize=fuzzer"] +
                 (SAN + VARIANTS[""]).split() + [src] + _calcj_objects(d, log) + libs + ["-o", exe + ".tmp"], log)
            os.rename(exe + ".tmp", exe)
    return exe


def driver(name):
    """Build driver `name` (or `name@variant`) against the current tree; return the executable."""
    name, _, variant = name.partition("@")
    d = tree(variant)
    src = os.path.join(ROOT, "drivers", name + ".cpp")
    srv = os.path.join(ROOT, "drivers", "server.hpp")
    h = hashlib.sha256()
    for p in (src, srv):
        with open(p, "rb") as f:
            h.update(f.read())
    exe = os.path.join(d, "drv-%s-%s" % (name, h.hexdigest()[:12]))
    with open(exe + ".lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            log = os.path.join(d, "driver-%s.log" % name)
            libs = glob.glob(os.path.join(d, "b", "**", "*.a"), recursive=True)
            inc = []
            lc = os.path.join(d, "src", "src", "libcatnip")
            for dd, _, _ in os.walk(lc):
                inc += ["-I", dd]
            inc += ["-I", os.path.join(d, "src", "src")]
            extra = []
            if name == "calcj":
                extra = _calcj_objects(d, log)
            tmp = exe + ".tmp"
            _run(["clang++", "-std=c++11", "-w"] + (SAN + VARIANTS[variant]).split() + inc + [src] + extra +
                 libs + ["-o", tmp], log)
            os.rename(tmp, exe)
    return exe


if __name__ == "__main__":
    for n in sys.argv[1:]:
        print(driver(n))
