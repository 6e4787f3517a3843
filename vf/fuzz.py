"""Coverage-guided generation of damaged files: libFuzzer drives calc_J's main() and keeps what reaches new code."""
import glob, os, random, shutil, subprocess, tempfile
from . import build, system as sy

FILES = ["1.log", "2.log", "P.log", "1.pun", "2.pun", "P.pun"]
# the words the readers look for, and numbers that are hard to read
WORDS = ["Gross orbital populations:", "*** Overlap ***", "*** Kinetic Energy", "Alpha  occ. eigenvalues --",
         "Beta  occ. eigenvalues --", "Beta virt. eigenvalues --", "Alpha virt. eigenvalues --", "Condensed to atoms",
         "Center     Atomic      Atomic", "Center     Atomic     Atomic", " MO OE=", "Alpha", "Beta", "(5D15.8)", "D+", "D-",
         "-----", "5D 0", "1e999", "0.1D", "2147483648", "-1", "*****", "\n", "\n\n", "    1 Alpha MO OE=-0.1D+01\n", "  "]


def spec(unres):
    """A small system (fixed)."""
    return {"nA": 2, "nf": [2, 3, 2, 1], "mo": [5, 3, 8], "occ": [[3, 2, 5], [2, 1, 4]][:1 + unres], "kind": "random",
            "cp": False, "unres": bool(unres), "seed": 11 + unres, "pops": True, "perm": [2, 0, 3, 1], "fmtline": True,
            "ncols": 1, "monoS": True}


def intact(unres):
    S = sy.Sys(spec(unres))
    return {n + e: (S.log(w) if e == ".log" else S.pun(w)) for w, n in enumerate("12P") for e in (".log", ".pun")}


def options(sel):
    a = ["-p_1", "1.pun", "-p_2", "2.pun", "-p_P", "P.pun"]
    if sel // 12 % 2:
        a.append("-cp")
    if sel // 24 % 2 and sel // 6 % 2:
        a += ["-s_1", "Beta", "-s_2", "Beta", "-s_P", "Beta"]
    return a


def search(seed, runs, jobs=8, seconds=600):
    """Inputs (bytes: selector + contents) that reached code no earlier one reached, and ones that failed."""
    exe = build.fuzzer()
    top = tempfile.mkdtemp(prefix="vf-fuzz-")
    rnd = random.Random(seed)
    try:
        for k, n in ((0, "r"), (1, "u")):
            os.mkdir(os.path.join(top, n))
            for f, t in intact(k).items():
                sy.put(os.path.join(top, n, f), t)
        os.mkdir(os.path.join(top, "seeds"))
        given = set()
        for k in (0, 1):
            for f, t in intact(k).items():
                for more in (0, 1, 2, 3)[:1 if f[0] == "2" else 4]:
                    b = bytes([FILES.index(f) + 6 * k + 12 * more]) + t.encode()
                    given.add(b)
                    with open(os.path.join(top, "seeds", "%s-%d-%d" % (f, k, more)), "wb") as h:
                        h.write(b)
        with open(os.path.join(top, "dict"), "w") as h:
            for w in WORDS:
                h.write('"%s"\n' % "".join("\\x%02x" % ord(c) for c in w))
        procs = []
        for j in range(jobs):
            c = os.path.join(top, "c%d" % j)
            os.mkdir(c)
            args = [exe, c, os.path.join(top, "seeds"), "-dict=" + os.path.join(top, "dict"), "-seed=%d" % rnd.randrange(1, 2 ** 31),
                    "-runs=%d" % runs, "-max_total_time=%d" % seconds, "-max_len=6000", "-timeout=10", "-rss_limit_mb=2500",
                    "-close_fd_mask=3", "-detect_leaks=0", "-artifact_prefix=%s/x%d-" % (top, j), "-reload=0",
                    "-use_value_profile=%d" % (j % 2), "-len_control=0"]
            env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:allocator_may_return_null=0", UBSAN_OPTIONS="halt_on_error=1")
            procs.append(subprocess.Popen(args, cwd=top, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL))
        for p in procs:
            p.wait()
        out, bad = set(), []
        for f in sorted(glob.glob(os.path.join(top, "c*", "*"))):
            with open(f, "rb") as h:
                out.add(h.read())
        for f in sorted(glob.glob(os.path.join(top, "x*-*"))):
            with open(f, "rb") as h:
                bad.append(h.read())
        return sorted(out - given), bad
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    import sys, time
    t = time.time()
    good, bad = search(int(sys.argv[1]), int(sys.argv[2]))
    print(len(good), "kept", len(bad), "failed", round(time.time() - t, 1), "s")
    for b in bad[:3]:
        print(b[:300])
