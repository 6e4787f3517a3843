"""Results depend on nothing but the arguments and file contents; no file is touched."""
import glob, os, shutil
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj", "calcj@zero"]
N = {"quick": 3000, "thorough": 50000}
RULE = ("A case is a set of input files (intact, or with one of them cut) and a command line, run by two builds whose "
        "uninitialised stack and heap memory hold different bytes, then from another directory, by a path across symbolic links, with other file "
        "names, ages and access rights or symbolic links, among other files, and with other environment variables. Standard output (but for the file names) and the kind of ending must be the same, and no file may "
        "appear, change or vanish. Non-trivial: at least the intact files gave a result in all runs.")
ASSUMPTIONS = ["fresh heap memory holds 0xBE or 0x00, uninitialised locals the clang pattern or zeros"]

ENV = [("LC_ALL", "de_DE.UTF-8"), ("LANG", "C.UTF-8"), ("HOME", "/nonexistent"), ("TMPDIR", "/nonexistent"), ("TZ", "Asia/Tokyo"),
       ("OMP_NUM_THREADS", "3"), ("LOG_LEVEL", "3"), ("COLUMNS", "20"), ("PWD", "/"), ("LC_NUMERIC", "de_DE.UTF-8"), ("DEBUG", "1"),
       ("POSIXLY_CORRECT", "1"), ("PATH", "")]

EXTRA = ["fort.7", "a", "core", "1.log~", "a.log.bak", "x.com", "a.LOG", "a.txt", "other.pun", "other.log", ".log", ".pun", "mono.log2", "zz9.pu"]


@st.composite
def strategy_(draw):
    cp = draw(st.integers(0, 3)) == 0
    s = draw(sy.specs(unres=draw(st.integers(0, 2)) == 0, cp=cp, max_total=16, pops=draw(st.integers(0, 3)) > 0, dress=True, big=True))
    spins = [draw(st.sampled_from(["Alpha", "Beta", None])) if s["unres"] else None for _ in range(3)]
    cut = [draw(st.sampled_from(["1.log", "2.log", "P.log", "1.pun", "2.pun", "P.pun"])), draw(st.integers(0, 10 ** 6))] \
        if draw(st.integers(0, 3)) == 0 else None
    name = st.sampled_from(["a", "mono", "dimer_run", "x-1", "A", "n.2", "run 3", "b_b", "zz9", "1", "molecule" * 25, "~x", "log"])
    names = draw(st.lists(name, min_size=3, max_size=3, unique=True))
    return {"sys": s, "spins": spins, "cut": cut, "names": names, "sub": draw(st.sampled_from(["d", "deep/er", "sp ace", "d.ot"])),
            "k1": draw(st.integers(0, 99)), "k2": draw(st.integers(0, 99)), "explicit": draw(st.booleans()),
            "abs": draw(st.booleans()), "via": draw(st.integers(0, 3)) == 0, "link": draw(st.integers(0, 3)) == 0,
            "age": draw(st.integers(0, 2 ** 32 - 1)), "extra": draw(st.integers(0, 2)) == 0, "ro": draw(st.integers(0, 3)) == 0,
            "env": draw(st.lists(st.sampled_from(range(len(ENV))), max_size=4, unique=True))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "result" in notes


def snapshot(d):
    out = {}
    for b, dirs, files in os.walk(d):
        for x in dirs:
            out[os.path.relpath(os.path.join(b, x), d)] = None
        for x in files:
            p = os.path.join(b, x)
            with open(p, "rb") as f:
                out[os.path.relpath(p, d)] = (f.read(), os.stat(p).st_mtime_ns, os.stat(p).st_mode)
    return out


def lines(out):
    return [l for l in out.splitlines() if " file for " not in l]


def ending(r):
    return "ok" if r.ok() else "refused" if r.refused() else "other"


def check(case, env):
    S = sy.Sys(case["sys"])
    top = os.path.join(env.dir, "det")
    shutil.rmtree(top, ignore_errors=True)
    os.makedirs(os.path.join(top, "w"))
    there = os.path.join(top, case["sub"])
    os.makedirs(there)
    if case.get("via"):
        os.makedirs(os.path.join(there, "in", "ner"))
        os.symlink(os.path.join(there, "in", "ner"), os.path.join(top, "w", "lnk"))
    S.write(os.path.join(top, "w"))
    if case["cut"]:
        p = os.path.join(top, "w", case["cut"][0])
        t = open(p).read()
        sy.put(p, t[:case["cut"][1] % len(t)])
    for i, x in enumerate("12P"):
        for e in (".log", ".pun"):
            src, dst = os.path.join(top, "w", x + e), os.path.join(there, case["names"][i] + e)
            if case.get("link"):
                os.symlink(src, dst)
            else:
                shutil.copy(src, dst)
    if case.get("extra"):
        # files that have nothing to do with the run
        for i, n in enumerate(EXTRA):
            if not os.path.exists(os.path.join(there, n)):
                shutil.copy(os.path.join(top, "w", "1P2"[i % 3] + (".pun", ".log")[i % 2]), os.path.join(there, n))
    if case.get("age"):
        for i, p in enumerate(sorted(glob.glob(os.path.join(top, "*", "**", "*.*"), recursive=True))):
            if os.path.isfile(p):
                t = 1.5e9 + (case["age"] * 2654435761 * (i + 1)) % 1000003 * 300
                os.utime(p, (t, t))
                if case.get("ro"):
                    os.chmod(p, 0o444)
    before = snapshot(top)
    sp = [x or "Alpha" for x in case["spins"]]
    k1, k2 = case["k1"] % S.s["mo"][0], case["k2"] % S.s["mo"][1]
    rest = e2e.orbargs(S, k1, k2, sp[0], sp[1]) + (["-cp"] if S.s["cp"] else [])
    for f, x in zip(("-s_1", "-s_2", "-s_P"), case["spins"]):
        if x:
            rest += [f, x]

    def args(prefix, names):
        a = []
        for i, x in enumerate("12P"):
            a += ["-p_" + x, prefix + names[i] + ".pun"]
            if case["explicit"]:
                a += ["-l_" + x, prefix + names[i] + ".log"]
        return a + rest

    w = os.path.join(top, "w")
    a0 = args("", "12P")
    runs = [("first run", env.calcj(a0, w)), ("second run", env.calcj(a0, w)),
            ("other memory contents", env.calcj(a0, w, name="calcj@zero"))]
    a1 = args(there + "/" if case["abs"] else "../%s/" % case["sub"], case["names"])
    if case.get("via"):
        a1 = args((w + "/" if case["abs"] else "") + "lnk/../../", case["names"])
    runs.append(("other path and names", env.calcj(a1, w)))
    runs.append(("first run again, from the other directory", env.calcj(args("../w/" if "/" not in case["sub"] else
                                                                         "../../w/", "12P"), there)))
    if case.get("env"):
        runs.append(("other environment", env.calcj(a0, w, environ=dict(ENV[i] for i in case["env"]))))
    a, r0 = runs[0]
    if r0.crashed():
        if case["cut"]:
            note(env, "crash (left to the truncation check)")
            return
        raise Violation("memory error or hang\n%s" % r0.brief())
    for what, r in runs[1:]:
        same_out = r.out == r0.out if what in ("second run", "other memory contents", "other environment") else lines(r.out) == lines(r0.out)
        if ending(r) != ending(r0) or not same_out:
            raise Violation("%s differs from the first one (%s)\n%s\n--- first\n%s" % (what, a1, r.brief(), r0.brief()))
    after = snapshot(top)
    if after != before:
        ch = [k for k in set(before) | set(after) if before.get(k, 0) != after.get(k, 0)]
        raise Violation("files were created, changed or removed: %s" % ch)
    if r0.ok() and len(e2e.printed_anything(r0.out)) == 5:
        note(env, "result")
        if not case["cut"] and not S.s["unres"]:
            note(env, "intact")
    else:
        note(env, "refused")
        if not case["cut"]:
            raise Violation("consistent input was refused\n%s" % r0.brief())
