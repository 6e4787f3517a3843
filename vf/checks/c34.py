"""Parameters: what was set last is what is read, and file names of other types are refused."""
from hypothesis import strategies as st
from ..driver import hx, unhx
from ..engine import Violation, note
from . import al

DRIVERS = ["params"]
N = {"quick": 20000, "thorough": 400000}
RULE = ("A case is a sequence of up to 25 set operations on up to three Parameters objects, one of which may be a copy, with all "
        "values read after each. Files are taken if the name ends in .log (.pun, .7 or .orb, by the last dot of the last "
        "path component, for coefficients) and refused otherwise, leaving the value as it was; everything else is stored "
        "as given; a new object has empty names, number 0 and both switches off. Non-trivial: a refused file and at "
        "least four different fields set.")
ASSUMPTIONS = ["no trailing white space in file names"]
FIELDS = ["log1", "log2", "logP", "pun1", "pun2", "punP", "spin1", "spin2", "spinP", "type1", "type2", "typeP", "num1", "num2",
          "numP", "cp", "cite"]
EMPTY = [""] * 12 + [0] * 5
NAMES = ["a", "a.b", "d.log/x", "d.pun/x", "/t/m.7/..x", "", "x.log", "x.pun", "log", "pun", "7", "a.LOG", "a.Pun", "a.logs", "a.77",
         "a.lo", "a.log.bak", "a.og", "a b", "aorb", "a.orb.x"]
EXTS = ["", ".log", ".log", ".log", ".pun", ".pun", ".7", ".orb", ".", ".txt", ".log.", ".orb/", ".og", "orb", "log"]


@st.composite
def strategy_(draw):
    f = st.sampled_from(FIELDS)
    val = st.one_of(st.builds(lambda a, b: a + b, st.sampled_from(NAMES), st.sampled_from(EXTS)),
                    st.sampled_from(["Alpha", "Beta", "HOMO", "LUMO", ""]))
    num = st.one_of(st.integers(-5, 5), st.integers(-2 ** 31, 2 ** 31 - 1))
    step = st.tuples(st.integers(0, 2), f, val, num)
    return {"copy": draw(st.integers(0, 12)), "steps": [list(x) for x in draw(st.lists(step, min_size=1, max_size=25))]}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "refused" in notes and len({s[1] for s in case["steps"]}) >= 4


def check(case, env):
    body, want = "new\nnew\nget 0\n", [("get", list(EMPTY))]
    M = [list(EMPTY), list(EMPTY)]
    for i, (o, f, v, n) in enumerate(case["steps"]):
        if i == case["copy"]:
            body += "copy 0\n"
            M.append(list(M[0]))
        o %= len(M)
        k = FIELDS.index(f)
        ok = True
        if k < 6:
            ok = al.ext(v) in al.EXT[f[:3]]
            if k < 3 and v.endswith("/.log"):
                ok = True
        if k >= 12:
            v = n & 1 if k >= 15 else n
            body += "%s %d %d\n" % (f, o, v)
        else:
            body += "%s %d %s\n" % (f, o, hx(v))
        want.append(("set", ok))
        note(env, "refused" if not ok else "stored")
        if ok:
            M[o][k] = v
        for j in range(len(M)):
            body += "get %d\n" % j
            want.append(("get", list(M[j])))
    r = env.run("params", body)
    ls = r.res.splitlines()
    if not r.ok() or len(ls) != len(want):
        raise Violation("ended early\n%s\n%s" % (case, r.brief()))
    for l, (k, w) in zip(ls, want):
        if k == "set":
            if (l == "ok") != w:
                raise Violation("%s instead of %s\n%s" % ("taken" if l == "ok" else "refused", "taken" if w else "refused", case))
        else:
            t = l.split()
            got = [unhx(x) for x in t[:12]] + [int(x) for x in t[12:]]
            if got != w:
                raise Violation("\n".join("%s is %r, expected %r" % x for x in zip(FIELDS, got, w) if x[1] != x[2]) + "\n%s" % case)
