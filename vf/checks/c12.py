"""Truncated input files never lead silently to a wrong result."""
import os, re
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 10500, "thorough": 100000}
RULE = ("A case is a system (restricted or not, counterpoise or not, atoms permuted if the populations are there) and a cut: "
        "one of the six files and a byte, biased to the borders of lines, sections and numbers and to the end. The run on the cut "
        "file must be refused without a result, or print exactly the intact result, or warn and print the result of "
        "the given order. Non-trivial: the cut removes more than white space.")
ASSUMPTIONS = ["sections in the order coordinates, overlap, energies, populations, as Gaussian writes them",
               "cuts inside a printed energy of the dimer may give a shorter number: there only crashes and hangs count"]


@st.composite
def strategy_(draw):
    cp = draw(st.integers(0, 4)) == 0
    s = draw(sy.specs(unres=draw(st.integers(0, 3)) == 0, cp=cp, max_total=16, big=True,
                      pops=draw(st.integers(0, 2)) > 0))
    if not s["pops"]:
        s["perm"] = list(range(len(s["nf"])))
        if cp:
            s["perm1"] = s["perm2"] = s["perm"]
    spins = [draw(st.sampled_from(["Alpha", "Beta"])) if s["unres"] else "Alpha" for _ in range(3)]
    return {"sys": s, "spins": spins, "file": draw(st.sampled_from(["1.log", "2.log", "P.log", "1.pun", "2.pun", "P.pun", "P.pun"])),
            "how": draw(st.sampled_from(["byte", "line", "line+", "section", "number", "end"])),
            "pos": draw(st.integers(0, 10 ** 6)), "k1": draw(st.integers(0, 99)), "k2": draw(st.integers(0, 99)),
            "prefer": draw(st.booleans())}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "cut" in notes


def cut_at(case, text):
    n = len(text)
    pos, how = case["pos"], case["how"]
    if how == "byte":
        return pos % n
    if how == "end":
        return max(0, n - 1 - min(pos % 18, pos // 18 % 18))
    if how == "section":
        marks = [m.start() for m in re.finditer(
            r"Overlap \*\*\*|Kinetic|occ\. eig|virt\. eig|Gross|Condensed|Center|Standard|-----|MO OE|Normal", text)]
        if not marks:
            return pos % n
        p = marks[pos % len(marks)] + (pos // len(marks)) % 40 - 5
        return min(max(0, p), n - 1)
    if how == "number":
        marks = [m.end() for m in re.finditer(r"[0-9.](?=[ \n-])", text)]
        return marks[pos % len(marks)]
    marks = [m.start() for m in re.finditer("\n", text)]
    p = marks[pos % len(marks)]
    return p + 1 if how == "line+" else p


def energy_number(text, p):
    """The cut falls inside (or right behind) a number of an energy line."""
    a = text.rfind("\n", 0, p) + 1
    b = text.find("\n", p)
    line = text[a:b if b >= 0 else len(text)]
    return "eigenvalues -- " in line and p > a + line.index("-- ") + 2 and p - a < len(line)


def check(case, env):
    S = sy.Sys(case["sys"])
    sp = case["spins"]
    k1, k2 = case["k1"] % S.s["mo"][0], case["k2"] % S.s["mo"][1]
    if case["prefer"]:
        k1, k2 = S.occ[sp[0]][0] - 1, S.occ[sp[1]][1] - 1
    kw = dict(spP=sp[2], sp1=sp[0], sp2=sp[1])
    ref = S.ref(k1, k2, **kw)
    given = S.ref(k1, k2, as_printed=True, **kw)
    if not ref["sharp"] or not given["sharp"]:
        note(env, "ill-conditioned")
        return
    S.write(env.dir)
    path = os.path.join(env.dir, case["file"])
    text = open(path).read()
    p = cut_at(case, text)
    argv = S.argv() + e2e.orbargs(S, k1, k2, sp[0], sp[1])
    if S.s["unres"]:
        argv += ["-s_1", sp[0], "-s_2", sp[1], "-s_P", sp[2]]
    sy.put(path, text[:p])
    what = "%s cut after %d of %d bytes (%r)" % (case["file"], p, len(text), text[max(0, p - 60):p])
    r = env.calcj(argv)
    if r.crashed():
        raise Violation("memory error or hang: %s %s\n%s" % (what, argv, r.brief()))
    if text[p:].strip():
        note(env, "cut")
        note(env, case["file"][2:] + " " + case["how"])
    if r.refused():
        if e2e.printed_anything(r.out):
            raise Violation("refused, but after printing a result: %s %s\n%s" % (what, argv, r.brief()))
        note(env, "refused")
        return
    if not r.ok():
        raise Violation("strange end: %s %s\n%s" % (what, argv, r.brief()))
    if case["file"] == "P.log" and energy_number(text, p):
        note(env, "inside a dimer energy")
        return
    got = g.parse_out(r.out)
    warned = "WARNING" in r.err and "line up" in r.err
    bad = g.compare(got, ref)
    if not bad and (not warned or not g.compare(got, given)):
        note(env, "intact result")
        return
    if warned and not g.compare(got, given):
        note(env, "given order with warning")
        return
    raise Violation("silently wrong result%s: %s %s\n%s\n%s" % (
        " (with warning)" if warned else "", what, argv, "\n".join(bad), r.brief()))
