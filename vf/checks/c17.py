"""Help, version and citation always answer and exit successfully."""
import os, re
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import al, c16, e2e

DRIVERS = ["calcj"]
N = {"quick": 8000, "thorough": 150000}
RULE = ("A case is a list of 1-8 --help/-h/--citation/-cite options, or --version/-v followed by anything (options, valid "
        "ones with existing files included, wrong values, arbitrary text). Non-trivial: every case with two or more "
        "arguments.")
ASSUMPTIONS = ["all lists of up to 5 help and citation options are enumerated"]
TEXT = st.one_of(
    st.sampled_from(al.KNOWN),
    st.sampled_from(["ON", "OFF", "Alpha", "Beta", "HOMO", "LUMO", "0", "-1", "1.pun", "2.pun", "P.pun", "1.log", "x.txt", "",
                     "-", "--", "--verbose", "%s%n", "-vv", "a b", "\xff\xfe"]),
    st.text(st.characters(min_codepoint=1, max_codepoint=255), max_size=12))


@st.composite
def strategy_(draw):
    if draw(st.booleans()):
        return {"kind": "info", "args": draw(st.lists(st.sampled_from(al.HELP + al.CITE), min_size=1, max_size=8))}
    rest = draw(st.one_of(st.lists(TEXT, max_size=8), st.just(["-p_1", "1.pun", "-p_2", "2.pun", "-p_P", "P.pun"]),
                          st.just(["-p_1", "1.pun", "-p_2", "2.pun", "-p_P", "P.pun", "-h"])))
    return {"kind": "version", "args": [draw(st.sampled_from(al.VERSION))] + rest}


def strategy(tier):
    return strategy_()


def fixed(tier):
    import itertools
    for n in range(1, 6):
        for a in itertools.product(al.HELP + al.CITE, repeat=n):
            yield {"kind": "info", "args": list(a)}


def nontrivial(case, notes):
    return len(case["args"]) >= 2


def check(case, env):
    args = case["args"]
    d = os.path.join(env.dir, "v")
    if not os.path.isdir(d):
        os.makedirs(d + "/full")
        os.makedirs(d + "/empty")
        c16._system().write(d + "/full")
    w = d + ("/full" if "1.pun" in args else "/empty")
    before = sorted(os.listdir(w))
    r = env.calcj(args, cwd=w)
    if not r.ok():
        raise Violation("no success for %s\n%s" % (args, r.brief()))
    if e2e.printed_anything(r.out):
        raise Violation("%s printed a transfer integral\n%s" % (args, r.brief()))
    if sorted(os.listdir(w)) != before:
        raise Violation("%s left files: %s" % (args, sorted(os.listdir(w))))
    out = r.out
    if not re.search(r"(?i)version\s+\d+\.\d+", out):
        raise Violation("%s did not print the version\n%s" % (args, r.brief()))
    words = out.split()
    if case["kind"] == "version":
        note(env, "version")
        return
    nh, nc = sum(a in al.HELP for a in args), sum(a in al.CITE for a in args)
    if (out.count("Usage:") > 0) != (nh > 0):
        raise Violation("%s: usage %s\n%s" % (args, "missing" if nh else "printed", r.brief()))
    if ("Citation:" in words) != (nc > 0):
        raise Violation("%s: citation %s\n%s" % (args, "missing" if nc else "printed", r.brief()))
    if nh:
        missing = [f for f in al.KNOWN if f not in words]
        if missing:
            raise Violation("%s: the usage does not list %s\n%s" % (args, missing, out))
        bare = [f for f, w in al.usage(out).items() if len([x for x in w if x not in al.KNOWN]) < 3]
        if bare:
            raise Violation("%s: the usage does not explain %s\n%s" % (args, bare, out))
        note(env, "help")
    if nc:
        note(env, "citation")
