"""Orbital energies and occupations are read as printed."""
import os
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a .log file with 1-3 tables of energies for alpha or for alpha and beta (1-23 occupied, 0-17 virtual ones, "
        "F10.5, many with three digits before the point so that numbers touch); the energies of the last table and the "
        "number of occupied ones must be read exactly. Non-trivial: touching numbers, beta or several tables.")
ASSUMPTIONS = ["energies between -999.99999 and 999.99999", "at least one occupied orbital per spin"]


def energies(lo, hi):
    small = st.integers(-99999, 99999).map(lambda k: k / 1e4)
    core = st.integers(-99999999, -10000000).map(lambda k: k / 1e5)
    wide = st.integers(-99999999, 99999999).map(lambda k: k / 1e5)
    one = st.sampled_from([-0.00001, 0.0, 0.00001, -10.0, -100.0, -99.99999, 100.0, 999.99999, -999.99999, 12.34567])
    return st.one_of(st.lists(small, min_size=lo, max_size=hi), st.lists(core, min_size=lo, max_size=hi),
                     st.lists(st.one_of(small, core, wide, one), min_size=lo, max_size=hi),
                     st.tuples(st.lists(core, min_size=lo, max_size=7), st.lists(small, max_size=hi - 7)).map(
                         lambda t: t[0] + t[1]))


@st.composite
def strategy_(draw):
    spins = draw(st.integers(1, 2))
    tabs = []
    for _ in range(draw(st.sampled_from([1, 1, 1, 2, 3]))):
        tabs.append([[draw(energies(1, 23)), draw(energies(0, 17))] for _ in range(spins)])
    return {"tabs": tabs, "noise": draw(st.lists(st.integers(0, len(g.NOISE) - 1), max_size=4)),
            "end": draw(st.booleans())}


def strategy(tier):
    return strategy_()


def fixed(tier):
    """Three- and four-digit numbers of orbitals."""
    out = []
    for no, nv, spins in [(99, 101, 1), (100, 100, 2), (256, 3, 1), (3, 256, 2), (1003, 1001, 1), (999, 1200, 2)]:
        t = [[[-500.0 + 0.37 * i + s for i in range(no)], [0.01 * i + s for i in range(nv)]] for s in range(spins)]
        out.append({"tabs": [t], "noise": [], "end": False})
        out.append({"tabs": [[[x[0][:7], x[1][:3]] for x in t], t], "noise": [0], "end": True})
    return out


def nontrivial(case, notes):
    return "interesting" in notes


def check(case, env):
    parts = []
    for t in case["tabs"]:
        p = []
        for sp, (o, v) in zip(("Alpha", "Beta"), t):
            p += g.oe_lines(sp, o, v)
        parts.append(p)
        parts.append([g.NOISE[i] for i in case["noise"]] or [" The electronic state is 1-A."])
    text = g.log_text(parts)
    if case["end"]:
        # the energies are the very last lines of the file
        parts.pop()
        text = "\n".join(l for p in parts for l in p) + "\n"
    path = os.path.join(env.dir, "e.log")
    sy.put(path, text)
    last = case["tabs"][-1]
    ops = [("log", 0, path), ("readl", 0)]
    for sp, _ in zip(("Alpha", "Beta"), last):
        ops += [("oe", 0, sp), ("homo", 0, sp)]
    ans = rd.run(env, ops, "\n" + text[:2500])[2:]
    for i, (o, v) in enumerate(last):
        sp = ("Alpha", "Beta")[i]
        d = rd.differs(ans[2 * i], g.f5(o + v), 1e-15)
        if d:
            raise Violation("%s energies: %s\n%s" % (sp, d, text[:3000]))
        if ans[2 * i + 1] != len(o):
            raise Violation("%s: %d occupied orbitals, expected %d\n%s" % (sp, ans[2 * i + 1], len(o), text[:3000]))
    if any("eigenvalues -- " in l and any(len(x) > 10 for x in l.split("-- ", 1)[1].split()) for l in text.splitlines()):
        note(env, "touching numbers")
        note(env, "interesting")
    if len(last) == 2:
        note(env, "beta")
        note(env, "interesting")
    if len(case["tabs"]) > 1:
        note(env, "several tables")
        note(env, "interesting")
