"""Coefficients of .pun files are read as written."""
import os
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a file in the (5D15.8) layout with 1-60 orbitals of 1-23 functions (up to 120 now and then), alpha only or "
        "alpha and beta, with or without format line and final newline, written from generated numbers (decades -120 to "
        "+120) and read back, in part with other text in front, between the spins or after the last of several orbitals: one matrix per spin, equal to 1e-13. Non-trivial: more than one line per orbital, or two "
        "spins, or three-digit exponents.")
ASSUMPTIONS = ["numbers that need three-digit exponents are printed without the D, as Fortran does"]

# may follow (or precede) the coefficients of several orbitals, or come between alpha and beta
TEXT = [" 0.10000000D+01 0.20000000D+01 0.30000000D+01", "    1    2    3    4    5    6    7    8    9   10",
        " Leave Link 9999 at Mon Jan  1 00:00:00 2018", "", "   ", "-0.50000000D-03", " molecule", " 0.10000000D+01 0.2"]


@st.composite
def strategy_(draw):
    big = draw(st.integers(0, 40)) == 0
    nf = draw(st.integers(50, 120)) if big else draw(st.one_of(st.integers(1, 23), st.sampled_from([5, 10, 15, 4, 6, 9, 11])))
    return {"nf": nf, "mo": [draw(st.one_of(st.integers(1, 14), st.integers(1, 60))) for _ in range(draw(st.integers(1, 2)))],
            "fmt": draw(st.booleans()), "nl": draw(st.booleans()), "ext": draw(st.sampled_from(["pun", "7", "orb", "PUN"][:3])),
            "name": draw(st.sampled_from(["a", "fort", "x.y", "my file", "d.7.b", "Alpha"])),
            "tail": draw(st.lists(st.tuples(st.integers(0, 2), st.integers(0, len(TEXT) - 1)), max_size=3)),
            "expo": draw(st.sampled_from([0, 0, 3, 30, 99, 120])), "zeros": draw(st.sampled_from([0, 0, 0.3, 0.9])),
            "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "set": draw(st.lists(st.tuples(st.integers(0, 9999), st.floats(-1e120, 1e120, allow_nan=False)), max_size=4))}


def strategy(tier):
    return strategy_()


def fixed(tier):
    """Four-digit numbers of functions and orbitals."""
    base = {"fmt": True, "nl": True, "ext": "pun", "name": "big", "tail": [], "expo": 3, "zeros": 0, "set": []}
    return [dict(base, nf=nf, mo=mo, seed=i, fmt=bool(i % 2)) for i, (nf, mo) in enumerate(
        [(1011, [3]), (1003, [2, 2]), (3, [1100]), (6, [1005, 1002]), (99, [101, 99]), (100, [100]), (257, [130, 7])])]


def nontrivial(case, notes):
    return "interesting" in notes


def check(case, env):
    rng = np.random.default_rng(case["seed"])
    mats = []
    for sp, m in zip(("Alpha", "Beta"), case["mo"]):
        a = rng.standard_normal((m, case["nf"])) * 10.0 ** rng.uniform(-case["expo"], case["expo"], (m, case["nf"]))
        a[rng.random(a.shape) < case["zeros"]] = 0.0
        for p, v in case["set"]:
            a.flat[p % a.size] = v if abs(v) > 1e-120 else 0.0
        mats.append((sp, a))
    # the numbers as printed
    text = g.pun_text(mats, case["fmt"], trailing=case["nl"])
    if case.get("tail"):
        lines, last = [], None
        ls = text.split("\n")[:-1] if case["nl"] else text.split("\n")
        add = {k: [TEXT[i] for kk, i in case["tail"] if kk == k] for k in (0, 1, 2)}
        for l in ls:
            sp = l.split()[1] if " MO OE=" in l else None
            if sp == "Beta" and last == "Alpha" and case["mo"][0] > 1:
                lines += add[1]
            last = sp or last
            lines.append(l)
        if case["mo"][-1] > 1:
            lines += add[2]
            if add[2]:
                note(env, "text after the last orbital")
        text = "\n".join(add[0] * (not case["fmt"]) + lines) + ("\n" if case["nl"] else "")
    path = os.path.join(env.dir, case["name"] + "." + case["ext"])
    sy.put(path, text)
    try:
        ops = [("pun", 0, path), ("readp", 0), ("restr", 0)] + [("coef", 0, sp) for sp, _ in mats]
        ans = rd.run(env, ops, " (%s)" % case)
    finally:
        os.unlink(path)
    if ans[2] != (len(mats) == 1):
        raise Violation("restrictedShell is %d for %d spins" % (ans[2], len(mats)))
    for (sp, a), got in zip(mats, ans[3:]):
        d = rd.differs(got, g.d8(a), 1e-13)
        if d:
            raise Violation("%s coefficients: %s\n%s" % (sp, d, text[:3000]))
    if case["nf"] > 5 or len(mats) > 1 or case["expo"] >= 99:
        note(env, "interesting")
    note(env, "%d spins" % len(mats))
    note(env, "functions mod 5 = %d" % (case["nf"] % 5))
    note(env, "." + case["ext"])
    if case["expo"] > 99:
        note(env, "three-digit exponents")
    if len(case["mo"]) == 2 and case["mo"][0] != case["mo"][1]:
        note(env, "different numbers of orbitals per spin")
