"""Reordering by atoms puts every block where the match says."""
import itertools
import numpy as np
from hypothesis import strategies as st
from ..engine import Violation, note
from . import qcl

DRIVERS = ["qc"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("Enumerated: all permutations of up to 5 atoms with every split into two monomers, and all partial matches of up to 4 "
        "atoms by one vector. Generated: up to 14 atoms of 1-5 functions, partial or complete matches. Coefficients and "
        "overlap matrices with distinct entries are reordered and compared with the definition, arguments must stay "
        "unchanged. Non-trivial: the match moves an atom; complete matches must give the exact order, partial ones the "
        "exact order of the matched atoms followed by the others, each block once.")
ASSUMPTIONS = ["each atom is matched at most once", "the order of unmatched atoms is not claimed"]


def case(nf, a, b, rows=2):
    return {"nf": nf, "a": a, "b": b, "rows": rows}


def fixed(tier):
    k = 0
    for n in range(1, 6):
        for p in itertools.permutations(range(1, n + 1)):
            k += 1
            nf = [1 + (i + k) % 3 for i in range(n)]
            yield case(nf, list(p), None)
            for s in range(1, n):
                yield case(nf, list(p[:s]), list(p[s:]))
    for n in range(2, 5):
        for m in range(1, n):
            for p in itertools.permutations(range(1, n + 1), m):
                k += 1
                nf = [1 + (i + k) % 3 for i in range(n)]
                yield case(nf, list(p), None)
                for s in range(1, m):
                    yield case(nf, list(p[:s]), list(p[s:]))


@st.composite
def strategy_(draw):
    n = draw(st.integers(1, 14)) if draw(st.integers(0, 49)) else draw(st.integers(15, 60) if draw(st.integers(0, 3)) else st.integers(61, 300))
    nf = draw(st.lists(st.integers(1, 5 if n < 8 else 3), min_size=n, max_size=n)) if n <= 60 else np.random.default_rng(n).integers(1, 4, size=n).tolist()
    p = list(draw(st.permutations(range(1, n + 1))))
    if draw(st.integers(0, 3)) == 0:
        p = p[:draw(st.integers(1, n))]
    if len(p) > 1 and draw(st.integers(0, 2)):
        s = draw(st.integers(1, len(p) - 1))
        return case(nf, p[:s], p[s:], draw(st.integers(1, 4)))
    return case(nf, p, None, draw(st.integers(1, 4)))


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "moved" in notes


def blocks(cols, off):
    """Atoms (1-based) in the order of a list of function indices, or None."""
    out, i = [], 0
    pos = {off[k]: k for k in range(len(off) - 1)}
    while i < len(cols):
        k = pos.get(cols[i])
        if k is None:
            return None
        w = list(range(off[k], off[k + 1]))
        if cols[i:i + len(w)] != w:
            return None
        out.append(k + 1)
        i += len(w)
    return out


def check(case, env):
    nf, a, b, rows = case["nf"], case["a"], case["b"], case["rows"]
    off = [0]
    for x in nf:
        off.append(off[-1] + x)
    n = off[-1]
    C = np.arange(rows * n).reshape(rows, n) + 1.0
    i, j = np.indices((n, n))
    S = np.minimum(i, j) * n + np.maximum(i, j) + 0.5
    if b is None:
        t = "%s %s" % (qcl.vec(a), qcl.vec(nf))
        body = "uc1 2 0 %s\nus1 3 1 %s\n" % (t, t)
        p = a
    else:
        t = "%s %s %s" % (qcl.vec(a), qcl.vec(b), qcl.vec(nf))
        body = "uc2 2 0 %s\nus2 3 1 %s\n" % (t, t)
        p = a + b
    r = env.run("qc", qcl.mk(0, C) + qcl.mk(1, S) + body + "dump 0\ndump 1\ndump 2\ndump 3\n")
    what = "functions per atom %s, match %s%s" % (nf, a, "" if b is None else " and %s" % b)
    ans = qcl.answers(r)
    if not r.ok() or any(k != "ok" for k, _ in ans) or len(ans) != 8:
        raise Violation("reordering failed: %s\n%s" % (what, r.brief()))
    C0, S0, C1, S1 = [v for _, v in ans[4:]]
    if not (np.array_equal(C0, C) and np.array_equal(S0, S)):
        raise Violation("an argument was changed: %s" % what)
    if C1.shape != C.shape or S1.shape != S.shape:
        raise Violation("size changed: %s" % what)
    cols = [int(x) - 1 for x in C1[0]]
    order = blocks(cols, off)
    if sorted(cols) != list(range(n)) or order is None:
        raise Violation("a block of the coefficients was lost, doubled or torn apart: functions in order %s\n%s" % (cols, what))
    if order[:len(p)] != p:
        raise Violation("atoms of the coefficients in order %s, expected %s\n%s" % (order, p, what))
    if not np.array_equal(C1, C[:, cols]):
        raise Violation("rows of the coefficients reordered differently: %s\n%s" % (C1.tolist(), what))
    if not np.array_equal(S1, S[np.ix_(cols, cols)]):
        raise Violation("overlap matrix not reordered like the coefficients (%s):\n%s\n%s" % (order, S1.tolist(), what))
    if p != list(range(1, len(p) + 1)):
        note(env, "moved")
    note(env, ("one match vector" if b is None else "two match vectors") + (", partial" if len(p) < len(nf) else ""))
