"""matchRow and matchCol find equal rows / columns and only those."""
from hypothesis import strategies as st
from .. import mat
import numpy as np
from ..engine import Violation, note

DRIVERS = ["matrix"]
N = {"quick": 16000, "thorough": 150000}
RULE = ("A case is two matrices of up to 8 rows of 1-5 entries on a grid of 10^-sf (sf 0-9) whose origin lies anywhere between two "
        "numbers of sf decimals, the middle between them included, with up to twelve digits, drawn so that equal rows, rows that "
        "differ by one unit in one entry, duplicates and rows without partner occur, each entry with its own noise up to "
        "0.2 units; rows, or columns of the transposed ones, are matched; in one case of 20 the lengths of the rows differ, and "
        "the call has to be refused. Non-trivial: at least one row has a partner and at least one has none or several.")
ASSUMPTIONS = ["which of several equal rows is returned is not claimed",
               "nothing is claimed for entries that differ by 0.4 to 0.6 units of the last decimal"]


@st.composite
def strategy_(draw):
    n = draw(st.integers(1, 5))
    K = st.one_of(st.integers(-20, 20), st.integers(-999998, 999998), st.integers(-10 ** 12, 10 ** 12),
                  st.sampled_from([0, 0, 1, -1, 10, -10, 99999, 100000, -100000, 999999, 1000000, 10 ** 7]))
    sf = draw(st.one_of(st.integers(1, 5), st.integers(0, 9)))
    off = draw(st.lists(st.one_of(st.sampled_from([0, 0, 50]), st.integers(-50, 50)), min_size=n, max_size=n))
    base = {"sf": sf, "off": off, "col": draw(st.booleans())}
    if draw(st.integers(0, 19)) == 0:
        base["extra"] = draw(st.sampled_from([-1, 1, 2]))
    pool = draw(st.lists(st.lists(K, min_size=n, max_size=n), min_size=1, max_size=6))
    for _ in range(draw(st.integers(0, 4))):
        r = list(draw(st.sampled_from(pool)))
        i = draw(st.integers(0, n - 1))
        r[i] += draw(st.sampled_from([1, -1, 2, -2, 10, -10]))
        if draw(st.integers(0, 3)) == 0:
            r[i] = -r[i]
        pool.append(r)
    R = st.lists(st.sampled_from(pool), min_size=1, max_size=8)
    if draw(st.integers(0, 49)) == 0:
        # many rows, most of them different
        k = draw(st.integers(9, 70) if draw(st.integers(0, 3)) else st.integers(71, 400))
        rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
        more = rng.integers(-30, 31, size=(k, n)).tolist()
        a = more[:draw(st.integers(1, k))] + pool
        b = [more[i] for i in rng.permutation(k)[:draw(st.integers(1, k))]] + draw(R)
        m = (len(a) + len(b)) * n
        return {"a": a, "b": b, "jit": rng.integers(-20, 21, size=m).tolist(), **base}
    a, b = draw(R), draw(R)
    if draw(st.integers(0, 3)) == 0:
        b = list(draw(st.permutations(a)))
    if draw(st.integers(0, 19)) == 0:
        base.pop("extra", None)
        return {"a": a, "b": a, "same": True, "jit": draw(st.lists(st.integers(-20, 20), min_size=len(a) * n * 2, max_size=len(a) * n * 2)), **base}
    J = st.integers(-20, 20)
    m = len(a) * n + len(b) * n
    j = draw(st.lists(J, min_size=m, max_size=m)) if draw(st.integers(0, 3)) else [0] * m
    return {"a": a, "b": b, "jit": j, **base}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "partner" in notes and ("no partner" in notes or "several partners" in notes)


def check(case, env):
    sf, n = case["sf"], len(case["a"][0])
    j = iter(case["jit"])
    A, B = (np.array([[(100 * k + o + next(j)) / (100 * 10.0 ** sf) for k, o in zip(r, case["off"])] for r in case[x]]) for x in "ab")
    if case.get("same"):
        B = A
    if case.get("extra") and n + case["extra"] > 0:
        B = np.resize(B, (len(case["b"]), n + case["extra"]))
    if case["col"]:
        A, B = A.T, B.T
    ops = [mat.new(0, A), mat.new(1, B), ["matchc" if case["col"] else "matchr", 0, 0 if case.get("same") else 1, sf]]
    body = "".join(mat.line(x) + "\n" for x in ops) + "all\n"
    r = env.run("matrix", body)
    what = "sf=%d %s\n%s\nagainst\n%s" % (sf, "columns of" if case["col"] else "rows of", A.tolist(), B.tolist())
    if not r.ok():
        raise Violation("matching failed: %s\n%s" % (what, r.brief()))
    if case.get("same"):
        note(env, "with itself")
    it = iter(r.res.splitlines())
    mat.read_answer(it), mat.read_answer(it)
    got = mat.read_answer(it)
    if A.shape[0 if case["col"] else 1] != B.shape[0 if case["col"] else 1]:
        note(env, "different lengths")
        if got[0] != "X":
            raise Violation("different lengths, but answer %s: %s" % (got, what))
        return
    if got[0] != "i" or len(got[1]) != len(case["a"]):
        raise Violation("answer %s: %s" % (got, what))
    for i, (row, v) in enumerate(zip(case["a"], got[1])):
        ok = [k + 1 for k, q in enumerate(case["b"]) if q == row]
        note(env, "several partners" if len(ok) > 1 else "partner" if ok else "no partner")
        if ok and v not in ok:
            raise Violation("%d is matched with %d, expected %s: %s" % (i + 1, v, " or ".join(map(str, ok)), what))
        if not ok and v != -1:
            raise Violation("%d is matched with %d, expected -1: %s" % (i + 1, v, what))
    for M in (A, B):
        if mat.differs(mat.read_dump(next(it))[2], M):
            raise Violation("an argument was changed: " + what)
