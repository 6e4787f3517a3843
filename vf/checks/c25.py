"""findRank orders all alpha and beta energies."""
from collections import Counter
import numpy as np
from hypothesis import strategies as st
from ..engine import Violation, note
from . import qcl

DRIVERS = ["qc"]
N = {"quick": 20000, "thorough": 200000}
RULE = ("A case is two energy vectors (1-20 alpha, 0-20 beta energies, sorted or not, with duplicates within and between the "
        "spins); the ranks must be 1..n, energies must not decrease with the rank and be exactly the given ones with their "
        "spins. Non-trivial: both spins, and the concatenated list is not sorted.")
ASSUMPTIONS = ["energies are finite"]


@st.composite
def strategy_(draw):
    E = st.one_of(st.integers(-5, 5).map(float), st.integers(-10 ** 7, 10 ** 6).map(lambda k: k / 1e5),
                  st.floats(allow_nan=False, allow_infinity=False))
    a = draw(st.lists(E, min_size=1, max_size=20))
    b = draw(st.lists(st.one_of(E, st.sampled_from(a)), max_size=20))
    if draw(st.integers(0, 49)) == 0:
        rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
        most = draw(st.sampled_from([400, 400, 3000]))
        k, m = draw(st.integers(21, most)), draw(st.integers(0, most))
        a = (rng.integers(-3000, 1000, size=k) / 100).tolist()
        b = (rng.integers(-3000, 1000, size=m) / 100).tolist()
    if draw(st.booleans()):
        a, b = sorted(a), sorted(b)
    if draw(st.integers(0, 19)) == 0:
        return {"a": a, "b": a, "same": True}
    return {"a": a, "b": b}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    x = case["a"] + case["b"]
    return bool(case["b"]) and x != sorted(x)


def check(case, env):
    a, b = case["a"], case["b"]
    body = qcl.mk(0, np.array(a)[:, None])
    body += qcl.mk(1, np.array(b)[:, None]) if b else "mk0 1\n"
    r = env.run("qc", body + ("rank 0 0\ndump 0\n" if case.get("same") else "rank 0 1\ndump 0\n") + ("dump 1\n" if b else ""))
    ans = qcl.answers(r)
    if not r.ok() or any(k != "ok" for k, _ in ans):
        raise Violation("findRank failed on %s\n%s" % (case, r.brief()))
    got = sorted(ans[2][1])
    n = len(a) + len(b)
    if [x[0] for x in got] != list(range(1, n + 1)):
        raise Violation("ranks %s instead of 1..%d\n%s" % ([x[0] for x in got], n, case))
    e = [x[1] for x in got]
    if any(x > y for x, y in zip(e, e[1:])):
        raise Violation("energies decrease with the rank: %s\n%s" % (got, case))
    if Counter((x[1], x[2]) for x in got) != Counter([(x, "Alpha") for x in a] + [(x, "Beta") for x in b]):
        raise Violation("energies or spins are not those of the input: %s\n%s" % (got, case))
    if not np.array_equal(ans[3][1].ravel(), a) or (b and not np.array_equal(ans[4][1].ravel(), b)):
        raise Violation("an argument was changed\n%s" % case)
    note(env, "with beta" if b else "without beta")
    if len(set(a + b)) < n:
        note(env, "duplicates")
