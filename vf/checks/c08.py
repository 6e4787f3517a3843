"""The overlap matrix is read completely and symmetrically."""
import os
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a .log file with an overlap matrix of 1-26 functions (up to 130 now and then) written from generated "
        "numbers (decades -120 to +30), with or without other sections; read back it must be the full symmetric matrix "
        "to 1e-13. Non-trivial: more than one block of five columns.")
ASSUMPTIONS = ["lower triangle in blocks of five columns in the D14.6 layout"]


@st.composite
def strategy_(draw):
    big = draw(st.integers(0, 40)) == 0
    n = draw(st.integers(60, 130)) if big else draw(st.one_of(st.integers(1, 26), st.sampled_from([1, 4, 5, 6, 9, 10, 11, 15, 16, 20, 21])))
    return {"n": n, "expo": draw(st.sampled_from([0, 2, 30, 120])), "zeros": draw(st.sampled_from([0, 0, 0.5, 0.95])),
            "seed": draw(st.integers(0, 2 ** 32 - 1)), "twice": draw(st.integers(0, 4)) == 0, "rest": draw(st.booleans()),
            "set": draw(st.lists(st.tuples(st.integers(0, 9999), st.floats(-1e30, 1e30, allow_nan=False)), max_size=4))}


def strategy(tier):
    return strategy_()


def fixed(tier):
    """Three- and four-digit numbers of functions."""
    return [{"n": n, "expo": 2, "zeros": 0.3, "seed": n, "twice": n < 200, "rest": True, "set": []}
            for n in [99, 100, 101, 128, 256, 257] + ([1000, 1003] if tier == "quick" else [512, 999, 1000, 1001, 1003])]


def nontrivial(case, notes):
    return case["n"] > 5


def check(case, env):
    rng = np.random.default_rng(case["seed"])
    n = case["n"]

    def mat(m):
        a = rng.standard_normal((m, m)) * 10.0 ** rng.uniform(-case["expo"], min(case["expo"], 30), (m, m))
        a[rng.random(a.shape) < case["zeros"]] = 0.0
        return np.tril(a) + np.tril(a, -1).T

    S = mat(n)
    for p, v in case["set"]:
        i, j = divmod(p % (n * n), n)
        S[i, j] = S[j, i] = v if abs(v) > 1e-120 else 0.0
    parts = [g.coord_lines([[0.1, 0.2, 0.3]])] if case["rest"] else []
    if case["twice"]:
        parts.append(g.overlap_lines(mat(max(1, n - 3 if case["seed"] % 2 else n))))
    parts.append(g.overlap_lines(S))
    if case["rest"]:
        parts.append(g.oe_lines("Alpha", [-1.0], [1.0]))
    text = g.log_text(parts)
    path = os.path.join(env.dir, "s.log")
    sy.put(path, text)
    got = rd.run(env, [("log", 0, path), ("readl", 0), ("S", 0)], " (%s)" % case)[2]
    d = rd.differs(got, g.d6(S), 1e-13)
    if d:
        raise Violation("overlap matrix of %d functions %s\n%s" % (n, d, text[:3000]))
    note(env, "functions mod 5 = %d" % (n % 5))
    note(env, "%d blocks" % min(9, (n + 4) // 5))
    if case["twice"]:
        note(env, "printed twice")
