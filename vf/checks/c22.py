"""Matrix algebra agrees with its definition."""
from fractions import Fraction
import numpy as np
from hypothesis import strategies as st
from .. import mat
from ..engine import Violation, note

DRIVERS = ["matrix"]
N = {"quick": 16000, "thorough": 150000}
RULE = ("A case is one operation (product, transpose, diagonal, copy, concatenation by rows or columns) on generated matrices "
        "of 1-7, sometimes 40 rows and columns or one dimension of up to 600, and up to 3 shelves where allowed, one in ten with the same object for both arguments, or an incompatible product. Results are compared "
        "with the definition (products with exact rational sums to rounding), arguments must stay unchanged, incompatible "
        "ones must be refused. Non-trivial: a non-square argument or a refusal.")
ASSUMPTIONS = ["concatenation of matrices that do not fit is not claimed"]
SMALL = st.one_of(st.integers(-9, 9).map(float), st.floats(-1e6, 1e6, allow_nan=False), st.sampled_from([0.0, 1e-200, 1e150, -1.0]))
DIM = st.integers(1, 7)


def matrix(draw, r, c, s, V):
    if r * c * s > 150:
        rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
        return [r, c, s] + (rng.integers(-9999, 9999, size=r * c * s) / 8).tolist()
    return [r, c, s] + [float(x) for x in draw(st.lists(V, min_size=r * c * s, max_size=r * c * s))]


@st.composite
def strategy_(draw):
    o = draw(st.sampled_from(["mul", "mul", "mul", "inv", "diag", "copyf", "catr", "catc", "badmul", "baddiag"]))
    dim = DIM if draw(st.integers(0, 39)) else st.integers(1, 40)
    r, c, k = draw(dim), draw(dim), draw(dim)
    if draw(st.integers(0, 79)) == 0:
        # one long dimension
        long = draw(st.integers(41, 600))
        r, c, k = draw(st.sampled_from([(long, c, k), (r, long, k), (r, c, long)]))
    s = draw(st.sampled_from([1, 1, 2, 3]))
    V = SMALL if o == "mul" else mat.VAL
    if o == "mul":
        V = draw(st.sampled_from([SMALL, st.integers(-50, 50).map(float)]))
        if draw(st.integers(0, 9)) == 0:
            # a matrix times itself
            k = min(r, 40)
            return {"op": o, "a": matrix(draw, k, k, 1, V), "same": True}
        return {"op": o, "a": matrix(draw, r, k, 1, V), "b": matrix(draw, k, c, 1, V)}
    if o == "badmul":
        if draw(st.booleans()):
            return {"op": o, "a": matrix(draw, r, k, 1, V), "b": matrix(draw, k + draw(st.sampled_from([1, 2, -1 if k > 1 else 3])), c, 1, V)}
        return {"op": o, "a": matrix(draw, r, k, 2, V), "b": matrix(draw, k, c, draw(st.integers(1, 2)), V)}
    if o == "inv":
        return {"op": o, "a": matrix(draw, r, c, 1, V)}
    if o == "diag":
        return {"op": o, "a": matrix(draw, *((r, 1, 1) if draw(st.booleans()) else (1, c, 1)), V)}
    if o == "baddiag":
        return {"op": o, "a": matrix(draw, r + 1, c + 1, 1, V)}
    if o == "copyf":
        return {"op": o, "a": matrix(draw, r, c, s, V)}
    if o in ("catr", "catc") and draw(st.integers(0, 9)) == 0:
        return {"op": o, "a": matrix(draw, r, c, s, V), "same": True}
    if o == "catr":
        return {"op": o, "a": matrix(draw, r, c, s, V), "b": matrix(draw, k, c, s, V)}
    return {"op": o, "a": matrix(draw, r, c, s, V), "b": matrix(draw, r, k, s, V)}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return case["op"].startswith("bad") or case["a"][0] != case["a"][1]


def check(case, env):
    o = case["op"]
    real = {"badmul": "mul", "baddiag": "diag"}.get(o, o)
    T = {}
    ops = [["mk", 1] + case["a"]] + ([["mk", 2] + case["b"]] if "b" in case else [])
    for x in ops:
        mat.apply(T, x)
    last = [real, 3, 1] + ([2] if "b" in case else [1] if case.get("same") else [])
    body = "".join(mat.line(x) + "\n" for x in ops + [last]) + "all\n"
    r = env.run("matrix", body)
    what = "%s\n%s" % (mat.show(ops + [last]), r.brief())
    ls = r.res.splitlines()
    if o.startswith("bad"):
        if r.crashed() or not (r.refused() or (len(ls) > len(ops) and ls[len(ops)].startswith("X"))):
            raise Violation("incompatible arguments were not refused\n" + what)
        note(env, "refused " + real)
        return
    if not r.ok() or any(x.startswith("X") for x in ls):
        raise Violation("a valid operation failed\n" + what)
    D = [mat.read_dump(x) for x in ls if x.startswith("M")]
    for k in range(len(ops)):
        if D[k][0] != T[k + 1].shape or mat.differs(D[k][2], T[k + 1]):
            raise Violation("argument %d was changed to %s\n%s" % (k + 1, D[k], what))
    shape, total, vals = D[-1]
    note(env, real)
    if case.get("same"):
        note(env, real + " with itself")
    if max(case["a"][:2] + case.get("b", [0])[:2]) > 40:
        note(env, "long " + real)
    if o != "mul":
        mat.apply(T, last)
        if shape != T[3].shape or total != T[3].size or mat.differs(vals, T[3]):
            raise Violation("result %s %s, expected %s %s\n%s" % (shape, vals, T[3].shape, T[3].ravel().tolist(), what))
        return
    A, B = T[1][:, :, 0], T[1 if case.get("same") else 2][:, :, 0]
    if shape != (A.shape[0], B.shape[1], 1):
        raise Violation("product has size %s\n%s" % (shape, what))
    got = np.array(vals).reshape(shape[:2])
    exact = True
    for i in range(A.shape[0]):
        for j in range(B.shape[1]):
            t = [Fraction(x) * Fraction(y) for x, y in zip(A[i], B[:, j])]
            want, size = sum(t), sum(abs(x) for x in t)
            if not np.isfinite(got[i, j]) or abs(Fraction(float(got[i, j])) - want) > size * Fraction(1, 2 ** 48) + Fraction(1, 10 ** 300):
                raise Violation("product element (%d,%d) is %r, expected %r\n%s" % (i + 1, j + 1, got[i, j], float(want), what))
    if A.shape[1] > 1:
        note(env, "product with inner size > 1")
