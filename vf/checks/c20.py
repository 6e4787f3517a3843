"""Matrix against a table model over generated operation histories."""
from hypothesis import strategies as st
from .. import mat
from ..engine import Violation, note

DRIVERS = ["matrix"]
N = {"quick": 12000, "thorough": 200000}
RULE = ("A case is a history of 1-24 operations (3 matrices; constructors, element/row/column setters, resize, "
        "set_rows/cols/shel, swap, move, copy, assign, getRow/getCol, print, reads) built to be valid; every matrix is "
        "compared with the model after every operation. Non-trivial: at least three operations change a matrix "
        "that is not all equal, among them a change of shape, order or a copy.")
ASSUMPTIONS = ["row and column setters, swaps, moves and resize are used on matrices with one shelf only"]
VAL = mat.VAL
SLOTS = 3


@st.composite
def history(draw, maxops):
    T = {}
    ops = []
    n = draw(st.integers(1, maxops))
    big = draw(st.integers(0, 24)) == 0
    size = st.integers(1, 5) if not big else st.integers(1, 40)
    if big:
        n = min(n, 10)
    to = 6 if not big else 45
    for k in range(SLOTS):
        ops.append(mat.draw_new(draw, k, size))
        mat.apply(T, ops[-1])
    for _ in range(n):
        k = draw(st.integers(0, SLOTS - 1))
        t = T[k]
        r, c, s = t.shape
        cand = ["new", "cp", "as", "srows", "scols", "sshel"]
        if r and c and s:
            cand += ["set1", "set2", "set3", "set4", "g1", "g2", "g3", "g4", "getR", "getC", "print", "copyf"]
            if s == 1:
                cand += ["row", "col", "resize", "swr", "swc", "mvr", "mvc", "swr", "swc", "mvr", "mvc",
                         "grow", "gcol", "row", "col"]
        o = draw(st.sampled_from(cand))
        R = lambda: draw(st.integers(1, r))
        C = lambda: draw(st.integers(1, c))
        S = lambda: draw(st.integers(1, s))
        if o == "new":
            op = mat.draw_new(draw, k, size)
        elif o in ("cp", "as", "copyf"):
            j = draw(st.integers(0, SLOTS - 1))
            if o == "copyf" and 0 in T[j].shape:
                o = "cp"
            op = [o, k, j]
        elif o in ("getR", "getC"):
            op = [o, draw(st.integers(0, SLOTS - 1)), k, R() if o == "getR" else C()]
        elif o in ("srows", "scols", "sshel"):
            # long in one dimension at most
            most = 300 if big and t.size <= 6 * t.shape[("srows", "scols", "sshel").index(o)] else to
            op = [o, k, draw(st.integers(0, most) if draw(st.booleans()) else st.integers(1, most))]
        elif o == "resize":
            op = [o, k, draw(st.integers(1, to)), draw(st.integers(1, to))]
        elif o == "set1":
            op = [o, k, draw(VAL)]
        elif o == "set2":
            op = [o, k, draw(VAL), R()]
        elif o == "set3":
            op = [o, k, draw(VAL), R(), C()]
        elif o == "set4":
            op = [o, k, draw(VAL), R(), C(), S()]
        elif o == "row":
            op = [o, k, R(), c] + draw(st.lists(VAL, min_size=c, max_size=c))
        elif o == "col":
            op = [o, k, C(), r] + draw(st.lists(VAL, min_size=r, max_size=r))
        elif o in ("swr", "mvr"):
            op = [o, k, R(), R()]
        elif o in ("swc", "mvc"):
            op = [o, k, C(), C()]
        elif o == "g1" or o == "print":
            op = [o, k]
        elif o in ("g2", "grow"):
            op = [o, k, R()]
        elif o == "gcol":
            op = [o, k, C()]
        elif o == "g3":
            op = [o, k, R(), C()]
        elif o == "g4":
            op = [o, k, R(), C(), S()]
        ops.append(op)
        mat.apply(T, op)
    return {"ops": ops}


def strategy(tier):
    return history(24 if tier == "quick" else 60)


SHAPE = {"srows", "scols", "sshel", "resize", "swr", "swc", "mvr", "mvc", "cp", "as", "copyf", "getR", "getC"}


def nontrivial(case, notes):
    return "shape" in notes and notes.get("change", 0) >= 3


def check(case, env):
    body = "".join(mat.line(o) + "\nall\n" for o in case["ops"])
    r = env.run("matrix", body)
    if not r.ok():
        raise Violation("valid operations were refused or failed\n%s\n%s" % (mat.show(case["ops"]), r.brief()))
    T = {}
    it = iter(r.res.splitlines())
    for i, o in enumerate(case["ops"]):
        want = mat.apply(T, o)
        got = mat.read_answer(it)
        if got[0] == "X":
            raise Violation("operation %d (%s) was refused: %s" % (i, mat.line(o), got[1]))
        bad = mat.compare_answer(want, got)
        if bad:
            raise Violation("operation %d (%s) in\n%s\nanswered %s" % (i, mat.line(o), mat.show(case["ops"][:i]), bad))
        for k in sorted(T):
            shape, total, vals = mat.read_dump(next(it))
            t = T[k]
            if shape != t.shape or total != t.size or mat.differs(vals, t):
                raise Violation("after operation %d of\n%s\nmatrix %d is %s %s (%d elements), expected %s %s" % (
                    i, mat.show(case["ops"][:i + 1]), k, shape, vals, total, t.shape, t.ravel().tolist()))
        if next(it) != "ok":
            raise Violation("dump failed")
        if i >= SLOTS:
            note(env, o[0])
            if o[0] in SHAPE:
                note(env, "shape")
            if o[0] not in ("g1", "g2", "g3", "g4", "grow", "gcol", "print"):
                note(env, "change")
