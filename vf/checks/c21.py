"""Every way to reach outside of a Matrix is refused without touching memory."""
from hypothesis import strategies as st
from .. import mat
from ..engine import Violation, note

DRIVERS = ["matrix"]
N = {"quick": 12000, "thorough": 200000}
RULE = ("A case is a matrix (0-6 rows and columns, 0-3 shelves), up to three valid accesses and one final access whose "
        "indices or lengths are valid or invalid (one off, far off, extreme integers). Valid ones must give the "
        "model's value, invalid ones must be refused by an exception or a non-zero exit without a sanitizer "
        "report and without change. Non-trivial: the final access is invalid.")
ASSUMPTIONS = ["get_elem_ptr is not checked (it hands out raw memory)",
               "swap and move with two equal indices do nothing and are not counted as access"]
BIG = [2 ** 31 - 1, -2 ** 31, 2 ** 30, -2 ** 30, 65536, 46341, 1000]


def index(draw, n, bad):
    """Index for a dimension of size n (1-based)."""
    if not bad and n >= 1:
        return draw(st.integers(1, n))
    return draw(st.one_of(st.sampled_from([0, n + 1, -1, n + 2]), st.integers(-3 * n - 3, 0),
                          st.integers(n + 1, 4 * n + 4), st.sampled_from(BIG)))


ACC = ["g1", "g2", "g3", "g4", "grow", "gcol", "getR", "getC", "set1", "set2", "set3", "set4", "row", "col"]
LAST = ACC * 2 + ["swr", "swc", "mvr", "mvc", "rowlen", "collen", "size", "resize", "ctor", "vv"]


def access(draw, o, shape, bad):
    r, c, s = shape
    k = 0
    v = draw(st.integers(1, 99).map(float))
    if o == "g1":
        return [o, k]
    if o == "set1":
        return [o, k, v]
    nd = {"g2": 1, "set2": 1, "g3": 2, "set3": 2, "g4": 3, "set4": 3}.get(o)
    if nd:
        which = draw(st.integers(0, nd - 1)) if bad else -1
        ix = [index(draw, n, i == which) for i, n in enumerate(shape[:nd])]
        return [o, k] + ([v] if o.startswith("set") else []) + ix
    if o in ("grow", "gcol"):
        return [o, k, index(draw, r if o == "grow" else c, bad)]
    if o in ("getR", "getC"):
        return [o, 1, k, index(draw, r if o == "getR" else c, bad)]
    if o in ("row", "col"):
        n = c if o == "row" else r
        return [o, k, index(draw, r if o == "row" else c, bad), n] + [v + i for i in range(n)]
    if o in ("rowlen", "collen"):
        n = c if o == "rowlen" else r
        m = draw(st.integers(0, 2 * n + 2).filter(lambda x: x != n))
        return [o[:3], k, index(draw, r if o == "rowlen" else c, False), m] + [v + i for i in range(m)]
    if o in ("swr", "swc", "mvr", "mvc"):
        n = r if o[2] == "r" else c
        a, b = index(draw, n, False), index(draw, n, True)
        if a == b:
            b = a + n + 1
        return [o, k] + ([a, b] if draw(st.booleans()) else [b, a])
    if o == "size":
        return [draw(st.sampled_from(["srows", "scols", "sshel"])), k, draw(st.sampled_from([-1, -2, -7, -2 ** 31]))]
    if o == "resize":
        a, b = draw(st.integers(1, 5)), draw(st.sampled_from([0, -1, -5, -2 ** 31]))
        return [o, k] + ([a, b] if draw(st.booleans()) else [b, a])
    if o == "ctor":
        t = draw(st.sampled_from(["mk", "mk2", "mk1"]))
        neg = draw(st.sampled_from([0, -1, -4, -2 ** 31]))
        if t == "mk1":
            return [t, 1, min(neg, -1)]
        d = [draw(st.integers(1, 4)) for _ in range(3 if t == "mk" else 2)]
        d[draw(st.integers(0, len(d) - 1))] = neg
        return [t, 1] + d
    if o == "vv":
        n = draw(st.integers(2, 4))
        ls = draw(st.lists(st.integers(0, 4), min_size=n, max_size=n).filter(lambda x: len(set(x)) > 1))
        out = [o, 1, n]
        for m in ls:
            out += [m] + [v + i for i in range(m)]
        return out
    raise KeyError(o)


@st.composite
def case_(draw):
    size = st.integers(1, 6)
    r, c, s = draw(size), draw(size), draw(st.sampled_from([1, 1, 1, 2, 3]))
    ops = [["mk", 0, r, c, s] + [float(i + 1) for i in range(r * c * s)]]
    T = {}
    mat.apply(T, ops[0])
    if draw(st.integers(0, 7)) == 0:
        ops.append([draw(st.sampled_from(["srows", "scols", "sshel"])), 0, 0])
        mat.apply(T, ops[-1])
    shape = T[0].shape
    empty = 0 in shape
    if not empty:
        for _ in range(draw(st.integers(0, 3))):
            o = draw(st.sampled_from(ACC))
            if o in ("grow", "gcol", "row", "col") and s > 1:
                o = "g4"
            ops.append(access(draw, o, shape, False))
            mat.apply(T, ops[-1])
    o = draw(st.sampled_from(LAST))
    bad = draw(st.integers(0, 5)) > 0
    if s > 1 and not bad and o in ("row", "col", "grow", "gcol"):
        bad = True
    if o in ("grow", "gcol", "getR", "getC", "row", "col", "swr", "swc", "mvr", "mvc", "rowlen", "collen") and empty:
        bad = True
        if o in ("swr", "swc", "mvr", "mvc", "rowlen", "collen"):
            o = "g3"
    if o in ("g1", "set1"):
        bad = empty
    if o not in ACC:
        bad = True
    if empty and o in ("g2", "g3", "g4", "set2", "set3", "set4"):
        bad = True
    # without shelves even a row or column inside of the matrix has no elements
    inside = s and not shape[2] and r and c and o in ("grow", "gcol", "row", "col") and draw(st.booleans())
    return {"ops": ops, "last": access(draw, o, shape, bad and not inside), "bad": bad}


def strategy(tier):
    return case_()


def nontrivial(case, notes):
    return case["bad"]


def check(case, env):
    last, bad = case["last"], case["bad"]
    body = "".join(mat.line(o) + "\n" for o in case["ops"]) + "dump 0\n" + mat.line(last) + "\ndump 0\n"
    r = env.run("matrix", body)
    what = mat.show(case["ops"] + [last])
    if r.crashed():
        raise Violation("memory error or hang in\n%s\n%s" % (what, r.brief()))
    it = iter(r.res.splitlines() + [""])
    T = {}
    for o in case["ops"]:
        want = mat.apply(T, o)
        got = mat.read_answer(it)
        d = mat.compare_answer(want, got)
        if d:
            raise Violation("valid access %s answered %s in\n%s" % (mat.line(o), d, what))
    shape, total, vals = mat.read_dump(next(it))
    next(it)
    if shape != T[0].shape or mat.differs(vals, T[0]):
        raise Violation("wrong contents %s before the last access of\n%s" % (vals, what))
    rest = list(it)
    note(env, ("invalid " if bad else "valid ") + last[0])
    if bad:
        if rest[0].startswith("X"):
            if last[0] in ("mvr", "mvc", "swr", "swc"):
                return
            # refused by exception: nothing may have changed
            shape, total, vals = mat.read_dump(rest[1])
            if shape != T[0].shape or mat.differs(vals, T[0]):
                raise Violation("the refused last access changed the matrix to %s %s\n%s" % (shape, vals, what))
            return
        if r.refused() and rest[0] == "":
            return
        raise Violation("access outside of the matrix was not refused: %s\n%s" % (rest[:2], what))
    want = mat.apply(T, last)
    got = mat.read_answer(iter(rest))
    d = mat.compare_answer(want, got)
    if d:
        raise Violation("valid access %s answered %s in\n%s" % (mat.line(last), d, what))
