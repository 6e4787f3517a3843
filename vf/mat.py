"""The table model of Matrix (NumPy arrays of three dimensions) and its operations."""
import math
import numpy as np
from hypothesis import strategies as st
from .driver import unhx

VAL = st.one_of(st.integers(-9, 9).map(float), st.floats(allow_nan=False, allow_infinity=False),
                st.sampled_from([0.0, -0.0, 1e-300, 5e-324, 1.5, -2.25, 1e15, math.inf, -math.inf, math.nan]))


def draw_new(draw, k, size, shelves=True):
    kind = draw(st.sampled_from(["mk", "mk", "mk", "mk2", "mk1", "mk0", "vd", "vi", "vv"]))
    if kind == "mk":
        r, c = draw(size), draw(size)
        s = draw(st.sampled_from([1, 1, 1, 2, 3])) if shelves else 1
        if r * c * s > 80:
            rng = np.random.default_rng(draw(st.integers(0, 2 ** 32 - 1)))
            return ["mk", k, r, c, s] + rng.integers(-10 ** 6, 10 ** 6, size=r * c * s).astype(float).tolist()
        return ["mk", k, r, c, s] + [float(v) for v in draw(st.lists(VAL, min_size=r * c * s, max_size=r * c * s))]
    if kind == "mk2":
        return ["mk2", k, draw(size), draw(size)]
    if kind == "mk1":
        return ["mk1", k, draw(st.integers(0, 5))]
    if kind == "mk0":
        return ["mk0", k]
    if kind == "vv":
        r, c = draw(size), draw(size)
        out = ["vv", k, r]
        for _ in range(r):
            out += [c] + draw(st.lists(VAL, min_size=c, max_size=c))
        return out
    n = draw(size)
    if kind == "vi":
        return ["vi", k, n] + draw(st.lists(st.integers(-100, 100), min_size=n, max_size=n))
    return ["vd", k, n] + draw(st.lists(VAL, min_size=n, max_size=n))


def new(k, a):
    """Operation that creates a given array (1-3 dimensions, at least one element)."""
    a = np.asarray(a, float)
    while a.ndim < 3:
        a = a[..., None]
    return ["mk", k] + list(a.shape) + a.ravel().tolist()


def tok(x):
    return repr(x) if isinstance(x, float) else str(x)


def line(op):
    return " ".join(tok(x) for x in op)


def show(ops):
    return "\n".join("  " + line(o) for o in ops)


def arr(vals, *shape):
    return np.array(vals, float).reshape(shape)


def apply(T, op):
    """Apply op to the model; returns the expected answer (kind, value) or None."""
    o, a = op[0], op[1:]
    k = a[0]
    if o == "mk":
        T[k] = arr(a[4:], *a[1:4])
    elif o == "mk2":
        T[k] = np.zeros((a[1], a[2], 1))
    elif o == "mk1":
        T[k] = np.zeros((a[1], 1, 1)) if a[1] else np.zeros((0, 0, 0))
    elif o == "mk0":
        T[k] = np.zeros((1, 1, 1))
    elif o in ("vd", "vi"):
        T[k] = arr(a[2:], a[1], 1, 1)
    elif o == "vv":
        r, c = a[1], a[2]
        T[k] = arr([a[3 + i * (c + 1) + j] for i in range(r) for j in range(c)], r, c, 1)
    elif o == "set1":
        T[k][0, 0, 0] = a[1]
    elif o == "set2":
        T[k][a[2] - 1, 0, 0] = a[1]
    elif o == "set3":
        T[k][a[2] - 1, a[3] - 1, 0] = a[1]
    elif o == "set4":
        T[k][a[2] - 1, a[3] - 1, a[4] - 1] = a[1]
    elif o == "row":
        T[k][a[1] - 1, :, 0] = a[3:]
    elif o == "col":
        T[k][:, a[1] - 1, 0] = a[3:]
    elif o in ("resize", "srows", "scols", "sshel"):
        t = T[k]
        sh = list(t.shape)
        if o == "resize":
            sh = [a[1], a[2], 1]
        else:
            sh[("srows", "scols", "sshel").index(o)] = a[1]
        n = np.zeros(sh)
        q = tuple(slice(0, min(x, y)) for x, y in zip(sh, t.shape))
        n[q] = t[q]
        T[k] = n
    elif o == "swr":
        T[k][[a[1] - 1, a[2] - 1]] = T[k][[a[2] - 1, a[1] - 1]]
    elif o == "swc":
        T[k][:, [a[1] - 1, a[2] - 1]] = T[k][:, [a[2] - 1, a[1] - 1]]
    elif o in ("mvr", "mvc"):
        ax = 0 if o == "mvr" else 1
        idx = list(range(T[k].shape[ax]))
        x = idx.pop(a[1] - 1)
        idx.insert(a[2] - 1, x)
        T[k] = np.take(T[k], idx, axis=ax)
    elif o in ("cp", "as", "copyf"):
        T[k] = T[a[1]].copy()
    elif o == "inv":
        T[k] = np.transpose(T[a[1]], (1, 0, 2)).copy()
    elif o == "diag":
        v = T[a[1]].ravel()
        T[k] = np.diag(v)[:, :, None]
    elif o == "catr":
        T[k] = np.concatenate([T[a[1]], T[a[2]]], axis=0)
    elif o == "catc":
        T[k] = np.concatenate([T[a[1]], T[a[2]]], axis=1)
    elif o == "getR":
        T[k] = T[a[1]][a[2] - 1:a[2]].copy()
    elif o == "getC":
        T[k] = T[a[1]][:, a[2] - 1:a[2]].copy()
    elif o == "g1":
        return ("e", T[k][0, 0, 0])
    elif o == "g2":
        return ("e", T[k][a[1] - 1, 0, 0])
    elif o in ("g3", "gp"):
        return ("e", T[k][a[1] - 1, a[2] - 1, 0])
    elif o == "g4":
        return ("e", T[k][a[1] - 1, a[2] - 1, a[3] - 1])
    elif o == "grow":
        return ("v", T[k][a[1] - 1, :, 0].copy())
    elif o == "gcol":
        return ("v", T[k][:, a[1] - 1, 0].copy())
    elif o == "print":
        return ("p", T[k].copy())
    else:
        raise KeyError(o)
    return None


def read_answer(it):
    """Lines of one operation up to ok / X."""
    l = next(it)
    if l == "ok":
        return ("", None)
    if l.startswith("X "):
        return ("X", unhx(l[2:]))
    if next(it) != "ok":
        raise ValueError("protocol")
    kind, _, rest = l.partition(" ")
    if kind == "p":
        return ("p", unhx(rest))
    f = rest.split()
    if kind == "e":
        return ("e", float(f[0]))
    if kind == "i":
        return ("i", [int(x) for x in f[1:]])
    return ("v", [float(x) for x in f[1:]])


def read_dump(l):
    f = l.split()
    if f[0] != "M":
        raise ValueError("protocol: " + l)
    return tuple(int(x) for x in f[1:4]), int(f[4]), [float(x) for x in f[5:]]


def differs(vals, t):
    return not np.array_equal(np.array(vals, float).ravel(), t.ravel(), equal_nan=True)


def compare_answer(want, got):
    if want is None:
        return None if got[0] == "" else "%s" % (got,)
    if got[0] != want[0]:
        return "%s, expected %s" % (got, want)
    if want[0] == "p":
        return compare_print(want[1], got[1])
    w, g = np.atleast_1d(np.array(want[1], float)), np.atleast_1d(np.array(got[1], float))
    return None if w.shape == g.shape and np.array_equal(w, g, equal_nan=True) else "%s, expected %s" % (g.tolist(), w.tolist())


def compare_print(t, text):
    """The printed text holds every element at its shelf and row, in column order."""
    shelf, rows = None, {}
    for l in text.splitlines():
        f = l.split()
        if len(f) >= 2 and f[0].lower() == "shelf":
            shelf = int(f[1])
        elif len(f) >= 2 and f[0].lower() == "row" and shelf is not None:
            key = (shelf, int(f[1]))
            if key in rows:
                return "row printed twice: %r" % text
            rows[key] = [float(x) for x in f[2:]]
    if len(rows) != t.shape[0] * t.shape[2]:
        return "%d rows printed: %r" % (len(rows), text)
    for k in range(t.shape[2]):
        for i in range(t.shape[0]):
            g = rows.get((k + 1, i + 1))
            w = t[i, :, k]
            if g is None or len(g) != len(w):
                return "row %d of shelf %d: %r" % (i + 1, k + 1, text)
            for x, y in zip(g, w):
                if not (x == y or (x != x and y != y) or math.isclose(x, y, rel_tol=1.1e-5)):
                    return "row %d of shelf %d shows %s instead of %s: %r" % (i + 1, k + 1, g, w.tolist(), text)
    return None
