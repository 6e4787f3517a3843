"""Shared by the checks of the file readers: run operations, decode the answers."""
import numpy as np
from ..driver import hx, unhx
from ..engine import Violation


def run(env, ops, what=""):
    """ops: list of tuples (name, id, string...); returns decoded answers, raises on refusal.
    Within a session each case has readers of its own, and the earlier ones are asked again."""
    n = len(env.asked)
    lines = [" ".join([o[0], str(o[1] + 10 * n)] + [hx(x) for x in o[2:]]) for o in ops]
    again = [q for e in env.asked for q in e]
    r = env.run("readers", "\n".join(lines + [q for q, _ in again]) + "\n")
    if not r.ok():
        raise Violation("reading a well-formed file failed%s\n%s" % (what, r.brief()))
    ls = r.res.splitlines()
    if len(ls) != len(ops) + len(again):
        raise Violation("%d answers to %d questions%s\n%s" % (len(ls), len(ops) + len(again), what, r.brief()))
    out = []
    for o, l in zip(ops, ls):
        if l.startswith("X "):
            raise Violation("%s was refused: %s%s" % (o, unhx(l[2:]), what))
        out.append(decode(l))
    for (q, want), l in zip(again, ls[len(ops):]):
        if l != want:
            raise Violation("the answer of an earlier reader to %s has changed from\n%s\nto\n%s\nafter%s" % (
                q, want[:1000], l[:1000], what))
    env.asked.append([(q, l) for o, q, l in zip(ops, lines, ls) if o[0] not in ("log", "pun", "readl", "readp")])
    return out


def decode(l):
    f = l.split()
    if f[-1] != "ok":
        raise ValueError("protocol: " + l[:300])
    f = f[:-1]
    if not f:
        return None
    k, f = f[0], f[1:]
    if k == "m":
        r, c = int(f[0]), int(f[1])
        return np.array([float(x) for x in f[2:]]).reshape(r, c)
    if k == "v":
        return [float(x) for x in f[1:]]
    if k == "b":
        return int(f[0])
    if k == "i":
        return [int(x) for x in f[1:]]
    if k == "x":
        out, i = [], 1
        for _ in range(int(f[0])):
            n = int(f[i + 1])
            out.append([float(x) for x in f[i + 2:i + 2 + n]])
            i += 2 + n
        return out
    if k == "o":
        out, i = {}, 0
        while i < len(f):
            j = i + 4
            while j < len(f) and f[j] != "A":
                j += 1
            out.setdefault((int(f[i + 1]), unhx(f[i + 2])), {})[unhx(f[i + 3])] = [float(x) for x in f[i + 4:j]]
            i = j
        return out
    raise ValueError("protocol: " + l[:300])


def differs(got, want, rel):
    """First difference of two arrays of numbers or None."""
    g, w = np.asarray(got, float), np.asarray(want, float)
    if g.shape != w.shape:
        return "has size %s, expected %s" % (g.shape, w.shape)
    bad = ~((np.abs(g - w) <= rel * np.abs(w)) & np.isfinite(g))
    if bad.any():
        i = tuple(int(x) for x in np.argwhere(bad)[0])
        return "element %s is %r, expected %r" % (tuple(x + 1 for x in i), float(g[i]), float(w[i]))
    return None
