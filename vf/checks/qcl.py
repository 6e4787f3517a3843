"""Shared by the checks of the library interface: operations on the qc driver."""
import numpy as np
from ..driver import unhx


def mk(k, a):
    a = np.asarray(a, float)
    return "mk %d %d %d %s\n" % (k, a.shape[0], a.shape[1], " ".join(repr(float(x)) for x in a.ravel()))


def vec(v):
    return "%d %s" % (len(v), " ".join(map(str, v)))


def answers(r):
    """List of ('ok', value) / ('X', message) / ends early if the process did."""
    out = []
    for l in r.res.splitlines():
        f = l.split()
        if len(f) >= 2 and f[-2] == "X":
            out.append(("X", unhx(f[-1])))
        elif f[-1] != "ok":
            raise ValueError("protocol: " + l[:300])
        elif len(f) == 1:
            out.append(("ok", None))
        elif f[0] == "m":
            out.append(("ok", np.array([float(x) for x in f[3:-1]]).reshape(int(f[1]), int(f[2]))))
        elif f[0] == "e":
            out.append(("ok", float(f[1])))
        elif f[0] == "r":
            out.append(("ok", [(int(f[i]), float(f[i + 1]), f[i + 2]) for i in range(2, len(f) - 1, 3)]))
        else:
            raise ValueError("protocol: " + l[:300])
    return out
