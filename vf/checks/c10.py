"""The last coordinate table counts."""
import os
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a .log file with 1-4 coordinate tables of 1-12 atoms each (sizes and header spellings vary between the "
        "tables, unrelated lines in between); the coordinates of the last table must be read exactly, in order. "
        "Non-trivial: several tables that differ.")
ASSUMPTIONS = ["coordinates in the F11.6 layout, |x| < 10000"]
X = st.one_of(st.integers(-9999999, 9999999).map(lambda k: k / 1e6), st.integers(-10 ** 9, 10 ** 9).map(lambda k: k / 1e6),
              st.sampled_from([0.0, -0.0, 0.000001, -0.000001, -999.999999, 1.0]))


@st.composite
def strategy_(draw):
    tabs = []
    for _ in range(draw(st.integers(1, 4))):
        tabs.append({"v": draw(st.integers(0, 1)), "t": draw(st.sampled_from(["Standard orientation:", "Input orientation:", "Z-Matrix orientation:"])),
                     "xyz": draw(st.lists(st.tuples(X, X, X), min_size=1, max_size=12)),
                     "z": draw(st.integers(0, 118)), "zs": draw(st.integers(0, 2 ** 32 - 1)), "ty": draw(st.sampled_from([0, 0, 1000, 20001003]))})
    return {"tabs": tabs, "noise": draw(st.lists(st.lists(st.integers(0, len(g.NOISE) - 1), max_size=3), min_size=1, max_size=3)),
            "rest": draw(st.booleans())}


def strategy(tier):
    return strategy_()


def fixed(tier):
    """Three- and four-digit numbers of atoms."""
    return [{"tabs": [{"v": (i + k) % 2, "t": "Standard orientation:", "z": 6, "xyz": [
        [0.001 * j - 17 + k, -0.002 * j, 12.5 * k + j] for j in range(n - 3 * k)]} for k in range(1 + i % 3)],
        "noise": [[]], "rest": True} for i, n in enumerate([99, 100, 101, 256, 999, 1000, 1203])]


def nontrivial(case, notes):
    return len(case["tabs"]) > 1 and case["tabs"][-1]["xyz"] != case["tabs"][-2]["xyz"]


def check(case, env):
    parts = []
    for t in case["tabs"]:
        m = len(t["xyz"])
        z = [t["z"]] * m if t.get("zs", 0) % 2 == 0 else [(t["zs"] >> i % 25) % 119 for i in range(m)]
        parts.append(g.coord_lines(t["xyz"], z, t["v"], t["t"], [t.get("ty", 0)] * m))
        if case["rest"]:
            parts.append(g.oe_lines("Alpha", [-1.0], [1.0]))
    text = g.log_text(parts, case["noise"])
    path = os.path.join(env.dir, "x.log")
    sy.put(path, text)
    got = rd.run(env, [("log", 0, path), ("readl", 0), ("xyz", 0)], "\n" + text[:2500])[2]
    xyz = case["tabs"][-1]["xyz"]
    want = [[float("%.6f" % p[a]) for p in xyz] for a in range(3)]
    d = "%d rows" % len(got) if len(got) != 3 else None
    for a in range(3):
        d = d or rd.differs(got[a], want[a], 1e-15)
    if d:
        raise Violation("coordinates: %s\n%s, expected\n%s\n%s" % (d, got, want, text[:3000]))
    note(env, "%d tables" % len(case["tabs"]))
    note(env, "header %d" % case["tabs"][-1]["v"])
    if len({len(t["xyz"]) for t in case["tabs"]}) > 1:
        note(env, "different numbers of atoms")
