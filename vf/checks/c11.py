"""Functions per atom and their populations."""
import os
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 10000, "thorough": 100000}
RULE = ("A case is a .log file with gross orbital populations of 1-14 atoms (one- and two-letter elements, equal neighbours "
        "included) with 1-29 functions each (all labels of Gaussian's kinds, distinct within an atom) and one or four "
        "columns, in two of seven after another table of the same or other atoms; functions per atom, elements, labels and "
        "values must be read. Non-trivial: several atoms with different "
        "numbers of functions.")
ASSUMPTIONS = ["labels are distinct within one atom"]
LABELS = g.LABELS + ["9XXX", "9YYY", "9XYZ", "10F 0", "10F+1", "10F-1", "10F+2", "10F-2", "10F+3", "10F-3"]
ELS = g.ELEMS + ["He", "Li", "B", "P", "I", "Zn", "Au", "D", "W", "U", "K", "V", "Y"]


@st.composite
def tables(draw, most):
    n = draw(st.integers(1, most))
    pool = draw(st.lists(st.sampled_from(ELS), min_size=1, max_size=4))
    small = draw(st.booleans())
    atoms = []
    for _ in range(n):
        k = draw(st.integers(1, 4 if small else 29))
        lab = LABELS if draw(st.booleans()) else draw(st.permutations(LABELS))
        atoms.append([draw(st.sampled_from(pool)), k, list(lab[:k])])
    return atoms


@st.composite
def strategy_(draw):
    atoms = draw(tables(14))
    # an earlier table: the same, that of other functions on the same atoms, or of anything
    how = draw(st.sampled_from(["none"] * 4 + ["same", "functions", "other"]))
    first = None
    if how == "same":
        first = atoms
    elif how == "functions":
        first = [[el, k, list(draw(st.permutations(LABELS))[:k])] for el, k in
                 [(a[0], draw(st.integers(1, 29))) for a in atoms]]
    elif how == "other":
        first = draw(tables(6))
    return {"atoms": atoms, "cols": draw(st.sampled_from([1, 1, 4])),
            "vals": draw(st.lists(st.integers(-999999, 999999).map(lambda k: k / 1e5), min_size=1, max_size=7)),
            "first": first}


def strategy(tier):
    return strategy_()


def fixed(tier):
    """Three-digit numbers of atoms, four-digit numbers of functions."""
    out = []
    for i, (n, k) in enumerate([(99, 1), (100, 2), (101, 10), (130, 8), (40, 29), (998, 1), (999, 2)]):
        atoms = [["CHOSi"[j % 3] if j % 4 else "Si", max(1, k - j % 3), LABELS[:max(1, k - j % 3)]] for j in range(n)]
        out.append({"atoms": atoms, "cols": 1 + 3 * (i % 2), "vals": [0.5, 1.25, -0.125],
                    "first": atoms if i % 3 else None})
    return out


def nontrivial(case, notes):
    return len({a[1] for a in case["atoms"]}) > 1


def check(case, env):
    atoms, cols, vals = case["atoms"], case["cols"], case["vals"]
    tab = g.population_lines([tuple(a) for a in atoms], cols, vals)
    parts = [g.coord_lines([[0.0, 0.0, 1.0]])]
    if case["first"]:
        parts.append(g.population_lines([tuple(a) for a in case["first"]], cols, [0.25]))
    parts.append(tab)
    text = g.log_text(parts)
    path = os.path.join(env.dir, "p.log")
    sy.put(path, text)
    _, _, bf, orb = rd.run(env, [("log", 0, path), ("readl", 0), ("bf", 0), ("orb", 0)], "\n" + text[:2500])
    if bf != [a[1] for a in atoms]:
        raise Violation("functions per atom %s, expected %s\n%s" % (bf, [a[1] for a in atoms], text[:4000]))
    k = 0
    want = {}
    for i, (el, n, labels) in enumerate(atoms):
        w = want[(i + 1, el)] = {}
        for j in range(n):
            w["".join(labels[j].split())] = [float("%.5f" % vals[k % len(vals)])] * cols
            k += 1
    got = {a: {"".join(l.split()): v for l, v in f.items()} for a, f in orb.items()}
    if got != want:
        for a in sorted(set(got) | set(want)):
            if got.get(a) != want.get(a):
                raise Violation("populations of atom %s are %s, expected %s\n%s" % (a, got.get(a), want.get(a), text[:4000]))
    note(env, "%d columns" % cols)
    if case["first"] not in (None, atoms):
        note(env, "after another table")
    if any(" " in l for a in atoms for l in a[2]):
        note(env, "labels with space")
    if any(a[0] == b[0] for a, b in zip(atoms, atoms[1:])):
        note(env, "same element in a row")
    if any(a[1] == 1 for a in atoms):
        note(env, "atom with one function")
