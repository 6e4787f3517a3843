"""The atom order of the dimer does not change the result."""
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a system with distinct atom positions whose dimer files list the atoms in a random order, with jitter "
        "between the files; all five values must be those of the reference in canonical order. Non-trivial: the "
        "order moves at least one atom and changes the values that calc_J would print if it took the order as given.")
ASSUMPTIONS = ["coordinates below 200 Angstrom, jitter up to a fifth of the matching unit of 1e-4 on either side",
               "J_eff is not compared where rounding alone decides it (|1-S_ab^2| < 1e-10 or so)"]


@st.composite
def strategy_(draw):
    shape = draw(st.integers(0, 3))
    if shape == 0:
        s = draw(sy.specs(pops=True, max_atoms=7, max_nf=2, dress=True))
    elif shape == 1:
        s = draw(sy.specs(pops=True, max_atoms=2, max_nf=9, dress=True))
    else:
        s = draw(sy.specs(pops=True, big=True, dress=True))
    return {"sys": s, "k1": draw(st.integers(0, s["mo"][0] - 1)), "k2": draw(st.integers(0, s["mo"][1] - 1))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "order matters" in notes


def check(case, env):
    S = sy.Sys(case["sys"])
    ref = S.ref(case["k1"], case["k2"])
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    S.write(env.dir)
    r = e2e.expect(env, S.argv() + e2e.orbargs(S, case["k1"], case["k2"]), ref,
                   " with dimer atoms in order %s" % S.s["perm"])
    if "line up" in r.err:
        raise Violation("warned although all populations are there\n" + r.brief())
    perm = S.s["perm"]
    fixed = sum(i == p for i, p in enumerate(perm))
    if fixed < len(perm):
        note(env, "permuted")
        if len(set(S.s["nf"])) > 1:
            note(env, "unequal functions per atom")
        if len(perm) > 5:
            note(env, ">5 atoms")
        p2 = [perm[p] for p in perm]
        if p2 != list(range(len(perm))):
            note(env, "not an involution")
        plain = S.ref(case["k1"], case["k2"], as_printed=True)
        if g.compare({k: plain[k] for k in g.KEYS}, ref):
            note(env, "order matters")
