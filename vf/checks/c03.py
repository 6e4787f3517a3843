"""Counterpoise: full monomer vectors, three independent atom orders."""
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a counterpoise system (all files list all atoms) with random atom orders of the three systems if the "
        "populations are there, else with the same order everywhere; all five values must be those of the reference. "
        "Non-trivial: the populations are there, at least two of the orders differ and the given orders would give "
        "other values.")
ASSUMPTIONS = ["J_eff is not compared where rounding alone decides it (|1-S_ab^2| < 1e-10 or so)"]


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 3)) == 0:
        s = draw(sy.specs(cp=True, max_atoms=5, max_nf=2, pops=True, dress=True))
    else:
        s = draw(sy.specs(cp=True, max_nf=5, max_total=20, pops=draw(st.integers(0, 4)) > 0, big=True, dress=True))
    if not s["pops"]:
        s["perm1"] = s["perm2"] = s["perm"]
    return {"sys": s, "k1": draw(st.integers(0, s["mo"][0] - 1)), "k2": draw(st.integers(0, s["mo"][1] - 1)),
            "flag": draw(st.sampled_from([["-cp"], ["--counter_poise"], ["-cp", "ON"], ["--counter_poise", "TRUE"]]))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "orders matter" in notes


def check(case, env):
    S = sy.Sys(case["sys"])
    ref = S.ref(case["k1"], case["k2"])
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    S.write(env.dir)
    argv = [a for a in S.argv() if a != "-cp"] + e2e.orbargs(S, case["k1"], case["k2"]) + case["flag"]
    s = S.s
    e2e.expect(env, argv, ref, " with orders %s %s %s" % (s["perm1"], s["perm2"], s["perm"]))
    if not s["pops"]:
        note(env, "same order, no populations")
        return
    note(env, "orders: %d different" % len({tuple(s[k]) for k in ("perm1", "perm2", "perm")}))
    plain = S.ref(case["k1"], case["k2"], as_printed=True)
    if g.compare({k: plain[k] for k in g.KEYS}, ref):
        note(env, "orders matter")
