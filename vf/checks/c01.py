"""calc_J's printed values equal the dimer-projection formula."""
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note

DRIVERS = ["calcj"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a generated dimer with two monomers (1-4 atoms each, 1-6 functions per atom, MO count up to "
        "the basis size, random or orthonormal coefficients), run through calc_J; non-trivial when the overlap "
        "S_ab is not 0, 1-S_ab^2 is well away from 0 and the two monomers differ in size or values.")
ASSUMPTIONS = ["printed values have 6 significant digits; compared at 6e-6 relative plus rounding noise",
               "J_eff is not compared where rounding alone decides it (|1-S_ab^2| < 1e-10 or so)"]


@st.composite
def strategy_(draw):
    s = draw(sy.specs(perm=False, big=True, dress=True))
    return {"sys": s, "k1": draw(st.integers(0, s["mo"][0] - 1)), "k2": draw(st.integers(0, s["mo"][1] - 1))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "compared" in notes


def check(case, env):
    S = sy.Sys(case["sys"])
    occ = S.occ["Alpha"]
    ref = S.ref(case["k1"], case["k2"])
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    S.write(env.dir)
    argv = S.argv() + sy.orb_args(1, case["k1"], occ[0], S.s["mo"][0]) + \
        sy.orb_args(2, case["k2"], occ[1], S.s["mo"][1])
    r = env.calcj(argv)
    if not r.ok():
        raise Violation("calc_J failed on consistent input %s\n%s" % (argv, r.brief()))
    bad = g.compare(g.parse_out(r.out), ref)
    if bad:
        raise Violation("wrong result for %s\n%s\n%s" % (argv, "\n".join(bad), r.out))
    note(env, S.s["kind"])
    note(env, "pops" if S.s["pops"] else "no-pops")
    if S.NA != S.NB:
        note(env, "different sizes")
    if S.s["mo"][2] < S.NP:
        note(env, "fewer MOs than functions")
    if S.NP > 10:
        note(env, ">2 overlap blocks")
    if abs(ref["S_ab"]) > 0:
        note(env, "compared")
    if abs(ref["S_ab"]) > 1e-3:
        note(env, "S_ab>1e-3")
