"""Symmetries of the transfer integral: pairs of runs of the program."""
import copy
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 8000, "thorough": 60000}
RULE = ("A case is a system, a run of calc_J on it, and a second run on transformed files (monomers exchanged; dimer "
        "orbitals permuted, with their energies, and their signs changed; sign of a monomer orbital changed; dimer "
        "energies multiplied; a unit of the energies shifted between occupied and virtual). The printed values of both "
        "runs must be related as stated. Non-trivial: S_ab is not 0 and the transformed files differ.")
ASSUMPTIONS = ["values compared at 1.2e-5 relative (two roundings to six digits) plus rounding noise of the sums"]
KINDS = ["exchange", "orbitals", "sign1", "sign2", "scale"]


@st.composite
def strategy_(draw):
    cp = draw(st.integers(0, 3)) == 0
    s = draw(sy.specs(cp=cp, perm=False, max_total=16, big=True, dress=True))
    return {"sys": s, "k1": draw(st.integers(0, s["mo"][0] - 1)), "k2": draw(st.integers(0, s["mo"][1] - 1)),
            "kind": draw(st.sampled_from(KINDS)), "seed": draw(st.integers(0, 10 ** 6)),
            "factor": draw(st.sampled_from([2, 3, -1, 0, -2]))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "related" in notes


def run(env, S, k1, k2, swap=False):
    S.write(env.dir)
    argv = S.argv(("2", "1", "P") if swap else ("1", "2", "P"))
    occ = S.occ["Alpha"]
    if swap:
        argv += sy.orb_args(1, k2, occ[1], S.s["mo"][1]) + sy.orb_args(2, k1, occ[0], S.s["mo"][0])
    else:
        argv += e2e.orbargs(S, k1, k2)
    r = env.calcj(argv)
    if not r.ok():
        raise Violation("calc_J failed on consistent input %s\n%s" % (argv, r.brief()))
    return g.parse_out(r.out)


def check(case, env):
    S = sy.Sys(case["sys"])
    k1, k2, kind = case["k1"], case["k2"], case["kind"]
    rng = np.random.default_rng(case["seed"])
    if kind == "exchange" and not S.s["pops"]:
        # without populations the order is taken as given, and the dimer's must follow
        S.s = dict(S.s, pops=True)
    ref = S.ref(k1, k2)
    if abs(ref["den"]) < 1e-2:
        note(env, "ill-conditioned")
        return
    a = run(env, S, k1, k2)
    T = copy.deepcopy(S)
    want = dict(a)
    if kind == "exchange":
        b = run(env, T, k1, k2, swap=True)
        want["e_a"], want["e_b"] = a["e_b"], a["e_a"]
    elif kind == "orbitals":
        m = S.s["mo"][2]
        p = rng.permutation(m)
        sg = rng.choice([-1.0, 1.0], size=m)
        T.CP["Alpha"] = S.CP["Alpha"][p] * sg[:, None]
        E = list(S.E["Alpha"])
        E[2] = E[2][p]
        T.E["Alpha"] = E
        b = run(env, T, k1, k2)
    elif kind in ("sign1", "sign2"):
        C = T.C1 if kind == "sign1" else T.C2
        C["Alpha"] = C["Alpha"].copy()
        C["Alpha"][k1 if kind == "sign1" else k2] *= -1
        b = run(env, T, k1, k2)
        for k in ("J_ab", "S_ab", "J_eff"):
            want[k] = -a[k]
    else:
        f = case["factor"]
        E = list(S.E["Alpha"])
        E[2] = np.array(g.f5(E[2] * f))
        if np.max(np.abs(E[2]), initial=0) >= 999:
            note(env, "energies too large to print")
            return
        T.E["Alpha"] = E
        b = run(env, T, k1, k2)
        for k in ("J_ab", "e_a", "e_b", "J_eff"):
            want[k] = a[k] * f
    bad = []
    for k in g.KEYS:
        if k not in b or b[k] is None or k not in want or want[k] is None:
            bad.append("%s missing" % k)
        else:
            tol = ref["tol"][k] * 30 + 1.2e-5 * abs(want[k]) + 1e-300
            if kind == "exchange" and k in ("e_a", "e_b"):
                tol += 30 * ref["tol"]["e_b" if k == "e_a" else "e_a"]
            if kind == "scale":
                tol += ref["tol"][k] * 30 * abs(case["factor"])
            if not abs(b[k] - want[k]) <= tol:
                bad.append("%s: %r after the transformation, %r expected from the first run" % (k, b[k], want[k]))
    if bad:
        raise Violation("%s: results not related as they should be\n%s\nfirst %s\nsecond %s" % (
            kind, "\n".join(bad), a, b))
    note(env, kind)
    if abs(ref["S_ab"]) > 1e-9:
        note(env, "related")
