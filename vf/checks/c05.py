"""Spin flags choose the coefficients, energies and occupations of that spin."""
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 12000, "thorough": 100000}
RULE = ("A case is a restricted or unrestricted system (alpha and beta with different coefficients, energies and "
        "occupations), given spins or none for each of the three parts, and an orbital of each monomer. Unrestricted: "
        "all five values must be those of the reference for these spins. Restricted: refused exactly if beta is asked "
        "for. Non-trivial: unrestricted with at least one beta, or restricted and refused.")
ASSUMPTIONS = ["all six files of a case are of the same kind (restricted or not), or some parts, or one kind of files of them, have no beta",
               "beta always has at least one occupied orbital"]
FLAGS = [("--spin_1", "-s_1"), ("--spin_2", "-s_2"), ("--spin_P", "-s_P")]


@st.composite
def strategy_(draw):
    unres = draw(st.integers(0, 4)) > 0
    s = draw(sy.specs(unres=True, cp=draw(st.integers(0, 4)) == 0, max_total=16, big=True, dress=True))
    if not s["pops"]:
        s["perm"] = list(range(len(s["nf"])))
        if s["cp"]:
            s["perm1"] = s["perm2"] = s["perm"]
    spins = [draw(st.sampled_from(["Alpha", "Beta", "Beta", None])) for _ in range(3)]
    # parts (1, 2, P) whose files hold alpha only
    only = [] if unres else draw(st.sampled_from([[0], [1], [2], [0, 1, 2], [0, 1]]))
    # which of the two files of such a part
    kind = draw(st.sampled_from(["both", "both", "pun", "log"]))
    return {"sys": s, "spins": spins, "only": only, "files": kind, "long": draw(st.integers(0, 7)),
            "u1": draw(st.integers(0, 999)), "u2": draw(st.integers(0, 999))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "beta used" in notes or "refused" in notes


def check(case, env):
    S = sy.Sys(case["sys"])
    spins = [x or "Alpha" for x in case["spins"]]
    k1, k2 = case["u1"] % S.s["mo"][0], case["u2"] % S.s["mo"][1]
    ref = S.ref(k1, k2, spP=spins[2], sp1=spins[0], sp2=spins[1])
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    names = "12P"
    for w in range(3):
        full = S.spins
        kind = case.get("files", "both")
        if w in case["only"] and kind != "pun":
            S.spins = ["Alpha"]
        sy.put("%s/%s.log" % (env.dir, names[w]), S.log(w))
        S.spins = full
        if w in case["only"] and kind != "log":
            S.spins = ["Alpha"]
        sy.put("%s/%s.pun" % (env.dir, names[w]), S.pun(w))
        S.spins = full
    argv = S.argv() + e2e.orbargs(S, k1, k2, spins[0], spins[1])
    for i, x in enumerate(case["spins"]):
        if x:
            argv += [FLAGS[i][case["long"] >> i & 1], x]
    if any(spins[w] == "Beta" for w in case["only"]):
        e2e.expect_refused(env, argv, "beta asked of a file with alpha only (parts %s)" % case["only"])
        note(env, "refused")
        note(env, "without beta: " + case.get("files", "both"))
        return
    e2e.expect(env, argv, ref, " with spins %s" % spins)
    note(env, "/".join(x[0] for x in spins))
    if case["only"]:
        note(env, "restricted parts")
    if "Beta" in spins:
        note(env, "beta used")
        alt = S.ref(k1, k2)
        if not g.compare({k: alt[k] for k in g.KEYS}, ref):
            note(env, "beta equals alpha")
