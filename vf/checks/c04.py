"""HOMO-k and LUMO+k select exactly that orbital; all others are refused."""
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 14000, "thorough": 120000}
RULE = ("A case is a system and, for each monomer, an orbital type (or none) and number (or none): inside, on and beyond "
        "the borders, of the wrong sign, or extreme. Valid requests for both must give the five values of the "
        "reference for exactly these orbitals, any invalid one must be refused. Non-trivial: at least one request is "
        "on a border or invalid.")
ASSUMPTIONS = ["J_eff is not compared where rounding alone decides it (|1-S_ab^2| < 1e-10 or so)"]
TF = {1: ("--orbital_type_1", "-orb_ty_1"), 2: ("--orbital_type_2", "-orb_ty_2")}
NF = {1: ("--orbital_num_1", "-orb_num_1"), 2: ("--orbital_num_2", "-orb_num_2")}


@st.composite
def request(draw, occ, mo):
    ty = draw(st.sampled_from(["HOMO", "LUMO", "HOMO", "LUMO", None]))
    home = ty != "LUMO"
    n = occ if home else mo - occ
    sign = -1 if home else 1
    k = draw(st.integers(0, 9))
    if k < 5 and n > 0:
        num = sign * draw(st.one_of(st.integers(0, n - 1), st.sampled_from([0, n - 1])))
    elif k < 8:
        num = sign * draw(st.sampled_from([n, n + 1, n - 1, mo - 1, mo, mo + 1, 2 * mo + 3, occ, mo - occ]))
    elif k == 8:
        num = -sign * draw(st.integers(1, mo + 2))
    else:
        num = draw(st.sampled_from([2 ** 31 - 1, -2 ** 31, 2 ** 31 - 2, 1000, -1000, 1 - 2 ** 31]))
    if num == 0 and draw(st.booleans()):
        num = None
    return [ty, num, draw(st.integers(0, 3))]


@st.composite
def strategy_(draw):
    cp = draw(st.integers(0, 5)) == 0
    s = draw(sy.specs(perm=False, cp=cp, max_total=18, big=True, dress=True))
    if draw(st.integers(0, 2)) == 0:
        for o in s["occ"]:
            o[0] = s["mo"][0]
    if draw(st.integers(0, 2)) == 0:
        for o in s["occ"]:
            o[1] = s["mo"][1]
    o = s["occ"][0]
    return {"sys": s, "req": [draw(request(o[0], s["mo"][0])), draw(request(o[1], s["mo"][1]))]}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "border" in notes or "refused" in notes


def row(ty, num, occ, mo):
    """0-based row of the coefficients or None if there is no such orbital."""
    num = num or 0
    if ty == "LUMO":
        return occ + num if 0 <= num < mo - occ else None
    return occ - 1 + num if -occ < num <= 0 else None


def check(case, env):
    S = sy.Sys(case["sys"])
    occ, mo = S.occ["Alpha"], S.s["mo"]
    ks, argv = [], S.argv()
    for m in (1, 2):
        ty, num, sp = case["req"][m - 1]
        ks.append(row(ty, num, occ[m - 1], mo[m - 1]))
        if ty:
            argv += [TF[m][sp & 1], ty]
        if num is not None:
            argv += [NF[m][sp >> 1], str(num)]
    if None in ks:
        S.write(env.dir)
        e2e.expect_refused(env, argv, "occupied %s, orbitals %s, requests %s" % (occ[:2], mo[:2], case["req"]))
        note(env, "refused")
        note(env, "refused " + "/".join("bad" if k is None else "good" for k in ks))
        return
    ref = S.ref(*ks)
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    S.write(env.dir)
    e2e.expect(env, argv, ref, " with occupied %s of %s orbitals, requests %s" % (occ[:2], mo[:2], case["req"]))
    for m in (0, 1):
        if ks[m] in (0, mo[m] - 1, occ[m] - 1, occ[m]):
            note(env, "border")
        note(env, "row used")
    if any(r[0] is None for r in case["req"]):
        note(env, "type omitted")
    if any(r[1] is None for r in case["req"]):
        note(env, "number omitted")
