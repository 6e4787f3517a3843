"""The report says which spins and orbitals were used and gives each value once with its unit."""
import os, re
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 6000, "thorough": 100000}
RULE = ("A case is a system (restricted or not, counterpoise or not, with or without populations), any spins and orbitals, "
        "given or left to the default, in any order of the options. Expected: the report names the six files, the three "
        "spins and the two orbitals (HOMO, HOMO-k, LUMO, LUMO+k) of the run, each once, followed by the five values, each "
        "once, in eV but for S_ab, and the values are those of just these spins and orbitals. Non-trivial: the two "
        "monomers differ in spin or orbital.")
ASSUMPTIONS = ["line labels as printed by the program at the pinned commit; amount of white space is free"]
FILES = [("log file for first monomer is:", "1.log"), ("log file for second monomer is:", "2.log"),
         ("log file for dimer is:", "P.log"), ("pun file for the first monomer is:", "1.pun"),
         ("pun file for the second monomer is:", "2.pun"), ("pun file for the dimer is:", "P.pun")]


@st.composite
def strategy_(draw):
    unres = draw(st.booleans())
    s = draw(sy.specs(unres=unres, cp=draw(st.integers(0, 3)) == 0, max_total=16, dress=True, big=True))
    if not s["pops"]:
        s["perm"] = list(range(len(s["nf"])))
        if s["cp"]:
            s["perm1"] = s["perm2"] = s["perm"]
    sp = ["Alpha", "Beta", "Beta", None] if unres else ["Alpha", None, None]
    return {"sys": s, "spins": [draw(st.sampled_from(sp)) for _ in range(3)],
            "k": [draw(st.integers(0, 99)), draw(st.integers(0, 99))], "frontier": [draw(st.integers(0, 2)) for _ in "12"],
            "zero": draw(st.booleans()), "dflt": draw(st.booleans()), "order": draw(st.permutations(range(14))),
            "long": draw(st.integers(0, 2 ** 14 - 1)), "explicit": draw(st.booleans())}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "monomers differ" in notes


LONG = {"-p_": "--pun_", "-l_": "--log_", "-s_": "--spin_", "-orb_ty_": "--orbital_type_", "-orb_num_": "--orbital_num_"}


def check(case, env):
    S = sy.Sys(case["sys"])
    spins = [x or "Alpha" for x in case["spins"]]
    rows, names, opts = [], [], []
    for i in (0, 1):
        occ, mo = S.occ[spins[i]][i], S.s["mo"][i]
        k = case["k"][i] % mo
        if case["frontier"][i] == 0:
            k = occ - 1
        elif case["frontier"][i] == 1 and occ < mo:
            k = occ
        rows.append(k)
        ty, num = ("HOMO", k - occ + 1) if k < occ else ("LUMO", k - occ)
        names.append(ty + ("%+d" % num if num else ""))
        if not (case["dflt"] and ty == "HOMO"):
            opts.append(["-orb_ty_%d" % (i + 1), ty])
        if num or case["zero"]:
            opts.append(["-orb_num_%d" % (i + 1), str(num)])
    ref = S.ref(rows[0], rows[1], spP=spins[2], sp1=spins[0], sp2=spins[1])
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    for x, f in zip(case["spins"], "12P"):
        if x:
            opts.append(["-s_" + f, x])
    for f in "12P":
        opts.append(["-p_" + f, f + ".pun"])
        if case["explicit"]:
            opts.append(["-l_" + f, f + ".log"])
    if S.s["cp"]:
        opts.append(["-cp"])
    S.write(env.dir)
    argv = []
    for j in case["order"]:
        if j < len(opts):
            o = list(opts[j])
            if case["long"] >> j & 1:
                o[0] = "--counter_poise" if o[0] == "-cp" else LONG[o[0][:-1]] + o[0][-1]
            argv += o
    r = e2e.expect(env, argv, ref)
    lines = [" ".join(l.split()) for l in r.out.splitlines()]

    def one(start, want):
        got = [l for l in lines if l.startswith(start)]
        if got != [start + " " + want]:
            raise Violation("expected the line %r once, but the report has %r\n%s\n%s" % (start + " " + want, got, argv, r.out))
        return lines.index(got[0])

    at = [one(*f) for f in FILES]
    at += [one("Dimer Spin", spins[2]), one("Monomer 1 Spin", "%s Orbital %s" % (spins[0], names[0])),
           one("Monomer 2 Spin", "%s Orbital %s" % (spins[1], names[1]))]
    for k in g.KEYS:
        got = [l for l in lines if l.split()[:1] == [k]]
        if len(got) != 1 or not re.match(k + (r" \S+$" if k == "S_ab" else r" \S+ eV$"), got[0]):
            raise Violation("expected one line with %s, but the report has %r\n%s\n%s" % (k, got, argv, r.out))
        if lines.index(got[0]) < max(at):
            raise Violation("%s is printed before the report has said what it is\n%s\n%s" % (k, argv, r.out))
    note(env, "/".join(x[0] for x in spins))
    if (spins[0], names[0]) != (spins[1], names[1]):
        note(env, "monomers differ")
