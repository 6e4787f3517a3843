"""Inputs that contradict each other are refused."""
import copy
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 6000, "thorough": 100000}
RULE = ("A case is a consistent system, which must be accepted, and the same system with one contradiction between its files, "
        "which must be refused without a result. Non-trivial: the contradictory one was run; one class per kind of "
        "contradiction.")
ASSUMPTIONS = ["populations are compared for the dimer, and for the second monomer of counterpoise runs, where they matter"]
KINDS = ["missing", "coincide", "overlap size", "dimer energies", "monomer energies", "functions per atom",
         "functions moved", "atoms in populations", "monomer size", "cp short", "monomer spin lengths"]


@st.composite
def strategy_(draw):
    kind = draw(st.sampled_from(KINDS))
    cp = draw(st.integers(0, 3)) == 0 and kind != "cp short"
    pops = True if kind in ("missing", "coincide", "functions per atom", "atoms in populations", "functions moved") \
        else draw(st.booleans())
    s = draw(sy.specs(cp=cp, pops=pops, max_total=16, perm=pops, big=True))
    return {"sys": s, "kind": kind, "a": draw(st.integers(0, 999)), "b": draw(st.integers(0, 999)),
            "k1": draw(st.integers(0, 99)), "k2": draw(st.integers(0, 99)), "part": draw(st.integers(0, 2))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "contradiction" in notes


def check(case, env):
    S = sy.Sys(case["sys"])
    s = S.s
    k1, k2 = case["k1"] % s["mo"][0], case["k2"] % s["mo"][1]
    a, b, kind, part = case["a"], case["b"], case["kind"], case["part"]
    ref = S.ref(k1, k2)
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    S.write(env.dir)
    argv = S.argv() + e2e.orbargs(S, k1, k2)
    e2e.expect(env, argv, ref)
    names = "12P"
    cp = s["cp"]

    def rewrite(w, **over):
        """Write the .log of part w with replaced pieces."""
        atoms = S.order(w)
        parts = [g.coord_lines(over.get("xyz", S.coords(w)))]
        f = S.funcs(atoms)
        if w == 2:
            parts.append(g.overlap_lines(over.get("S", S.S[np.ix_(f, f)])))
        e, o = S.E["Alpha"][w], S.occ["Alpha"][w]
        occ, virt = over.get("E", (list(e[:o]), list(e[o:])))
        parts.append(g.oe_lines("Alpha", occ, virt))
        if s["pops"]:
            at = over.get("atoms", [(S.els[i], s["nf"][i], g.LABELS) for i in atoms])
            parts.append(g.population_lines(at, s.get("ncols", 1)))
        sy.put("%s/%s.log" % (env.dir, names[w]), g.log_text(parts))

    if kind == "missing":
        xyz = S.coords(part)
        i, ax = a % len(xyz), b % 3
        d = [0.01, -0.01, 0.0005, 1.0, -2.5, 30.0, 0.0001, -0.0001][b // 3 % 8]
        xyz[i] = list(xyz[i])
        xyz[i][ax] += d
        at = ((S.grid * 100 + S.origin) / 1e6).tolist()
        if any(all(abs(x - y) < 0.75e-4 for x, y in zip(xyz[i], q)) for q in at):
            return
        rewrite(part, xyz=xyz)
    elif kind == "coincide":
        # an atom of one part gets the place of another atom
        if cp:
            w = part
            xyz = S.coords(w)
            if len(xyz) < 2:
                return
            i = a % len(xyz)
            j = (i + 1 + b % (len(xyz) - 1)) % len(xyz)
            xyz[i] = xyz[j]
        else:
            w = part if part < 2 else 0
            xyz = S.coords(w)
            other = S.coords(1 - w)
            xyz[a % len(xyz)] = other[b % len(other)]
        rewrite(w, xyz=xyz)
    elif kind == "overlap size":
        n = S.NP + [1, -1, 2, -2, 5][a % 5]
        if n < 1:
            return
        M = np.eye(n)
        q = min(n, S.NP)
        f = S.funcs(S.order(2))
        M[:q, :q] = S.S[np.ix_(f, f)][:q, :q]
        rewrite(2, S=M)
    elif kind in ("dimer energies", "monomer energies"):
        w = 2 if kind[0] == "d" else part % 2
        e, o = list(S.E["Alpha"][w]), S.occ["Alpha"][w]
        occ, virt = e[:o], e[o:]
        t = virt if (a % 2 or len(occ) == 1) else occ
        n = 1 + b % 6
        if b % 2 and len(t) > 1:
            del t[-min(n, len(t) - 1):]
        else:
            t += [0.5 + 0.01 * i for i in range(n)]
        rewrite(w, E=(occ, virt))
    elif kind in ("functions per atom", "functions moved", "atoms in populations"):
        w = part if cp and part == 1 else 2
        at = [[S.els[i], s["nf"][i], g.LABELS] for i in S.order(w)]
        i = a % len(at)
        if kind == "functions per atom":
            d = [1, -1, 2, 3][b % 4]
            if at[i][1] + d < 1:
                d = 1
            at[i][1] += d
        elif kind == "functions moved":
            # one function too many in one part of the sum, none to make up for it
            at[i][1] += 1
            if b % 2 and len(at) > 1:
                j = (i + 1) % len(at)
                at[j][1] += 1
        else:
            if len(at) < 2:
                return
            n = at.pop(i)[1]
            if b % 3:
                at[0][1] += n
        rewrite(w, atoms=[tuple(x) for x in at])
    elif kind == "monomer size":
        w = part % 2
        M = S.coefs(w, "Alpha")
        n = [1, -1, 2, -2][a % 4]
        if M.shape[1] + n < 1:
            n = 1
        M = M[:, :n] if n < 0 else np.hstack([M] + [M[:, :1] * 0 + 0.125 * (i + 1) for i in range(n)])
        sy.put("%s/%s.pun" % (env.dir, names[w]), g.pun_text([("Alpha", M)]))
    elif kind == "monomer spin lengths":
        # the .pun of a monomer belongs to another run: rows missing or too many
        w = part % 2
        C = (S.C1, S.C2)[w]
        M = C["Alpha"]
        C["Alpha"] = M[:-1] if (a % 2 and len(M) > 1) else np.vstack([M, M[:1]])
        sy.put("%s/%s.pun" % (env.dir, names[w]), S.pun(w))
    elif kind == "cp short":
        argv = argv + ["-cp"]
    what = kind + (" with counterpoise" if cp else "")
    e2e.expect_refused(env, argv, "contradiction: " + what)
    note(env, "contradiction")
    note(env, what)
