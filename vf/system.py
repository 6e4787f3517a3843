"""Generated dimer/monomer systems: specification (drawn), data, files and reference."""
import os
import numpy as np
from hypothesis import strategies as st
from . import gauss as g

AXIS = [0.0, 1.3954, -1.3954, 2.7908, -0.7001, 12.3456, -45.6789, 0.0113, 3.5, -3.5, 0.0012]


def pick(rng, options):
    return options[int(rng.integers(len(options)))]


@st.composite
def specs(draw, pops=None, unres=False, perm=True, cp=False, max_atoms=4, max_nf=6, kind=None,
          full_mo=False, max_total=26, big=False, dress=False):
    if big and kind is None and not full_mo and draw(st.integers(0, 399)) == 57:
        return large(draw(st.integers(0, 2 ** 32 - 1)), *draw(st.sampled_from(LARGE)), cp=cp, unres=unres, perm=perm,
                     pops=draw(st.booleans()) if pops is None else pops)
    if big and draw(st.integers(0, 79)) == 0:
        # now and then: many atoms, or many functions (capped by the time a run takes)
        max_atoms, max_nf, max_total = draw(st.sampled_from([(25, 2, 60), (12, 4, 60), (3, 29, 100), (70, 1, 130)]))
    nA = draw(st.integers(1, max_atoms))
    nB = draw(st.integers(1, max_atoms))
    nf = draw(st.lists(st.integers(1, max_nf), min_size=nA + nB, max_size=nA + nB))
    while sum(nf) > max_total:
        i = nf.index(max(nf))
        nf[i] = max(1, nf[i] // 2)
        if max(nf) == 1:
            break
    twin = draw(st.integers(0, 9)) == 0
    if twin:
        # two equal molecules, as in most dimers
        nB = nA
        nf = nf[:nA] * 2
    NA, NB = sum(nf[:nA]), sum(nf[nA:])
    NP = NA + NB
    kind = draw(st.sampled_from(["random", "ortho"])) if kind is None else kind
    n1, n2 = (NP, NP) if cp else (NA, NB)

    def count(n):
        if full_mo or kind == "ortho":
            return n
        return n if draw(st.booleans()) else draw(st.integers(1, n))

    m1, m2, mP = count(n1), count(n2), count(NP)
    if twin:
        m2 = m1
    spins = 2 if unres else 1
    occ = [[draw(st.integers(1, m)) for m in (m1, m2, mP)] for _ in range(spins)]
    if twin:
        for o in occ:
            o[1] = o[0]
    s = {"nA": nA, "nf": nf, "mo": [m1, m2, mP], "occ": occ, "kind": kind, "cp": cp,
         "unres": unres, "seed": draw(st.integers(0, 2 ** 32 - 1)),
         "pops": draw(st.booleans()) if pops is None else pops, "twin": twin}
    n = nA + nB
    s["perm"] = list(draw(st.permutations(range(n)))) if perm else list(range(n))
    if cp:
        # counterpoise: every file lists all atoms, each in its own order
        s["perm1"] = list(draw(st.permutations(range(n)))) if perm else list(range(n))
        s["perm2"] = list(draw(st.permutations(range(n)))) if perm else list(range(n))
    s["fmtline"] = draw(st.booleans())
    s["ncols"] = draw(st.sampled_from([1, 1, 4])) if unres else 1
    s["monoS"] = draw(st.booleans())
    # longer .log files: earlier tables, other output, sections in any order
    s["dress"] = draw(st.one_of(st.just(0), st.just(0), st.integers(1, 2 ** 32 - 1))) if dress else 0
    return s


# atoms of the monomers, functions per atom at most
LARGE = [(60, 50, 3), (7, 6, 25), (130, 3, 1), (2, 128, 1), (64, 64, 2), (30, 1, 9)]


def large(seed, nA, nB, nf, cp=False, unres=False, perm=True, pops=True):
    """The spec of a dimer of many atoms or functions; a smaller number of orbitals keeps it affordable."""
    rng = np.random.default_rng(seed)
    n = nA + nB
    fs = [int(x) for x in rng.integers(max(1, nf - 2), nf + 1, size=n)]
    NA, NP = sum(fs[:nA]), sum(fs)
    mo = [NP if cp else NA, NP if cp else NP - NA, NP]
    order = lambda: [int(x) for x in rng.permutation(n)] if perm else list(range(n))
    s = {"nA": nA, "nf": fs, "mo": [min(m, k) for m, k in zip(mo, (70, 60, 120))], "kind": "random", "cp": cp, "unres": unres,
         "seed": seed, "pops": pops, "twin": False, "perm": order(), "fmtline": True, "ncols": 4 if unres else 1,
         "monoS": False, "dress": 0}
    s["occ"] = [[int(rng.integers(1, m + 1)) for m in s["mo"]] for _ in range(1 + unres)]
    if cp:
        s["perm1"], s["perm2"] = order(), order()
    return s


def _sqrtinv(S):
    w, v = np.linalg.eigh(S)
    return v @ np.diag(1 / np.sqrt(w)) @ v.T


def _orth(rng, n):
    q, r = np.linalg.qr(rng.standard_normal((n, n)))
    return q * np.sign(np.diag(r))


def _near(rng, NA, NP, eps):
    """An orthogonal matrix whose two blocks mix by about eps."""
    q = np.zeros((NP, NP))
    q[:NA, :NA] = _orth(rng, NA)
    q[NA:, NA:] = _orth(rng, NP - NA)
    a = np.zeros((NP, NP))
    a[:NA, NA:] = eps * rng.standard_normal((NA, NP - NA))
    a -= a.T
    # Cayley transform
    one = np.eye(NP)
    r = np.linalg.solve(one + a, one - a) @ q
    return r if eps else q


class Sys:
    """All data of a spec.  Canonical order: monomer A's atoms, then monomer B's."""

    def __init__(self, s):
        self.s = s
        rng = np.random.default_rng(s["seed"])
        nf, nA = s["nf"], s["nA"]
        n = len(nf)
        off = np.concatenate([[0], np.cumsum(nf)])
        NA, NP = int(off[nA]), int(off[-1])
        self.NA, self.NB, self.NP, self.n = NA, NP - NA, NP, n
        m1, m2, mP = s["mo"]
        cp = s["cp"]
        # overlap: unit diagonal, positive definite
        w = rng.standard_normal((NP, NP + 2))
        w = w @ w.T
        d = np.sqrt(np.diag(w))
        S = 0.55 * w / np.outer(d, d)
        np.fill_diagonal(S, 1.0)
        if s["kind"] == "random" and rng.random() < 0.3:
            mask = rng.random((NP, NP)) < 0.5
            mask = np.triu(mask, 1)
            S[mask | mask.T] = 0.0
        if s["kind"] == "random" and rng.random() < 0.2:
            S = S * 10.0 ** rng.integers(-2, 3, size=(NP, NP))
            S = np.triu(S) + np.triu(S, 1).T
        # weak coupling: molecules far from each other, down to none at all
        weak = 0.0 if rng.random() < 0.15 else 10.0 ** rng.uniform(-9, -0.5)
        weak = weak if rng.random() < 0.3 and NA < NP else None
        if weak is not None:
            S[:NA, NA:] *= weak
            S[NA:, :NA] *= weak
        # two orbitals that are nearly the same
        strong = s["kind"] == "ortho" and not cp and NA < NP and rng.random() < 0.15
        if strong:
            S = np.eye(NP)
            i, j = int(rng.integers(0, NA)), int(rng.integers(NA, NP))
            S[i, j] = S[j, i] = (1 - 10.0 ** rng.uniform(-6, -0.5)) * rng.choice([1, -1])
        S = g_round(S, 6) + 0.0
        self.S = S
        self.spins = ["Alpha", "Beta"] if s["unres"] else ["Alpha"]
        self.C1, self.C2, self.CP, self.E, self.occ = {}, {}, {}, {}, {}
        n1, n2 = (NP, NP) if cp else (NA, NP - NA)
        for k, sp in enumerate(self.spins):
            if s["kind"] == "ortho":
                CP = _orth(rng, NP) if weak is None else _near(rng, NA, NP, weak)
                CP = CP @ _sqrtinv(S)
                S1 = S if cp else S[:NA, :NA]
                S2 = S if cp else S[NA:, NA:]
                C1 = (_orth(rng, n1) if weak is None or not cp else _near(rng, NA, NP, weak)) @ _sqrtinv(S1)
                C2 = (_orth(rng, n2) if weak is None or not cp else _near(rng, NA, NP, weak)[::-1]) @ _sqrtinv(S2)
            else:
                def coef(m, nn):
                    a = rng.standard_normal((m, nn)) * 10.0 ** rng.uniform(-4, 0.5, size=(m, nn))
                    a[rng.random((m, nn)) < 0.1] = 0.0
                    return a
                CP, C1, C2 = coef(mP, NP), coef(m1, n1), coef(m2, n2)
            if strong:
                C1, C2 = np.eye(NA)[rng.permutation(NA)], np.eye(NP - NA)[rng.permutation(NP - NA)]
            if s.get("twin"):
                C2 = C1
            self.CP[sp] = g_round(CP, 8)
            self.C1[sp] = g_round(C1, 8)
            self.C2[sp] = g_round(C2, 8)
            self.E[sp] = []
            for m in (m1, m2, mP):
                e = np.sort(rng.uniform(-12, 3, size=m))
                if rng.random() < 0.4:
                    q = int(rng.integers(0, m + 1))
                    e[:q] -= rng.choice([90, 100, 250])
                if m > 1 and rng.random() < 0.25:
                    # degenerate levels, also between occupied and virtual ones, and zero
                    for q in rng.integers(1, m, size=int(rng.integers(1, 4))):
                        e[q] = e[q - 1]
                    if rng.random() < 0.3:
                        e[rng.integers(0, m)] = 0.0
                self.E[sp].append(np.array(g.f5(e)))
            self.occ[sp] = s["occ"][k]
        # coordinates in units of 1e-4, from an origin anywhere between two of them, plus a per-file jitter of a fifth
        seen, xyz = set(), []
        while len(xyz) < n:
            t = tuple(int(round(AXIS[i] * 10000)) for i in rng.integers(0, len(AXIS), size=3))
            if t not in seen:
                seen.add(t)
                xyz.append(t)
        self.grid = np.array(xyz)
        self.jit = [rng.integers(-20, 21, size=(n, 3)) for _ in range(3)]
        self.els = [g.ELEMS[int(i)] for i in rng.integers(0, len(g.ELEMS), size=n)]
        self.off = off
        self.origin = np.array(pick(rng, [[0] * 3, [50] * 3, rng.integers(-50, 51, size=3), [150000000, -99950050, 0]]))

    # -- order helpers ---------------------------------------------------------
    def funcs(self, atoms):
        return [f for a in atoms for f in range(self.off[a], self.off[a + 1])]

    def order(self, which):
        """Atoms listed by file 0 (monomer 1), 1 (monomer 2) or 2 (dimer)."""
        s = self.s
        if which == 2:
            return s["perm"]
        if s["cp"]:
            return s["perm1"] if which == 0 else s["perm2"]
        return list(range(s["nA"])) if which == 0 else list(range(s["nA"], self.n))

    def coefs(self, which, sp):
        """Coefficient matrix as printed in the file (columns in the file's order)."""
        M = (self.C1, self.C2, self.CP)[which][sp]
        if which == 2 or self.s["cp"]:
            return M[:, self.funcs(self.order(which))]
        return M

    def coords(self, which):
        a = self.order(which)
        return ((self.grid[a] * 100 + self.origin + self.jit[which][a]) / 1e6).tolist()

    # -- text ------------------------------------------------------------------
    def pun(self, which):
        return g.pun_text([(sp, self.coefs(which, sp)) for sp in self.spins], self.s["fmtline"])

    def log_parts(self, which, pops=None):
        s = self.s
        a = self.order(which)
        parts = [g.coord_lines(self.coords(which))]
        if which == 2:
            f = self.funcs(a)
            parts.append(g.overlap_lines(self.S[np.ix_(f, f)]))
        elif s.get("monoS"):
            f = self.funcs(a)
            parts.append(g.overlap_lines(self.S[np.ix_(f, f)]))
        for sp in self.spins:
            e, o = self.E[sp][which], self.occ[sp][which]
            parts.append(g.oe_lines(sp, e[:o], e[o:]))
        if s["pops"] if pops is None else pops:
            atoms = [(self.els[i], s["nf"][i], g.LABELS) for i in a]
            parts.append(g.population_lines(atoms, s.get("ncols", 1)))
        return parts

    def log(self, which, **kw):
        p = self.log_parts(which, **kw)
        if not self.s.get("dress"):
            return g.log_text(p)
        rng = np.random.default_rng((self.s["dress"], which))
        ov = [q for q in p if q[0].startswith(" *** Overlap")]
        po = [q for q in p if "Gross orbital" in q[0]]
        en = [l for q in p if "eigenvalues" in q[0] for l in q]
        return g.dressed(rng, self.coords(which), ov[0] if ov else None, en, po[0] if po else None, len(self.spins), self.els)

    def write(self, d, names=("1", "2", "P")):
        for w, nm in enumerate(names):
            put(os.path.join(d, nm + ".log"), self.log(w))
            put(os.path.join(d, nm + ".pun"), self.pun(w))

    def argv(self, names=("1", "2", "P")):
        a = ["-p_1", names[0] + ".pun", "-p_2", names[1] + ".pun", "-p_P", names[2] + ".pun"]
        if self.s["cp"]:
            a = a + ["-cp"]
        return a

    # -- reference -------------------------------------------------------------
    def ref(self, i1, i2, spP="Alpha", sp1="Alpha", sp2="Alpha", as_printed=False):
        """Expected result for orbital rows i1, i2 (0-based) of the monomers.

        as_printed: no reordering information available, orders taken as given."""
        if as_printed:
            f = self.funcs(self.order(2))
            return g.reference(self.coefs(0, sp1)[i1], self.coefs(1, sp2)[i2], self.CP[spP][:, f],
                               self.S[np.ix_(f, f)], self.E[spP][2], self.s["cp"])
        return g.reference(self.C1[sp1][i1], self.C2[sp2][i2], self.CP[spP], self.S,
                           self.E[spP][2], self.s["cp"])


def g_round(a, dec):
    return np.char.mod("%%.%de" % (dec - 1), np.asarray(a, float)).astype(float)


def put(path, text):
    with open(path, "w", encoding="utf-8") as f:
        f.write(text)


def orb_args(which, k, occ, mo):
    """Arguments that select MO row k (0-based) of monomer `which` (1 or 2)."""
    if k < occ:
        n = k - (occ - 1)
        a = []
        if n:
            a += ["-orb_num_%d" % which, str(n)]
        return ["-orb_ty_%d" % which, "HOMO"] + a
    return ["-orb_ty_%d" % which, "LUMO", "-orb_num_%d" % which, str(k - occ)]
