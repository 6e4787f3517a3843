"""Synthetic Gaussian outputs (.log / fort.7) and an independent reference for calc_J.

All text is produced here from numbers already rounded to the printed precision, so
the reference works on exactly what the files say.
"""
import math
import numpy as np

HARTREE = 27.2114

ELEMS = ["H", "C", "N", "O", "S", "Si", "Se", "Cl", "Br", "F"]
LABELS = ["1S", "2S", "2PX", "2PY", "2PZ", "3S", "3PX", "3PY", "3PZ", "4XX", "4YY", "4ZZ",
          "4XY", "4XZ", "4YZ", "5D 0", "5D+1", "5D-1", "5D+2", "5D-2", "6S", "7PX", "7PY",
          "7PZ", "8D 0", "8D+1", "8D-1", "8D+2", "8D-2"]


# ---- Fortran number formats --------------------------------------------------
def dfmt(x, width, dec):
    """Fortran Dw.d with the 0.ddd mantissa; drops the D for 3-digit exponents."""
    if x == 0:
        m, e, neg = 0, 0, math.copysign(1, x) < 0
    else:
        neg = x < 0
        s = "%.*e" % (dec - 1, abs(x))
        mant, ex = s.split("e")
        m = int(mant.replace(".", ""))
        e = int(ex) + 1
    digits = "%0*d" % (dec, m)
    es = "%+03d" % e
    t = ("-" if neg else "") + "0." + digits + (("D" + es) if abs(e) < 100 else "%+04d" % e)
    return t.rjust(width)


def dval(t):
    """Value of a token written by dfmt."""
    t = t.strip()
    if "D" in t:
        return float(t.replace("D", "E"))
    i = max(t.rfind("+"), t.rfind("-"))
    return float(t[:i] + "E" + t[i:])


def dround(x, dec):
    return dval(dfmt(x, 0, dec))


def d8(a):
    return np.vectorize(lambda x: dround(float(x), 8), otypes=[float])(np.asarray(a, dtype=float))


def d6(a):
    return np.vectorize(lambda x: dround(float(x), 6), otypes=[float])(np.asarray(a, dtype=float))


def f5(a):
    return [round(float(x), 5) + 0.0 for x in a]


# ---- writers -----------------------------------------------------------------
def pun_text(spins, fmtline=True, oe=None, trailing=True):
    """spins: list of (name, matrix); in fort.7 order (Alpha then Beta)."""
    out = []
    if fmtline:
        out.append("(5D15.8)")
    for name, C in spins:
        for i, row in enumerate(C):
            e = -10.0 + 0.1 * i if oe is None else oe[i]
            out.append("%5d %s MO OE=%s" % (i + 1, name, dfmt(e, 15, 8)))
            for k in range(0, len(row), 5):
                out.append("".join(dfmt(float(v), 15, 8) for v in row[k:k + 5]))
    return "\n".join(out) + ("\n" if trailing else "")


def overlap_lines(S):
    n = len(S)
    out = [" *** Overlap *** "]
    for b in range(0, n, 5):
        cols = range(b, min(b + 5, n))
        out.append(" " * 7 + "".join("%14d" % (c + 1) for c in cols))
        for r in range(b, n):
            out.append("%7d" % (r + 1) + "".join(
                dfmt(float(S[r][c]), 14, 6) for c in cols if c <= r))
    out.append(" *** Kinetic Energy *** ")
    return out


def oe_lines(spin, occ, virt):
    out = []
    pre = "  Beta  occ. eigenvalues -- " if spin == "Beta" else " Alpha  occ. eigenvalues -- "
    prv = "  Beta virt. eigenvalues -- " if spin == "Beta" else " Alpha virt. eigenvalues -- "
    for p, v in ((pre, occ), (prv, virt)):
        for k in range(0, len(v), 5):
            out.append(p + "".join("%10.5f" % x for x in v[k:k + 5]))
    return out


def coord_lines(xyz, z=None, variant=0, title="Standard orientation:", typ=None):
    out = ["                         %s                         " % title,
           " " + "-" * 69,
           " Center     Atomic      Atomic             Coordinates (Angstroms)" if variant == 0 else
           " Center     Atomic     Atomic              Coordinates (Angstroms)",
           " Number     Number       Type             X           Y           Z",
           " " + "-" * 69]
    for i, (x, y, zz) in enumerate(xyz):
        out.append(" %6d %10d %11d     %11.6f %11.6f %11.6f" % (
            i + 1, 6 if z is None else z[i], 0 if typ is None else typ[i], x, y, zz))
    out.append(" " + "-" * 69)
    return out


def population_lines(atoms, ncols=1, values=None, start=1):
    """atoms: list of (element, number of functions, [labels])."""
    out = ["     Gross orbital populations:",
           " " * 20 + "".join("%10s" % c for c in (["Total", "Alpha", "Beta", "Spin"][:ncols] if ncols > 1 else ["1"]))]
    ao = start
    k = 0
    for a, (el, nf, labels) in enumerate(atoms):
        for j in range(nf):
            vals = "".join("%10.5f" % ((0.5 + 0.01 * k) if values is None else values[k % len(values)])
                           for _ in range(ncols))
            k += 1
            if j == 0:
                out.append("%4d %-4d%-2s %-7s%s" % (ao, a + 1, el, labels[j], vals))
            else:
                out.append("%4d        %-7s%s" % (ao, labels[j], vals))
            ao += 1
    out.append("          Condensed to atoms (all electrons):")
    out.append("               1          2")
    return out


NOISE = [
    " Entering Gaussian System, Link 0=g09",
    " Leave Link  301 at Mon Jan  1 00:00:00 2018, MaxMem=  8589934592 cpu:       0.5",
    " SCF Done:  E(RB3LYP) =  -154.123456789     A.U. after   12 cycles",
    " Two-electron integral symmetry is turned off.",
    "",
    " ****************************************",
    " Rotational constants (GHZ):      5.7021     0.0000     0.0000",
    " The electronic state is 1-A.",
    " Alpha occ. eigenvalues follow",
    " orbital populations",
    "  *** Potential Energy ***",
]


def log_text(parts, noise=None):
    """parts: list of line lists, joined with noise lines in between."""
    out = []
    for i, p in enumerate(parts):
        if noise:
            for j in noise[i % len(noise)]:
                out.append(NOISE[j % len(NOISE)])
        out += p
    out.append(" Normal termination of Gaussian 09 at Mon Jan  1 00:00:00 2018.")
    return "\n".join(out) + "\n"


# ---- what else a .log file of Gaussian holds --------------------------------------
OUTPUT = NOISE + [
    "\tNote: a line with\ttabs", " %chk=/scratch/run 1/a.chk", " #p b3lyp/6-31g(d) nosymm pop=full iop(3/33=1,3/36=-1) punch=mo",
    " Charge =  0 Multiplicity = 1", " AtmWgt=  12.0000000   1.0078250", "                          Input orientation:",
    "                    Distance matrix (angstroms):", "                    1          2          3",
    "     1  C    0.000000", " Stoichiometry    C2H4", "    5D functions are used: 5D 0", " Mulliken charges:",
    "     1  C   -0.100000", " Electronic spatial extent (au):  <R**2>=   81.9", " Alpha  virt. orbitals follow", " Virt. 3 Occ. 4",
    " Orbital symmetries:", "       Occupied  (A) (A) (A)", "       Virtual   (A) (A)", " Standard basis: 6-31G(d) (6D, 7F)",
    " 6-31G(d) 5 basis functions, 10 primitive gaussians", " Item               Value     Threshold  Converged?",
    "\xc3\xa9t\xc3\xa9".encode("latin-1").decode("utf8"), " Dipole moment (field-independent basis, Debye):", "          Mulliken charges and spin densities:",
    " " + "-" * 69, " Center     Atomic                   Forces (Hartrees/Bohr)", " Number     Number              X              Y              Z",
    "      1          6           0.000000001    0.000000002    0.000000003", " *** Kinetic Energy *** ", " *** Core Hamiltonian *** ",
    "                1             2", "      1  0.100000D+01", "      2  0.200000D+00  0.100000D+01"]
# whole tables of Gaussian that catnip does not read
BLOCKS = [x.strip("\n").split("\n") for x in (
"""
 Center     Atomic                   Forces (Hartrees/Bohr)
 Number     Number              X              Y              Z
 -------------------------------------------------------------------
      1        6           0.000000000   -0.002512345    0.001234567
      2        1           0.012345678    0.002512345   -0.001234567
 -------------------------------------------------------------------
 Cartesian Forces:  Max     0.012345678 RMS     0.004567890
""", """
     Molecular Orbital Coefficients:
                           1         2         3         4         5
                           O         O         V         V         V
     Eigenvalues --   -10.18912 -10.18834  -0.74517   0.12345   0.98765
   1 1   C  1S          0.70179   0.70151  -0.14851   0.10233   0.00000
   2        2S          0.03504   0.03478   0.29867  -0.20944   0.00000
   3        2PX         0.00000   0.00000   0.00000   0.00000   0.24781
   4 2   H  1S          0.00019   0.00013   0.11013   0.01234  -0.19876
""", """
     Alpha Molecular Orbital Coefficients:
                           1         2
                           O         V
     Eigenvalues --   -10.18912   0.18834
   1 1   C  1S          0.70179   0.70151
     Beta Molecular Orbital Coefficients:
                           1         2
                           V         V
     Eigenvalues --    10.18912   0.18834
   1 1   C  1S          0.70179   0.70151
""", """
     Density Matrix:
                           1         2         3
   1 1   C  1S          2.06148
   2        2S         -0.12345   0.34567
   3 2   H  1S          0.00000   0.01234   0.56789
    Full Mulliken population analysis:
                           1         2         3
   1 1   C  1S          2.06148
   2        2S         -0.02345   0.34567
   3 2   H  1S          0.00000   0.01234   0.56789
""", """
 *** Kinetic Energy ***
                1             2
      1  0.161085D+02
      2 -0.143300D+00  0.237000D+00
 ****** Core Hamiltonian ******
                1             2
      1 -0.203385D+02
      2 -0.435000D+01 -0.571000D+01
 *** Potential Energy ***
                1             2
      1  0.364470D+02
      2  0.420700D+01  0.595000D+01
""", """
 Mulliken charges and spin densities:
               1          2
     1  C   -0.100000   1.000000
     2  H    0.100000   0.000000
 Sum of Mulliken charges =   0.00000
 Mulliken charges with hydrogens summed into heavy atoms:
               1
     1  C    0.000000
""", """
                       Isotropic Fermi Contact Couplings
        Atom                 a.u.       MegaHertz       Gauss      10(-4) cm-1
     1  C(13)              0.12345     138.78000      49.52000      46.29000
 --------------------------------------------------------
       Center         ----  Spin Dipole Couplings  ----
                      3XX-RR        3YY-RR        3ZZ-RR
 --------------------------------------------------------
     1   Atom       -0.123456     -0.123456      0.246912
 --------------------------------------------------------
""", """
 Symbolic Z-matrix:
 Charge =  0 Multiplicity = 1
 C                     0.        0.        0.66
 H(Iso=2)              0.92     -0.5       1.24
 C-Bq                  0.        0.       -0.66
""", """
 Orbital energies and kinetic energies (alpha):
                                 1                 2
   1         O                -10.188341         15.880110
   2         V                  0.123412          1.234567
 Total kinetic energy from orbitals= 1.523712345678D+02
""", """
 1\\1\\GINC-NODE1\\SP\\RB3LYP\\6-31G(d)\\C2H4\\USER\\01-Jan-2018\\0\\\\#p b3lyp/6-
 31g(d) nosymm pop=full\\\\title\\\\0,1\\C,0,0.,0.,0.66\\H,0,0.92,0.,1.24\\\\Vers
 ion=ES64L-G09RevD.01\\State=1-A\\HF=-78.5\\RMSD=1.0e-09\\Dipole=0.,0.,0.\\@
""", """
                    Distance matrix (angstroms):
                    1          2          3
     1  C    0.000000
     2  C    1.330000   0.000000
     3  H    1.100000   2.100000   0.000000
""")]
LONG = " Warning: " + "x" * 70000


def noise_lines(rng, most=4):
    out = [OUTPUT[int(i)] for i in rng.integers(0, len(OUTPUT), size=int(rng.integers(0, most + 1)))]
    while rng.random() < 0.3:
        out += BLOCKS[int(rng.integers(0, len(BLOCKS)))]
    if rng.random() < 0.01:
        out.append(LONG)
    return out


def dressed(rng, coords, overlap, energies, pops, nsp, els):
    """The text of a longer .log file: the sections in any order, earlier tables with other contents
    before them, other output around them.  coords: (xyz,); pops and overlap: lines or None."""
    def table(xyz):
        n = len(xyz)
        return coord_lines(xyz, [int(x) for x in rng.integers(0, 119, size=n)], int(rng.integers(0, 2)),
                           ["Standard orientation:", "Input orientation:", "Z-Matrix orientation:"][int(rng.integers(0, 3))],
                           [int(x) for x in rng.choice([0, 0, 1000, 20001003], size=n)])
    n = len(coords)
    out = noise_lines(rng)
    for _ in range(int(rng.integers(0, 3))):
        # an earlier step
        k = int(rng.integers(0, 4))
        if k == 0:
            m = n if rng.random() < 0.7 else int(rng.integers(1, 6))
            xyz = (rng.integers(-90000, 90000, size=(m, 3)) / 1e4).tolist()
            if m == n and rng.random() < 0.5:
                xyz = [coords[int(i)] for i in rng.permutation(n)]
            out += table(xyz)
        elif k == 1:
            for sp in ("Alpha", "Beta")[:nsp]:
                out += oe_lines(sp, rng.integers(-9999999, 0, size=int(rng.integers(1, 9))) / 1e5,
                                rng.integers(0, 99999, size=int(rng.integers(0, 9))) / 1e5)
            out.append("          Condensed to atoms (all electrons):")
        elif k == 2 and pops:
            atoms = [(els[int(rng.integers(0, len(els)))], int(rng.integers(1, 7)), LABELS) for _ in range(int(rng.integers(1, n + 2)))]
            out += population_lines(atoms, int(rng.choice([1, 4])))
        out += noise_lines(rng)
    secs = [table(coords), energies + ["          Condensed to atoms (all electrons):"]] + ([overlap] if overlap else []) + (
        [pops] if pops else [])
    for i in rng.permutation(len(secs)):
        out += secs[int(i)] + noise_lines(rng)
    return "\n".join(out) + "\n"


# ---- reference ---------------------------------------------------------------
def reference(c1, c2, CP, S, E, cp=False):
    """Dimer-projection transfer integral; returns dict of values and error scales."""
    CP = np.asarray(CP, float)
    S = np.asarray(S, float)
    E = np.asarray(E, float)
    c1 = np.asarray(c1, float)
    c2 = np.asarray(c2, float)
    if not cp:
        zA = np.concatenate([c1, np.zeros(len(c2))])
        zB = np.concatenate([np.zeros(len(c1)), c2])
    else:
        zA, zB = c1, c2
    T = S @ CP.T
    gA, gB = zA @ T, zB @ T
    aT = np.abs(S) @ np.abs(CP).T
    aA, aB = np.abs(zA) @ aT, np.abs(zB) @ aT
    aE = np.abs(E)
    J, ea, eb, s = gB @ (E * gA), gA @ (E * gA), gB @ (E * gB), gB @ gA
    kJ, ka, kb, ks = aB @ (aE * aA), aA @ (aE * aA), aB @ (aE * aB), aB @ aA
    den = 1 - s * s
    with np.errstate(invalid="ignore", divide="ignore"):
        Je = (J - 0.5 * (ea + eb) * s) / den
    r = 1e-13
    dden = 2 * abs(s) * ks * r
    kJe = (kJ + 0.5 * (ka + kb) * abs(s) + 0.5 * abs(ea + eb) * ks)
    dJe = (r * kJe + abs(Je) * dden) / max(abs(den), 1e-300)
    return {"J_ab": J * HARTREE, "e_a": ea * HARTREE, "e_b": eb * HARTREE, "S_ab": s,
            "J_eff": Je * HARTREE, "den": den, "sharp": bool(abs(den) > 1e3 * dden and abs(den) > 1e-10),
            "tol": {"J_ab": r * kJ * HARTREE, "e_a": r * ka * HARTREE, "e_b": r * kb * HARTREE,
                    "S_ab": r * ks, "J_eff": dJe * HARTREE}}


KEYS = ("J_ab", "e_a", "e_b", "S_ab", "J_eff")


def parse_out(out):
    """The five result lines of a calc_J run (None where absent)."""
    d = {}
    for l in out.splitlines():
        t = l.split()
        if len(t) >= 2 and t[0] in KEYS:
            try:
                d[t[0]] = float(t[1])
            except ValueError:
                d[t[0]] = None
    return d


def close(got, ref, tol, rel=6e-6):
    if got is None or not math.isfinite(got):
        return False
    return abs(got - ref) <= rel * abs(ref) + tol + 1e-300


def compare(got, ref, rel=6e-6, extra=0.0, keys=KEYS):
    """List of mismatch descriptions (empty when all printed values are right)."""
    bad = []
    for k in keys:
        if k not in got:
            bad.append("%s missing from the output" % k)
        elif k == "J_eff" and not ref.get("sharp", True):
            # the two orbitals are one: any number, or none, is right
            continue
        elif not close(got[k], ref[k], ref["tol"][k] * 10 + extra, rel):
            bad.append("%s: printed %r, expected %.12g" % (k, got[k], ref[k]))
    return bad
