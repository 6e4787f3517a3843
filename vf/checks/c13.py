"""Damaged input files: no memory error, no undefined behaviour, no hang."""
import os
from hypothesis import strategies as st
from .. import fuzz, gauss as g, system as sy
from ..engine import Violation, note
from . import e2e

DRIVERS = ["calcj"]
N = {"quick": 18000, "thorough": 250000}
RULE = ("A case is a system whose files get 1-6 mutations (lines dropped, doubled, exchanged, cut, moved between files; "
        "characters replaced; numbers replaced by other tokens; headers of sections inserted; bytes inserted; ranges "
        "deleted; whole files replaced by bytes), run through calc_J under address and undefined-behaviour "
        "sanitizers. It must end by itself without a report. Non-trivial: at least one file differs from the intact one "
        "in more than white space.")
RULE += (" Enumerated cases: inputs of a coverage-guided search (libFuzzer on calc_J's main with one damaged file) that "
         "reached code or values no earlier one reached, run again one by one.")
FUZZ = {"quick": 1500, "thorough": 150000}
ASSUMPTIONS = ["a hang is more than 5 s of CPU time for files of a few kB"]
TOKENS = ["*****", "nan", "inf", "-inf", "1e999", "D", "D+", "-", "+", ".", "0.1D", "D-01", "1D+999", "0.5D-400", "--",
          "abc", "", "9" * 30, "-1", "0", "2147483648", "-2147483649", "1.0.0", "0x10", "1e5", "%", "1 2", "0.1-0.2",
          "0.12345678D+000", "1234567890.12345678D-01", "C", "Alpha", "Beta", "5D 0", "\t", "\x00", "\xff"]
LINES = ["", " ", "     Gross orbital populations:", " *** Overlap ***", " *** Overlap *** ", " Alpha  occ. eigenvalues --",
         "  Beta  occ. eigenvalues --", " Alpha  occ. eigenvalues --   -1.0   -0.5", "  Beta virt. eigenvalues --    0.5",
         "  Beta  occ. eigenvalues --   -0.70000",
         "Center     Atomic      Atomic", "Center     Atomic     Atomic", "-" * 69, "         Condensed to atoms",
         "    1 Alpha MO OE=-0.1D+01", "    1 Beta MO OE=-0.1D+01", "    2 Alpha MO OE=", " 1 Alpha MO ", " 1 Beta MO ",
         " MO OE", "(5D15.8)", " 0.10000000D+01 0.10000000D+01", "      1", "   1 1   C  1S          0.5",
         "   1", "      1  0.100000D+01", "         1         C         0.5", "abc", "x" * 20, "1 2 3 4 5 6 7 8 9 10"]
FILES = ["1.log", "2.log", "P.log", "1.pun", "2.pun", "P.pun"]


@st.composite
def mutation(draw):
    f = draw(st.sampled_from(FILES + ["P.log", "P.pun"]))
    o = draw(st.sampled_from(["drop", "dup", "swap", "cutline", "char", "token", "token", "line", "line", "bytes", "del",
                              "cut", "move", "merge", "pad", "indent", "block"] + (["garbage"] if draw(st.integers(0, 9)) == 0 else [])))
    a, b = draw(st.integers(0, 4000)), draw(st.integers(0, 4000))
    m = [f, o, a, b]
    if o == "char":
        m.append(draw(st.sampled_from(list("0123456789.-+ DEAlphBetCx*()\n\t") + ["\x00", "\xff", "\r"])))
    elif o == "token":
        m.append(draw(st.sampled_from(TOKENS)))
    elif o == "line":
        m.append(draw(st.sampled_from(LINES)))
    elif o in ("bytes", "garbage"):
        m.append(draw(st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=40)))
    elif o == "move":
        m.append(draw(st.sampled_from(FILES)))
    return m


@st.composite
def strategy_(draw):
    s = draw(sy.specs(unres=draw(st.integers(0, 3)) == 0, cp=draw(st.integers(0, 5)) == 0, max_total=14, max_atoms=3))
    k = draw(st.integers(0, 5))
    return {"sys": s, "mut": draw(st.lists(mutation(), min_size=1, max_size=6)),
            "spins": [draw(st.sampled_from(["Alpha", "Beta"])) if s["unres"] else "Alpha" for _ in range(3)],
            "orb": [draw(st.sampled_from(["HOMO", "LUMO"])) for _ in range(2)]}


def fixed(tier):
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    kept, failed = fuzz.search(seed, FUZZ[tier], seconds=60 if tier == "quick" else 900)
    return [{"raw": b.hex()} for b in failed + kept]


def minimise(case, fails):
    """Drop lines, then characters, of a damaged file as long as it still fails."""
    if "raw" not in case:
        return case
    b = bytes.fromhex(case["raw"])
    sel, text = b[:1], b[1:]
    for sep in (b"\n", b""):
        parts = text.split(sep) if sep else [text[i:i + 1] for i in range(len(text))]
        k = max(1, len(parts) // 2)
        while k:
            i = 0
            while i < len(parts):
                q = parts[:i] + parts[i + k:]
                if fails({"raw": (sel + sep.join(q)).hex()}):
                    parts = q
                else:
                    i += k
            k //= 2
        text = sep.join(parts)
    return {"raw": (sel + text).hex()}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "damaged" in notes


def mutate(T, m):
    f, o, a, b = m[:4]
    t = T[f]
    L = t.split("\n")
    i, j = a % len(L), b % len(L)
    if o == "drop":
        del L[i]
    elif o == "dup":
        L.insert(i, L[i])
    elif o == "swap":
        L[i], L[j] = L[j], L[i]
    elif o == "cutline":
        L[i] = L[i][:b % (len(L[i]) + 1)]
    elif o == "char" and t:
        p = (a * 4001 + b) % len(t)
        T[f] = t[:p] + m[4] + t[p + 1:]
        return
    elif o == "token":
        ws = [k for k, x in enumerate(L) if x.split()]
        if ws:
            k = ws[a % len(ws)]
            w = L[k].split(" ")
            q = [x for x in range(len(w)) if w[x]]
            if q:
                w[q[b % len(q)]] = m[4]
                L[k] = " ".join(w)
    elif o == "line":
        L.insert(i, m[4])
    elif o == "bytes":
        p = (a * 4001 + b) % (len(t) + 1)
        T[f] = t[:p] + m[4] + t[p:]
        return
    elif o == "del":
        p = (a * 4001 + b) % (len(t) + 1)
        T[f] = t[:p] + t[p + 1 + b % 300:]
        return
    elif o == "cut":
        T[f] = t[:(a * 4001 + b) % (len(t) + 1)]
        return
    elif o == "move":
        S = T[m[4]].split("\n")
        L[i:i] = S[b % len(S):b % len(S) + 1 + a % 12]
    elif o == "merge" and i + 1 < len(L):
        L[i:i + 2] = [L[i] + L[i + 1]]
    elif o == "pad":
        L[i] += "   "
    elif o == "indent":
        L[i] = L[i][1:] if b % 2 else " " + L[i]
    elif o == "block":
        n = 1 + b % 15
        L[i:i] = L[j:j + n]
    elif o == "garbage":
        T[f] = m[4]
        return
    T[f] = "\n".join(L)


def check_raw(case, env):
    b = bytes.fromhex(case["raw"])
    sel = b[0]
    T = fuzz.intact(sel // 6 % 2)
    damaged = fuzz.FILES[sel % 6]
    for f, t in T.items():
        sy.put(os.path.join(env.dir, f), t)
    with open(os.path.join(env.dir, damaged), "wb") as h:
        h.write(b[1:])
    argv = fuzz.options(sel)
    r = env.calcj(argv)
    if r.crashed():
        raise Violation("memory error, undefined behaviour or hang %s\n%s\n%s:\n%r" % (argv, r.brief(), damaged, b[1:3000]))
    if not r.ok() and not r.refused():
        raise Violation("strange end %s\n%s" % (argv, r.brief()))
    if b[1:].split() != T[damaged].encode().split():
        note(env, "damaged")
    note(env, "coverage-guided " + damaged)
    note(env, "refused" if r.refused() else "result")


def check(case, env):
    if "raw" in case:
        return check_raw(case, env)
    S = sy.Sys(case["sys"])
    S.write(env.dir)
    T = {f: open(os.path.join(env.dir, f), encoding="latin-1").read() for f in FILES}
    O = dict(T)
    for m in case["mut"]:
        mutate(T, m)
    for f in FILES:
        if T[f] != O[f]:
            with open(os.path.join(env.dir, f), "w", encoding="latin-1", newline="") as h:
                h.write(T[f])
    argv = S.argv() + ["-orb_ty_1", case["orb"][0], "-orb_ty_2", case["orb"][1]]
    if S.s["unres"]:
        argv += ["-s_1", case["spins"][0], "-s_2", case["spins"][1], "-s_P", case["spins"][2]]
    r = env.calcj(argv)
    if r.crashed():
        diff = "\n".join("%s:\n%s" % (f, T[f]) for f in FILES if T[f] != O[f])
        raise Violation("memory error, undefined behaviour or hang %s\n%s\n%s" % (argv, r.brief(), diff[:6000]))
    if not r.ok() and not r.refused():
        raise Violation("strange end %s\n%s" % (argv, r.brief()))
    if any(T[f].split() != O[f].split() for f in FILES):
        note(env, "damaged")
    note(env, "refused" if r.refused() else "result")
    for m in case["mut"]:
        note(env, m[1] + " " + m[0][2:])
