"""Section order, surrounding text and other files do not influence what is read."""
import os
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 10000, "thorough": 100000}
RULE = ("A case is 1-3 generated .log files, each with a permutation of its sections and unrelated lines (lines and whole tables of "
        "Gaussian output, near misses of headers, random printable text) before, between and after them, read by interleaved "
        "readers; each must give what its plain file says. Non-trivial: the section order differs from the plain one "
        "and there is noise, or several readers are interleaved.")
ASSUMPTIONS = ["unrelated lines contain none of the section headers", "coordinates, energies and populations are followed by their usual end line"]
HEAD = ["Gross orbital populations:", "*** Overlap ***", "occ. eigenvalues --", "virt. eigenvalues --", "Center     Atomic"]
REAL = g.OUTPUT + ["     Condensed to atoms (all electrons):", " Mulliken charges:", " *** Kinetic Energy ***",
                  " Alpha  occ. eigenvalues", "  1 Alpha MO", " Orbital symmetries:", "       Occupied  (A) (A) (A)",
                  " Center     Number", "     Gross orbital populations", " *** Overlap", " Standard basis: 6-31G(d) (6D, 7F)",
                  " ---------------------------------------------------------------------", "      1          6", " 1 2 3 4 5",
                  "      1  0.100000D+01", " Alpha virt. eigenvalues"]


BLOCK = st.sampled_from(range(len(g.BLOCKS))).map(lambda k: "\n".join(g.BLOCKS[k]))


@st.composite
def strategy_(draw):
    files = []
    for _ in range(draw(st.sampled_from([1, 2, 2, 3]))):
        s = draw(sy.specs(unres=draw(st.booleans()), pops=True, max_total=13, big=True))
        keep = draw(st.lists(st.sampled_from(range(4)), unique=True, min_size=1, max_size=4)) if draw(st.integers(0, 4)) == 0 \
            else draw(st.permutations(range(4)))
        text = st.text(alphabet=st.characters(min_codepoint=32, max_codepoint=126), max_size=60).filter(
            lambda t: not any(h in t for h in HEAD))
        noise = draw(st.lists(st.lists(st.one_of(st.sampled_from(REAL), text, BLOCK), max_size=4), min_size=6, max_size=6))
        files.append({"sys": s, "order": list(keep), "noise": noise, "nl": draw(st.booleans()), "bare": draw(st.integers(0, 2)) == 0})
    return {"files": files, "steps": draw(st.permutations(range(len(files) * 2)))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "shuffled" in notes or "interleaved" in notes


def check(case, env):
    ops, queries, wants = [], [], []
    n = len(case["files"])
    for k, f in enumerate(case["files"]):
        S = sy.Sys(f["sys"])
        p = S.log_parts(2)
        if S.s["unres"]:
            p = p[:2] + [p[2] + p[3]] + p[4:]
        out = []
        for i, q in enumerate(f["order"]):
            out += f["noise"][i] + p[q]
            if q == 1 and f.get("bare") and not (f["noise"] + [0])[i + 1 if i + 1 < len(f["order"]) else 5]:
                # nothing between the overlap matrix and what follows
                out.pop()
                note(env, "section directly below the overlap matrix")
        out += f["noise"][5]
        path = os.path.join(env.dir, "n%d.log" % k)
        sy.put(path, "\n".join(out) + ("\n" if f["nl"] else ""))
        a = S.order(2)
        fn = S.funcs(a)
        q, w = [], []
        for sec in f["order"]:
            if sec == 0:
                q.append(("xyz", k))
                w.append([list(c) for c in zip(*[[float("%.6f" % x) for x in r] for r in S.coords(2)])])
            elif sec == 1:
                q.append(("S", k))
                w.append(g.d6(S.S[np.ix_(fn, fn)]))
            elif sec == 2:
                for sp in S.spins:
                    q += [("oe", k, sp), ("homo", k, sp)]
                    w += [list(S.E[sp][2]), S.occ[sp][2]]
            else:
                q.append(("bf", k))
                w.append([S.s["nf"][i] for i in a])
        queries += q
        wants += w
        if f["order"] != sorted(f["order"]) and any(f["noise"]):
            note(env, "shuffled")
        for x in f["noise"]:
            for l in x:
                if "\n" in l:
                    note(env, "a table of another kind")
    # construct, then read, in an interleaved order
    made = set()
    for s in case["steps"]:
        k = s % n
        if k not in made:
            made.add(k)
            ops.append(("log", k, os.path.join(env.dir, "n%d.log" % k)))
        else:
            ops.append(("readl", k))
    order = list(range(len(queries)))
    if n > 1:
        order = order[1::2] + order[::2]
        note(env, "interleaved")
    ans = rd.run(env, ops + [queries[i] for i in order], " (order %s)" % [f["order"] for f in case["files"]])[len(ops):]
    for i, got in zip(order, ans):
        d = rd.differs(got, wants[i], 1e-13)
        if d:
            k = queries[i][1]
            raise Violation("%s of file %d: %s\n%s" % (queries[i], k, d, open(
                os.path.join(env.dir, "n%d.log" % k)).read()[:5000]))
    note(env, "%d files" % n)
