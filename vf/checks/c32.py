"""Readers work side by side and again: each reading gives what the file holds at that time."""
import os
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..driver import hx, unhx
from ..engine import Violation, note
from . import rd

DRIVERS = ["readers"]
N = {"quick": 10000, "thorough": 100000}
RULE = ("A case is a history of up to 14 steps on two .log and two coefficient files and up to three readers of each: a file "
        "is written (contents of one of three systems of different size and spins, whole, cut or with sections left out), removed, read by a reader, a "
        "reader is asked for all it has read, or several of these. After each reading of a file that is not cut the answers are exactly its contents, and what it does not hold is refused or empty, "
        "whatever that reader met before (another content, a cut file, no file) and whatever other readers do; reading a "
        "missing file is refused, as are readers for files with other extensions. Non-trivial: a reader reads again after the file has changed, and is asked.")
ASSUMPTIONS = ["after reading a cut file nothing is asked of the reader until it has read a whole one",
               "a cut file may also end the program (sizes of a Matrix that make no sense do)"]


# names that are not those of a file of the reader's kind (0: .log, 1: .pun, .7, .orb)
NAMES = ["a.txt", "a", "a.log.txt", "a.pun.txt", "a.logs", "a.lo", "a.PUN", "a.LOG", "a.puns", "a.77", "a.orbs", "log", "pun", "a.log~", "a.pun.log",
         "a.7.log", "a.log.pun", "a.log.7", "a.orb", "a.orb.log", "alog", "apun", "a.pun", "a.log", "a.7"]
EXT = ((".log",), (".pun", ".7", ".orb"))


@st.composite
def strategy_(draw):
    unres = draw(st.sampled_from([True, False, None]))
    sys_ = [draw(sy.specs(unres=draw(st.booleans()) if unres is None else unres, max_atoms=3, max_nf=4, max_total=12,
                          pops=True)) for _ in range(3)]
    rdr = st.sampled_from([0, 0, 0, 1, 3, 3, 3, 4, 2, 5])
    # whole, cut (>= 0) or without some sections (< 0)
    cut = st.one_of(st.none(), st.none(), st.none(), st.integers(0, 10 ** 6), st.integers(-31, -1))
    step = st.one_of(
        # a file is written, read and asked about, another reader is asked too
        st.tuples(st.just("use"), rdr, st.integers(0, 8), cut, rdr), st.tuples(st.just("use"), rdr, st.integers(0, 8), cut, rdr),
        st.tuples(st.just("put"), st.integers(0, 3), st.integers(0, 8), cut),
        st.tuples(st.just("rm"), st.integers(0, 3)), st.tuples(st.just("read"), rdr), st.tuples(st.just("ask"), rdr))
    return {"sys": sys_, "first": [draw(st.integers(0, 8)) for _ in range(4)], "of": [draw(st.integers(0, 1)) for _ in range(6)],
            "wrong": draw(st.lists(st.tuples(st.integers(0, 1), st.sampled_from(NAMES)).map(list), max_size=2)),
            "steps": [list(x) for x in draw(st.lists(step, min_size=3, max_size=14))]}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "asked after a change" in notes


BIT = {"Alpha": 1, "Beta": 2}


def part(lines):
    """The bit of a section in the set of those that are left out."""
    h = "\n".join(lines[:5])
    for name, bit in ((" Alpha  occ.", 1), ("  Beta  occ.", 2), ("*** Overlap", 4), ("orbital populations", 8), (" Center ", 16)):
        if name in h:
            return bit
    for name, bit in ((" Alpha virt.", 1), ("  Beta virt.", 2)):
        if name in h:
            return bit
    raise ValueError(h)


def check(case, env):
    S = [sy.Sys(s) for s in case["sys"]]

    def text(f, v, cut):  # files 0, 1: .log; 2, 3: .pun
        T, w = S[v // 3], v % 3
        if cut is not None and cut < 0:
            if f < 2:
                return g.log_text([p for p in T.log_parts(w) if not -cut & part(p)])
            return g.pun_text([(sp, T.coefs(w, sp)) for sp in T.spins if not -cut & BIT[sp]], T.s["fmtline"])
        t = (T.log if f < 2 else T.pun)(w)
        return t if cut is None else t[:cut % len(t)]

    path = [os.path.join(env.dir, n) for n in ("ra.log", "rb.log", "ra.pun", "rb.7")]
    ops, want = [], []  # want: None (anything), "X" refused, or (what, value)

    def add(op, w=None):
        ops.append(" ".join([op[0], str(op[1])] + [hx(x) for x in op[2:]]))
        want.append(w)

    files = [[v, None] for v in case["first"]]
    for f in range(4):
        add(("put", 0, path[f], text(f, files[f][0], None)), ())
    of = [o if r < 3 else 2 + o for r, o in enumerate(case["of"])]
    for r in range(6):
        add(("log" if r < 3 else "pun", r, path[of[r]]), ())
    for i, (k, n) in enumerate(case["wrong"]):
        # the file is there and holds what the reader looks for
        p = os.path.join(env.dir, n)
        add(("put", 0, p, text(2 * k, files[2 * k][0], None)), ())
        good = os.path.splitext(n)[1] in EXT[k]
        add(("pun" if k else "log", 6 + i, p), () if good else "X")
        note(env, "another extension")
    state = [None] * 6  # version read last, or None
    hist, failed = [set() for _ in range(6)], [False] * 6
    steps = []
    for s in case["steps"]:
        if s[0] == "use":
            _, r, v, cut, other = s
            steps += [["put", of[r], v, cut], ["read", r], ["ask", r], ["ask", other]]
        else:
            steps.append(s)
    for s in steps:
        if s[0] == "put":
            files[s[1]] = [s[2], s[3]]
            add(("put", 0, path[s[1]], text(*s[1:])), ())
        elif s[0] == "rm":
            files[s[1]] = None
            add(("rm", 0, path[s[1]]), ())
        elif s[0] == "read":
            r, c = s[1], files[of[s[1]]]
            hist[r].add(str(c))
            whole = c is not None and (c[1] is None or c[1] < 0)
            failed[r] |= not whole
            state[r] = c if whole else None
            add(("readl" if r < 3 else "readp", r), "X" if c is None else () if whole else None)
        elif s[0] == "ask" and state[s[1]] is not None:
            r, (v, drop) = s[1], state[s[1]]
            T, w, drop = S[v // 3], v % 3, -(drop or 0)
            if len(hist[r]) > 1:
                note(env, "asked after a change")
                if failed[r]:
                    note(env, "asked after a failure")
                if drop:
                    note(env, "asked for what is left out after a change")
            if r < 3:
                add(("xyz", r), ("coordinates", [] if drop & 16 else [list(c) for c in zip(*T.coords(w))]))
                add(("bf", r), ("functions per atom", [] if drop & 8 else [T.s["nf"][a] for a in T.order(w)]))
                for sp in ("Alpha", "Beta"):
                    # the lines of a spin without occupied orbitals have no header
                    if sp not in T.spins or drop & BIT[sp]:
                        add(("oe", r, sp), "none")
                        add(("homo", r, sp), "none")
                    else:
                        add(("oe", r, sp), ("energies " + sp, list(T.E[sp][w])))
                        add(("homo", r, sp), ("HOMO " + sp, T.occ[sp][w]))
                if (w == 2 or T.s.get("monoS")) and not drop & 4:
                    f = T.funcs(T.order(w))
                    add(("S", r), ("overlap", T.S[f][:, f]))
                else:
                    add(("S", r), "none")
            else:
                for sp in ("Alpha", "Beta"):
                    if sp not in T.spins or drop & BIT[sp]:
                        add(("coef", r, sp), "none")
                    else:
                        add(("coef", r, sp), ("coefficients " + sp, T.coefs(w, sp)))
    r = env.run("readers", "\n".join(ops) + "\n")
    hist = "\n".join(o if len(o) < 300 else o[:120] + "..." for o in ops)
    n = len(r.res.splitlines())
    if r.refused() and n < len(ops) and want[n] is None:
        note(env, "ended by a cut file")
        return
    if not r.ok():
        raise Violation("ended early\n%s\n%s" % (hist, r.brief()))
    ls = r.res.splitlines()
    if len(ls) != len(ops):
        raise Violation("%d answers to %d steps\n%s" % (len(ls), len(ops), hist))
    for i, (l, w) in enumerate(zip(ls, want)):
        where = "step %d of\n%s" % (i + 1, hist)
        if w is None:
            continue
        if w == "X":
            if not l.startswith("X "):
                raise Violation("reading a missing file, or one of another kind, was accepted, %s" % where)
            note(env, "missing file" if ops[i].startswith("read") else "refused name")
            continue
        if w == "none":
            if not l.startswith("X "):
                raise Violation("what the file does not hold was given as %s, %s" % (l[:200], where))
            continue
        if l.startswith("X "):
            raise Violation("refused (%s), %s" % (unhx(l[2:]), where))
        if w == ():
            continue
        got = rd.decode(l)
        what, v = w
        if what in ("functions per atom",) or what.startswith("HOMO"):
            d = None if got == v else "is %r, expected %r" % (got, v)
        elif what == "coordinates":
            d = rd.differs(got, v, 1e-13)
        else:
            d = rd.differs(got, v, 1e-13)
        if d:
            raise Violation("%s %s, %s" % (what, d, where))
