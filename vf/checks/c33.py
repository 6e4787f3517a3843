"""Diagnostic messages: printed exactly up to the level of the build, and without any influence on results."""
import os, re
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..driver import hx, unhx
from ..engine import Violation, note
from . import c29, c32, e2e

DRIVERS = ["logm", "calcj", "calcj@verbose", "readers", "readers@verbose", "qc", "qc@verbose"]
N = {"quick": 5000, "thorough": 100000}
RULE = ("Two of five cases are sequences of LOG messages (literals, strings, numbers, evaluated expressions, manipulators, up to "
        "three parts) of levels -1..4 and far outside (to both ends of int) under such build levels: standard output is exactly file:line: text for those not above "
        "the build level, in order, and the expressions are evaluated once in any case. Two of five are systems with "
        "any spins, orbitals, wrong options or cut files, run by calc_J built with LOG_LEVEL 0 and with LOG_LEVEL 3: after "
        "removing the lines file:line: text of the second, standard output, standard error and the kind of ending are the "
        "same. The others are a sequence of requests to the readers (whole or cut files, with sections left out) or to a "
        "TransferComplex, valid or not, answered bit by bit alike by both builds. Non-trivial: messages above and below the "
        "level, a run with a result and at least ten messages, or a sequence with answers and refusals.")
ASSUMPTIONS = ["the report before an uncaught exception may be cut short (output not flushed)", "file names of messages end in .cpp or .hpp"]
LINE = re.compile(r"^\S[^\n]*\.[ch]pp:\d+: [^\n]*\n", re.M)
TXT = st.text(st.characters(min_codepoint=32, max_codepoint=126), max_size=9)


LEVEL = st.one_of(st.integers(-1, 4), st.integers(-1, 4), st.integers(-1, 4), st.sampled_from(
    [127, 128, 255, 256, 257, 32768, 65536, 2 ** 31 - 1, -2, -128, -129, -2 ** 31]))


@st.composite
def message(draw):
    lv = draw(LEVEL)
    if draw(st.booleans()):
        return ["macro", lv, draw(TXT), draw(st.integers(-9, 9)), draw(st.sampled_from([0.5, -2.0, 1e10, 3.14159265])),
                draw(st.integers(0, 4))]
    it = st.one_of(st.tuples(st.just("s"), TXT), st.tuples(st.just("c")), st.tuples(st.just("d"), st.floats(-1e9, 1e9)),
                   st.tuples(st.just("i"), st.integers(-2 ** 31, 2 ** 31 - 1)), st.tuples(st.just("e")))
    return ["parts", lv, draw(st.sampled_from(["a.cpp", "x/y.hpp", "", "a b"])), draw(st.integers(0, 99999)),
            [list(x) for x in draw(st.lists(it, max_size=3))]]


@st.composite
def library(draw):
    unres = draw(st.booleans())
    if draw(st.integers(0, 2)) == 0:
        s = draw(sy.specs(cp=draw(st.booleans()), pops=True, max_total=12))
        return {"tc": s, "req": c29.requests(draw, s, 4), "uns": draw(st.booleans()), "seed": draw(st.integers(0, 10 ** 6))}
    s = draw(sy.specs(unres=unres, max_atoms=3, max_nf=4, max_total=12, pops=draw(st.booleans())))
    files = [[draw(st.integers(0, 2)), draw(st.one_of(st.just(0), st.integers(0, 31))),
              draw(st.one_of(st.none(), st.none(), st.integers(0, 10 ** 6)))] for _ in range(4)]
    ask = st.tuples(st.integers(0, 3), st.sampled_from(ASK[:6] + ["read"]), st.sampled_from(["Alpha", "Beta", "Beta", "Gamma"]))
    return {"lib": s, "files": files, "ask": [list(x) for x in draw(st.lists(ask, min_size=2, max_size=16))]}


ASK = ["S", "oe", "homo", "xyz", "bf", "orb", "coef", "restr"]


def answers(case, env):
    """The same requests to the library built without and with messages."""
    if "tc" in case:
        S = c29.exact(case["tc"], np.random.default_rng(case["seed"]))
        S.one = False
        ops = c29.setup(S, 0)
        if not case["uns"]:
            ops.pop()
        ops += ["J 0 %s %d %s %d\n" % (hx(x[0]), x[1], hx(x[2]), x[3]) for x in case["req"]]
        body, name = "".join(ops), "qc"
    else:
        T, name = sy.Sys(case["lib"]), "readers"
        ops = []
        for i, (w, drop, cut) in enumerate(case["files"]):
            path = os.path.join(env.dir, "l%d.%s" % (i, "log" if i < 2 else "pun"))
            if i < 2:
                t = g.log_text([p for p in T.log_parts(w) if not drop & c32.part(p)])
            else:
                t = g.pun_text([(sp, T.coefs(w, sp)) for sp in T.spins if not drop & c32.BIT[sp]], T.s["fmtline"])
            sy.put(path, t if cut is None else t[:cut % max(1, len(t))])
            kind = "log" if i < 2 else "pun"
            ops += ["%s %d %s" % (kind, i, hx(path)), "read%s %d" % (kind[0], i)]
        for i, q, sp in case["ask"]:
            if q == "read":
                q = "readl" if i < 2 else "readp"
            elif i > 1:
                q = "restr" if q == "S" else "coef"
            ops.append("%s %d" % (q, i) + (" " + hx(sp) if q in ("oe", "homo", "coef") else ""))
        body = "\n".join(ops) + "\n"
    a, b = env.run(name, body), env.run(name + "@verbose", body)
    if a.crashed():
        note(env, "crash (left to other checks)")
        return
    if (a.code, a.res) != (b.code, b.res):
        raise Violation("a build with messages answers differently\n%s\n--- with messages\n%s\n%s\n--- without\n%s\n%s" % (
            body[:3000], b.brief(), b.res[:3000], a.brief(), a.res[:3000]))
    k = ["X " in l for l in a.res.splitlines()]
    if True in k and False in k:
        note(env, "answers and refusals")
    note(env, "library: " + name)


@st.composite
def strategy_(draw):
    kind = draw(st.integers(0, 4))
    if kind == 4:
        return draw(library())
    if kind > 1:
        return {"build": draw(LEVEL), "msgs": draw(st.lists(message(), min_size=1, max_size=6))}
    unres = draw(st.booleans())
    s = draw(sy.specs(unres=unres, cp=draw(st.integers(0, 3)) == 0, max_total=14, dress=True, big=True))
    sp = ["Alpha", "Beta", None]
    return {"sys": s, "spins": [draw(st.sampled_from(sp if unres or draw(st.integers(0, 5)) == 0 else [None])) for _ in range(3)],
            "k": [draw(st.integers(0, 99)), draw(st.integers(0, 99))],
            "more": draw(st.sampled_from([[]] * 6 + [["-h"], ["-cite"], ["-v"], ["--nothing"], ["-s_1", "x"], ["-orb_num_1", "-99"]])),
            "cut": draw(st.one_of(st.none(), st.none(), st.none(), st.tuples(
                st.sampled_from(["1.log", "2.log", "P.log", "1.pun", "2.pun", "P.pun"]), st.integers(0, 10 ** 6))))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "above and below" in notes or "answers and refusals" in notes or "result" in notes


def messages(case, env):
    b, body = case["build"], ""
    for m in case["msgs"]:
        if m[0] == "macro":
            body += "%d %d macro %s %d %r %d\n" % (b, m[1], hx(m[2]), m[3], m[4], m[5])
        else:
            body += "%d %d parts %s %d" % (b, m[1], hx(m[2]), m[3])
            for x in m[4]:
                body += " " + x[0] + ("" if len(x) == 1 else " " + (hx(x[1]) if x[0] == "s" else repr(x[1])))
            body += "\n"
    r = env.run("logm", body)
    got, info = r.out.split("\x01"), r.res.splitlines()
    if not r.ok() or len(info) != len(case["msgs"]) or len(got) != len(info) + 1:
        raise Violation("ended early\n%s" % r.brief())
    for m, o, inf in zip(case["msgs"], got, info):
        line, ev, name = inf.split()
        if m[0] == "macro":
            a = m[2]
            t = [a, "x " + a, a + " and %d" % m[3], "v%s, 1%s" % ("%g" % m[4], a), "positive" if m[3] > 0 else "other"][m[5]]
            want = "%s:%s: %s\n" % (unhx(name), line, t)
            if int(ev) != (m[5] == 3):
                raise Violation("the message %s was evaluated %s times" % (m, ev))
        else:
            want = "%s:%d: %s\n" % (m[2], m[3], "".join(
                {"s": lambda: x[1], "c": lambda: "liter al", "d": lambda: "%g" % x[1], "i": lambda: "%d" % x[1], "e": lambda: "\n"}[x[0]]()
                for x in m[4]))
        if m[1] > b:
            want = ""
        if o != want:
            raise Violation("message %s with LOG_LEVEL %d printed %r, expected %r" % (m, b, o, want))
    lv = [m[1] for m in case["msgs"]]
    if min(lv) <= b < max(lv):
        note(env, "above and below")


def check(case, env):
    if "msgs" in case:
        messages(case, env)
        return
    if "lib" in case or "tc" in case:
        answers(case, env)
        return
    S = sy.Sys(case["sys"])
    S.write(env.dir)
    if case["cut"]:
        p = os.path.join(env.dir, case["cut"][0])
        t = open(p).read()
        sy.put(p, t[:case["cut"][1] % len(t)])
    sp = [x or "Alpha" for x in case["spins"]]
    argv = S.argv() + e2e.orbargs(S, case["k"][0] % S.s["mo"][0], case["k"][1] % S.s["mo"][1],
                                  *[x if x in S.spins else "Alpha" for x in sp[:2]])
    for x, f in zip(case["spins"], "12P"):
        if x:
            argv += ["-s_" + f, x]
    argv += case["more"]
    a, b = env.calcj(argv), env.calcj(argv, name="calcj@verbose")
    if a.crashed():
        note(env, "crash (left to other checks)")
        return
    rest, n = LINE.subn("", b.out)
    if LINE.search(a.out):
        raise Violation("a message although LOG_LEVEL is 0\n%s\n%s" % (argv, a.brief()))
    kind = lambda r: "ok" if r.ok() else "refused" if r.refused() else "other"
    # output that was not flushed is lost when an exception ends the program, messages flush
    same = rest.startswith(a.out) if a.aborted() else rest == a.out
    if (kind(a), a.code, a.err) != (kind(b), b.code, b.err) or not same:
        raise Violation("a build with messages differs\n%s\n%s\n--- without messages\n%s" % (argv, b.brief(), a.brief()))
    if a.ok() and len(e2e.printed_anything(a.out)) == 5 and n >= 10:
        note(env, "result")
    note(env, kind(a))
