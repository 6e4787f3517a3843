"""Without orbital populations: warning and the given order."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..driver import hx
from ..engine import Violation, note
from . import c29, e2e, qcl

DRIVERS = ["calcj", "qc"]
CHAIN = False
N = {"quick": 12000, "thorough": 100000}
RULE = ("A case is a system with any atom orders and a choice of the .log files (8 combinations) that have the populations, "
        "with or without counterpoise. All there: no warning and the values of the lined up order; else the warning "
        "and the values of the orders as given (in part with one pair of files for two equal monomers). One case in six is a "
        "history of 1-4 systems in one process of the library, some of them lined up: as many warnings at least as systems that were asked and "
        "not lined up, none if there is none, and the values. Non-trivial: the two orders give different values, or one file lacks "
        "them.")
ASSUMPTIONS = ["J_eff is not compared where rounding alone decides it (|1-S_ab^2| < 1e-10 or so)"]


@st.composite
def library(draw):
    jobs = []
    for _ in range(draw(st.integers(1, 4))):
        s = draw(sy.specs(cp=draw(st.integers(0, 2)) == 0, pops=True, max_total=12))
        jobs.append({"sys": s, "uns": draw(st.integers(0, 2)) == 0, "k": [
            [draw(st.integers(0, s["mo"][m] - 1)) for m in (0, 1)] for _ in range(draw(st.integers(1, 3)))]})
    return {"lib": jobs, "seed": draw(st.integers(0, 10 ** 6))}


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 5)) == 0:
        return draw(library())
    cp = draw(st.integers(0, 2)) == 0
    s = draw(sy.specs(cp=cp, pops=True, max_total=18, dress=True, big=True))
    return {"sys": s, "pops": draw(st.integers(0, 7)), "k1": draw(st.integers(0, s["mo"][0] - 1)),
            "k2": draw(st.integers(0, s["mo"][1] - 1)), "same": draw(st.booleans())}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "matters" in notes


def name(k, occ):
    return "LUMO %d" % (k - occ) if k >= occ else "HOMO %d" % (k - occ + 1)


def check_library(case, env):
    rng = np.random.default_rng(case["seed"])
    lines, asked = [], []
    jobs = [dict(j) for j in case["lib"]]
    for i, j in enumerate(jobs):
        S = j["S"] = c29.exact(j["sys"], rng)
        S.one = False
        j["ref"] = [S.ref(*k, as_printed=not j["uns"]) for k in j["k"]]
        if any(not ref["sharp"] for ref in j["ref"]):
            note(env, "ill-conditioned")
            return
        canon = S.ref(*j["k"][0])
        if g.compare({k: canon[k] for k in g.KEYS}, S.ref(*j["k"][0], as_printed=True)):
            note(env, "matters")
        lines += [o for o in c29.setup(S, i) if j["uns"] or not o.startswith("uns")]
        for q in range(len(j["k"])):
            asked.append((i, q))
    setup = len(lines)
    rng.shuffle(asked)
    for i, q in asked:
        S, k = jobs[i]["S"], jobs[i]["k"][q]
        f = [name(k[m], S.occ["Alpha"][m]).split() for m in (0, 1)]
        lines.append("J %d %s %s %s %s\n" % (i, hx(f[0][0]), f[0][1], hx(f[1][0]), f[1][1]))
    what = "systems lined up: %s, asked in order %s" % ([j["uns"] for j in jobs], [(int(i), int(q)) for i, q in asked])
    r = env.run("qc", "".join(lines))
    if r.crashed():
        raise Violation("memory error or hang: %s\n%s" % (what, r.brief()))
    ans = qcl.answers(r)
    if not r.ok() or len(ans) != len(lines) or any(k != "ok" for k, _ in ans):
        raise Violation("ended early or refused: %s\n%s" % (what, r.brief()))
    for (i, q), (_, v) in zip(asked, ans[setup:]):
        ref = jobs[i]["ref"][q]
        want = ref["J_eff"] / g.HARTREE
        tol = ref["tol"]["J_eff"] / g.HARTREE * 3 + 1e-13 * abs(want)
        if not (math.isfinite(v) and abs(v - want) <= tol):
            raise Violation("system %d answered %.17g for rows %s, expected %.17g (+- %g)\n%s" % (
                i, v, jobs[i]["k"][q], want, tol, what))
    need = sum(not j["uns"] for j in jobs)
    got = sum("WARNING" in x and "line up" in x for x in r.err.splitlines())
    if got < need or (got and not need):
        raise Violation("%d warnings for %d systems that were not lined up: %s\n%s" % (got, need, what, r.err))
    note(env, "library: %s" % ("none lined up" if need == len(jobs) else "some lined up" if need else "all lined up"))


def check(case, env):
    if "lib" in case:
        check_library(case, env)
        return
    S = sy.Sys(case["sys"])
    full = case["pops"] == 7
    canon = S.ref(case["k1"], case["k2"])
    given = S.ref(case["k1"], case["k2"], as_printed=True)
    ref = canon if full else given
    if abs(ref["den"]) < 1e-3:
        note(env, "S_ab near 1")
    for w in range(3):
        sy.put("%s/%s.log" % (env.dir, "12P"[w]), S.log(w, pops=bool(case["pops"] >> w & 1)))
        sy.put("%s/%s.pun" % (env.dir, "12P"[w]), S.pun(w))
    argv = S.argv() + e2e.orbargs(S, case["k1"], case["k2"])
    if case.get("same") and S.s.get("twin") and not S.s["cp"] and case["pops"] & 5 != 5 and S.occ["Alpha"][0] == S.occ["Alpha"][1]:
        # both monomers from the same files, as nothing is lined up by coordinates
        argv[argv.index("2.pun")] = "1.pun"
        full, ref = False, given
        note(env, "one file for both monomers")
    have = [x for w, x in enumerate("12P") if case["pops"] >> w & 1]
    r = e2e.expect(env, argv, ref, " with populations in %s" % have)
    warned = "WARNING" in r.err and "line up" in r.err
    if warned == full:
        raise Violation("%s although %s have the populations\n%s" % (
            "warned" if warned else "no warning", have or "none", r.brief()))
    note(env, "populations in " + ("".join(have) or "none") + (" cp" if S.s["cp"] else ""))
    if g.compare({k: canon[k] for k in g.KEYS}, given):
        note(env, "matters")
