"""The library computes J_eff to full precision, for sequences of requests on one object."""
import math
import numpy as np
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..driver import hx
from ..engine import Violation, note
from . import qcl

DRIVERS = ["qc"]
N = {"quick": 12000, "thorough": 120000}
RULE = ("A case is a system given to the library directly (unrounded doubles), with or without counterpoise and scrambled "
        "order, and a sequence of 1-6 requests for orbitals (valid, on the borders, invalid) on its TransferComplex, with up to "
        "two further systems built and asked in turns in the same process; every "
        "valid one must return the formula's value to rounding, repeated ones the same, invalid ones must throw; in some "
        "cases one matrix has a wrong size, which must be refused. Non-trivial: at least two valid requests, or a refusal.")
ASSUMPTIONS = ["cases where rounding alone decides J_eff (|1-S_ab^2| < 1e-10 or so) are skipped",
               "the first request of a scrambled system comes after unscramble, which is called once"]


def requests(draw, s, most):
    o = s["occ"][0]
    req = []
    for _ in range(draw(st.integers(1, most))):
        q = []
        for m in (0, 1):
            ty = draw(st.sampled_from(["HOMO", "LUMO"] * 8 + ["homo", "SOMO", ""]))
            n = o[m] if ty != "LUMO" else s["mo"][m] - o[m]
            sign = 1 if ty == "LUMO" else -1
            k = draw(st.integers(0, 6))
            num = sign * draw(st.integers(0, max(0, n - 1))) if k < 5 else sign * n if k == 5 else \
                draw(st.sampled_from([-sign, sign * (n + 1), sign * 1000, 2 ** 31 - 1, -2 ** 31 + 1]))
            q += [ty, num]
        req.append(q)
    return req


@st.composite
def strategy_(draw):
    cp = draw(st.integers(0, 2)) == 0
    s = draw(sy.specs(cp=cp, pops=True, max_total=18, big=True))
    more = []
    for _ in range(draw(st.sampled_from([0, 0, 0, 1, 1, 2]))):
        m = draw(sy.specs(cp=draw(st.integers(0, 2)) == 0, pops=True, max_total=12))
        more.append({"sys": m, "req": requests(draw, m, 3), "from": draw(st.integers(0, 3))})
    return {"sys": s, "req": requests(draw, s, 6), "bad": draw(st.sampled_from([None] * 8 + ["S", "S1", "Scol", "Srow", "mon", "mon1", "E"])),
            "seed": draw(st.integers(0, 10 ** 6)), "again": draw(st.booleans()), "more": more, "mix": draw(st.integers(0, 10 ** 6))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return notes.get("valid", 0) >= 2 or "refused" in notes


def row(ty, num, occ, mo):
    if ty == "LUMO":
        return occ + num if 0 <= num < mo - occ else None
    if ty == "HOMO":
        return occ - 1 + num if -occ < num <= 0 else None
    return None


def one_molecule(S):
    """Both monomers are given by the same coefficients, if their sizes allow it."""
    s = S.s
    C = S.coefs(0, "Alpha")
    if s["mo"][0] != s["mo"][1] or C.shape[1] != S.C2["Alpha"].shape[1]:
        return False
    if s["cp"]:
        S.C2["Alpha"] = np.empty_like(C)
        S.C2["Alpha"][:, S.funcs(S.order(1))] = C
    else:
        S.C2["Alpha"] = C
    return True


def exact(spec, rng):
    """The system with unrounded numbers."""
    S = sy.Sys(spec)
    for C in (S.C1, S.C2, S.CP):
        C["Alpha"] = C["Alpha"] * (1 + 1e-9 * rng.standard_normal(C["Alpha"].shape))
    S.E["Alpha"][2] = S.E["Alpha"][2] * (1 + 1e-9 * rng.standard_normal(S.s["mo"][2]))
    return S


def setup(S, i, bad=None):
    """Operations that build transfer complex i, or None if the wrong size is not possible."""
    s = S.s
    f = S.funcs(S.order(2))
    b1, b2, cP = S.coefs(0, "Alpha"), S.coefs(1, "Alpha"), S.coefs(2, "Alpha")
    ov = S.S[np.ix_(f, f)]
    e = S.E["Alpha"][2][:, None]
    nf = [s["nf"][k] for k in S.order(2)]
    nf2 = [s["nf"][k] for k in S.order(1)]
    occ, mo = S.occ["Alpha"], s["mo"]
    if bad == "S":
        ov = np.vstack([np.hstack([ov, ov[:, :1]]), np.ones((1, ov.shape[1] + 1))])
    elif bad == "S1":
        if len(ov) < 2:
            return None
        ov = ov[:-1, :-1]
    elif bad == "Scol":
        ov = np.hstack([ov, ov[:, :1]])
    elif bad == "Srow":
        ov = np.vstack([ov, ov[:1]])
    elif bad == "mon":
        # without counterpoise together larger than the dimer, with it of another size
        b1 = np.hstack([b1, b1[:, :1]])
    elif bad == "mon1":
        b2 = np.hstack([b2, b2[:, :1]])
    elif bad == "E":
        e = np.vstack([e, e[:1]])
    z = 20 * i
    ops = [qcl.mk(z + k, a) for k, a in enumerate((b1, b2, cP, ov, e))]
    for w in range(3):
        ops.append(qcl.mk(z + 5 + w, np.array(S.coords(w)).T))
    second = z
    if not S.one:
        second = z + 1
    xyz2 = z + 5 if S.one and S.coords(0) == S.coords(1) else z + 6
    ops.append("tc %d %d %d %d %d %d %d %d %d %d %d\n" % (i, z, second, z + 2, mo[0], occ[0], mo[1], occ[1], z + 3, z + 4, int(s["cp"])))
    if bad is None or bad == "E":
        ops.append("uns %d %d %d %d %s %s\n" % (i, z + 5, xyz2, z + 7, qcl.vec(nf), qcl.vec(nf2)))
    return ops


def check(case, env):
    bad = case["bad"]
    rng = np.random.default_rng(case["seed"])
    jobs = [{"sys": case["sys"], "req": case["req"] + (case["req"][:1] if case["again"] else [])}]
    if bad:
        jobs[0]["req"] = [["HOMO", 0, "HOMO", 0]]
    else:
        jobs += [dict(m) for m in case["more"]]
    lines, kinds = [], []  # operations and what their answers are for
    queues = []
    for i, j in enumerate(jobs):
        S = j["S"] = exact(j["sys"], rng)
        S.one = not bad and case["seed"] % 4 == 0 and one_molecule(S)
        if S.one:
            note(env, "one object for both monomers")
        occ, mo = S.occ["Alpha"], S.s["mo"]
        j["what"] = "system %d: counterpoise %s, orders %s, occupied %s of %s, requests %s" % (
            i, S.s["cp"], S.s["perm"], occ[:2], mo[:2], j["req"])
        j["rows"] = [(row(q[0], q[1], occ[0], mo[0]), row(q[2], q[3], occ[1], mo[1])) for q in j["req"]]
        for k in j["rows"]:
            if None not in k and not S.ref(*k)["sharp"]:
                note(env, "ill-conditioned")
                return
        ops = setup(S, i, bad if i == 0 else None)
        if ops is None:
            return
        q = [(o, ("setup", i)) for o in ops]
        q += [("J %d %s %d %s %d\n" % (i, hx(x[0]), x[1], hx(x[2]), x[3]), ("J", i, n)) for n, x in enumerate(j["req"])]
        # and the formula itself, for the first valid request, in canonical order
        valid = [k for k in j["rows"] if None not in k]
        if not bad and valid:
            k, z = valid[0], 20 * i + 10
            for n, a in enumerate((S.C1["Alpha"][k[0]][None, :], S.C2["Alpha"][k[1]][None, :], S.CP["Alpha"], S.S,
                                   S.E["Alpha"][2][:, None])):
                q.append((qcl.mk(z + n, a), ("setup", i)))
            q.append(("calc %d %d %d %d %d %d\n" % (z, z + 1, z + 2, z + 3, z + 4, int(S.s["cp"])), ("calc", i, k)))
        queues.append(q)
    mix = np.random.default_rng(case["mix"])
    start = [0] + [j["from"] for j in jobs[1:]]
    step = 0
    while any(queues):
        ready = [i for i, q in enumerate(queues) if q and start[i] <= step] or [i for i, q in enumerate(queues) if q]
        i = int(ready[int(mix.integers(0, len(ready)))])
        o, k = queues[i].pop(0)
        # what is built is built in one go, requests take turns
        lines.append(o)
        kinds.append(k)
        while k[0] == "setup" and queues[i]:
            o, k = queues[i].pop(0)
            lines.append(o)
            kinds.append(k)
        step += 1
    what = "\n".join(j["what"] for j in jobs)
    if len(jobs) > 1:
        what += "\norder %s" % [k for k in kinds if k[0] != "setup"]
        note(env, "%d systems" % len(jobs))
    r = env.run("qc", "".join(lines))
    if r.crashed():
        raise Violation("memory error or hang: %s\n%s" % (what, r.brief()))
    ans = qcl.answers(r)
    if bad:
        if any(k == "X" for k, _ in ans[:8]):
            raise Violation("driver\n" + r.brief())
        ans = ans[8:]
        note(env, "refused")
        note(env, "refused: " + bad)
        if any(k == "X" for k, _ in ans) or (r.refused() and len(ans) < 3):
            return
        raise Violation("a %s of the wrong size was not refused: %s\n%s" % (bad, what, r.brief()))
    if not r.ok() or len(ans) != len(kinds):
        raise Violation("ended early: %s\n%s" % (what, r.brief()))

    def compare(v, S, k, who):
        ref = S.ref(*k)
        want = ref["J_eff"] / g.HARTREE
        tol = ref["tol"]["J_eff"] / g.HARTREE * 3 + 1e-13 * abs(want)
        if not (math.isfinite(v) and abs(v - want) <= tol):
            raise Violation("%s returned %.17g for rows %s, expected %.17g (+- %g)\n%s" % (who, v, k, want, tol, what))

    seen = {}
    for knd, (kind, v) in zip(kinds, ans):
        j = jobs[knd[1]]
        if knd[0] == "setup":
            if kind != "ok":
                raise Violation("construction or lining up failed (%s): %s" % (v, what))
            continue
        if knd[0] == "calc":
            if kind == "X":
                raise Violation("calculate_transfer_integral refused valid matrices (%s): %s" % (v, what))
            compare(v, j["S"], knd[2], "calculate_transfer_integral of system %d" % knd[1])
            note(env, "direct")
            continue
        q, k = j["req"][knd[2]], j["rows"][knd[2]]
        if None in k:
            if kind != "X":
                raise Violation("request %s of system %d was not refused but answered %r: %s" % (q, knd[1], v, what))
            note(env, "refused")
            continue
        if kind == "X":
            raise Violation("valid request %s of system %d was refused (%s): %s" % (q, knd[1], v, what))
        compare(v, j["S"], k, "calcJ of system %d" % knd[1])
        key = (knd[1],) + tuple(q)
        if key in seen and seen[key] != v:
            raise Violation("request %s answered %r at first and then %r: %s" % (q, seen[key], v, what))
        if key in seen:
            note(env, "repeated request")
        seen[key] = v
        env.notes["valid"] = env.notes.get("valid", 0) + 1
    note(env, "counterpoise" if case["sys"]["cp"] else "plain")
