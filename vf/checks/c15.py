"""Command line options mean the same in any order and spelling."""
import os
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..driver import hx
from ..engine import Violation, note
from . import al

DRIVERS = ["args", "calcj"]
N = {"quick": 16000, "thorough": 400000}
RULE = ("A case is a command line: the six files and any other options, each possibly several times, in any order and "
        "spelling, with at most a few faults (wrong value, extension, unknown option, missing value, option left out). A "
        "reference interpreter of the documentation says refused or which parameters result; one in four valid ones also "
        "runs calc_J on real files. Non-trivial: at least two options beyond the six files, or a fault.")
ASSUMPTIONS = ["numbers with trailing letters (1x) are not generated: the documentation says nothing about them",
               "all files given explicitly exist, and none has a companion (C16)"]
NAMES = {}
for _n in "12P":
    NAMES["log" + _n] = ["a%s.log" % _n, "b%s.log" % _n, "./a%s.log" % _n, "d/%s.log" % _n, "c %s.log" % _n, "%s.y.log" % _n]
    NAMES["pun" + _n] = ["p%s.pun" % _n, "q%s.7" % _n, "%s.orb" % _n, "./p%s.pun" % _n, "d/s%s.pun" % _n, "s %s.pun" % _n,
                         "%s.z.7" % _n]
BADFILE = {"log": ["p.pun", "a.txt", "a", "a.LOG", "log", "a.log.", "d.log/a", "", "a.logs"],
           "pun": ["a.log", "p.txt", "p", "p.PUN", "7", "p.pun.", "d.pun/p", "", "p.77", "p.pu"]}
BADSTR = ["alpha", "BETA", "Gamma", "homo", "Lumo", "SOMO", "", "Alpha ", "HOMO-1", "Alph", "HOM", "ON", "0", "AlphaBeta"]
BADNUM = ["x", "", "-", "99999999999", "-99999999999", "HOMO", "--1"]
BADSW = ["on", "2", "-1", "yes", "True", "", "00", "ONN", "OF", "a.log"]
UNKNOWN = ["--spin", "-s", "--pun_3", "-p_3", "--log_p", "foo", "", "-", "--", "--orbital_num_P", "-orb_num", "--spin_1 ",
           "--counterpoise", "-c", "ON", "a.log", "Alpha", "7", "--pun_P=p.pun"]


@st.composite
def item(draw, bad):
    k = draw(st.integers(0, 9))
    long_ = draw(st.booleans())
    pick = lambda d, want: [f for f in d if d[f] == want and f.startswith("--") == long_][0]
    if k <= 2:
        want = draw(st.sampled_from(sorted(set(al.FILES.values()))))
        return [pick(al.FILES, want), draw(st.sampled_from(BADFILE[want[:3]] if bad else NAMES[want]))]
    if k <= 4:
        want = draw(st.sampled_from(sorted(set(al.SPINS.values()))))
        return [pick(al.SPINS, want), draw(st.sampled_from((["HOMO", "LUMO"] + BADSTR) if bad else ["Alpha", "Beta"]))]
    if k <= 6:
        want = draw(st.sampled_from(sorted(set(al.TYPES.values()))))
        return [pick(al.TYPES, want), draw(st.sampled_from((["Alpha", "Beta"] + BADSTR) if bad else ["HOMO", "LUMO"]))]
    if k == 7:
        want = draw(st.sampled_from(sorted(set(al.NUMS.values()))))
        return [pick(al.NUMS, want),
                draw(st.sampled_from(BADNUM)) if bad else draw(st.sampled_from(
                    ["0", "0", "1", "-1", "2", "-2", "3", "-0", "+1", "-03", "2147483647", "-2147483648"]))]
    if k == 8:
        f = al.CP[0 if long_ else 1]
        if bad:
            return [f, draw(st.sampled_from(BADSW))]
        return [f] + draw(st.sampled_from([[], [], ["ON"], ["OFF"], ["TRUE"], ["FALSE"], ["1"], ["0"]]))
    return [al.CITE[0 if long_ else 1]]


@st.composite
def strategy_(draw):
    out = []
    drop = draw(st.sampled_from([None] * 50 + list(range(6))))
    for i, want in enumerate(["log1", "log2", "logP", "pun1", "pun2", "punP"]):
        if i != drop:
            f = draw(st.sampled_from([f for f in al.FILES if al.FILES[f] == want]))
            out.append([f, draw(st.sampled_from(NAMES[want]))])
    for _ in range(draw(st.integers(0, 7))):
        out.append(draw(item(False)))
    # numbers whose sign goes with the type are much more useful than ones that do not
    for n in "12":
        if draw(st.booleans()):
            ty = draw(st.sampled_from(["HOMO", "LUMO"]))
            v = draw(st.integers(0, 3))
            out = [x for x in out if al.NUMS.get(x[0]) != "num" + n and al.TYPES.get(x[0]) != "type" + n]
            if ty == "LUMO" or draw(st.booleans()):
                out.append([draw(st.sampled_from(["--orbital_type_" + n, "-orb_ty_" + n])), ty])
            out.append([draw(st.sampled_from(["--orbital_num_" + n, "-orb_num_" + n])),
                        str(v if ty == "LUMO" else -v)])
    fault = draw(st.sampled_from([0] * 7 + [1, 2, 3, 4]))
    if fault == 1:
        out.append(draw(item(True)))
    elif fault == 2:
        out.append([draw(st.sampled_from(UNKNOWN))])
    out = draw(st.permutations(out))
    args = [t for x in out for t in x]
    if fault == 3:
        args.append(draw(st.sampled_from([f for f in al.KNOWN if f not in al.CITE + al.VERSION + al.HELP])))
    elif fault == 4 and args:
        del args[draw(st.integers(0, len(args) - 1))]
    args = [a for a in args if a not in al.VERSION + al.HELP]
    return {"args": args, "real": draw(st.integers(0, 3)) == 0, "seed": draw(st.integers(0, 50))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "refused" in notes or sum(1 for a in case["args"] if a in al.KNOWN) >= 8


_files = {}


def files(env, seed):
    """All names of a role hold the same valid data."""
    d = os.path.join(env.dir, "cl%d" % seed)
    if d not in _files:
        S = sy.Sys({"nA": 2, "nf": [2, 1, 2], "mo": [3, 2, 5], "occ": [[2, 1, 3], [1, 1, 2]], "kind": "random",
                    "cp": False, "unres": True, "seed": seed, "pops": False, "perm": [0, 1, 2], "fmtline": True,
                    "ncols": 1, "monoS": False})
        os.makedirs(d + "/d", exist_ok=True)
        for n in sum(NAMES.values(), []) + BADFILE["log"] + BADFILE["pun"]:
            if n and "d.log/" not in n and "d.pun/" not in n and not os.path.exists(d + "/" + n):
                sy.put(d + "/" + n, "\n")
        _files[d] = S
    return d, _files[d]


def check(case, env):
    args = case["args"]
    try:
        want = al.interpret(args)
        for k in ("log", "pun"):
            for n in "12P":
                if k + n not in want:
                    raise al.Refused("no file " + k + n)
    except al.Refused as e:
        want = None
        note(env, "refused")
        note(env, "refused: " + str(e).split()[0])
    d, S = files(env, case["seed"])
    r, ans = al.run(env, "cd %s\ncli %s\n" % (hx(d), al.lst(["calc_J"] + args)), args)
    if len(ans) < 2:
        # ended by itself: for a command line of nothing but --citation, which is refused below only by its status
        if args and all(a in al.CITE for a in args):
            return
        raise Violation("ended while reading %s\n%s" % (args, r.brief()))
    kind, got = ans[1]
    if (kind == "X") != (want is None):
        raise Violation("%s should be %s but is %s (%s)" % (
            args, "refused" if want is None else "accepted as %s" % want, "refused" if kind == "X" else "accepted", got))
    if want is not None:
        got = dict(zip(al.PAR, got))
        bad = [k for k in al.PAR if got[k] != want[k]]
        if bad:
            raise Violation("%s\n%s" % (args, "\n".join("%s is %r, expected %r" % (k, got[k], want[k]) for k in bad)))
        note(env, "accepted")
    if not case["real"]:
        return
    if want is None:
        r = env.calcj(args, cwd=d)
        if r.crashed() or not r.refused() or any(k in r.out for k in g.KEYS):
            raise Violation("calc_J did not refuse %s\n%s" % (args, r.brief()))
        note(env, "calc_J refused")
        return
    roles = {}
    for k in ("log1", "log2", "logP", "pun1", "pun2", "punP"):
        roles.setdefault(os.path.normpath(want[k]), set()).add(k[3:])
    if any(len(v) > 1 for v in roles.values()) or want["cp"]:
        # one file in two places is not a consistent system; only the parameters were compared
        return
    for n in "12P":
        w = "12P".index(n)
        sy.put(os.path.join(d, want["log" + n]), S.log(w))
        sy.put(os.path.join(d, want["pun" + n]), S.pun(w))
    r = env.calcj(args, cwd=d)
    rows = []
    for w, n in enumerate("12"):
        k = S.occ[want["spin" + n]][w] + want["num" + n] - (want["type" + n] == "HOMO")
        rows.append(k if 0 <= k < S.s["mo"][w] else None)
    if None in rows:
        if r.crashed() or not r.refused():
            raise Violation("an orbital that does not exist was not refused: %s\n%s" % (args, r.brief()))
        note(env, "calc_J, no such orbital")
        return
    if not r.ok():
        raise Violation("calc_J failed on %s\n%s" % (args, r.brief()))
    ref = S.ref(rows[0], rows[1], want["spinP"], want["spin1"], want["spin2"])
    bad = g.compare(g.parse_out(r.out), ref)
    if bad:
        raise Violation("wrong result for %s\n%s\n%s" % (args, "\n".join(bad), r.out))
    note(env, "calc_J")
