"""A missing .log or .pun argument is completed by the file of the same name."""
import os, re, shutil
from hypothesis import strategies as st
from .. import gauss as g, system as sy
from ..driver import hx
from ..engine import Violation, note
from . import al

DRIVERS = ["args", "calcj"]
N = {"quick": 16000, "thorough": 300000}
RULE = ("A case is a directory with any of the files stem.log/.pun/.7/.orb of three systems (stems and directories with dots, "
        "spaces, double slashes, symbolic links, relative and absolute) and a command line that names the .log, the coefficient file, both "
        "or none of each. Expected: given files as they are, missing ones the existing companion, refused if there is "
        "none. Non-trivial: at least one file is completed or the run is refused for lack of one.")
ASSUMPTIONS = ["if several companions exist (.pun, .7, .orb) any of them counts",
               "a file that is given but does not exist is only generated alone, where nothing can replace it"]
STEMS = ["a", "b", "a.b", "a.b.c", "a b", "x.log", "x.pun", "x.7", " lead", "trail ", "NOT_DEFINED", "true", "false", "..a",
         ".hid", "", "a.", "-p_1", "a\tb", "\xc3\xbc", "1", "log", "orb", "a..b", "a  b"]
DIRS = ["", "./", "s/", "s.d/", "./s/", "s//", "s p/", "../w/", "../w/s.d/", "s/../", "s.log/", "/abs/", "/abs/s.d/", ".h/", "s/t/u/", "lnk/", "lnk/../"]
LINES = [("log1", r"log file for first monomer is:"), ("log2", r"log file for second monomer is:"), ("logP", r"log file for dimer is:"),
         ("pun1", r"pun file for the first monomer is:"), ("pun2", r"pun file for the second monomer is:"),
         ("punP", r"pun file for the dimer is:")]


@st.composite
def system(draw):
    s = {"dir": draw(st.sampled_from(DIRS)), "stem": draw(st.sampled_from(STEMS)),
         "give": draw(st.sampled_from(["log"] * 8 + ["pun"] * 8 + ["both"] * 5 + ["none", "missing log", "missing pun"])),
         "ext": draw(st.sampled_from([".pun", ".7", ".orb"])),
         "comp": draw(st.sampled_from([[".pun"], [".7"], [".orb"]] * 4 + [[".pun", ".7"], [".7", ".orb"], [".pun", ".7", ".orb"], []])),
         "log": draw(st.integers(0, 9)) > 0,
         "dir2": draw(st.sampled_from(DIRS)), "stem2": draw(st.sampled_from(STEMS)), "before": draw(st.integers(0, 5)) == 0,
         "long": draw(st.booleans())}
    return s


@st.composite
def strategy_(draw):
    return {"sys": [draw(system()) for _ in range(3)], "order": list(draw(st.permutations(range(9)))),
            "real": draw(st.integers(0, 3)) == 0}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "completed" in notes or "refused" in notes


def check(case, env):
    top = os.path.join(env.dir, "fs")
    shutil.rmtree(top, ignore_errors=True)
    w = top + "/w"
    made = set()
    for d in ("s/t/u", "s.d", "s p", "s.log", ".h", "abs/s.d"):
        os.makedirs(w + "/" + d)
    os.symlink("abs/s.d", w + "/lnk")  # lnk/.. is abs

    def path(d, name):
        return (w + d if d.startswith("/abs") else d) + name

    def real(p):
        return os.path.join(os.path.realpath(os.path.join(w, os.path.dirname(p))), os.path.basename(p))

    def make(p):
        p = real(p)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p.encode("latin-1"), "w"):
            pass
        made.add(p)

    opts, given, absent = [], {}, set()
    for n, s in zip("12P", case["sys"]):
        base = path(s["dir"], s["stem"])
        other = path(s["dir2"], s["stem2"])
        lf = ("--log_" if s["long"] else "-l_") + n
        pf = ("--pun_" if s["long"] else "-p_") + n
        if s["give"] == "log":
            make(base + ".log")
            for e in s["comp"]:
                make(base + e)
            if s["before"]:
                make(other + ".log")
                make(other + s["ext"])
                opts.append([lf, other + ".log", lf, base + ".log"])
            else:
                opts.append([lf, base + ".log"])
            given["log" + n] = base + ".log"
        elif s["give"] == "pun":
            make(base + s["ext"])
            if s["log"]:
                make(base + ".log")
            if s["before"]:
                make(other + ".log")
                make(other + s["ext"])
                opts.append([pf, other + s["ext"], pf, base + s["ext"]])
            else:
                opts.append([pf, base + s["ext"]])
            given["pun" + n] = base + s["ext"]
        elif s["give"] == "both":
            make(base + ".log")
            make(other + s["ext"])
            # decoys
            for e in s["comp"]:
                make(base + e)
            if s["log"]:
                make(other + ".log")
            opts += [[lf, base + ".log"], [pf, other + s["ext"]]]
            given["log" + n], given["pun" + n] = base + ".log", other + s["ext"]
        elif s["give"] == "missing log":
            opts.append([lf, base + ".log"])
            absent.add(real(base + ".log"))
        elif s["give"] == "missing pun":
            opts.append([pf, base + s["ext"]])
            absent.add(real(base + s["ext"]))
    if absent & made:
        return
    want = {}
    refused = bool(absent)
    for n in "12P":
        for k, o, es in (("log", "pun", [".log"]), ("pun", "log", [".pun", ".7", ".orb"])):
            if k + n in given:
                want[k + n] = ("given", given[k + n])
            elif o + n in given:
                core = given[o + n]
                core = core[:len(core) - len(al.ext(core))]
                c = [core + e for e in es if real(core + e) in made]
                if c:
                    want[k + n] = ("companion", c)
                    note(env, "completed")
                    if len(c) > 1:
                        note(env, "several companions")
                else:
                    refused = True
            else:
                refused = True
    opts = [opts[i] for i in case["order"] if i < len(opts)]
    args = [t for o in opts for t in o]
    what = "files %s\narguments %s" % (sorted(os.path.relpath(p, w) for p in made), args)
    if refused:
        note(env, "refused")

    def verify(got):
        for k, (how, v) in want.items():
            if how == "given":
                if got[k] != v:
                    raise Violation("%s is %r, but %r was given\n%s" % (k, got[k], v, what))
            elif real(got[k]) not in [real(c) for c in v]:
                raise Violation("%s is %r, expected one of %r\n%s" % (k, got[k], v, what))

    r, ans = al.run(env, "cd %s\ncli %s\n" % (hx(w), al.lst(["calc_J"] + args)), what)
    if len(ans) < 2:
        raise Violation("ended early\n%s\n%s" % (what, r.brief()))
    kind, got = ans[1]
    if refused:
        if kind != "X":
            raise Violation("accepted as %s though a file is missing\n%s" % (got, what))
    elif kind == "X":
        raise Violation("refused (%s)\n%s" % (got, what))
    else:
        verify(dict(zip(al.PAR, got)))
    if not case["real"] or refused:
        return
    # real contents where they are expected; all other files stay empty
    S = _system()
    roles = {}
    for k, (how, v) in want.items():
        for p in [v] if how == "given" else v:
            roles.setdefault(real(p), set()).add(k)
    if any(len(v) > 1 for v in roles.values()):
        return
    for p, k in roles.items():
        k = k.pop()
        with open(p.encode("latin-1"), "w") as f:
            f.write((S.log if k[:3] == "log" else S.pun)("12P".index(k[3])))
    r = env.calcj(args, cwd=w)
    if not r.ok():
        raise Violation("calc_J failed\n%s\n%s" % (what, r.brief()))
    got = {}
    for k, rx in LINES:
        m = re.search(r"^" + rx + r"[ ]*(.*)$", r.out, re.M)
        if not m:
            raise Violation("calc_J does not say which file it takes (%s)\n%s\n%s" % (k, what, r.brief()))
        got[k] = m.group(1)
    for k, (how, v) in want.items():
        norm = lambda x: real(x.lstrip())
        if norm(got[k]) not in [norm(c) for c in ([v] if how == "given" else v)]:
            raise Violation("calc_J says %s is %r, expected %r\n%s" % (k, got[k], v, what))
    bad = g.compare(g.parse_out(r.out), S.ref(1, 0))
    if bad:
        raise Violation("wrong result\n%s\n%s" % ("\n".join(bad), what))
    note(env, "calc_J")


_S = []


def _system():
    if not _S:
        _S.append(sy.Sys({"nA": 1, "nf": [2, 1], "mo": [2, 1, 3], "occ": [[2, 1, 2]], "kind": "random", "cp": False,
                          "unres": False, "seed": 7, "pops": False, "perm": [0, 1], "fmtline": True, "ncols": 1,
                          "monoS": False}))
    return _S[0]
