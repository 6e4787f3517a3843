"""Contradictory definitions of flags and rules are refused and change nothing."""
import os
from hypothesis import strategies as st
from ..driver import hx
from ..engine import Violation, note
from . import al, c18, c19

DRIVERS = ["args"]
N = {"quick": 8000, "thorough": 150000}
RULE = ("A case is a valid set-up of a parser with 1-7 flags and a command line, as for C18, into which 1-6 wrong definitions are "
        "inserted anywhere: flags without or with two long names, two short names or descriptions, more than three texts, "
        "unknown types of argument, the same type twice, unknown properties and options, values of the wrong type or "
        "outside of what the option takes. Each must be refused, and parsing and reading back must give what the valid "
        "definitions alone say. One case in four is such a history on a single rule or argument (as for C19, with many wrong "
        "settings). Non-trivial: a wrong definition is followed by a parse that is accepted.")
ASSUMPTIONS = c18.ASSUMPTIONS + ["whether a file exists (FILE_DOES_EXIST) is not set from outside"]

# contradictory flags: L, S and D stand for a long name, a short name and a description
FLAGS = [["L", "L2"], ["L", "S", "S2"], ["L", "D", "D2"], ["S"], ["D"], ["S", "D"], ["L", "S", "D", "D2"], ["L", "L2", "D"], [],
         ["L", "S", "L2"], ["S", "S2"], ["L", "S", "D", "L2"], ["D", "D2"], ["S", "D", "S2", "L"], ["L", "L"], ["L", "S", "S"], ["L", "D", "D"],
         ["L", "L3", "S"], ["L", "S", "S3"], ["L", "S", "L3"], ["L", "D", "D3"]]
TEXT = {"L": "--long", "L2": "--other", "S": "-s", "S2": "-o", "D": "Some text", "D2": "more text",
        "L3": " --long", "S3": "-s ", "D3": " Some text"}
BADARG = ["ARGUMENT_FLOAT", "", "INT", "ARGUMENT_", "argument_int", "ARGUMENT_INTS", "ARGUMENT_SIZE_T", "PROPERTY_INT"]
BADEXT = ["a.log", "x.tar.gz", "d/a.log", "log.", "..log"]
# (kind of flag, argument, property, option, [(way, value)])
VEC = [["a.log"], [".log", "x.pun"], ["x.pun", ".log"]]
S = "ALLOWED_SISTER_FILE_EXT"
BAD = {
    "int": [("PROPERTY_INT", "MINIMUM", "i", 1), ("PROPERTY_INT", "", "i", 1), ("PROPERTY_DOUBLE", "MIN", "i", 1), ("", "MIN", "i", 1),
            ("PROPERTY_INT", "MIN", "d", 1.0), ("PROPERTY_INT", "MAX", "s", "1"), ("PROPERTY_INT", "MAX", "set", ["1"]),
            ("PROPERTY_INT", "MIN", "vec", ["1"]), ("PROPERTY_INT", "min", "i", 0)],
    "double": [("PROPERTY_DOUBLE", "MINIMUM", "d", 1.0), ("PROPERTY_DOUBLE", "MIN", "i", 1), ("PROPERTY_INT", "MIN", "d", 1.0),
               ("PROPERTY_DOUBLE", "MAX", "s", "1.0"), ("PROPERTY_DOUBLE", "MAX", "set", ["1"]), ("PROPERTY_DOUBLE", "", "d", 0.0)],
    "string": [("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "s", "TRUE"), ("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "s", ""),
               ("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "s", "yes"), ("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "set", ["true", "false"]),
               ("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "set", []), ("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "set", ["red"]),
               ("PROPERTY_STRING_CHOICE", "STRING_CHOICE", "s", "red"), ("PROPERTY_STRING_CHOICE", "STRING_CHOICES", "i", 1),
               ("PROPERTY_STRING_CHOICE", "STRING_CHOICES", "d", 1.0), ("PROPERTY_STRING_CHOICE", "STRING_CHOICES", "vec", ["red"]),
               ("PROPERTY_FILE_EXT", "STRING_CHOICES", "s", "red"), ("PROPERTY_STRING_CHOICES", "STRING_CHOICES", "set", ["red"]),
               ("PROPERTY_STRING_CHOICE", "CHOICES", "set", ["red", "blue"])],
    "switch": [("PROPERTY_SWITCH", "DEFAULT", "i", 2), ("PROPERTY_SWITCH", "DEFAULT", "i", -1), ("PROPERTY_SWITCH", "DEFAULT", "s", "MAYBE"),
               ("PROPERTY_SWITCH", "DEFAULT", "s", ""), ("PROPERTY_SWITCH", "DEFAULT", "s", "on"), ("PROPERTY_SWITCH", "DEFAULTS", "s", "ON"),
               ("PROPERTY_SWITCH", "DEFAULT", "d", 1.0), ("PROPERTY_SWITCH", "DEFAULT", "set", ["ON"]), ("PROPERTY_STRING", "DEFAULT", "s", "ON"),
               ("PROPERTY_SWITCH", "", "i", 1), ("PROPERTY_SWITCH", "DEFAULT", "vec", ["ON"])],
    "file": [("PROPERTY_FILE_EXIST", "MUST_EXIST", "i", 1), ("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", "d", 1.0),
             ("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", "s", "1"), ("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", "vec", ["1"]),
             ("PROPERTY_FILE_EXT", "FILE_EXT", "set", [".log"]), ("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "i", 1),
             ("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "vec", [".log"]), ("PROPERTY_FILE", "ALLOWED_FILE_EXT", "set", [".log"]),
             ("PROPERTY_SISTER_FILE", "SISTER", "vec", [".log"]), ("PROPERTY_SISTER_FILE", S, "i", 1), ("PROPERTY_SISTER_FILE", S, "set", [".log"]),
             ("PROPERTY_SISTER_FILE", "ALLOWED_FILE_EXT", "vec", [".log"]), ("PROPERTY_STRING_CHOICE", "STRING_CHOICES", "s", "red")] +
            [("PROPERTY_SISTER_FILE", o, w, v) for o in ("SISTER_FILE_EXISTS", "SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME")
             for w, v in (("s", "true"), ("vec", ["a.log", "true"]))] +
            [("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "s", x) for x in BADEXT] + [("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "set", [".log", x]) for x in BADEXT] +
            [("PROPERTY_SISTER_FILE", S, "s", x) for x in BADEXT] + [("PROPERTY_SISTER_FILE", S, "vec", x) for x in VEC],
}

# settings that would be right for an argument of that kind
GOOD = {
    "int": [("PROPERTY_INT", "MIN", "i", 1), ("PROPERTY_INT", "MAX", "i", 1)],
    "double": [("PROPERTY_DOUBLE", "MIN", "d", 1.0), ("PROPERTY_DOUBLE", "MAX", "d", 1.0)],
    "string": [("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", "s", "true"), ("PROPERTY_STRING_CHOICE", "STRING_CHOICES", "set", ["red"])],
    "switch": [("PROPERTY_SWITCH", "DEFAULT", "i", 1), ("PROPERTY_SWITCH", "DEFAULT", "i", 0), ("PROPERTY_SWITCH", "DEFAULT", "s", "ON")],
    "file": [("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", "i", 1), ("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "set", [".log"]),
             ("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", "s", ".log"), ("PROPERTY_SISTER_FILE", S, "s", ".log"),
             ("PROPERTY_SISTER_FILE", S, "vec", [".log", ".pun"])],
}


@st.composite
def wrong(draw, flags):
    at = draw(st.integers(0, 999))
    k = draw(st.integers(0, 9))
    if k == 0:
        # a parser of its own; the names come in any order
        return {"do": "flags", "at": at, "items": draw(st.permutations(draw(st.sampled_from(FLAGS)))), "good": draw(st.integers(0, 2))}
    f = draw(st.integers(0, len(flags) - 1))
    if k == 1:
        return {"do": "type", "at": at, "flag": f, "arg": draw(st.sampled_from(BADARG))}
    if k == 2:
        return {"do": "twice", "flag": f, "at": at}
    if k == 3:
        # a rule of an argument that the flag may have, given as one that does not exist
        kind = flags[f]["kind"]
        if draw(st.booleans()):
            other = [c18.ARG[x] for x in sorted(GOOD) if x != kind]
            return {"do": "optarg", "at": at, "flag": f, "bad": list(draw(st.sampled_from(GOOD[kind]))), "arg": draw(st.sampled_from(BADARG + other))}
        return {"do": "optarg", "at": at, "flag": f, "bad": list(draw(st.sampled_from(BAD[kind]))), "arg": draw(st.sampled_from(BADARG))}
    if k == 4:
        return {"do": "ask", "at": at, "flag": f, "which": draw(st.integers(0, 11))}
    return {"do": "opt", "at": at, "flag": f, "bad": list(draw(st.sampled_from(BAD[flags[f]["kind"]])))}


@st.composite
def strategy_(draw):
    if draw(st.integers(0, 3)) == 0:
        return {"rule": draw(c19.strategy_(wrong=True))}
    p = draw(c18.parser(calm=draw(st.integers(0, 3)) > 0))
    return {"parser": p, "wrong": draw(st.lists(wrong(p["flags"]), min_size=1, max_size=6))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return "accepted" in notes or "refused and used" in notes


def enc(way, v):
    return "%d" % v if way == "i" else "%r" % v if way == "d" else hx(v) if way == "s" else al.lst(v)


NAME = {"i": "opti", "d": "optd", "s": "opts", "set": "optset", "vec": "optvec"}


def wrong_op(w, flags):
    if w["do"] == "flags":
        items = [["--good%d" % i, "-g%d" % i, "Text"] for i in range(w["good"])] + [[TEXT[x] for x in w["items"]]]
        return "new 9 %d %s" % (len(items), " ".join(al.lst(i) for i in items))
    f = flags[w["flag"]]
    a = c18.ARG[f["kind"]]
    if w["do"] == "type":
        return "add 0 %s %s" % (hx(f["long"]), hx(w["arg"]))
    if w["do"] == "twice":
        return "add 0 %s %s" % (hx(f["long"]), hx(a))
    if w["do"] == "ask":
        good = c18.rules(dict(f, set=[]), None, None)[0]
        other = sorted(set(c18.ARG.values()) - {a})
        n = [[f["long"], a, good[0], "NOTHING"], [f["long"], a, "PROPERTY_NONE", good[1]], [f["long"], "ARGUMENT_NONE", good[0], good[1]],
             ["--none", a, good[0], good[1]], [f["long"] + "x", a, good[0], good[1]], [f["long"], a, "", ""], [f["long"], "", good[0], good[1]],
             ["", a, good[0], good[1]]] + [[f["long"], x, good[0], good[1]] for x in other]
        n = n[w["which"] % len(n)]
        return "val 0 " + " ".join(hx(x) for x in n)
    prop, o, way, v = w["bad"]
    return "%s 0 %s %s %s %s %s" % (NAME[way], hx(f["long"]), hx(a if w["do"] == "opt" else w["arg"]), hx(prop), hx(o), enc(way, v))


def check(case, env):
    if "rule" in case:
        c19.check(case["rule"], env)
        return
    d = os.path.join(env.dir, "p")
    if not os.path.isdir(d):
        os.makedirs(d + "/d.x")
        for f in c18.EXIST:
            open(d + "/" + f, "w").close()
    p = case["parser"]
    good = [(o, ("ok", None)) for o in c18.setup(0, p)]
    seq = good[:]
    last = []
    for w in case["wrong"]:
        item = (wrong_op(w, p["flags"]), ("X", w))
        if w["do"] == "twice":
            last.append(item)
        else:
            seq.insert(1 + w["at"] % len(seq), item)
        note(env, w["do"] if w["do"] != "opt" else "rule of " + p["flags"][w["flag"]]["kind"])
    seq += last
    try:
        v = c18.model(p)
        seq.append(("parse 0 " + al.lst(["prog"] + p["toks"]), ("ok", None)))
        for f in p["flags"]:
            for g, x in c18.expected(f, v[f["long"]]):
                seq.append(("%s 0 %s" % (g, hx(f["long"])), ("X", "no value") if x == "X" else ("ok", x)))
            for prop, o, x in c18.rules(f, v, p["given"].get(f["long"])):
                seq.append(("val 0 %s %s %s %s" % (hx(f["long"]), hx(c18.ARG[f["kind"]]), hx(prop), hx(o)), ("ok", x)))
        for g in ("geti", "getd", "gets", "getu"):
            seq.append(("%s 0 %s" % (g, hx("--none")), ("X", "no such flag")))
        note(env, "accepted")
    except al.Refused as e:
        seq.append(("parse 0 " + al.lst(["prog"] + p["toks"]), ("X", str(e))))
    what = "flags %s\narguments %s" % (p["flags"], p["toks"])
    r, ans = al.run(env, "\n".join(["cd " + hx(d)] + [o for o, _ in seq]) + "\n", what)
    if not r.ok() or len(ans) != len(seq) + 1:
        raise Violation("ended early\n%s\n%s" % (what, r.brief()))
    for (o, w), a in zip(seq, ans[1:]):
        if a[0] != w[0]:
            raise Violation("%s: %s (%s), expected %s\n%s" % (
                c18.show(o), "refused" if a[0] == "X" else "accepted", a[1], "refusal: %s" % (w[1],) if w[0] == "X" else "no refusal", what))
        if w[0] == "ok" and w[1] is not None and a[1] != w[1]:
            raise Violation("%s: %r, expected %r\n%s" % (c18.show(o), a[1], w[1], what))
