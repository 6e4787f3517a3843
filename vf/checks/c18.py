"""ArgumentParser stores what was given and refuses what is not allowed."""
import os
from hypothesis import strategies as st
from ..driver import hx
from ..engine import Violation, note
from . import al

DRIVERS = ["args"]
N = {"quick": 14000, "thorough": 250000}
RULE = ("A case sets up one or two parsers with 1-7 flags (string, int, double, file, switch) with names, choices, bounds, "
        "extensions and defaults, set in any order and some of them twice, and parses 1-14 tokens: values inside, on and "
        "outside the limits, bare switches, repeated flags, unknown flags, missing values. A reference model says refused "
        "or what every getter returns, which rules are in force, and which files and companion files exist. Non-trivial: at least two flags are given, or the line is refused.")
ASSUMPTIONS = ["numbers with trailing text, and names that mean help, version or citation, are not generated"]
LONG = ["--alpha", "--beta", "--a", "--ab", "--abc", "--x_1", "--x_11", "--x-1", "--Alpha", "--h", "--verbose", "--vers", "--0", "--file"]
SHORT = ["-a", "-b", "-ab", "-abc", "-x_1", "-x", "-A", "-hh", "-ver", "-c", "-0", "-f", "-1", "-cit"]
INTS = [0, 1, -1, 2, 5, 10, -10, 99, 2 ** 31 - 1, -2 ** 31, 2 ** 31 - 2, 100000]
DBLS = [0.0, 1.0, -1.0, 0.5, -0.5, 1e-9, 1e300, -1e300, 3.25, 10.0, 1.7976931348623157e308, -1.7976931348623157e308]
WORDS = ["red", "green", "blue", "r", "Red", "red blue", "", "ON", "0", "-", "red ", "purple"]
EXTS = [".log", ".pun", ".7", ".c", ".tar", "", "*", ".LOG"]
FILES = ["e1.log", "e2.pun", "d.x/e3", "e4.7", "e5.a.c", "no.log", "no2.pun", "d.x/none", "no4.7", "e6.LOG", "no.lo", ".log"]
EXIST = {"e1.log", "e1.pun", "e1.7", "e5.a.log", "d.x/e3.orb", "no.pun", "e2.pun", "d.x/e3", "e4.7", "e5.a.c", "e6.LOG"}
SIST = [".log", ".pun", ".7", ".c", ".orb"]
DESC = st.lists(st.text("abcdeXYZ.,'()", min_size=1, max_size=14), min_size=1, max_size=30).map(" ".join)
SWITCH = ["ON", "OFF", "TRUE", "FALSE", "1", "0"]


@st.composite
def flag(draw, i, names, shorts):
    kind = draw(st.sampled_from(["string", "int", "double", "file", "switch"]))
    f = {"kind": kind, "long": names[i], "short": shorts[i] if draw(st.integers(0, 3)) else None,
         "desc": draw(st.one_of(st.sampled_from([None, "Some text", "x"]), DESC)), "order": list(draw(st.permutations(range(3)))), "set": []}
    n = draw(st.integers(0, 4))
    if kind == "int":
        for _ in range(n):
            f["set"].append([draw(st.sampled_from(["MIN", "MAX"])), draw(st.sampled_from(INTS))])
        f["def"] = draw(st.sampled_from([None] + INTS))
    elif kind == "double":
        for _ in range(n):
            f["set"].append([draw(st.sampled_from(["MIN", "MAX"])), draw(st.sampled_from(DBLS))])
        f["def"] = draw(st.sampled_from([None] + DBLS))
    elif kind == "string":
        for _ in range(n):
            if draw(st.booleans()):
                f["set"].append(["STRING_CHOICE_ENFORCED", draw(st.sampled_from(["true", "true", "false"]))])
            else:
                f["set"].append(["STRING_CHOICES", draw(st.lists(st.sampled_from(WORDS), min_size=1 if draw(st.integers(0, 9)) else 0, max_size=4, unique=True))])
        f["def"] = draw(st.sampled_from([None] + WORDS))
    elif kind == "file":
        for _ in range(n):
            what = draw(st.integers(0, 2))
            if what == 0:
                f["set"].append(["FILE_MUST_EXIST", draw(st.integers(0, 1))])
            elif what == 1:
                f["set"].append(["ALLOWED_SISTER_FILE_EXT", draw(st.lists(st.sampled_from(SIST), min_size=1 if draw(st.integers(0, 9)) else 0, max_size=4, unique=True))])
            else:
                f["set"].append(["ALLOWED_FILE_EXT", draw(st.lists(st.sampled_from(EXTS), min_size=1 if draw(st.integers(0, 9)) else 0, max_size=4, unique=True))])
        f["def"] = draw(st.sampled_from([None] + FILES))
    else:
        for _ in range(min(n, 2)):
            f["set"].append(["DEFAULT", draw(st.sampled_from(["ON", "OFF", 0, 1]))])
        f["def"] = draw(st.sampled_from([None, 0, 1] + SWITCH))
    # a default of type size_t, which no argument changes
    f["size"] = draw(st.sampled_from([None] * 5 + [0, 1, 77, 2 ** 32, 2 ** 64 - 1]))
    return f


@st.composite
def tokens(draw, fl, calm=False):
    toks = []
    fault = 9 if calm else draw(st.integers(0, 9))
    for _ in range(draw(st.integers(1, 8))):
        f = draw(st.sampled_from(fl))
        toks.append(f["short"] if f["short"] and draw(st.booleans()) else f["long"])
        k = f["kind"]
        st_ = {s[0]: s[1] for s in f["set"]}
        wild = not calm and draw(st.integers(0, 11)) == 0
        if k == "int":
            lo, hi = st_.get("MIN", -2 ** 31), st_.get("MAX", 2 ** 31 - 1)
            c = [x for x in INTS + [lo, hi, lo + 1, hi - 1] if lo <= x <= hi] or [lo]
            v = str(draw(st.sampled_from(c)))
            if wild:
                v = draw(st.sampled_from([str(lo - 1), str(hi + 1), str(lo), str(hi), "99999999999", "x", "", "-", " 7", "+7", "007"]))
        elif k == "double":
            lo, hi = st_.get("MIN", -1.7976931348623157e308), st_.get("MAX", 1.7976931348623157e308)
            c = [x for x in DBLS + [lo, hi] if lo <= x <= hi] or [lo]
            v = repr(draw(st.sampled_from(c)))
            if wild:
                v = draw(st.sampled_from(["1e999", "x", "", "-", ".5", "5.", "+2", "1E3", "-1e-3", repr(lo * 2 - 1), repr(hi * 2 + 1)]))
        elif k == "string":
            c = st_.get("STRING_CHOICES", WORDS) if st_.get("STRING_CHOICE_ENFORCED") == "true" else WORDS
            v = draw(st.sampled_from(WORDS if wild or not c else c))
        elif k == "file":
            ex = st_.get("ALLOWED_FILE_EXT", ["*"])
            c = [x for x in FILES if "*" in ex or al.ext(x) in ex]
            if st_.get("FILE_MUST_EXIST"):
                c = [x for x in c if x in EXIST]
            v = draw(st.sampled_from(FILES if wild or not c else c))
        else:
            v = draw(st.sampled_from([None, None] + SWITCH + (["2", "on", "true", "ONN"] if wild else [])))
        if v is not None:
            toks.append(v)
    if fault == 0:
        toks.insert(draw(st.integers(0, len(toks))), draw(st.sampled_from(["--nope", "-zz", "nope", "", "--", "-", "--alph", "--alphaa", "NO_SHORT_FLAG_SPECIFIED",
                                                                                   "NO_FLAG_SPECIFIED"])))
    elif fault == 1:
        del toks[draw(st.integers(0, len(toks) - 1))]
    elif fault == 2:
        f = draw(st.sampled_from(fl))
        toks.append(f["long"])
    return toks


@st.composite
def parser(draw, calm=False):
    n = draw(st.integers(1, 7))
    names = draw(st.permutations(LONG))
    shorts = draw(st.permutations(SHORT))
    fl = [draw(flag(i, names, shorts)) for i in range(n)]
    toks = draw(tokens(fl, calm))
    order = draw(st.permutations([i for i, f in enumerate(fl) for _ in range(len(f["set"]) + 1)]))
    more = draw(st.lists(tokens(fl), max_size=3)) if not calm and draw(st.integers(0, 4)) == 0 else []
    return {"flags": fl, "setorder": list(order), "toks": toks, "more": more, "seed": None}


@st.composite
def strategy_(draw):
    return {"parsers": [draw(parser()) for _ in range(draw(st.sampled_from([1, 1, 2])))],
            "help": draw(st.sampled_from([""] * 4 + ["--help", "-h"]))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    p = case["parsers"][0]
    names = {n for f in p["flags"] for n in (f["long"], f["short"])}
    return "refused" in notes or sum(t in names for t in p["toks"]) >= 2


ARG = {"string": "ARGUMENT_STRING", "int": "ARGUMENT_INT", "double": "ARGUMENT_DOUBLE", "file": "ARGUMENT_FILE",
       "switch": "ARGUMENT_SWITCH"}
PROP = {"MIN": None, "MAX": None, "STRING_CHOICE_ENFORCED": "PROPERTY_STRING_CHOICE", "STRING_CHOICES": "PROPERTY_STRING_CHOICE",
        "FILE_MUST_EXIST": "PROPERTY_FILE_EXIST", "ALLOWED_FILE_EXT": "PROPERTY_FILE_EXT",
        "ALLOWED_SISTER_FILE_EXT": "PROPERTY_SISTER_FILE", "DEFAULT": "PROPERTY_SWITCH"}


def setup(k, p):
    """Operations that set the parser up; every flag ends up with its argument type."""
    out = []
    items = []
    for f in p["flags"]:
        it = [f["long"]] + ([f["short"]] if f["short"] else [])
        full = [f["long"], f["short"], f["desc"]]
        items.append([full[i] for i in f["order"] if full[i] is not None])
    out.append("new %d %d %s" % (k, len(items), " ".join(al.lst(i) for i in items)))
    pos = [0] * len(p["flags"])
    for i in p["setorder"]:
        f = p["flags"][i]
        a = ARG[f["kind"]]
        if pos[i] == 0 and not f["set"]:
            out.append("add %d %s %s" % (k, hx(f["long"]), hx(a)))
        if pos[i] < len(f["set"]):
            o, v = f["set"][pos[i]]
            prop = PROP[o] or ("PROPERTY_INT" if f["kind"] == "int" else "PROPERTY_DOUBLE")
            head = "%d %s %s %s %s" % (k, hx(f["long"]), hx(a), hx(prop), hx(o))
            if isinstance(v, bool) or isinstance(v, int):
                out.append("opti %s %d" % (head, v))
            elif isinstance(v, float):
                out.append("optd %s %r" % (head, v))
            elif isinstance(v, list):
                out.append("opts %s %s" % (head, hx(v[0])) if len(v) == 1 and len(f["desc"] or "") != 1 else
                           "%s %s %s" % ("optvec" if o == "ALLOWED_SISTER_FILE_EXT" else "optset", head, al.lst(v)))
            else:
                out.append("opts %s %s" % (head, hx(v)))
        elif f["def"] is not None:
            d = f["def"]
            out.append("def%s %d %s %s" % ("d" if isinstance(d, float) else "i" if isinstance(d, int) else "s", k,
                                           hx(f["long"]), repr(d) if isinstance(d, (int, float)) else hx(d)))
            if f.get("size") is not None:
                out.append("defu %d %s %d" % (k, hx(f["long"]), f["size"]))
        elif f.get("size") is not None:
            out.append("defu %d %s %d" % (k, hx(f["long"]), f["size"]))
        pos[i] += 1
    return out


def model(p, toks=None, before=None, took=None):
    """Raise Refused, or the values of all flags: long name -> value or None.  took: gets the values that were accepted."""
    names = {}
    for f in p["flags"]:
        names[f["long"]] = f
    for f in p["flags"]:
        if f["short"]:
            names.setdefault(f["short"], f)
    val = {f["long"]: f["def"] for f in p["flags"]}
    opt = {f["long"]: {s[0]: s[1] for s in f["set"]} for f in p["flags"]}
    given = {}
    t = p["toks"] if toks is None else toks
    if not t:
        raise al.Refused("nothing")
    i = 0
    while i < len(t):
        f = names.get(t[i])
        i += 1
        if f is None:
            raise al.Refused("unknown flag")
        L, o = f["long"], opt[f["long"]]
        if f["kind"] == "switch":
            if i >= len(t) or t[i] in names:
                val[L] = "ON"
            elif t[i] in SWITCH:
                val[L] = t[i]
                i += 1
            else:
                raise al.Refused("switch value")
            if took is not None:
                took.append((L, val[L]))
            continue
        if i >= len(t):
            raise al.Refused("missing value")
        v = t[i]
        i += 1
        if f["kind"] == "string":
            if o.get("STRING_CHOICE_ENFORCED") == "true" and v not in o.get("STRING_CHOICES", ["NOT_DEFINED"]):
                raise al.Refused("choice")
            val[L] = v
        elif f["kind"] == "int":
            n = al.number(v.strip())
            if not o.get("MIN", -2 ** 31) <= n <= o.get("MAX", 2 ** 31 - 1):
                raise al.Refused("bounds")
            val[L] = n
        elif f["kind"] == "double":
            try:
                x = float(v)
            except ValueError:
                raise al.Refused("number")
            if x in (float("inf"), float("-inf")) or not o.get("MIN", -1.7976931348623157e308) <= x <= o.get("MAX", 1.7976931348623157e308):
                raise al.Refused("bounds")
            val[L] = x
        else:
            ex = o.get("ALLOWED_FILE_EXT", ["*"])
            if "*" not in ex and al.ext(v) not in ex:
                raise al.Refused("extension")
            if o.get("FILE_MUST_EXIST") and v not in EXIST:
                raise al.Refused("missing file")
            given[L] = v
            val[L] = v
        if took is not None:
            took.append((L, val[L]))
    for f in p["flags"]:
        if f["kind"] == "file" and opt[f["long"]].get("FILE_MUST_EXIST") and f["long"] not in given:
            if before is not None:
                raise Unclear()
            raise al.Refused("missing file")
    if before is None:
        p["given"] = given
    return val


class Unclear(Exception):
    pass


def again(k, p, ops, want, env):
    """Further lines for the same parser: what a flag that is given means, and that refused values do not come back."""
    first = []
    may = {f["long"]: [f["def"]] for f in p["flags"]}
    try:
        model(p, took=first)
        last = dict(first)
    except al.Refused:
        last = {}
    for L, x in first:
        may[L] = [x] if L in last else may[L] + [x]
    for L in last:
        may[L] = [last[L]]
    for toks in p.get("more") or []:
        took = []
        try:
            model(p, toks, before=may, took=took)
            ok = True
        except al.Refused as e:
            ok = False
        except Unclear:
            return
        ops.append("parse %d %s" % (k, al.lst(["prog"] + toks)))
        want.append(("ok", None) if ok else ("X", "line %s" % toks))
        now = dict(took)
        for f in p["flags"]:
            L = f["long"]
            if ok and L in now:
                may[L] = [now[L]]
            else:
                # not said: the default, or the value of an earlier line
                may[L] = may[L] + [x for n, x in took if n == L] + [f["def"]]
            poss = [expected(f, x) for x in may[L]]
            for n, (g, _) in enumerate(poss[0] if f["kind"] != "switch" else [("geti", 0), ("gets", 0)]):
                ops.append("%s %d %s" % (g, k, hx(L)))
                want.append(("in", [q[n][1] for q in poss]))
        note(env, "further line " + ("accepted" if ok else "refused"))


def rules(f, v, last):
    """[(property, option, value)] that can be asked for; last: the file name given last or None."""
    o = {s[0]: s[1] for s in f["set"]}

    def join(x):
        return " ".join(x).strip()
    if f["kind"] == "int":
        return [("PROPERTY_INT", "MIN", str(o.get("MIN", -2 ** 31))), ("PROPERTY_INT", "MAX", str(o.get("MAX", 2 ** 31 - 1)))]
    if f["kind"] == "double":
        m = 1.7976931348623157e308
        return [("PROPERTY_DOUBLE", "MIN", "%f" % o.get("MIN", -m)), ("PROPERTY_DOUBLE", "MAX", "%f" % o.get("MAX", m))]
    if f["kind"] == "string":
        return [("PROPERTY_STRING_CHOICE", "STRING_CHOICE_ENFORCED", o.get("STRING_CHOICE_ENFORCED", "false")),
                ("PROPERTY_STRING_CHOICE", "STRING_CHOICES", join(sorted(o.get("STRING_CHOICES", ["NOT_DEFINED"]))))]
    if f["kind"] == "switch":
        return [("PROPERTY_SWITCH", "DEFAULT", {0: "OFF", 1: "ON"}.get(o.get("DEFAULT", 0), o.get("DEFAULT")))]
    if f["kind"] != "file":
        return []
    sis = o.get("ALLOWED_SISTER_FILE_EXT")
    out = [("PROPERTY_FILE_EXIST", "FILE_MUST_EXIST", str(o.get("FILE_MUST_EXIST", 0))),
           ("PROPERTY_FILE_EXIST", "FILE_DOES_EXIST", str(int(last in EXIST))),
           ("PROPERTY_FILE_EXT", "ALLOWED_FILE_EXT", join(sorted(o.get("ALLOWED_FILE_EXT", ["*"])))),
           ("PROPERTY_SISTER_FILE", "ALLOWED_SISTER_FILE_EXT", join(["NOT_DEFINED"] if sis is None else sis))]
    if last is None:
        ans = [["NOT_DEFINED"]] * 3 + [["false"]]
    else:
        d = last[:last.rfind("/") + 1]
        n = last[len(d):]
        core = n[:n.rfind(".")] if "." in n else n
        names = [core + e for e in sis or []]
        ans = [names, [d] * len(names), [d + x for x in names], [str(d + x in EXIST).lower() for x in names]]
    for k, a in zip(("SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME", "SISTER_FILE_EXISTS"), ans):
        if not (k == "SISTER_FILE_PATH" and "" in a):
            out.append(("PROPERTY_SISTER_FILE", k, join(a)))
    return out


def expected(f, v):
    """[(getter, expected answer)]"""
    k = f["kind"]
    if v is None:
        g = {"string": "gets", "file": "gets", "int": "geti", "double": "getd"}
        return [(g[k], "X")] if k in g else [("geti", "X"), ("gets", "X")]
    if k == "switch":
        if isinstance(v, int):
            return [("geti", v), ("gets", ["OFF", "ON"][v])]
        return [("geti", int(v in ("ON", "TRUE", "1"))), ("gets", v)]
    return [({"string": "gets", "file": "gets", "int": "geti", "double": "getd"}[k], v)]


def check(case, env):
    d = os.path.join(env.dir, "p")
    if not os.path.isdir(d):
        os.makedirs(d + "/d.x")
        for f in EXIST:
            open(d + "/" + f, "w").close()
    ops = ["cd " + hx(d)]
    want = [("ok", None)]
    for k, p in enumerate(case["parsers"]):
        s = setup(k, p)
        ops += s
        want += [("ok", None)] * len(s)
    ask = []
    for k, p in enumerate(case["parsers"]):
        try:
            v = model(p)
            want.append(("ok", None))
        except al.Refused as e:
            v = None
            want.append(("X", str(e)))
            note(env, "refused")
            note(env, "refused: " + str(e).split(" x")[0] if not str(e).startswith("number") else "refused: number")
        ops.append("parse %d %s" % (k, al.lst(["prog"] + p["toks"])))
        if v is not None:
            ask.append((k, p, v))
    for k, p, v in ask:
        for f in p["flags"]:
            for g, x in expected(f, v[f["long"]]) + [("getu", "X" if f.get("size") is None else f["size"])]:
                ops.append("%s %d %s" % (g, k, hx(f["long"])))
                want.append(("X", "no value") if x == "X" else ("ok", x))
            for prop, o, x in rules(f, v, p["given"].get(f["long"])):
                ops.append("val %d %s %s %s %s" % (k, hx(f["long"]), hx(ARG[f["kind"]]), hx(prop), hx(o)))
                want.append(("ok", x))
                if o == "SISTER_FILE_EXISTS" and "true" in x:
                    note(env, "companion exists")
        note(env, "accepted")
    for k, p in enumerate(case["parsers"]):
        again(k, p, ops, want, env)
    if case.get("help"):
        ops.append("parse 0 %s" % al.lst(["prog", case["help"]]))
    what = "\n".join("flags %s\narguments %s" % (p["flags"], p["toks"]) for p in case["parsers"]) + "".join(
        "\nthen %s" % t for p in case["parsers"] for t in p.get("more") or [])
    r, ans = al.run(env, "\n".join(ops) + "\n", what)
    if not r.ok() or len(ans) != len(want):
        raise Violation("ended early\n%s\n%s" % (what, r.brief()))
    for o, a, w in zip(ops, ans, want):
        if w[0] == "in":
            if ("X" if a[0] == "X" else a[1]) not in w[1]:
                raise Violation("%s: %s, expected one of %s\n%s" % (show(o), a, w[1], what))
            continue
        if a[0] != w[0]:
            raise Violation("%s: %s (%s), expected %s\n%s" % (
                show(o), "refused" if a[0] == "X" else "accepted", a[1], "refusal: %s" % w[1] if w[0] == "X" else "no refusal", what))
        if w[0] == "ok" and w[1] is not None and a[1] != w[1]:
            raise Violation("%s: %r, expected %r\n%s" % (show(o), a[1], w[1], what))


    if case.get("help"):
        words = r.out.split()
        missing = [n for f in case["parsers"][0]["flags"] for n in (f["long"], f["short"]) if n and n not in words]
        if "Usage:" not in words or missing:
            raise Violation("%s does not print the usage (%s)\n%s\n%s" % (case["help"], missing, what, r.brief()))
        listed = al.usage(r.out)
        for f in case["parsers"][0]["flags"]:
            w = listed.get(f["long"], [])
            if f["desc"] and (w[w.index(f["short"]) + 1:] if f["short"] else w[1:]) != f["desc"].split():
                raise Violation("%s does not print the description of %s (%s)\n%s\n%s" % (case["help"], f["long"], w, what, r.brief()))
        note(env, "help")


def show(o):
    from ..driver import unhx
    return " ".join(repr(unhx(t)) if t[:1] == "%" else t for t in o.split(" "))
