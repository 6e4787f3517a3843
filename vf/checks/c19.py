"""Argument rules accept exactly the values they describe."""
import os
from hypothesis import strategies as st
from ..driver import hx
from ..engine import Violation, note
from . import al

DRIVERS = ["args"]
N = {"quick": 24000, "thorough": 400000}
RULE = ("A case is a history of 1-12 settings, reads and tests on one rule, on its own or inside of an argument object: limits "
        "and values inside, on and outside of them, unknown options, changes of mind. A reference model says what every "
        "step returns or refuses. Non-trivial: at least two tests, or a test after a setting.")
ASSUMPTIONS = ["NaN limits and values are not generated",
               "after a refused file, whether it exists is unspecified until the next accepted one"]
INTS = [0, 1, -1, 2, 3, 7, -7, 100, 2 ** 31 - 1, -2 ** 31, 2 ** 31 - 2, -2 ** 31 + 1]
DBLS = [0.0, -0.0, 1.0, -1.0, 0.1, 0.30000000000000004, 0.3, 1e-300, 1e300, -1e300, 1.7976931348623157e308,
        -1.7976931348623157e308, 2.5, 1e-5, 123456.789]
WORDS = ["", "a", "b", "ab", "abc", "red", "Red", "blue", "true", "false", "NOT_DEFINED", "red blue", "\xff", "x" * 40, "x" * 41, " red", "red ", " ", "red\t"]
SW = ["0", "1", "ON", "OFF", "TRUE", "FALSE"]
SWBAD = ["on", "", "2", "-1", "true", "ON ", "OFFF", "10", "T", "NO", "01"]
EXTS = [".log", ".pun", ".7", "", "*", ".x", ".LOG", ".c", "*.q"]
EXT2 = EXTS + ["a.log", ".tar.gz", "x.y"]
NAMES = ["a.log", "b.pun", "c.7", "d", "e.", "d.x/f", "d.x/g.c", "h.tar.gz", ".log", "i.LOG", "j.x.log", "k.lo", "d.x/../a.log",
         "no.log", "d.log/no", "x y.7", "a.log ", " a.log", "b.pun\n", "a. log"]
SISTERS = [".log", ".pun", ".7", ".x", "", ".c", ".LOG"]
EXIST = {"a.log", "c.7", "d", "d.x/f", "d.x/g.c", "i.LOG", "d.x/../a.log", "x y.7", ".log"}
ARG = {"int": "PROPERTY_INT", "double": "PROPERTY_DOUBLE"}


SISTER = ["SISTER_FILE_EXISTS", "SISTER_FILE_NAME", "SISTER_FILE_PATH", "SISTER_FILE_PATH_NAME"]


def there(x):
    """Whether a path leads to a file or folder of the scratch folder r."""
    if not x:
        return False
    x = os.path.normpath(x) + "/" * x.endswith("/")
    if x.startswith("../r/"):
        x = x[5:]
    return x in EXIST or x in (".", "./", "d.x", "d.x/")


def vals(kind):
    return st.sampled_from({"int": INTS, "double": DBLS, "string": WORDS, "choice": WORDS, "switch": SW * 2 + SWBAD,
                            "ext": NAMES, "exist": NAMES, "sister": NAMES + ["d.x/a", "d.x/", "./a.log", "./../r/c.q"], "switchint": [0, 1, -1, 2, 100, -2 ** 31]}[kind])


def sets(draw, pool, mx=4, mn=1):
    return draw(st.lists(st.sampled_from(pool), min_size=mn, max_size=mx, unique=True))


# values that an option does not take
WRONG = {"STRING_CHOICE_ENFORCED": ["TRUE", "", "1", "yes", [], ["true", "false"], ["red"], ["true", "red"]],
         "ALLOWED_FILE_EXT": ["a.log", ".tar.gz", ["a.log"], [".log", "x.y"], [".7", ".a.b", ".x"]]}


@st.composite
def step(draw, kind, arg, wrong=False):
    w = draw(st.integers(0, 9))
    odd = draw(st.integers(0, 3 if wrong else 14)) == 0
    opts = {"int": ["MIN", "MAX"], "double": ["MIN", "MAX"], "string": ["MIN_LENGTH", "MAX_LENGTH"],
            "choice": ["STRING_CHOICE_ENFORCED", "STRING_CHOICES"], "switch": ["DEFAULT"], "ext": ["ALLOWED_FILE_EXT"],
            "exist": ["FILE_MUST_EXIST"], "sister": ["ALLOWED_SISTER_FILE_EXT"] * 4 + SISTER}[kind]
    o = draw(st.sampled_from(opts))
    if odd:
        o = draw(st.sampled_from(["", "MIN_", "max", "DEFAULT", "MIN", "STRING_CHOICES", "NO_OPTIONS", "FILE"]))
    if wrong and w <= 2 and o in WRONG:
        return ["set", o, draw(st.sampled_from(WRONG[o]))]
    if w <= 3:
        if kind in ("int", "double"):
            v = draw(vals(kind))
        elif kind == "string":
            v = draw(st.sampled_from([0, 1, 2, 3, 4, 40, 41, 1000, 2 ** 64 - 1]))
        elif kind == "exist":
            v = draw(st.sampled_from([0, 1, 1]))
        elif kind == "switch":
            v = draw(st.sampled_from(SW))
        elif kind == "sister":
            pool = SISTERS if draw(st.integers(0, 5)) else SISTERS + [".tar.gz", "pun", "*", "NOT_DEFINED", "a.log"]
            v = draw(st.sampled_from(pool)) if draw(st.booleans()) else draw(st.lists(st.sampled_from(pool), max_size=4))
        elif kind == "ext":
            pool = EXTS if draw(st.integers(0, 4)) else EXT2
            v = draw(st.sampled_from(pool)) if draw(st.booleans()) else sets(draw, pool)
        elif o == "STRING_CHOICE_ENFORCED":
            pool = ["true", "true", "true", "false", "TRUE", "", "1"]
            v = draw(st.sampled_from(pool)) if draw(st.booleans()) else sets(draw, pool, 2, 0)
        else:
            v = draw(st.sampled_from(WORDS)) if draw(st.booleans()) else sets(draw, WORDS, 5, 0)
        return ["set", o, v]
    if w <= 8:
        k = kind
        if kind == "switch" and not arg and draw(st.integers(0, 3)) == 0:
            k = "switchint"
        return ["valid", k, draw(vals(k))]
    if kind == "exist" and draw(st.booleans()):
        return ["post"]
    if arg and draw(st.booleans()):
        return ["list"]
    return ["get", o]


@st.composite
def strategy_(draw, wrong=False):
    kind = draw(st.sampled_from(["int", "double", "string", "choice", "switch", "ext", "exist", "file", "sister"]))
    arg = kind == "file" or (kind not in ("string", "sister") and draw(st.booleans()))
    new = None
    if kind == "file":
        steps = draw(st.lists(st.one_of(step("ext", True, wrong), step("exist", True, wrong)), min_size=1, max_size=12))
    else:
        steps = draw(st.lists(step(kind, arg, wrong), min_size=1, max_size=12))
    if kind == "ext" and not arg:
        new = draw(st.one_of(st.none(), st.sampled_from(EXT2), st.lists(st.sampled_from(EXT2), min_size=1, max_size=4, unique=True)))
    if kind == "exist" and not arg:
        new = draw(st.sampled_from([None, 0, 1]))
    return {"kind": kind, "arg": arg, "new": new, "steps": steps}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    s = [x[0] for x in case["steps"]]
    return s.count("valid") >= 2 or ("set" in s and "valid" in s[s.index("set"):])


class Model:
    def __init__(self, case):
        self.arg = case["arg"]
        self.v = {}
        k = case["kind"]
        if k == "int":
            self.v = {"MIN": -2 ** 31, "MAX": 2 ** 31 - 1}
        elif k == "double":
            self.v = {"MIN": -1.7976931348623157e308, "MAX": 1.7976931348623157e308}
        elif k == "string":
            self.v = {"MIN_LENGTH": 0, "MAX_LENGTH": 2 ** 64 - 1}
        elif k == "choice":
            self.v = {"STRING_CHOICE_ENFORCED": {"false"}, "STRING_CHOICES": {"NOT_DEFINED"}}
        elif k == "switch":
            self.v = {"DEFAULT": "OFF"}
        elif k == "sister":
            self.v = {"ALLOWED_SISTER_FILE_EXT": ["NOT_DEFINED"], "SISTER_FILE_EXISTS": ["false"]}
            self.v.update({o: ["NOT_DEFINED"] for o in SISTER[1:]})
        if k in ("ext", "file"):
            self.v["ALLOWED_FILE_EXT"] = {"*"}
        if k in ("exist", "file"):
            self.v["FILE_MUST_EXIST"] = 0
            self.v["FILE_DOES_EXIST"] = 0
        if case["new"] is not None:
            n = case["new"]
            if k == "exist":
                self.v["FILE_MUST_EXIST"] = n
            else:
                e = {n} if isinstance(n, str) else set(n)
                self.exts(e)
                self.v["ALLOWED_FILE_EXT"] = e

    def exts(self, e):
        for x in e:
            if x and x[0] != "*" and "." in x and x.rsplit(".", 1)[0]:
                raise al.Refused("extension " + x)

    def set(self, o, v):
        if o not in self.v:
            raise al.Refused("unknown option")
        if o in SISTER:
            raise al.Refused("read-only option")
        if o == "ALLOWED_SISTER_FILE_EXT":
            v = [v] if isinstance(v, str) else list(v)
            if any(x and (x[0] != "." or "." in x[1:]) for x in v):
                raise al.Refused("extension of a companion")
            # what an earlier file had is unspecified until the next one
            self.v.update({x: None for x in SISTER})
        elif isinstance(self.v[o], set):
            v = {v} if isinstance(v, str) else set(v)
            if o == "STRING_CHOICE_ENFORCED" and v not in ({"true"}, {"false"}):
                raise al.Refused("value of the option")
            if o == "ALLOWED_FILE_EXT":
                self.exts(v)
        self.v[o] = v

    def valid(self, kind, x):
        v = self.v
        if kind in ("int", "double"):
            ok = v["MIN"] <= x <= v["MAX"]
        elif kind == "string":
            ok = v["MIN_LENGTH"] <= len(x) <= v["MAX_LENGTH"]
        elif kind == "choice":
            ok = v["STRING_CHOICE_ENFORCED"] != {"true"} or x in v["STRING_CHOICES"]
        elif kind == "switch":
            ok = x in SW
        elif kind == "switchint":
            ok = x in (0, 1)
        elif kind == "sister":
            ok = True
            folder, name = x[:x.rfind("/") + 1], x[x.rfind("/") + 1:]
            names = [(name.rsplit(".", 1)[0] if "." in name else name) + e for e in v["ALLOWED_SISTER_FILE_EXT"] if e != "NOT_DEFINED"]
            v["SISTER_FILE_NAME"] = names
            v["SISTER_FILE_PATH"] = [folder] * len(names)
            v["SISTER_FILE_PATH_NAME"] = [folder + n for n in names]
            v["SISTER_FILE_EXISTS"] = ["true" if there(folder + n) else "false" for n in names]
        else:
            ok = True
            if "ALLOWED_FILE_EXT" in v:
                a = v["ALLOWED_FILE_EXT"]
                ok = any(e[:1] == "*" for e in a) or al.ext(x) in a
            if "FILE_MUST_EXIST" in v:
                ok = ok and not (v["FILE_MUST_EXIST"] and x not in EXIST)
                v["FILE_DOES_EXIST"] = int(x in EXIST) if ok else None
        if not ok:
            raise al.Refused("value")
        return 1

    def post(self):
        if self.v["FILE_DOES_EXIST"] is None:
            return "?"
        if self.v["FILE_MUST_EXIST"] and not self.v["FILE_DOES_EXIST"]:
            raise al.Refused("file missing")


def listed(ops, want, ak, M, prop):
    """The argument lists its name, its rules, their options, and all values in the order of the options."""
    v = dict(M.v)
    rules = {prop[o] for o in v}
    if ak == "file":
        v.update({o: None for o in SISTER}, ALLOWED_SISTER_FILE_EXT="NOT_DEFINED")
        rules.add("PROPERTY_SISTER_FILE")
    if ak == "string":
        v.update(MIN_LENGTH=0, MAX_LENGTH=2 ** 64 - 1)
        rules.add("PROPERTY_STRING")
    ops += ["a.list " + ak] + [""] * (len(v) + 2)
    want += [("ok", "ARGUMENT_" + ak.upper()), ("ok", sorted(rules)), ("ok", sorted(v))]
    for o in sorted(v):
        x = v[o]
        want.append(("?", None) if x is None else ("ok", [o, shown(x)]))


def shown(v):
    return " ".join(sorted(v, key=lambda x: x.encode("latin-1"))).strip() if isinstance(v, set) else \
        "%f" % v if isinstance(v, float) else str(v)


def check(case, env):
    d = os.path.join(env.dir, "r")
    if not os.path.isdir(d):
        os.makedirs(d + "/d.x")
        for f in EXIST:
            if ".." not in f:
                open(d + "/" + f, "w").close()
    kind, arg = case["kind"], case["arg"]
    ops, want = ["cd " + hx(d)], [("ok", None)]

    def expect(op, f, *a):
        ops.append(op)
        try:
            x = f(*a)
            want.append(("?", None) if x == "?" else ("ok", x))
        except al.Refused as e:
            want.append(("X", str(e)))
            note(env, "refused: " + str(e).split(" .")[0])
            if f == M.set:
                bad.append(len(ops))

    M = None
    bad = []
    n = case["new"]
    if arg:
        ak = {"choice": "string", "ext": "file", "exist": "file"}.get(kind, kind)
        ops.append("a.new " + ak)
        want.append(("ok", None))
        M = Model(dict(case, kind="file") if ak == "file" else case)
    else:
        ops.append("r.new %s %s" % (kind, "0" if n is None else "i %d" % n if isinstance(n, int) else
                                    "s " + hx(n) if isinstance(n, str) else "set " + al.lst(n)))
        try:
            M = Model(case)
            want.append(("ok", None))
        except al.Refused as e:
            want.append(("X", str(e)))
    enc = lambda v: "%d" % v if isinstance(v, int) else repr(v) if isinstance(v, float) else \
        hx(v) if isinstance(v, str) else al.lst(v)
    how = lambda v: "i" if isinstance(v, int) else "d" if isinstance(v, float) else "s" if isinstance(v, str) else "set"
    prop = {"MIN": ARG.get(kind, "PROPERTY_INT"), "MAX": ARG.get(kind, "PROPERTY_INT"), "ALLOWED_FILE_EXT": "PROPERTY_FILE_EXT",
            "STRING_CHOICE_ENFORCED": "PROPERTY_STRING_CHOICE", "STRING_CHOICES": "PROPERTY_STRING_CHOICE",
            "FILE_MUST_EXIST": "PROPERTY_FILE_EXIST", "FILE_DOES_EXIST": "PROPERTY_FILE_EXIST", "DEFAULT": "PROPERTY_SWITCH"}
    for s in case["steps"] if M else []:
        if s[0] == "set":
            _, o, v = s
            if arg:
                expect("a.set %s %s %s %s %s" % (ak, hx(prop.get(o, "PROPERTY_FILE_EXT")), hx(o), how(v), enc(v)), M.set, o, v)
            else:
                expect("r.set %s %s %s %s" % (kind, hx(o), how(v), enc(v)), M.set, o, v)
        elif s[0] == "valid":
            _, k, v = s
            if k != "switchint":
                k = kind
            expect("%s %s %s" % ("a.valid" if arg else "r.valid", ak if arg else k, enc(v)), M.valid,
                   "file" if arg and ak == "file" else k, v)
            if k == "sister":
                for o in SISTER:
                    expect("r.get sister " + hx(o), M.v.get, o)
            if k == "switch" and arg:
                ops.append("a.pos switch " + enc(v))
                want.append(("ok", int(v in ("1", "ON", "TRUE"))) if v in SW else ("X", "switch value"))
        elif s[0] == "list":
            listed(ops, want, ak, M, prop)
            note(env, "listed")
        elif s[0] == "post":
            expect("a.post file" if arg else "r.post exist", M.post)
        else:
            o = s[1]

            def get():
                if o not in M.v:
                    raise al.Refused("unknown option")
                v = M.v[o]
                if v is None:
                    return "?"
                if isinstance(v, list):
                    return v
                if arg:
                    return shown(v)
                return sorted(v, key=lambda x: x.encode("latin-1")) if isinstance(v, set) else v
            if arg:
                expect("a.get %s %s %s" % (ak, hx(prop.get(o, "PROPERTY_FILE_EXT")), hx(o)), get)
            else:
                expect("r.get %s %s" % (kind, hx(o)), get)
    what = "%s%s %s" % ("argument with rule " if arg else "rule ", kind, case["steps"])
    r, ans = al.run(env, "\n".join(ops) + "\n", what)
    if not r.ok() or len(ans) != len(want):
        raise Violation("ended early: %s\n%s" % (what, r.brief()))
    for o, a, w in zip(ops, ans, want):
        if w[0] == "?":
            continue
        if a[0] != w[0]:
            raise Violation("%s: %s (%s), expected %s\n%s" % (
                o, "refused" if a[0] == "X" else "accepted", a[1], "refusal: %s" % w[1] if w[0] == "X" else "no refusal", what))
        if w[0] == "ok" and w[1] is not None and a[1] != w[1]:
            raise Violation("%s: %r, expected %r\n%s" % (o, a[1], w[1], what))
    note(env, ("argument " if arg else "rule ") + kind)
    if bad and bad[0] < len(ops):
        note(env, "refused and used")
