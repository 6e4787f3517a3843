"""Shared by the checks of the command line: operations on the args driver."""
from ..driver import hx, unhx
from ..engine import Violation


def lst(v):
    return "%d %s" % (len(v), " ".join(hx(x) for x in v))


def answers(r):
    """('ok', value) / ('X', message), one per operation; ends early if the process did."""
    out = []
    for l in r.res.splitlines():
        f = l.split()
        if len(f) >= 2 and f[-2] == "X":
            out.append(("X", unhx(f[-1])))
            continue
        if f[-1] != "ok":
            raise ValueError("protocol: " + l[:300])
        t = f[0]
        if t == "ok":
            v = None
        elif t in ("i", "u"):
            v = int(f[1])
        elif t == "d":
            v = float(f[1])
        elif t == "s":
            v = unhx(f[1])
        elif t == "l":
            v = [unhx(x) for x in f[2:-1]]
        elif t == "p":
            v = [int(x) for x in f[1:4]] + [unhx(x) for x in f[4:-1]]
        else:
            raise ValueError("protocol: " + l[:300])
        out.append(("ok", v))
    for k, v in out:
        if k == "X" and v.startswith("driver:"):
            raise ValueError(v)
    return out


def run(env, body, what):
    r = env.run("args", body)
    if r.crashed():
        raise Violation("memory error or hang: %s\n%s" % (what, r.brief()))
    return r, answers(r)


PAR = ["num1", "num2", "cp", "log1", "log2", "logP", "pun1", "pun2", "punP", "spin1", "spin2", "spinP", "type1", "type2"]


def usage(out):
    """The options listed by --help: words of each entry by its flag (entries start in the first column;
    the last list, if it was printed several times)."""
    d, cur = {}, None
    for l in out.rsplit("Options:", 1)[-1].splitlines():
        if l.startswith("--"):
            cur = d.setdefault(l.split()[0], [])
            cur += l.split()[1:]
        elif cur is not None:
            cur += l.split()
    return d


class Refused(Exception):
    pass


FILES = {}
for _n in "12P":
    FILES["--log_" + _n] = FILES["-l_" + _n] = "log" + _n
    FILES["--pun_" + _n] = FILES["-p_" + _n] = "pun" + _n
SPINS = {}
for _n in "12P":
    SPINS["--spin_" + _n] = SPINS["-s_" + _n] = "spin" + _n
TYPES, NUMS = {}, {}
for _n in "12":
    TYPES["--orbital_type_" + _n] = TYPES["-orb_ty_" + _n] = "type" + _n
    NUMS["--orbital_num_" + _n] = NUMS["-orb_num_" + _n] = "num" + _n
CP = ["--counter_poise", "-cp"]
CITE = ["--citation", "-cite"]
VERSION = ["--version", "-v"]
HELP = ["--help", "-h"]
KNOWN = list(FILES) + list(SPINS) + list(TYPES) + list(NUMS) + CP + CITE + VERSION + HELP
EXT = {"log": [".log"], "pun": [".pun", ".7", ".orb"]}


def ext(name):
    base = name.rsplit("/", 1)[-1]
    return "." + base.rsplit(".", 1)[1] if "." in base else ""


def number(tok):
    """A decimal integer that fits, or Refused."""
    t = tok[1:] if tok[:1] in ("+", "-") else tok
    if not (t.isascii() and t.isdigit()):
        raise Refused("number " + tok)
    v = int(tok)
    if not -2 ** 31 <= v < 2 ** 31:
        raise Refused("number " + tok)
    return v


def interpret(args):
    """The documented meaning of a command line (without files being completed)."""
    p = {"num1": 0, "num2": 0, "cp": 0, "spin1": "Alpha", "spin2": "Alpha", "spinP": "Alpha", "type1": "HOMO",
         "type2": "HOMO"}
    i = 0
    while i < len(args):
        a = args[i]
        i += 1
        if a in CITE:
            continue
        if a in CP:
            if i >= len(args) or args[i] in KNOWN:
                p["cp"] = 1
                continue
            if args[i] not in ("ON", "OFF", "TRUE", "FALSE", "1", "0"):
                raise Refused("switch " + args[i])
            p["cp"] = int(args[i] in ("ON", "TRUE", "1"))
            i += 1
            continue
        if a not in KNOWN or a in VERSION or a in HELP:
            raise Refused("unknown " + a)
        if i >= len(args):
            raise Refused("missing value of " + a)
        v = args[i]
        i += 1
        if a in FILES:
            if ext(v) not in EXT[FILES[a][:3]]:
                raise Refused("extension " + v)
            p[FILES[a]] = v
        elif a in SPINS:
            if v not in ("Alpha", "Beta"):
                raise Refused("spin " + v)
            p[SPINS[a]] = v
        elif a in TYPES:
            if v not in ("HOMO", "LUMO"):
                raise Refused("type " + v)
            p[TYPES[a]] = v
        else:
            p[NUMS[a]] = number(v)
    for n in "12":
        x = p["num" + n]
        if x > 0 and p["type" + n] == "HOMO" or x < 0 and p["type" + n] == "LUMO":
            raise Refused("sign of the orbital number")
    return p
