"""String and path helpers against Python's string operations."""
from hypothesis import strategies as st
from ..driver import hx, unhx
from ..engine import Violation, note

DRIVERS = ["strings"]
N = {"quick": 40000, "thorough": 300000}
RULE = ("A case is a string (dense in white space, separators and repeated characters; empty, only separators, no "
        "separator; control characters), a separator, a number of characters within the string, and all helpers called on "
        "it, each compared with its definition in Python. Non-trivial: the string is longer than two and contains the "
        "separator, a slash or white space.")
ASSUMPTIONS = ["bytes above 127 count as letters of names, never as white space", "separators of one character for the last-occurrence helpers, up to three for the first",
               "the number of characters does not exceed the length of the string"]
WS = " \t\n\v\f\r"
CH = st.one_of(st.sampled_from("ab/ .-\t\nA1"), st.sampled_from(WS + "/"), st.characters(min_codepoint=0, max_codepoint=127),
               st.sampled_from("\xe9\xc3\xa9\xa0\x85\xff\x80\0"))


@st.composite
def strategy_(draw):
    s = draw(st.one_of(st.text(alphabet=CH, max_size=24), st.text(alphabet="a/", max_size=10), st.text(alphabet="a. ", max_size=10),
                       st.text(alphabet=WS, max_size=5), st.text(alphabet="ab", max_size=12)))
    if draw(st.integers(0, 60)) == 0:
        s = s * draw(st.integers(5, 60) if draw(st.integers(0, 5)) else st.integers(61, 800))
    one = draw(st.sampled_from(list(set(s)))) if s and draw(st.integers(0, 2)) else draw(CH)
    if s and draw(st.booleans()):
        i = draw(st.integers(0, len(s) - 1))
        sub = s[i:i + draw(st.integers(1, 3))]
    else:
        sub = draw(st.text(alphabet=CH, min_size=1, max_size=3))
    return {"s": s, "one": one, "sub": sub, "n": draw(st.integers(0, len(s)))}


def strategy(tier):
    return strategy_()


def nontrivial(case, notes):
    return len(case["s"]) > 2 and any(c in case["s"] for c in case["one"] + "/ \t\n")


def alpha(c):
    return "a" <= c <= "z" or "A" <= c <= "Z"


def check(case, env):
    s, one, sub, n = case["s"], case["one"], case["sub"], case["n"]
    i, k, L = s.find(sub), s.rfind(one), len(s)
    slash = s.rfind("/")
    words = []
    w = ""
    for c in s + " ":
        if c in WS:
            if w:
                words.append(w)
            w = ""
        else:
            w += c
    Q = [("splitSt", (s,), words),
         ("last", (s,), s[slash + 1:]), ("path", (s,), s[:slash + 1]),
         ("lastN", (s, n), s[L - n:]), ("cut_end", (s, n), s[:L - n]), ("firstN", (s, n), s[:n]), ("cut_beg", (s, n), s[n:]),
         ("trim", (s,), s.strip(WS)), ("trimmed", (s,), s.strip(WS)), ("ltrimmed", (s,), s.lstrip(WS)),
         ("rtrimmed", (s,), s.rstrip(WS)),
         ("after1", (s, sub), "" if i < 0 else s[i + len(sub):]), ("before1", (s, sub), s if i < 0 else s[:i]),
         ("afterL", (s, one), "" if k < 0 else s[k + 1:]), ("afterLI", (s, one), "" if k < 0 else s[k:]),
         ("beforeL", (s, one), s if k < 0 else s[:k]), ("beforeLI", (s, one), s if k < 0 else s[:k + 1]),
         ("found", (s, sub), int(i >= 0)), ("found", (sub, s), int(s in sub)),
         ("isAlpha", (s,), int(bool(s) and all(map(alpha, s)))),
         ("isAlpha", (words[0] if words else "x",), int(all(map(alpha, words[0] if words else "x")))),
         ("lastN", (s, L), s), ("firstN", (s, L + 3), s), ("cut_beg", (s, L), ""), ("cut_end", (s, 0), s)]
    body = "".join(o + " " + " ".join(hx(a) if isinstance(a, str) else str(a) for a in args) + "\n" for o, args, _ in Q)
    r = env.run("strings", body)
    if not r.ok():
        raise Violation("a helper failed on %s\n%s" % (case, r.brief()))
    for (o, args, want), l in zip(Q, r.res.splitlines()):
        f = l.split()
        got = None if f[0] == "X" else [unhx(x) for x in f[1:-1]] if f[0] == "l" else int(f[1]) if f[0] == "b" else unhx(f[1])
        if f[0] == "X":
            raise Violation("%s%r threw %s" % (o, args, unhx(f[1])))
        if got != want:
            raise Violation("%s%r returned %r, expected %r" % (o, args, got, want))
    note(env, "separator found" if k >= 0 else "separator not found")
    note(env, "with slash" if slash >= 0 else "without slash")
    if not s:
        note(env, "empty string")
    if s and not s.strip(WS):
        note(env, "only white space")
