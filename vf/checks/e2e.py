"""Shared by the checks that run calc_J on generated files."""
from .. import gauss as g, system as sy
from ..engine import Violation


def orbargs(S, k1, k2, sp1="Alpha", sp2="Alpha"):
    return sy.orb_args(1, k1, S.occ[sp1][0], S.s["mo"][0]) + sy.orb_args(2, k2, S.occ[sp2][1], S.s["mo"][1])


def expect(env, argv, ref, what="", extra=0.0):
    """Run calc_J and compare all five values; returns the Result."""
    r = env.calcj(argv)
    if not r.ok():
        raise Violation("calc_J failed on consistent input%s %s\n%s" % (what, argv, r.brief()))
    bad = g.compare(g.parse_out(r.out), ref, extra=extra)
    if bad:
        raise Violation("wrong result%s for %s\n%s\n%s" % (what, argv, "\n".join(bad), r.out))
    return r


def printed_anything(out):
    return [k for k in g.KEYS if any(l.split()[:1] == [k] for l in out.splitlines())]


def expect_refused(env, argv, what):
    """A clean refusal: ends by itself with non-zero status and without result lines."""
    r = env.calcj(argv)
    if r.crashed():
        raise Violation("memory error or hang: %s %s\n%s" % (what, argv, r.brief()))
    if not r.refused():
        raise Violation("not refused: %s %s\n%s" % (what, argv, r.brief()))
    if printed_anything(r.out):
        raise Violation("refused, but after printing a result: %s %s\n%s" % (what, argv, r.brief()))
    return r
