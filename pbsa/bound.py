"""Sign and magnitude bounds of normal forms.

A polynomial is shown non-negative when, after replacing every factor known to
be at most one (decaying exponentials, cosines, sinc, values in [0,1]) by one
in its negative monomials, only non-negative monomials remain."""
from fractions import Fraction

from . import build as B
from . import nf
from .terms import num


def decaying(a):
    """exp(y) with y <= 0"""
    return a.op == "exp" and nonneg_poly(nf.pneg(nf.poly(a.args[0])))


def upper1(a):
    """atom <= 1"""
    if a.op == "sym":
        return a.data[1] in ("unit", "unit1")
    if a.op in ("cos", "sin", "sinc", "tanh", "ind", "zero"):
        return True
    if a.op in ("idx", "bc", "ren", "filt"):
        return upper1(a.args[0])
    return decaying(a)


def mag1(a, e=1):
    """|atom**e| <= 1 for real e >= 0"""
    if e < 0:
        return False
    if a.op == "sym":
        return a.data[1] in ("unit", "unit1")
    if a.op in ("cos", "sin", "sinc", "tanh", "ind", "zero", "jn"):
        return True
    if a.op in ("idx", "bc", "ren", "filt", "abs"):
        return mag1(a.args[0])
    return decaying(a)


def nonneg_mono(m):
    return all(nf.nonneg(a) or (nf._even(e) and nf.isreal(a)) for a, e in m)


_memo = {}


def nonneg_poly(p, depth=0):
    k = frozenset(p.items())
    if k in _memo:
        return _memo[k]
    _memo[k] = False
    r = _memo[k] = _nonneg_poly(p)
    return r


def _nonneg_poly(p):
    out = {}
    for m, c in p.items():
        if isinstance(c, complex):
            return False
        if c < 0:
            keep = []
            drop = []
            for a, e in m:
                if e == 1 and upper1(a) and not nf.positive(a) or e > 0 and decaying(a) or e > 0 and nf.nonneg(a) and upper1(a):
                    drop.append((a, e))
                else:
                    keep.append((a, e))
            if not nonneg_mono(keep):
                keep = list(m)
                if not nonneg_mono(keep):
                    return False
            m = tuple(keep)
        elif not nonneg_mono(m):
            return False
        out[m] = out.get(m, Fraction(0)) + c
    return all(c >= 0 for c in out.values())


def magnitude_at_most_one(t):
    """|t| <= 1, from its normal form"""
    p = nf.poly(t)
    s = Fraction(0)
    for m, c in p.items():
        if not all(mag1(a, e) or (a.op == "exp" and decaying(a)) for a, e in m):
            return False
        s += abs(c)
    return s <= 1


def at_most(a, b):
    """a <= b everywhere (b > 0 exponential monomials), from normal forms"""
    pa, pb = nf.poly(a), nf.poly(b)
    if nonneg_poly(nf.padd(pb, nf.pneg(pa))):
        return True
    # exp(x) <= exp(y) when x <= y
    if len(pa) == 1 and len(pb) == 1:
        q = nf.poly(B.div(a, b))
        if len(q) == 1:
            (m, c), = q.items()
            if c <= 1 and c >= 0 and all(decaying(x) and e > 0 for x, e in m):
                return True
        if not q:
            return True
    return False
