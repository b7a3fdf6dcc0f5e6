"""Random interpretation of value-graph terms (alarm filter).

Two graphs whose normal forms differ are reported only when an interpretation
of their leaves separates them: every leaf (parameter, array element, opaque
library result) gets a pseudo-random value, operators get their algebraic
meaning at high precision, and opaque operators a fixed pseudo-random smooth
function of their operands.  Nothing of the analysed program runs; the graphs
are interpreted.  The filter can only silence a rule, never raise one.
"""
from fractions import Fraction
import hashlib
import itertools
import math
import random
import time

import mpmath
import numpy as np
from mpmath import mp, mpc, mpf

from . import build as B
from .terms import FALSE, NONE, ONEAX, TRUE, Term, const_int, num, subterms

mp.dps = 30
MAXEL = 60000
NAN = mpf("nan")
INF = mpf("inf")


class Undef(Exception):
    """interpretation cannot be given (too large, outside domain, unsupported)"""


def hsh(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), "big")


def rnd(*xs):
    """uniform (0,1) deterministic"""
    return (hsh(*xs) + 0.5) / 2.0**64


_fb = {}


def freebv(t):
    """ids of bound variables (and carries) free in t"""
    r = _fb.get(t.id)
    if r is None:
        st = [t]
        while st:
            x = st[-1]
            if x.id in _fb:
                st.pop()
                continue
            kids = list(x.args) + _axterms(x)
            miss = [a for a in kids if a.id not in _fb]
            if miss:
                st.extend(miss)
                continue
            st.pop()
            if x.op == "bv":
                s = frozenset([x.id])
            else:
                s = frozenset().union(*[_fb[a.id] for a in kids]) if kids else frozenset()
                if x.op in ("bigsum", "bigprod", "map") and len(x.args) > 2:
                    s = (_fb[x.args[0].id] | (_fb[x.args[1].id] - {x.args[2].id}))
                    if x.op == "map" or x.axes:
                        for a in _axterms(x):
                            s = s | (_fb[a.id] - {x.args[2].id})
                elif x.op == "search":
                    b = x.args[3].id
                    s = _fb[x.args[0].id] | ((_fb[x.args[1].id] | _fb[x.args[2].id]) - {b})
            _fb[x.id] = s
        r = _fb[t.id]
    return r


def _axterms(x):
    out = []

    def go(a):
        if isinstance(a, Term):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                go(b)
    for a in x.axes:
        go(a)
    if x.data is not None and not isinstance(x.data, (str, int, Fraction)):
        go(x.data)
    return out


# ------------------------------------------------------------- safe scalars
def isc(x):
    return isinstance(x, mpc)


def nan_(x):
    return (isinstance(x, mpc) and (mpmath.isnan(x.real) or mpmath.isnan(x.imag))) or (isinstance(x, mpf) and mpmath.isnan(x))


def N(x):
    if isinstance(x, bool):
        return mpf(1 if x else 0)
    if isinstance(x, (mpf, mpc)):
        return x
    if x is None or isinstance(x, str):
        raise Undef("non-number")
    return mpf(x)


def s_add(a, b):
    return N(a) + N(b)


def s_mul(a, b):
    a, b = N(a), N(b)
    if (a == 0 and mpmath.isinf(b)) or (b == 0 and mpmath.isinf(a)):
        return NAN
    return a * b


def s_pow(a, b):
    a, b = N(a), N(b)
    if nan_(a) or nan_(b):
        return NAN
    if a == 0:
        if isc(b):
            return NAN
        if b == 0:
            return mpf(1)
        return mpf(0) if b > 0 else INF
    if isc(a) or isc(b):
        return mpc(mpmath.power(a, b))
    if mpmath.isinf(a) or mpmath.isinf(b):
        if b == 0:
            return mpf(1)
        if mpmath.isinf(a):
            return (INF if a > 0 or b == int(b) and int(b) % 2 == 0 else -INF) if b > 0 else mpf(0)
        aa = abs(a)
        if aa == 1:
            return mpf(1)
        return INF if (aa > 1) == (b > 0) else mpf(0)
    if a < 0 and b != mpmath.floor(b):
        return NAN
    if b == mpmath.floor(b) and abs(b) < 10**6:
        return a ** int(b)
    if abs(b * mpmath.log(abs(a))) > 10**6:
        return INF if (abs(a) > 1) == (b > 0) else mpf(0)
    return mpmath.power(a, b)


def s_exp(a):
    a = N(a)
    if nan_(a):
        return NAN
    re = a.real if isc(a) else a
    if re > 10**6:
        return INF
    if re < -(10**6):
        return mpf(0)
    if isc(a) and mpmath.isinf(a.imag):
        return NAN
    return mpmath.exp(a)


def s_log(a):
    a = N(a)
    if nan_(a):
        return NAN
    if a == 0:
        return -INF
    if not isc(a) and a < 0:
        return NAN
    return mpmath.log(a)


SNAP = mpf("1e-22")


def _dom(f, lo, hi):
    def g(a):
        a = N(a)
        if nan_(a):
            return NAN
        if not isc(a) and hi < INF:
            if hi < a <= hi + SNAP:
                a = mpf(hi)
            elif lo - SNAP <= a < lo:
                a = mpf(lo)
        if not isc(a) and (a < lo or a > hi):
            return NAN
        return f(a)
    return g


def _fin(f):
    def g(a):
        a = N(a)
        if nan_(a) or mpmath.isinf(a):
            return NAN
        return f(a)
    return g


def snap(f):
    """exact zeros of sin/cos at multiples of pi"""
    g = _fin(f)

    def h(a):
        r = g(a)
        return mpf(0) if not isc(r) and not nan_(r) and abs(r) < SNAP * (1 + abs(N(a))) and abs(N(a)) > mpf("1e-3") else r
    return h


def s_sinc(a):
    a = N(a)
    if nan_(a):
        return NAN
    if a == 0:
        return mpf(1)
    if not isc(a) and a == mpmath.floor(a):
        return mpf(0)
    x = mpmath.pi * a
    return mpmath.sin(x) / x


def s_round(a):
    a = N(a)
    if isc(a) or nan_(a) or mpmath.isinf(a):
        return a
    f = mpmath.floor(a)
    d = a - f
    if d < mpf(0.5):
        return f
    if d > mpf(0.5):
        return f + 1
    return f if int(f) % 2 == 0 else f + 1


def s_u8(a):
    a = N(a)
    if isc(a):
        a = a.real
    if nan_(a) or mpmath.isinf(a):
        return mpf(0)
    n = int(mpmath.floor(a)) if a >= 0 else -int(mpmath.floor(-a))
    return mpf(n % 256)


def s_abs(a):
    return abs(N(a))


def s_sign(a):
    a = N(a)
    return NAN if nan_(a) else mpf((a > 0) - (a < 0))


def s_n2n(a):
    a = N(a)
    if nan_(a):
        return mpf(0)
    if mpmath.isinf(a):
        return mpf("1e308") if a > 0 else mpf("-1e308")
    return a


def re_(a):
    return a.real if isc(a) else a


def s_lt(a, b):
    a, b = re_(N(a)), re_(N(b))
    return bool(a < b)


def s_le(a, b):
    a, b = re_(N(a)), re_(N(b))
    return bool(a <= b)


def s_eq(a, b):
    if a is None or b is None:
        return a is b
    if isinstance(a, str) or isinstance(b, str):
        return isinstance(a, str) and isinstance(b, str) and a == b
    return bool(N(a) == N(b))


def s_max(*xs):
    xs = [N(x) for x in xs]
    if any(nan_(x) for x in xs):
        return NAN
    return max(xs, key=re_)


def s_min(*xs):
    xs = [N(x) for x in xs]
    if any(nan_(x) for x in xs):
        return NAN
    return min(xs, key=re_)


def s_ite(c, a, b):
    return a if truth(c) else b


def truth(x):
    if isinstance(x, bool):
        return x
    if x is None:
        return False
    if isinstance(x, str):
        return bool(x)
    if nan_(x):
        return True
    return x != 0


def s_and(*xs):
    return all(truth(x) for x in xs)


def s_or(*xs):
    return any(truth(x) for x in xs)


def s_mod(a, b):
    a, b = N(a), N(b)
    if nan_(a) or nan_(b) or b == 0 or mpmath.isinf(a):
        return NAN
    return a - b * mpmath.floor(a / b)


def s_arctan2(a, b):
    a, b = N(a), N(b)
    if nan_(a) or nan_(b):
        return NAN
    return mpmath.atan2(a, b)


def _jn(n):
    return _fin(lambda a: mpmath.besselj(n, a))


SCALAR = {
    "add": s_add, "mul": s_mul, "pow": s_pow, "exp": s_exp, "log": s_log, "log10": lambda a: s_log(a) / mpmath.log(10),
    "sin": snap(mpmath.sin), "cos": snap(mpmath.cos), "tan": _fin(mpmath.tan), "arcsin": _dom(mpmath.asin, -1, 1),
    "arccos": _dom(mpmath.acos, -1, 1), "arctan": _dom(mpmath.atan, -INF, INF), "arctan2": s_arctan2, "sinc": s_sinc,
    "abs": s_abs, "sqrt": lambda a: s_pow(a, mpf(0.5)), "eq": s_eq, "lt": s_lt, "le": s_le, "not": lambda a: not truth(a),
    "and": s_and, "or": s_or, "ite": s_ite, "nan_to_num": s_n2n, "mod": s_mod,
    "floor": lambda a: a if nan_(N(a)) or mpmath.isinf(N(a)) else mpmath.floor(re_(N(a))),
    "ceil": lambda a: a if nan_(N(a)) or mpmath.isinf(N(a)) else mpmath.ceil(re_(N(a))), "round": s_round,
    "trunc": lambda a: NAN if nan_(N(a)) or mpmath.isinf(N(a)) else mpf(int(re_(N(a)))),
    "conj": lambda a: mpmath.conj(N(a)), "real": lambda a: re_(N(a)), "imag": lambda a: N(a).imag, "max": s_max, "min": s_min,
    "sign": s_sign, "isnan": lambda a: nan_(N(a)), "isfinite": lambda a: not nan_(N(a)) and not mpmath.isinf(N(a)), "u8": s_u8,
    "tanh": _fin(mpmath.tanh), "sinh": _fin(mpmath.sinh), "cosh": _fin(mpmath.cosh), "erf": _fin(mpmath.erf),
    "idiv": lambda a, b: mpmath.floor(s_mul(a, s_pow(b, -1))), "truth": truth,
}


def bmap(f, args):
    """broadcasting elementwise application"""
    if not any(isinstance(a, np.ndarray) for a in args):
        return f(*args)
    arrs = [a if isinstance(a, np.ndarray) else _obj0(a) for a in args]
    try:
        bs = np.broadcast_arrays(*arrs)
    except ValueError:
        raise Undef("shapes do not broadcast")
    if bs[0].size > MAXEL:
        raise Undef("too large")
    out = np.empty(bs[0].shape, dtype=object)
    fo = out.reshape(-1) if out.ndim else out
    flats = [b.reshape(-1) for b in bs]
    for i in range(out.size):
        fo[i] = f(*[x[i] for x in flats])
    return out


def _obj0(a):
    o = np.empty((), dtype=object)
    o[()] = a
    return o


def arr_of(xs):
    xs = list(xs)
    sh = next((x.shape for x in xs if isinstance(x, np.ndarray)), ())
    for x in xs:
        if isinstance(x, np.ndarray) and len(x.shape) > len(sh):
            sh = x.shape
    o = np.empty((len(xs),) + sh, dtype=object)
    for i, x in enumerate(xs):
        if sh:
            try:
                o[i] = np.broadcast_to(x if isinstance(x, np.ndarray) else _obj0(x), sh)
            except ValueError:
                raise Undef("ragged")
        else:
            o[i] = x
    return o


# --------------------------------------------------------------- evaluator
KERNELS = ((3, 3), (2, 1), (19, 2), (1, 3), (2, 2), (3, 1), (2, 18), (4, 3), (1, 1), (1, 4), (2, 4), (17, 1), (4, 1), (1, 21), (5, 5), (1, 2), (3, 2))


class Ev:
    def __init__(self, seed, profile="unit", over=None, rng=None, strs=(), ints=None, session=None):
        self.seed, self.profile = seed, profile
        self.over = over or {}
        self.ranges = rng or {}
        self.strs = strs
        self.memo = {}
        self.syms = {}
        self.budget = 400000
        self.open = set()
        r = random.Random(seed)
        self.N = r.choice([3, 4, 5]) if profile != "tiny" else r.choice([1, 2])
        self.files = session

    # -- axes
    def alen(self, ax, bv):
        k = ax[0]
        if k == "n":
            return self.coarse(ax[1]) if isinstance(ax[1], int) else self.asint(self.ev(ax[1], bv))
        if k == "one":
            return 1
        if k in ("r", "c"):
            return self.alen(ax[1], bv)
        if k == "sl":
            return len(range(*slice(ax[1], ax[2]).indices(self.alen(ax[3], bv))))
        if k == "filt":
            m = None
            n = self.alen(ax[2], bv)
            for c in ax[1]:
                x = self.ev(c, bv)
                x = self.vec(x, n)
                m = x if m is None else [a and b for a, b in zip(m, x)]
            return sum(1 for a in m if a)
        if k == "ax":
            if len(ax) == 2:
                nm = ax[1]
                if ("axis:" + str(nm)) in self.over:
                    return self.over["axis:" + str(nm)]
                if nm in ("kr", "kc"):
                    return KERNELS[self.seed % len(KERNELS)][nm == "kc"]
                if nm == "aw":
                    return len(self.ranges["@aw"]) if "@aw" in self.ranges and self.profile != "tiny" else self.N + 2
                if nm in ("csvrows", "csvcols", "raw"):
                    if nm == "raw" and "@bin" in self.ranges:
                        return self.ranges["@bin"]
                    if nm != "raw" and "@csv" in self.ranges:
                        rows = self.ranges["@csv"](self, "")
                        return len(rows) if nm == "csvrows" else len(rows[0])
                    raise Undef("file axis")
                if self.profile != "tiny" and self.seed % 2 == 0:
                    order = self.over.get("@axes", {})
                    return self.N + (order[nm] + self.seed // 2 if nm in order else hsh(self.seed, "len", nm)) % 3
                return self.N
            if ax[1] == "slice":
                lo, hi = (None if x is NONE else self.asint(self.ev(x, bv)) for x in ax[2:4])
                return len(range(*slice(lo, hi).indices(self.alen(ax[4], bv))))
            if ax[1] == "ravel":
                p = 1
                for a in ax[2]:
                    p *= self.alen(a, bv)
                return p
        raise Undef("axis %s" % (k,))

    def vec(self, x, n):
        if isinstance(x, np.ndarray) and x.ndim == 1:
            if len(x) != n:
                raise Undef("mask length")
            return [truth(a) for a in x]
        if isinstance(x, np.ndarray):
            raise Undef("mask rank")
        return [truth(x)] * n

    def coarse(self, n):
        """long sampled paths are thinned out while candidates are searched"""
        return 24 + n % 7 if n >= LONG and "@coarse" in self.over else n

    def cnt(self, t, bv):
        return self.coarse(t.data.numerator) if t.op == "num" and t.data.denominator == 1 else self.asint(self.ev(t, bv))

    def asint(self, x):
        x = N(x)
        if isc(x) or nan_(x) or mpmath.isinf(x):
            raise Undef("length")
        n = int(mpmath.nint(x))
        if abs(x - n) > mpf("1e-12"):
            raise Undef("fractional length")
        if n > MAXEL:
            raise Undef("too large")
        return n

    def shape(self, t, bv):
        sh = tuple(self.alen(a, bv) for a in t.axes)
        p = 1
        for s in sh:
            p *= s
        if p > MAXEL or any(s < 0 for s in sh):
            raise Undef("too large")
        return sh

    # -- leaves
    def number(self, kind, *key):
        u = rnd(self.seed, *key)
        z = rnd(self.seed, "z", *key)
        u2 = rnd(self.seed, "u2", *key)
        p = self.profile
        if kind == "zero":
            return mpf(0)
        if kind == "bool":
            return u < 0.5
        if kind in ("int",):
            return mpf(int(u * 7) - 2)
        if kind in ("posint", "nonnegint"):
            return mpf((1 if kind == "posint" else 0) + int(u * 5)) if z > 0.15 else mpf(1 if kind == "posint" else 0)
        if kind == "unit":
            if z < 0.12:
                return mpf(0)
            if z > 0.94:
                return mpf(10) ** (-1 - 7 * mpf(u))  # nearly nothing
            return mpf(0.02 + 0.96 * u)
        if kind == "unit1":
            return mpf(0.05 + 0.95 * u) if z > 0.12 else mpf(1)
        if p == "log":
            v = mpf(10) ** (6 * u - 3)
        elif p == "wide":
            v = mpf(10) ** (14 * u - 8)
        else:
            v = mpf(0.3 + 2.2 * u)
        if kind == "angle":
            return mpf(-7 + 14 * u)
        if kind in ("nonneg", "incr0"):
            return mpf(0) if z < 0.12 else v
        if kind == "real":
            if z < 0.08:
                return mpf(0)
            return v if u2 < 0.6 else -v
        if kind == "cx":
            return mpc(v, mpf(2 * u2 - 1))
        return v

    def symval(self, t, bv):
        name, kind = t.data
        key = (name, t.axes)
        if key in self.syms:
            return self.syms[key]
        if name in self.over and not t.axes:
            r = self.over[name]
        elif kind == "str":
            ch = list(self.strs) + ["other:" + name]
            r = ch[hsh(self.seed, name) % len(ch)]
        elif not t.axes:
            rg = self.ranges.get(name)
            if rg is not None:
                if callable(rg):
                    r = rg(self)
                elif isinstance(rg, tuple):
                    r = mpf(rg[0]) + (mpf(rg[1]) - mpf(rg[0])) * rnd(self.seed, name)
                    if kind in ("int", "posint"):
                        r = mpmath.nint(r)
                else:
                    r = rg[hsh(self.seed, name) % len(rg)]
            else:
                r = self.number(kind, name)
        else:
            sh = self.shape(t, bv)
            r = np.empty(sh, dtype=object)
            rg = self.ranges.get(name)
            if callable(rg):
                r[...] = rg(self, sh)
                r = self.syms[key] = self.pin(name, kind, r)
                return r
            # now and then wavelengths in metres, a few nanometres apart
            fine = mpf(10) ** (2 * rnd(self.seed, "fine") - 7) if "wavelength" in name and rg is None and hsh(self.seed, "fine", name) % 5 == 0 else None
            for ix in itertools.product(*[range(s) for s in sh]):
                if rg is not None and isinstance(rg, tuple):
                    r[ix] = mpf(rg[0]) + (mpf(rg[1]) - mpf(rg[0])) * rnd(self.seed, name, ix)
                elif fine is not None:
                    r[ix] = fine * (1 + mpf("0.01") * rnd(self.seed, name, ix))
                else:
                    r[ix] = self.number("pos" if kind in ("wave", "incr", "incr0") else kind, name, ix)
            if kind in ("wave", "incr", "incr0") and r.ndim == 1:
                r[:] = sorted(r)
            elif r.ndim == 1 and r.size > 1 and "wavelength" not in name and hsh(self.seed, "tie", name) % 6 == 0:
                r[1] = r[0]  # now and then two equal entries
            if name.endswith("kernel") and kind == "real" and hsh(self.seed, "unit-sum", name) % 10 < 7:
                tot = sum(r.ravel())
                if abs(tot) > mpf("1e-3"):
                    # kernels in use sum to one
                    r = r / tot
            r = self.pin(name, kind, r)
        self.syms[key] = r
        return r

    def pin(self, name, kind, r):
        """move one entry of an array leaf to a chosen value, keeping its order"""
        for k, v in self.over.items():
            if isinstance(k, tuple) and k[0] == "elem" and k[1] == name and r.ndim == 1 and -len(r) <= k[2] < len(r) and r[k[2]] > 0:
                if kind in ("wave", "incr", "incr0"):
                    r = r * (v / r[k[2]])
                    r[k[2]] = v
                else:
                    r[k[2]] = v
        return r

    # -- main
    def ev(self, t, bv=None):
        bv = bv or {}
        fb = freebv(t)
        key = (t.id, tuple(sorted((b, bv[b]) for b in fb if b in bv))) if fb else t.id
        r = self.memo.get(key, self)
        if r is not self:
            return r
        if len(self.memo) > self.budget:
            raise Undef("budget")
        r = self._ev(t, bv)
        self.memo[key] = r
        return r

    def _ev(self, t, bv):
        o = t.op
        f = SCALAR.get(o)
        if o == "ite" and not t.args[0].axes:
            return self.bcast(self.ev(t.args[1] if truth(self.ev(t.args[0], bv)) else t.args[2], bv), t, bv)
        if f is not None:
            args = [self.ev(a, bv) for a in t.args]
            if len(args) > 2 and o in ("add", "mul"):
                r = args[0]
                for a in args[1:]:
                    r = bmap(f, [r, a])
                return r
            return bmap(f, args)
        if o == "num":
            return mpf(t.data.numerator) / mpf(t.data.denominator)
        if o == "sym":
            return self.symval(t, bv)
        m = getattr(self, "o_" + o.replace(".", "_").replace("-", "_"), None)
        if m is not None:
            return m(t, bv)
        if o in ("pi",):
            return +mpmath.pi
        return self.opaque(t, bv)

    def bcast(self, r, t, bv):
        if len(t.axes) == (r.ndim if isinstance(r, np.ndarray) else 0):
            return r
        sh = self.shape(t, bv)
        try:
            return np.broadcast_to(r if isinstance(r, np.ndarray) else _obj0(r), sh)
        except ValueError:
            raise Undef("broadcast")

    def opaque(self, t, bv):
        """fixed pseudo-random smooth function of all operands"""
        if t.op in ("unknown", "carry", "exc"):
            if t.op == "exc":
                return False
            raise Undef(t.op)
        names = [t.op]
        extra = []

        def go(d):
            if isinstance(d, Term):
                extra.append(d)
                names.append("T")
            elif isinstance(d, tuple):
                for x in d:
                    go(x)
            else:
                names.append(repr(d))
        if t.op == "draw":
            names.append(t.data[0])
        elif t.op not in ("stride", "slicesym", "newax"):
            go(t.data)
        vals = [self.ev(a, bv) for a in t.args] + [self.ev(a, bv) for a in extra]
        key = tuple(names)
        sh = self.shape(t, bv)
        sums = self.sums(key, vals)
        if not sh:
            return self.combine(key, (), sums)
        out = np.empty(sh, dtype=object)
        for ix in itertools.product(*[range(s) for s in sh]):
            out[ix] = self.combine(key, ix, sums)
        return out

    def sums(self, key, vals):
        """two weighted sums per operand"""
        out = []
        for i, v in enumerate(vals):
            it = v.reshape(-1) if isinstance(v, np.ndarray) else [v]
            s1, s2, mag = mpf(0), mpf(0), mpf(0)
            r = random.Random(hsh(key, i))
            for x in it:
                if isinstance(x, bool):
                    x = mpf(2 if x else 1)
                elif x is None:
                    x = mpf(1)
                elif isinstance(x, str):
                    x = mpf(0.5 + rnd("s", x))
                if nan_(x) or mpmath.isinf(x):
                    s1 = s2 = NAN
                    break
                s1 += (0.5 + r.random()) * x
                s2 += (0.5 + r.random()) * x
                mag += 2 * abs(x)
            if not nan_(s1) and abs(s1) <= mag * mpf("1e-20"):
                s1 = s2 = mpf(0.7 + rnd("zero", key, i))
            out.append((s1, s2))
        return out

    def combine(self, key, pos, sums):
        r = mpf(0.5 + rnd(key, pos))
        for i, (a, b) in enumerate(sums):
            w = rnd(key, pos, i)
            r *= w * a + (1 - w) * b
        return r

    def functional(self, key, pos, vals):
        return self.combine(key, pos, self.sums(key, vals))

    # -- canonical forms (appear inside axis descriptions)
    def o_P(self, t, bv):
        r = mpf(0)
        for c, m in t.data:
            x = mpf(c.numerator) / c.denominator
            for i, e in m:
                x = bmap(s_mul, [x, bmap(s_pow, [self.ev(t.args[i], bv), mpf(e.numerator) / e.denominator])])
            r = bmap(s_add, [r, x])
        return r

    def o_ind(self, t, bv):
        return bmap(lambda a: a if isinstance(a, bool) else bool(re_(N(a)) > 0), [self.ev(t.args[0], bv)])

    def o_zero(self, t, bv):
        if t.args[0].op == "streq":
            return self.ev(t.args[0], bv)
        return bmap(lambda a: bool(N(a) == 0), [self.ev(t.args[0], bv)])

    # -- constants
    def o_true(self, t, bv):
        return True

    def o_false(self, t, bv):
        return False

    def o_none(self, t, bv):
        return None

    def o_str(self, t, bv):
        return t.data

    def o_I(self, t, bv):
        return mpc(0, 1)

    def o_nan(self, t, bv):
        return NAN

    def o_inf(self, t, bv):
        return INF

    def o_bv(self, t, bv):
        if t.id not in bv:
            # the length of a searched array follows the index the search stops at
            ss = SEARCHES.get(t.id, ())
            if len(ss) != 1 or t.id in self.open:
                raise Undef("free bound variable")
            n, c = ss[0]
            self.open.add(t.id)
            try:
                k = self.asint(self.ev(n, {}))
                for i in range(k):
                    if truth(self.ev(c, {t.id: i})) or i == k - 1:
                        return mpf(i)
            finally:
                self.open.discard(t.id)
            raise Undef("empty search")
        return mpf(bv[t.id])

    def o_dim(self, t, bv):
        return mpf(self.alen(t.data, bv))

    def o_specnorm(self, t, bv):
        a = mpmath.matrix(self.ev(t.args[0], bv).tolist())
        return max(mpmath.svd_c(a, compute_uv=False)) if a.rows and a.cols else mpf(0)

    def o_unique(self, t, bv):
        r = []
        for x in sorted(N(x) for x in self.flat(self.ev(t.args[0], bv))):
            if not r or x != r[-1]:
                r.append(x)
        return arr_of(r) if r else np.empty((0,), dtype=object)

    def o_nuniq(self, t, bv):
        return mpf(len({N(x) for x in self.flat(self.ev(t.args[0], bv))}))

    def o_psfof(self, t, bv):
        r = self.opaque(t, bv)
        # every operand shapes the kernel, not only its level
        r = bmap(lambda x, y: x + y, [r, arr_of([mpf(rnd("psf", i)) for i in range(r.size)]).reshape(r.shape)])
        return r / sum(r.reshape(-1))

    def o_count(self, t, bv):
        return self.opaque(t, bv)

    def o_jn(self, t, bv):
        return bmap(_jn(t.data), [self.ev(t.args[0], bv)])

    def o_isclose(self, t, bv):
        a, b = N(self.ev(t.args[0], bv)), N(self.ev(t.args[1], bv))
        d = {k: N(self.ev(v, bv)) for k, v in t.data}
        rtol = d.get("rtol", d.get("p0", mpf("1e-5")))
        atol = d.get("atol", d.get("p1", mpf("1e-8")))
        if "rel_tol" in d or "abs_tol" in d:
            rtol, atol = d.get("rel_tol", mpf("1e-9")), d.get("abs_tol", mpf(0))
        return bool(abs(a - b) <= atol + rtol * abs(b))

    # -- strings
    def o_strcat(self, t, bv):
        return "".join(self.text(self.ev(a, bv)) for a in t.args)

    def text(self, x):
        if isinstance(x, str):
            return x
        if isinstance(x, np.ndarray):
            raise Undef("text of array")
        if x is None or isinstance(x, bool):
            return str(x)
        return mpmath.nstr(x, 12)

    def o_tostr(self, t, bv):
        x = self.ev(t.args[0], bv)
        if t.args[0].op in ("trunc", "floor", "ceil", "round", "count", "dim") and not isinstance(x, (str, np.ndarray)) and x is not None:
            return str(self.asint(x))
        return self.text(x)

    def o_fmt(self, t, bv):
        return "<%s:%s>" % (self.text(self.ev(t.args[0], bv)), t.data)

    def o_file(self, t, bv):
        return "<file %s>" % t.data

    def o_dirname(self, t, bv):
        return "<dir %s %s>" % (t.data, ",".join(self.text(self.ev(a, bv)) for a in t.args))

    def o_streq(self, t, bv):
        return s_eq(self.ev(t.args[0], bv), self.ev(t.args[1], bv))

    # -- files: contents are leaves too
    def o_readcsv(self, t, bv):
        f = self.ranges.get("@csv")
        if f is None:
            raise Undef("file contents")
        o = dict(t.data)
        if self.ev(o["delimiter"], bv) != "," if "delimiter" in o else True:
            raise Undef("csv delimiter")
        skip = self.asint(self.ev(o["skip_header"], bv)) if "skip_header" in o else 0
        rows = f(self, self.ev(t.args[0], bv))
        if skip == 0:
            rows = [[NAN] * len(rows[0])] + rows
        out = np.empty((max(len(rows) - max(skip - 1, 0), 0), len(rows[0])), dtype=object)
        for i, r in enumerate(rows[max(skip - 1, 0):]):
            out[i] = r
        return out

    def o_readbin(self, t, bv):
        n = self.ranges.get("@bin")
        if n is None:
            raise Undef("file contents")
        p = self.ev(t.args[0], bv)
        if len(t.args) > 1 or t.data != "float32":
            p += "|" + t.data + "|" + ",".join(self.text(self.ev(a, bv)) for a in t.args[1:])
        out = np.empty(n, dtype=object)
        for i in range(n):
            h = hsh(self.seed, "bin", p, i)
            out[i] = mpf(h % 999983) / 999983 * (1, 1, 1000)[h % 3]  # transmissions and radiances
        return out

    def o_isfile(self, t, bv):
        p = self.ev(t.args[0], bv)
        f = self.ranges.get("@isfile")
        return f(self, p) if f else True

    # -- structure
    def o_bc(self, t, bv):
        r = self.ev(t.args[0], bv)
        sh = self.shape(t, bv)
        try:
            return np.broadcast_to(r if isinstance(r, np.ndarray) else _obj0(r), sh)
        except ValueError:
            raise Undef("broadcast")

    def o_ren(self, t, bv):
        r = self.ev(t.args[0], bv)
        if isinstance(r, np.ndarray) and r.shape != self.shape(t, bv):
            sh = self.shape(t, bv)
            if r.ndim == len(sh) and all(a == b or a == 1 for a, b in zip(r.shape, sh)):
                return np.broadcast_to(r, sh)
            raise Undef("renamed axes differ")
        return r

    def pos(self, t, ax):
        return t.axes.index(ax)

    def o_idx(self, t, bv):
        leaf = t.args[0]
        a = self.ev(leaf, bv)
        k = self.asint(self.ev(t.args[1], bv))
        if t.data in leaf.axes:
            p = self.pos(leaf, t.data)
        elif len(leaf.axes) == len(t.axes) + 1:
            p = next((i for i, x in enumerate(leaf.axes) if i >= len(t.axes) or x != t.axes[i]), 0)
        else:
            raise Undef("idx axis")
        if not isinstance(a, np.ndarray):
            raise Undef("idx of scalar")
        n = a.shape[p]
        if not -n <= k < n:
            raise Undef("index out of range")
        r = a.take(k, axis=p)
        return r if isinstance(r, np.ndarray) and r.ndim else (r[()] if isinstance(r, np.ndarray) else r)

    def o_filt(self, t, bv):
        leaf = t.args[0]
        a = self.ev(leaf, bv)
        base = t.data[2]
        p = self.pos(leaf, base)
        n = a.shape[p]
        m = [True] * n
        for c in t.args[1:]:
            x = self.vec(self.ev(c, bv), n)
            m = [u and v for u, v in zip(m, x)]
        return a.compress(m, axis=p)

    def o_rev(self, t, bv):
        return np.flip(self.ev(t.args[0], bv), axis=self.pos(t.args[0], t.data))

    def o_slice(self, t, bv):
        leaf = t.args[0]
        a = self.ev(leaf, bv)
        lo, hi, ax = t.data
        sl = [slice(None)] * a.ndim
        sl[self.pos(leaf, ax)] = slice(lo, hi)
        return a[tuple(sl)]

    def o_slicesym(self, t, bv):
        leaf = t.args[0]
        a = self.ev(leaf, bv)
        lo, hi = (None if x is NONE else self.asint(self.ev(x, bv)) for x in t.args[1:3])
        sl = [slice(None)] * a.ndim
        sl[self.pos(leaf, t.data)] = slice(lo, hi)
        return a[tuple(sl)]

    def o_maskflat(self, t, bv):
        a, m = self.ev(t.args[0], bv), self.ev(t.args[1], bv)
        if a.shape != m.shape:
            raise Undef("mask shape")
        return a[np.array([truth(x) for x in m.reshape(-1)]).reshape(m.shape)]

    def o_newax(self, t, bv):
        return np.expand_dims(self.ev(t.args[0], bv), t.data)

    def o_transpose(self, t, bv):
        return self.ev(t.args[0], bv).T

    def o_ravel(self, t, bv):
        r = self.ev(t.args[0], bv)
        return r.reshape(-1) if isinstance(r, np.ndarray) else arr_of([r])

    def o_reshape(self, t, bv):
        a = self.ev(t.args[0], bv)
        dims = [self.asint(self.ev(d, bv)) for d in t.args[1:]]
        try:
            return a.reshape(dims, order=t.data)
        except Exception:
            raise Undef("reshape")

    def o_arr(self, t, bv):
        return arr_of([self.ev(a, bv) for a in t.args])

    def o_cat(self, t, bv):
        xs = [self.ev(a, bv) for a in t.args]
        return np.concatenate([x if isinstance(x, np.ndarray) else arr_of([x]) for x in xs])

    def o_hcat(self, t, bv):
        xs = [self.ev(a, bv) for a in t.args]
        rows = max(x.shape[0] for x in xs)
        try:
            return np.concatenate([np.broadcast_to(x, (rows, x.shape[1])) for x in xs], axis=1)
        except ValueError:
            raise Undef("hcat")

    def o_vstack(self, t, bv):
        return arr_of([self.ev(a, bv) for a in t.args])

    def o_stack_last(self, t, bv):
        return np.moveaxis(arr_of([self.ev(a, bv) for a in t.args]), 0, -1)

    def o_setsel(self, t, bv):
        base, val = (self.ev(a, bv) for a in t.args)
        _, sax, lo, hi = t.data
        base = np.array(base, dtype=object)
        try:
            base[:, lo:hi] = val if not (isinstance(val, np.ndarray) and val.ndim == 1) else (val[:, None] if hi - lo == 1 else val)
        except ValueError:
            raise Undef("setsel")
        return base

    def o_setblk(self, t, bv):
        base, val = (self.ev(a, bv) for a in t.args)
        base = np.array(base, dtype=object)
        (a, b), (c, d) = t.data
        try:
            base[a:b, c:d] = val
        except ValueError:
            raise Undef("setblk")
        return base

    def o_setidx(self, t, bv):
        base, k, val = (self.ev(a, bv) for a in t.args)
        base = np.array(base, dtype=object)
        try:
            base[self.asint(k)] = val
        except (IndexError, ValueError):
            raise Undef("setidx")
        return base

    def o_diag(self, t, bv):
        return np.diagonal(self.ev(t.args[0], bv))

    def o_linspace(self, t, bv):
        a, b = (self.ev(x, bv) for x in t.args[:2])
        n = self.cnt(t.args[2], bv)
        if n < 1:
            return np.empty((0,), dtype=object)
        if n == 1:
            return arr_of([a])
        d = (N(b) - N(a)) / (n - 1) if not isinstance(a, np.ndarray) else None
        if d is None:
            raise Undef("array linspace")
        return arr_of([N(a) + i * d for i in range(n)])

    def o_arange(self, t, bv):
        a, s = (self.ev(x, bv) for x in t.args[:2])
        return arr_of([N(a) + i * N(s) for i in range(max(0, self.cnt(t.args[2], bv)))])

    def o_map(self, t, bv):
        n, body, v = t.args
        k = self.cnt(n, bv)
        if k > MAXEL:
            raise Undef("too large")
        r = [self.ev(body, {**bv, v.id: i}) for i in range(k)]
        if not r:
            return np.empty((0,) + tuple(1 for _ in t.axes[1:]), dtype=object)
        return arr_of(r)

    # -- reductions
    def o_bigsum(self, t, bv):
        n, body, v = t.args
        k = self.asint(self.ev(n, bv))
        r = mpf(0)
        for i in range(k):
            r = bmap(s_add, [r, self.ev(body, {**bv, v.id: i})])
        if k <= 0 and t.axes:
            return self.bcast(r, t, bv)
        return r

    def o_bigprod(self, t, bv):
        n, body, v = t.args
        r = mpf(1)
        for i in range(self.asint(self.ev(n, bv))):
            r = bmap(s_mul, [r, self.ev(body, {**bv, v.id: i})])
        return r

    def o_search(self, t, bv):
        n, c, val, v = t.args
        k = self.asint(self.ev(n, bv))
        if k <= 0:
            raise Undef("empty search")
        for i in range(k):
            if truth(self.ev(c, {**bv, v.id: i})) or i == k - 1:
                return self.ev(val, {**bv, v.id: i})

    def flat(self, x):
        return list(x.reshape(-1)) if isinstance(x, np.ndarray) else [x]

    def o_sum(self, t, bv):
        r = mpf(0)
        for x in self.flat(self.ev(t.args[0], bv)):
            r += N(x)
        return r

    def o_trapz(self, t, bv):
        y, x = self.ev(t.args[0], bv), self.ev(t.args[1], bv)
        x = self.flat(x)
        y = self.flat(y) if isinstance(y, np.ndarray) else [y] * len(x)
        if len(x) != len(y):
            raise Undef("trapz lengths")
        r = mpf(0)
        for i in range(len(x) - 1):
            r += s_mul((N(y[i]) + N(y[i + 1])) / 2, N(x[i + 1]) - N(x[i]))
        return r

    def o_amax(self, t, bv):
        xs = self.flat(self.ev(t.args[0], bv))
        if not xs:
            raise Undef("max of empty")
        return s_max(*xs)

    def o_amin(self, t, bv):
        xs = self.flat(self.ev(t.args[0], bv))
        if not xs:
            raise Undef("min of empty")
        return s_min(*xs)

    def o_allred(self, t, bv):
        return all(truth(x) for x in self.flat(self.ev(t.args[0], bv)))

    def o_anyred(self, t, bv):
        return any(truth(x) for x in self.flat(self.ev(t.args[0], bv)))

    def o_percentile(self, t, bv):
        xs = [re_(N(x)) for x in self.flat(self.ev(t.args[0], bv))]
        q = N(self.ev(t.args[1], bv))
        if not xs:
            raise Undef("percentile of empty")
        if any(nan_(x) for x in xs) or nan_(q):
            return NAN
        if q < 0 or q > 100:
            raise Undef("percentile range")
        xs.sort()
        p = q / 100 * (len(xs) - 1)
        lo = int(mpmath.floor(p))
        hi = min(lo + 1, len(xs) - 1)
        return xs[lo] + (xs[hi] - xs[lo]) * (p - lo)

    def o_argmin(self, t, bv):
        xs = [re_(N(x)) for x in self.flat(self.ev(t.args[0], bv))]
        if not xs or any(nan_(x) for x in xs):
            raise Undef("argmin")
        return mpf(xs.index(min(xs) if t.op == "argmin" else max(xs)))

    o_argmax = o_argmin

    def o_argsort(self, t, bv):
        xs = [re_(N(x)) for x in self.flat(self.ev(t.args[0], bv))]
        return arr_of([mpf(i) for i in sorted(range(len(xs)), key=lambda i: xs[i])])

    def o_take(self, t, bv):
        leaf = t.args[0]
        a = self.ev(leaf, bv)
        ks = [self.asint(x) for x in self.flat(self.ev(t.args[1], bv))]
        p = self.pos(leaf, t.data)
        if any(not -a.shape[p] <= k < a.shape[p] for k in ks):
            raise Undef("index out of range")
        return a.take(ks, axis=p)

    def o_searchsorted(self, t, bv):
        a, v = self.flat(self.ev(t.args[0], bv)), self.ev(t.args[1], bv)
        return mpf(sum(1 for x in a if (x < v if t.data == "left" else x <= v)))

    # -- interpolation
    def o_interp(self, t, bv):
        x, xp, fp, l, r = (self.ev(a, bv) for a in t.args)
        xp, fp = self.flat(xp), self.flat(fp)
        if len(xp) != len(fp) or not xp:
            raise Undef("interp lengths")
        if any(xp[i] >= xp[i + 1] for i in range(len(xp) - 1)):
            raise Undef("interp on unsorted data")

        def f(v):
            v = re_(N(v))
            if nan_(v):
                return NAN
            if v < xp[0]:
                return N(l)
            if v > xp[-1]:
                return N(r)
            for i in range(len(xp) - 1):
                if v == xp[i]:
                    return N(fp[i])
                if v < xp[i + 1]:
                    return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
            return N(fp[-1])
        return bmap(f, [x])

    def o_interp1(self, t, bv):
        kind, mode, srt = t.data
        if kind != "linear":
            return self.opaque(t, bv)
        x, xp, fp = (self.ev(a, bv) for a in t.args)
        xp, fp = self.flat(xp), self.flat(fp)
        if len(xp) != len(fp) or len(xp) < 2:
            raise Undef("interp1d lengths")
        if not srt:
            o = sorted(range(len(xp)), key=lambda i: xp[i])
            xp, fp = [xp[i] for i in o], [fp[i] for i in o]
        if len(set(xp)) < len(xp):
            raise Undef("interp on repeated data")
        loose = any(xp[i] >= xp[i + 1] for i in range(len(xp) - 1))  # said to be in order, and is not
        fill = [self.ev(q, bv) for q in (mode[1] if mode[0] == "clamp" else mode[1:])]

        def f(v):
            v = re_(N(v))
            if nan_(v):
                return NAN
            if v < xp[0] or v > xp[-1]:
                if mode[0] == "raise":
                    raise Undef("outside interpolation range")
                if mode[0] == "fill":
                    return N(fill[0])
                if mode[0] == "clamp":
                    return N(fill[0] if v < xp[0] else fill[-1])
            i = 0
            if loose:
                i, n = 0, len(xp)
                while i < n:
                    m = (i + n) // 2
                    i, n = (m + 1, n) if xp[m] < v else (i, m)
                i = min(max(i, 1), len(xp) - 1) - 1
            while not loose and i < len(xp) - 2 and v > xp[i + 1]:
                i += 1
            return fp[i] + (fp[i + 1] - fp[i]) * (v - xp[i]) / (xp[i + 1] - xp[i])
        return bmap(f, [x])

    def _bilin(self, px, py, vals, qx, qy, fill, outside):
        def loc(p, q):
            if (q < p[0] or q > p[-1]) and outside != "extrapolate":
                e = mpf("1e-20") * (p[-1] - p[0])
                if not p[0] - e <= q <= p[-1] + e:
                    return None
            i = 0
            while i < len(p) - 2 and q > p[i + 1]:
                i += 1
            return i, (q - p[i]) / (p[i + 1] - p[i])

        def f(a, b):
            a, b = re_(N(a)), re_(N(b))
            la, lb = loc(px, a), loc(py, b)
            if la is None or lb is None:
                if outside == "raise":
                    raise Undef("outside grid")
                return fill
            (i, s), (j, u) = la, lb
            if callable(vals):
                r = mpf(0)
                for k, w in ((i, 1 - s), (i + 1, s)):
                    for l, z in ((j, 1 - u), (j + 1, u)):
                        if w != 0 and z != 0:
                            r = r + N(vals(k, l)) * w * z
                return r
            return (vals[i, j] * (1 - s) * (1 - u) + vals[i + 1, j] * s * (1 - u) + vals[i, j + 1] * (1 - s) * u
                    + vals[i + 1, j + 1] * s * u)
        return bmap(f, [qx, qy])

    def lazy(self, t, bv):
        """entries of a large table on demand: indices are pushed to the leaves"""
        def at(i, j):
            key = (t.id, i, j)
            e = _ELEM.get(key)
            if e is None:
                e = _ELEM[key] = B.idx(B.idx(t, num(i), t.axes[0]), num(j), t.axes[1])
            return self.ev(e, bv)
        return at

    def o_rgi(self, t, bv):
        k, opts = t.data
        opts = dict(opts)
        if k != 2 or (opts.get("method") is not None and opts["method"].data != "linear"):
            return self.opaque(t, bv)
        big = len(t.args[2].axes) == 2 and t.args[2].axes[0] != t.args[2].axes[1] and min(self.shape(t.args[2], bv)) > 12
        vs = [None if big and i == 2 else self.ev(a, bv) for i, a in enumerate(t.args)]
        p = [self.flat(x) for x in vs[:2]]
        vals = vs[2]
        if (self.shape(t.args[2], bv) if big else vals.shape) != (len(p[0]), len(p[1])) or min(len(p[0]), len(p[1])) < 2:
            raise Undef("rgi shape")
        if big:
            at = self.lazy(t.args[2], bv)
            vals = at
        for i in (0, 1):
            q = [re_(N(x)) for x in p[i]]
            if len(q) > 1 and q[0] > q[-1]:
                q = q[::-1]
                if big:
                    vals = (lambda g, m: lambda a, b: g(m - a, b))(vals, len(q) - 1) if i == 0 else (
                        lambda g, m: lambda a, b: g(a, m - b))(vals, len(q) - 1)
                else:
                    vals = np.flip(vals, axis=i)
            if any(q[i] >= q[i + 1] for i in range(len(q) - 1)):
                raise Undef("rgi unsorted")
            p[i] = q
        be = opts.get("bounds_error")
        fv = opts.get("fill_value")
        fill = NAN if fv is None else (None if fv is NONE else self.ev(fv, bv))
        mode = "raise" if be is None or be is TRUE else "fill"
        return self._bilin(p[0], p[1], vals, vs[3], vs[4], fill, "extrapolate" if mode == "fill" and fill is None else mode)

    def o_interp2d(self, t, bv):
        """legacy interp2d: sorts the grid and the requested coordinates, clamps outside"""
        X, Y, Z, x, y = (self.ev(a, bv) for a in t.args)
        X, Y = ([re_(N(v)) for v in self.flat(q)] for q in (X, Y))
        if not isinstance(Z, np.ndarray) or Z.shape != (len(Y), len(X)) or min(Z.shape) < 2:
            raise Undef("interp2d shape")
        ox, oy = sorted(range(len(X)), key=lambda i: X[i]), sorted(range(len(Y)), key=lambda i: Y[i])
        Z = Z[oy, :][:, ox]
        X, Y = [X[i] for i in ox], [Y[i] for i in oy]
        xs, ys = (sorted(re_(N(v)) for v in self.flat(q)) for q in (x, y))
        cx = [s_min(s_max(v, X[0]), X[-1]) for v in xs]
        cy = [s_min(s_max(v, Y[0]), Y[-1]) for v in ys]
        out = np.empty((len(ys), len(xs)), dtype=object)
        for i, a in enumerate(cy):
            for j, b in enumerate(cx):
                out[i, j] = self._bilin(Y, X, Z, a, b, None, "raise")
        return out

    def o_griddata(self, t, bv):
        """some interpolant depending on the set of (point, value) triples only,
        exact at the points (the triangulation is not modelled)"""
        q0, q1, p0, p1, v, fill = (self.ev(a, bv) for a in t.args)
        P = [np.array([complex(N(x)) for x in self.flat(q)]).real for q in (p0, p1)]
        V = np.array([complex(N(x)) for x in self.flat(v)])
        if len(P[0]) != len(V) or len(P[1]) != len(V) or not len(V):
            raise Undef("griddata lengths")
        span = [max(abs(float(q.max())), abs(float(q.min())), 1e-300) for q in P]
        for q, s in zip(P, span):
            q /= s
        fv = N(fill)

        def f(a, b):
            a, b = N(a), N(b)
            if nan_(a) or nan_(b):
                return NAN
            a, b = float(re_(a)) / span[0], float(re_(b)) / span[1]
            e = 1e-9
            if a < P[0].min() - e or a > P[0].max() + e or b < P[1].min() - e or b > P[1].max() + e:
                return fv
            d = (P[0] - a) ** 2 + 1.3 * (P[1] - b) ** 2
            w = 1 / (d + 1e-24) ** 2
            r = (w * V).sum() / w.sum()
            return mpc(r) if abs(r.imag) > 0 else mpf(r.real)
        return bmap(f, [q0, q1])

    def o_map_coordinates(self, t, bv):
        opts = dict(t.data)
        o = opts.get("order")
        a = self.ev(t.args[0], bv)
        if o is None or const_int(o) != 1 or a.ndim != 2 or len(t.args) != 3 or min(a.shape) < 2:
            return self.opaque(t, bv)
        mode = opts.get("mode")
        md = mode.data if mode is not None else "constant"
        if md not in ("constant", "nearest"):
            return self.opaque(t, bv)
        cv = self.ev(opts["cval"], bv) if "cval" in opts else mpf(0)
        y, x = self.ev(t.args[1], bv), self.ev(t.args[2], bv)
        px, py = ([mpf(i) for i in range(n)] for n in a.shape)
        if md == "nearest":
            y = bmap(lambda v: s_min(s_max(v, px[0]), px[-1]), [y])
            x = bmap(lambda v: s_min(s_max(v, py[0]), py[-1]), [x])
        return self._bilin(px, py, a, y, x, cv, "fill")

    # -- transforms
    def _dft(self, t, bv, sgn):
        a = self.ev(t.args[0], bv)
        if a.ndim != 2:
            raise Undef("fft rank")
        if len(t.args) > 1:
            dims = [self.asint(self.ev(d, bv)) for d in t.args[1:]]
            if max(dims) > 128:
                raise Undef("too large")
            a = a[:dims[0], :dims[1]]
        else:
            dims = list(a.shape)
        n, m = dims
        if n * m * (a.shape[0] + a.shape[1]) > 270000:
            raise Undef("too large")

        def W(k):
            w = [mpmath.expjpi(mpf(2 * sgn * j) / k) for j in range(k)]
            M = np.empty((k, k), dtype=object)
            for i in range(k):
                for j in range(k):
                    M[i, j] = w[i * j % k]
            return M
        for x in a.reshape(-1):
            N(x)
        r = W(n)[:, :a.shape[0]].dot(a).dot(W(m)[:a.shape[1], :])
        return bmap(lambda x: mpc(x) / (n * m) if sgn > 0 else mpc(x), [r])

    def o_fft2(self, t, bv):
        return self._dft(t, bv, -1)

    def o_ifft2(self, t, bv):
        return self._dft(t, bv, 1)

    def o_fftshift(self, t, bv):
        return np.fft.fftshift(self.ev(t.args[0], bv))

    def o_ifftshift(self, t, bv):
        return np.fft.ifftshift(self.ev(t.args[0], bv))

    # -- OpenCV, in its default modes
    def o_cv2_resize(self, t, bv):
        src = self.ev(t.args[0], bv)
        if t.data or not isinstance(src, np.ndarray) or src.ndim != 2 or not src.size:
            return self.opaque(t, bv)
        n = (self.asint(self.ev(t.args[2], bv)), self.asint(self.ev(t.args[1], bv)))
        if min(n) < 1 or max(n) > 400:
            raise Undef("too large")
        out = src
        for ax in (0, 1):
            m, k = out.shape[ax], n[ax]
            at = []
            for i in range(k):
                x = (mpf(i) + mpf("0.5")) * m / k - mpf("0.5")
                x = min(max(x, mpf(0)), mpf(m - 1))
                j = min(int(mpmath.floor(x)), m - 1)
                at.append((j, min(j + 1, m - 1), x - j))
            take = (lambda i: out[i, :]) if ax == 0 else (lambda i: out[:, i])
            out = np.stack([take(a) if not w else take(a) * (1 - w) + take(b) * w for a, b, w in at], axis=ax)
        return out

    def o_cv2_filter2D(self, t, bv):
        src, ker = self.ev(t.args[0], bv), self.ev(t.args[2], bv)
        if t.data or not all(isinstance(x, np.ndarray) and x.ndim == 2 and x.size for x in (src, ker)) or N(self.ev(t.args[1], bv)) != -1:
            return self.opaque(t, bv)
        if src.size * ker.size > 40000:
            raise Undef("too large")

        def fold(i, n):
            if n == 1:
                return 0
            i = abs(i) % (2 * n - 2)
            return i if i < n else 2 * n - 2 - i
        (h, w), (a, b) = src.shape, ker.shape
        out = np.zeros((h, w), dtype=object)
        for p in range(a):
            rows = [fold(i + p - a // 2, h) for i in range(h)]
            for q in range(b):
                cols = [fold(j + q - b // 2, w) for j in range(w)]
                out = out + src[np.ix_(rows, cols)] * ker[p, q]
        return out

    # -- opaque tables
    def _table(self, t, bv):
        sh = self.shape(t, bv)
        args = [self.ev(a, bv) for a in t.args]
        # neighbouring requests differ visibly
        args += [mpmath.sin(x / s) for x in args if isinstance(x, (mpf, int)) and not isinstance(x, bool) for s in (3, 317, 5003)]
        base = self.functional((t.op, repr(t.data)), (), args)
        out = np.empty(sh, dtype=object)
        for i in range(sh[0]):
            for j in range(sh[1]):
                out[i, j] = self.functional((t.op, repr(t.data), "cell"), (i, j), args) / abs(base) * (mpf(1) + abs(base) / (1 + abs(base)))
        lo, hi = mpf("0.25"), mpf("3")
        if "@aw" in self.ranges and self.profile != "tiny":
            w = [mpf(x) for x in self.ranges["@aw"]]
        else:
            w = sorted(lo + (hi - lo) * rnd(self.seed, "aw", i) for i in range(sh[0]))
        for i in range(sh[0]):
            out[i, 0] = w[i]
        return out

    def o_db(self, t, bv):
        return self._table(t, bv)

    def o_scen_atm(self, t, bv):
        return self._table(t, bv)


# ------------------------------------------------------------- comparison
PROFILES = ["unit", "unit", "log", "unit", "tiny", "unit", "log", "wide"]


def strings_in(ts):
    s = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "str":
                s.add(x.data)
    return sorted(s)


def criticals(ts):
    """scalar symbols compared with constants: name -> set of constants; and
    the list of comparison atoms"""
    crit = {}
    atoms = []
    for t in ts:
        for x in subterms(t):
            if x.op in ("eq", "lt", "le", "max", "min", "isclose") and not any(a.op in ("str", "none") for a in x.args):
                atoms.append(x)
                for i, a in enumerate(x.args):
                    if a.op == "sym" and not a.axes and a.data[1] != "str":
                        for j, b in enumerate(x.args):
                            if j != i and b.op == "num":
                                crit.setdefault(a.data[0], set()).add(b.data)
                    if a.op == "idx" and a.args[0].op == "sym" and len(a.args[0].axes) == 1 and const_int(a.args[1]) is not None:
                        for j, b in enumerate(x.args):
                            if j != i and b.op == "num" and b.data > 0:
                                crit.setdefault(("elem", a.args[0].data[0], const_int(a.args[1])), set()).add(b.data)
    return crit, atoms


INDOM = {
    "pos": lambda v: v > 0, "nonneg": lambda v: v >= 0, "unit": lambda v: 0 <= v <= 1, "unit1": lambda v: 0 < v <= 1,
    "posint": lambda v: v >= 1 and v == int(v), "int": lambda v: v == int(v), "real": lambda v: True, "wave": lambda v: v > 0,
    "angle": lambda v: True, "nonnegint": lambda v: v >= 0 and v == int(v), "incr": lambda v: v > 0, "incr0": lambda v: v >= 0,
}


def samples(ts, count, ranges=None, seed0=1, coarse=False):
    """yield interpretations, some steered to the branch boundaries"""
    crit, atoms = criticals(ts)
    strs = strings_in(ts)
    kinds = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "sym" and not x.axes:
                kinds[x.data[0]] = x.data[1]
    for name, cs in crit.items():
        o = sorted(cs)
        crit[name] = o + [(a + b) / 2 for a, b in zip(o, o[1:])] * 2  # between two thresholds of one leaf
    r = random.Random(seed0)
    sc = [a for a in atoms if not a.axes]
    if len(ts) > 1:
        # decisions only one of the two graphs takes come first
        own = [{x.id for x in subterms(t)} for t in ts[:2]]
        one = [a for a in atoms if (a.id in own[0]) != (a.id in own[1])]
        sc = one * (1 + 3 * len(sc) // max(1, len(one))) + sc
    axes = {nm: i for i, nm in enumerate(sorted({ax[1] for t in ts for x in subterms(t) for ax in x.axes if ax[0] == "ax" and len(ax) == 2}, key=str))}
    for i in range(count):
        seed = seed0 * 1000 + i
        prof = PROFILES[i % len(PROFILES)]
        over = {"@axes": axes, **({"@coarse": True} if coarse else {})}
        if i % 2 and crit:
            for name in sorted(crit, key=str):
                if r.random() < 0.7:
                    c = r.choice(sorted(crit[name]))
                    c = mpf(c.numerator) / c.denominator
                    d = r.choice([0, 0, 1e-3, -1e-3, 0.05, -0.05, 0.5, -0.5, 3])
                    v = c + d * (abs(c) if c else 1)
                    if isinstance(name, tuple):
                        if v > 0:
                            over[name] = v
                        continue
                    if kinds[name] in ("posint", "int", "nonnegint"):
                        v = c + r.choice([0, 1, -1, abs(c) + 1])
                    if INDOM.get(kinds[name], lambda v: True)(v):
                        over[name] = v
        if r.random() < 0.25:
            for name, k in kinds.items():
                if k in ("nonneg", "real", "unit") and r.random() < 0.3 and name not in over:
                    over[name] = mpf(0)
                if k == "posint" and r.random() < 0.3 and name not in over:
                    over[name] = mpf(1)
        ev = Ev(seed, prof, over, ranges, strs)
        if i % 3 == 2 and sc:
            a = r.choice(sc)
            over2 = steer(ev, a, kinds, r, ranges, strs)
            if over2:
                ev = Ev(seed, prof, over2, ranges, strs)
        yield ev


def steer(ev, atom, kinds, r, ranges, strs):
    """move one scalar leaf so that the comparison sits at its boundary"""
    names = sorted(x.data[0] for x in subterms(atom) if x.op == "sym" and not x.axes and kinds.get(x.data[0]) in ("pos", "nonneg", "real", "unit", "unit1", "angle", "posint"))
    if not names or freebv(atom) or len(atom.args) < 2:
        return None
    name = r.choice(names)
    at = r.random()

    def one(x):
        # one entry of an array comparison
        if isinstance(x, np.ndarray):
            x = x.reshape(-1)
            if not len(x):
                raise Undef("steer")
            x = x[int(at * len(x))]
        return N(x)

    def f(v):
        if kinds[name] == "posint":
            v = max(mpf(1), mpmath.nint(v))
        e = Ev(ev.seed, ev.profile, {**ev.over, name: v}, ranges, strs)
        x, y = e.ev(atom.args[0]), e.ev(atom.args[1])
        if isinstance(x, np.ndarray) and isinstance(y, np.ndarray):
            x, y = np.broadcast_arrays(x, y)
        d = one(x) - one(y)
        if isc(d) or nan_(d) or mpmath.isinf(d):
            raise Undef("steer")
        return d
    try:
        leaf = next(x for x in subterms(atom) if x.op == "sym" and x.data[0] == name and not x.axes)
        x0 = ev.symval(leaf, {})
        x1 = x0 * mpf("1.1") + mpf("0.01")
        f0, f1 = f(x0), f(x1)
        if x0 > 0 and kinds[name] in ("pos", "nonneg", "posint") and f0 * f1 > 0:
            # look for a change of sign over the decades first
            for e in (1, -1, 2, -2, 3, -3, 5, -5):
                y = x0 * mpf(10) ** e
                try:
                    fy = f(y)
                except Undef:
                    continue
                if fy * f0 < 0:
                    lo, hi = x0, y
                    for _ in range(12):
                        m = mpmath.sqrt(lo * hi)
                        fm = f(m)
                        if fm * f0 > 0:
                            lo = m
                        else:
                            hi = m
                    x0, x1 = lo, hi
                    f0, f1 = f(x0), f(x1)
                    break
        for _ in range(8):
            if f1 == f0 or f1 == 0:
                break
            x0, f0, x1 = x1, f1, x1 - f1 * (x1 - x0) / (f1 - f0)
            if mpmath.isinf(x1) or mpmath.isnan(x1):
                return None
            f1 = f(x1)
        for a, b in (atom.args[:2], atom.args[1::-1]):
            if a.op == "sym" and a.data[0] == name and not a.axes and all(x.op != "sym" or x.data[0] != name for x in subterms(b)):
                x1 = one(ev.ev(b))  # exactly at the boundary
        if kinds[name] == "posint":
            return {**ev.over, name: max(mpf(1), mpmath.nint(x1) + r.choice([-1, 0, 1]))} if abs(x1) < 1000 else None
        v = x1 * r.choice([1, mpf("1.001"), mpf("0.999"), mpf("1.2"), mpf("0.8")])
        if not INDOM[kinds[name]](v) or abs(v) > mpf("1e12") or 0 < abs(v) < mpf("1e-12"):
            return None
        return {**ev.over, name: v}
    except (Undef, ZeroDivisionError, ValueError, OverflowError, StopIteration, TypeError, IndexError, MemoryError, RecursionError):
        return None


def close(a, b, tol=mpf("1e-9"), scale=mpf(0)):
    if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
        if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            return type(a) == type(b) and a == b
    a, b = N(a), N(b)
    if nan_(a) or nan_(b):
        return nan_(a) and nan_(b)
    if a == b:
        return True
    if mpmath.isinf(a) or mpmath.isinf(b):
        return False
    return abs(a - b) <= tol * max(abs(a), abs(b)) + scale


LONG = 2000
SEARCHES = {}  # bound variable -> (count, condition) of the searches over it
CHEAP = [1.5]  # seconds: small graphs get more interpretations


def differ(a, b, count=32, ranges=None, assume=None, seed0=1, spec_nan_ok=True, rel="eq"):
    """find an interpretation separating a (code) from b (specification).
    Returns None, or (ev, description).  rel: 'eq' | 'le' (a <= b)."""
    ts = [a, b] + ([assume] if assume is not None else [])
    tried = ok = confirmed = 0
    t0 = time.time()
    SEARCHES.clear()
    for t in ts:
        for x in subterms(t):
            if x.op == "search":
                ss = SEARCHES.setdefault(x.args[3].id, [])
                if (x.args[0], x.args[1]) not in ss:
                    ss.append((x.args[0], x.args[1]))
    long = any(ax[0] == "n" and isinstance(ax[1], int) and ax[1] >= LONG for t in ts for x in subterms(t) for ax in x.axes)
    for ev in samples(ts, count * 8, ranges, seed0, coarse=long):
        if tried >= count and time.time() - t0 > CHEAP[0]:
            break
        tried += 1
        try:
            if assume is not None and not truth(ev.ev(assume)):
                continue
            ds = _cmp_at(ev, a, b, rel)
        except (Undef, RecursionError, ZeroDivisionError, OverflowError, ValueError, TypeError, AttributeError, IndexError,
                mpmath.libmp.ComplexResult, MemoryError) as e:
            differ.why = e
            continue
        ok += 1
        if ds and long:
            # a candidate on the thinned path: show it on the path as sampled
            if confirmed >= 6:
                continue
            confirmed += 1
            try:
                ev = Ev(ev.seed, ev.profile, {q: v for q, v in ev.over.items() if q != "@coarse"}, ev.ranges, ev.strs)
                ds = _cmp_at(ev, a, b, rel)
            except Exception as e:
                differ.why = e
                continue
        for k, d in ds:
            # confirm at higher precision
            try:
                with mpmath.workdps(110):
                    e2 = Ev(ev.seed, ev.profile, ev.over, ev.ranges, ev.strs)
                    d2 = _cmp_one(e2, *thin(a, b)[k], rel)
            except Exception:
                continue
            if d2 is not None and _stable(d, d2):
                return ev, d2
    differ.last = (tried, ok)
    return None


differ.last = (0, 0)
differ.why = None


def _stable(d, d2):
    """the same separation at both precisions (not rounding noise)"""
    (_, x, y), (_, x2, y2) = d, d2
    try:
        g, g2 = abs(N(x) - N(y)), abs(N(x2) - N(y2))
        if nan_(g) or nan_(g2) or mpmath.isinf(g) or mpmath.isinf(g2):
            return True
        return g2 > 0 and mpf("0.5") < g / g2 < 2
    except (Undef, ZeroDivisionError):
        return True


def thin(a, b):
    """for large tables of one known shape, pairs of sample entries instead of all"""
    key = (a.id, b.id)
    r = _THIN.get(key)
    if r is None:
        r = [(a, b)]
        if len(a.axes) == len(b.axes) == 2 and a.axes == b.axes and a.axes[0] != a.axes[1] and all(_big(x) for x in a.axes):
            n, m = (_big(x) for x in a.axes)
            r = []
            for i, j in ((n // 2, m // 2), (n // 2, m // 2 + 7), (n // 3, m // 2), (n // 2 + 9, m // 2 - 5), (n // 4, m // 5), (0, m // 2), (n // 2 - 2, 1),
                         (n - 1, m - 1)):
                r.append(tuple(B.idx(B.idx(t, num(i), t.axes[0]), num(j), t.axes[1]) for t in (a, b)))
        _THIN[key] = r
    return r


def _big(x):
    while x[0] in ("r", "c"):
        x = x[-1]
    return x[1] if x[0] == "n" and isinstance(x[1], int) and x[1] > 12 else None


_THIN, _ELEM = {}, {}


def _cmp_at(ev, a, b, rel):
    out = []
    for k, (x, y) in enumerate(thin(a, b)):
        r = _cmp_one(ev, x, y, rel)
        if r is not None:
            out.append((k, r))
    return out


def _cmp_one(ev, a, b, rel):
    x, y = ev.ev(a), ev.ev(b)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        X = x if isinstance(x, np.ndarray) else _obj0(x)
        Y = y if isinstance(y, np.ndarray) else _obj0(y)
        if X.shape != Y.shape:
            try:
                X, Y = np.broadcast_arrays(X, Y)
            except ValueError:
                return ("shape", str(X.shape), str(Y.shape))
        for ix in np.ndindex(X.shape):
            r = _cmp1(X[ix], Y[ix], rel)
            if r:
                return (ix, X[ix], Y[ix])
        return None
    return ((), x, y) if _cmp1(x, y, rel) else None


def _cmp1(p, q, rel):
    if q is not None and not isinstance(q, (str, bool)) and nan_(q):
        return False
    if rel == "le":
        if nan_(N(p)):
            return False
        return re_(N(p)) > re_(N(q)) and not close(p, q, mpf("1e-15"))
    return not close(p, q)


def fmtval(v):
    if isinstance(v, (mpf, mpc)):
        return mpmath.nstr(v, 8)
    return str(v)


def describe(ev, d, ts):
    """the leaf values of a separating interpretation"""
    vals = {}
    for t in ts:
        for x in subterms(t):
            if x.op == "sym":
                k = (x.data[0], x.axes)
                if k in ev.syms:
                    v = ev.syms[k]
                    vals[x.data[0]] = [fmtval(q) for q in v.reshape(-1)[:6]] if isinstance(v, np.ndarray) else fmtval(v)
    return {"at": str(d[0]), "code": fmtval(d[1]), "specification": fmtval(d[2]), "leaves": vals}
