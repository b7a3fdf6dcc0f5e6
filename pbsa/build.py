"""Smart constructors: constant folding, neutral elements, selector push-down."""
from fractions import Fraction
import math

from .terms import (
    AXISPUSH, FALSE, IMAG, INF, NAN, NONE, ONE, ONEAX, PI, POINTWISE, TRUE, ZERO, Term, axis_dim, axis_n, const_int,
    mk, num, pw, push, rename, string, subterms, sym, unknown, align,
)


def isn(t):
    return t.op == "num"


def b2n(t):
    """boolean constant in arithmetic"""
    if t is TRUE:
        return ONE
    if t is FALSE:
        return ZERO
    return t


def add(a, b):
    a, b = b2n(a), b2n(b)
    if isn(a) and isn(b):
        return num(a.data + b.data)
    if a is ZERO and a.axes == ():
        return b
    if b is ZERO:
        return a
    return pw("add", a, b)


def mul(a, b):
    a, b = b2n(a), b2n(b)
    if isn(a) and isn(b):
        return num(a.data * b.data)
    if a is ONE:
        return b
    if b is ONE:
        return a
    return pw("mul", a, b)


def neg(a):
    a = b2n(a)
    if isn(a):
        return num(-a.data)
    return mul(num(-1), a)


def sub(a, b):
    return add(a, neg(b))


def _isqrt_frac(f, q):
    """exact f**q for Fractions when representable, else None"""
    if q.denominator == 1:
        n = int(q)
        if abs(n) > 4000:
            return None
        if f == 0 and n < 0:
            return None
        return Fraction(f) ** n
    if f < 0:
        return None
    d = q.denominator
    if f == 0:
        return Fraction(0) if q > 0 else None

    def root(m):
        if m == 0:
            return 0
        r = round(m ** (1.0 / d)) if m < 10**15 else None
        if r is None:
            lo, hi = 0, 1
            while hi**d < m:
                hi *= 2
            while lo < hi:
                mid = (lo + hi) // 2
                if mid**d < m:
                    lo = mid + 1
                else:
                    hi = mid
            r = lo
        return r if r**d == m else None

    p, s = root(f.numerator), root(f.denominator)
    if p is None or s is None:
        return None
    return Fraction(p, s) ** q.numerator


def pow_(a, b):
    a, b = b2n(a), b2n(b)
    if isn(b):
        if b.data == 1:
            return a
        if b.data == 0:
            return ONE
        if isn(a):
            r = _isqrt_frac(a.data, b.data)
            if r is not None:
                return num(r)
            if a.data == 0 and b.data < 0:
                return INF
    return pw("pow", a, b)


def div(a, b):
    a, b = b2n(a), b2n(b)
    if isn(b) and b.data != 0:
        return mul(a, num(1 / b.data))
    return mul(a, pow_(b, num(-1)))


def sqrt(a):
    return pow_(a, num(Fraction(1, 2)))


def fn(op, a, data=None):
    if op == "sqrt":
        return sqrt(a)
    a = b2n(a)
    if isn(a):
        f = a.data
        if op == "abs":
            return num(abs(f))
        if op == "floor":
            return num(math.floor(f))
        if op == "ceil":
            return num(math.ceil(f))
        if op == "trunc":
            return num(math.trunc(f))
        if op == "round":
            fl = math.floor(f)
            d = f - fl
            if d < Fraction(1, 2):
                return num(fl)
            if d > Fraction(1, 2):
                return num(fl + 1)
            return num(fl if fl % 2 == 0 else fl + 1)
        if op == "sign":
            return num((f > 0) - (f < 0))
        if f == 0 and op in ("sin", "tan", "arcsin", "arctan", "sinh", "tanh"):
            return ZERO
        if f == 0 and op in ("exp", "cos", "sinc", "cosh"):
            return ONE
        if f == 0 and op == "arccos":
            return div(PI, num(2))
        if f == 1 and op in ("log", "log10", "arccos"):
            return ZERO
        if op in ("nan_to_num", "conj", "real"):
            return a
        if op in ("isnan",):
            return FALSE
    if op == "nan_to_num" and a is NAN:
        return ZERO
    if op == "isnan" and a is NAN:
        return TRUE
    if op in ("floor", "ceil", "trunc", "round") and a.op in ("floor", "ceil", "trunc", "round", "dim", "count"):
        return a
    if op in ("floor", "ceil", "trunc", "round", "real", "conj") and a.op == "sym" and a.data[1] == "int":
        return a
    return pw(op, a, data=data)


def cmp(op, a, b):
    """op in == != < <= > >= ; returns boolean term"""
    if op == ">":
        return cmp("<", b, a)
    if op == ">=":
        return cmp("<=", b, a)
    if op == "!=":
        return not_(cmp("==", a, b))
    a, b = (a if a.op in ("none", "str") else b2n(a)), (b if b.op in ("none", "str") else b2n(b))
    if op == "==":
        if a is b and not a.unk and a is not NAN:
            return TRUE
        if isn(a) and isn(b):
            return TRUE if a.data == b.data else FALSE
        if a.op in ("str", "none", "num") and b.op in ("str", "none", "num"):
            return TRUE if a is b else FALSE
        if a.id > b.id:
            a, b = b, a
        return pw("eq", a, b)
    if isn(a) and isn(b):
        r = a.data < b.data if op == "<" else a.data <= b.data
        return TRUE if r else FALSE
    if a is NAN or b is NAN:
        return FALSE
    if (isn(a) and b is INF):
        return TRUE
    if (isn(b) and a is INF):
        return FALSE
    return pw("lt" if op == "<" else "le", a, b)


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "num":
        return TRUE if a.data == 0 else FALSE
    return pw("not", a)


def and_(*ts):
    out = []
    for t in ts:
        if t is TRUE:
            continue
        if t is FALSE:
            return FALSE
        if t.op == "and":
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    for x in out:
        if not_(x) in out:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return pw("and", *out)


def or_(*ts):
    out = []
    for t in ts:
        if t is FALSE:
            continue
        if t is TRUE:
            return TRUE
        if t.op == "or":
            for x in t.args:
                if x not in out:
                    out.append(x)
        elif t not in out:
            out.append(t)
    for x in out:
        if not_(x) in out:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return pw("or", *out)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    # prune nested same condition
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return pw("ite", c, a, b)


def max_(*ts):
    return _mm("max", ts)


def min_(*ts):
    return _mm("min", ts)


def _mm(op, ts):
    out = []
    c = None
    for t in ts:
        t = b2n(t)
        subs = t.args if t.op == op else (t,)
        for x in subs:
            if isn(x):
                c = x.data if c is None else (max(c, x.data) if op == "max" else min(c, x.data))
            elif x not in out:
                out.append(x)
    if op == "min" and c is not None and len(out) == 1 and out[0].op == "max":
        # a clamp is written with the lower bound outermost
        lo = [a for a in out[0].args if isn(a)]
        if lo and lo[0].data <= c:
            return _mm("max", (lo[0], _mm("min", (num(c), _mm("max", [a for a in out[0].args if a is not lo[0]])))))
    if c is not None:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return pw(op, *out)


def clip(x, lo, hi):
    if lo is not None and lo is not NONE:
        x = max_(x, lo)
    if hi is not None and hi is not NONE:
        x = min_(x, hi)
    return x


def bc(t, axes):
    """t broadcast over the axes"""
    axes = tuple(axes)
    if t.axes == axes or not axes:
        return t
    if t.op == "bc":
        t = t.args[0]
        if t.axes == axes:
            return t
    # align positions
    if t.axes:
        mp = {}
        for pos in range(1, len(t.axes) + 1):
            if pos <= len(axes) and t.axes[-pos] != ONEAX and t.axes[-pos] != axes[-pos]:
                mp[t.axes[-pos]] = axes[-pos]
        t = rename(t, mp)
    return mk("bc", (t,), None, axes)


def mod(a, b):
    if isn(a) and isn(b) and b.data != 0:
        return num(a.data - b.data * math.floor(a.data / b.data))
    return pw("mod", a, b)


def idiv(a, b):
    if isn(a) and isn(b) and b.data != 0:
        return num(math.floor(a.data / b.data))
    return fn("floor", div(a, b))


def rebuild(t, args):
    """rebuild a pointwise/axis-push node with new args (re-simplifying)"""
    o = t.op
    if o == "add":
        r = args[0]
        for a in args[1:]:
            r = add(r, a)
        return r
    if o == "mul":
        r = args[0]
        for a in args[1:]:
            r = mul(r, a)
        return r
    if o == "pow":
        return pow_(*args)
    if o == "eq":
        return cmp("==", *args)
    if o == "lt":
        return cmp("<", *args)
    if o == "le":
        return cmp("<=", *args)
    if o == "not":
        return not_(args[0])
    if o == "and":
        return and_(*args)
    if o == "or":
        return or_(*args)
    if o == "ite":
        return ite(*args)
    if o == "max":
        return max_(*args)
    if o == "min":
        return min_(*args)
    if o == "mod":
        return mod(*args)
    if o == "P":
        # a canonical polynomial whose atoms changed: back to an ordinary sum
        r = ZERO
        for c, m in t.data:
            x = num(c)
            for i, e in m:
                x = mul(x, pow_(args[i], num(e)))
            r = add(r, x)
        return bc(r, t.axes) if r.axes != t.axes and t.axes and not r.axes else r
    if o == "ind":
        a = args[0]
        return a if a.op == "sym" and a.data[1] == "bool" else cmp("<", ZERO, a)
    if o == "zero":
        a = args[0]
        return cmp("==", *a.args) if a.op == "streq" else cmp("==", ZERO, a)
    if o == "bc":
        return bc(args[0], t.axes)
    if o in AXISPUSH:
        w = AXISPUSH[o]
        axes = ()
        for i in w:
            if len(args[i].axes) > len(axes):
                axes = args[i].axes
        if o == "bigsum":
            return bigsum(*args)
        if o == "bigprod":
            return binder("bigprod", args[0], (args[1],), args[2], axes)
        if o == "search":
            return binder("search", args[0], tuple(args[1:3]), args[3], axes)
        return mk(o, tuple(args), t.data, axes)
    if o == "idx":
        return reidx(t, args)
    if o == "map":
        return binder("map", args[0], (args[1],), args[2], t.axes)
    if o == "trapz":
        return trapz(*args)
    if o in ("amax", "amin"):
        return amax(o, args[0])
    if o == "arr":
        return mk("arr", tuple(args), None, t.axes)
    if o == "strcat":
        return strcat(args)
    if o in ("linspace",):
        return linspace(*args)
    if o in POINTWISE:
        if len(args) == 1:
            return fn(o, args[0], t.data)
        return pw(o, *args, data=t.data)
    return mk(o, tuple(args), t.data, t.axes)


# --------------------------------------------------------------- substitution
def subst(t, mp, _cache=None):
    """replace terms (by identity) bottom-up, re-simplifying"""
    if _cache is None:
        _cache = {}
    r = mp.get(t)
    if r is not None:
        return r
    key = t.id
    r = _cache.get(key)
    if r is not None:
        return r
    if not t.args and not (t.op == "dim"):
        r = t
        if t.op == "sym" and t.axes:
            r = t
    else:
        args = tuple(subst(a, mp, _cache) for a in t.args)
        axes = _subst_in(t.axes, mp, _cache)
        data = t.data if isinstance(t.data, (str, int)) else _subst_in(t.data, mp, _cache)
        if axes is not t.axes or data is not t.data:
            # conditions of masked axes may mention the replaced terms too
            t = axis_dim(data) if t.op == "dim" else mk(t.op, t.args, data, axes)
        if all(x is y for x, y in zip(args, t.args)):
            r = t
        else:
            r = rebuild(t, list(args))
    _cache[key] = r
    return r


def _subst_in(d, mp, cache):
    """replace inside axis descriptions; the same object when nothing changed"""
    if isinstance(d, Term):
        return subst(d, mp, cache)
    if isinstance(d, tuple):
        r = tuple(_subst_in(x, mp, cache) for x in d)
        return d if all(x is y for x, y in zip(r, d)) else r
    return d


# --------------------------------------------------------------- selectors
def norm_index(k, ax):
    """python-style negative constant index → canonical nonneg when known"""
    c = const_int(k)
    if c is not None and c < 0:
        n = const_int(axis_dim(ax))
        if n is not None:
            return num(n + c)
    return k


def idx(t, k, ax):
    """element k (Term) along axis ax"""
    if ax not in t.axes:
        return t
    if ax == ONEAX:
        return drop_one(t)
    k = norm_index(k, ax)
    return push(t, ax, lambda leaf: _idx_leaf(leaf, k, ax), None)


def drop_one(t):
    if t.op == "newax":
        return t.args[0]
    if t.op in POINTWISE:
        args = [drop_one(a) if ONEAX in a.axes else a for a in t.args]
        if t.op == "bc":
            return bc(args[0], tuple(a for a in t.axes if a != ONEAX))
        return rebuild(t, args)
    return mk("idx", (t, ZERO), ONEAX, tuple(a for a in t.axes if a != ONEAX))


def _rest(leaf, ax):
    return tuple(a for a in leaf.axes if a != ax)


def _idx_leaf(leaf, k, ax):
    c = const_int(k)
    o = leaf.op
    if o == "linspace" and not leaf.args[0].axes:
        a, b, n = leaf.args
        if c is not None and c < 0:
            k = add(n, num(c))
        if c == 0:
            return a
        if c == -1:
            return b
        return add(a, mul(k, div(sub(b, a), sub(n, ONE))))
    if o == "arange":
        a, s, n = leaf.args
        if c is not None and c < 0:
            k = add(n, num(c))
        return add(a, mul(k, s))
    if o == "arr":
        if c is not None and -len(leaf.args) <= c < len(leaf.args) and all(not a.axes for a in leaf.args):
            return leaf.args[c]
        if c is not None and -len(leaf.args) <= c < len(leaf.args):
            return leaf.args[c]
        if c is None and len(leaf.args) > 1 and all(isn(x) for x in leaf.args):
            st = leaf.args[1].data - leaf.args[0].data
            if all(y.data - x.data == st for x, y in zip(leaf.args, leaf.args[1:])):
                return add(leaf.args[0], mul(k, num(st)))
    if o == "map":
        n, body, bv = leaf.args
        if c is not None and c < 0:
            k = add(n, num(c))
        if leaf.axes[0] == ax:
            return subst(body, {bv: k})
    if o == "ren":
        inner = leaf.args[0]
        mp = {b: a for a, b in leaf.data}
        iax = mp.get(ax, ax)
        r = idx(inner, k, iax)
        return rename(r, {a: b for a, b in leaf.data if a != iax})
    if o == "slice" and ax[0] == "n" and leaf.data[2][0] == "n" and ax not in leaf.args[0].axes:
        a0, b0, base = leaf.data
        r = range(*slice(a0, b0).indices(base[1]))
        if c is not None and -len(r) <= c < len(r):
            return idx(leaf.args[0], num(r[c]), base)
        if c is None and r:
            return idx(leaf.args[0], add(k, num(r[0])), base)
    elif o == "slice" and ax[0] != "sl":
        inner = leaf.args[0]
        return slc(idx(inner, k, ax), leaf.data[0], leaf.data[1], leaf.data[2])
    if o == "slice":
        inner = leaf.args[0]
        _, a, b, base = ax
        a0 = a or 0
        if c is None or c >= 0:
            if a0 >= 0:
                return idx(inner, add(k, num(a0)), base)
        elif c < 0 and (b is None or b < 0):
            return idx(inner, num(c + (b or 0)), base)
    if o == "rev" and ax != leaf.data:
        return rev(idx(leaf.args[0], k, ax), leaf.data)
    if o == "rev":
        inner = leaf.args[0]
        base = leaf.data
        if c is not None and c >= 0:
            return idx(inner, num(-1 - c), base)
        if c is not None:
            return idx(inner, num(-1 - c), base)
        return idx(inner, sub(sub(axis_dim(base), ONE), k), base)
    if o == "filt" and ax != leaf.data and ax in leaf.args[0].axes:
        return _refilt(idx(leaf.args[0], k, ax), leaf.data)
    if o == "hcat":
        if ax == leaf.axes[-1] and c is not None:
            pos = c
            for part in leaf.args:
                if len(part.axes) == 2:
                    w = const_int(axis_dim(part.axes[-1]))
                    if w is None:
                        break
                    if pos < w:
                        return idx(part, num(pos), part.axes[-1])
                    pos -= w
        elif ax == leaf.axes[0]:
            pass
    if o == "vstack":
        if ax == leaf.axes[0] and c is not None:
            parts = leaf.args
            if all(len(p.axes) == 1 for p in parts) and -len(parts) <= c < len(parts):
                return parts[c]
    if o == "reshape" and len(leaf.axes) == 2 and len(leaf.args[0].axes) == 1 and c is not None and leaf.data in ("C", "F") and leaf.axes[0] != leaf.axes[1]:
        # one row or column of reshaped data that is contiguous in the flat data
        d = [const_int(x) for x in leaf.args[1:]]
        p = leaf.axes.index(ax)
        n = d[1 - p]
        if n is not None and n > 0 and p == (0 if leaf.data == "C" else 1) and (c >= 0 or (d[p] is not None and d[p] > 0)):
            c0 = c if c >= 0 else c + d[p]
            r = slc(leaf.args[0], c0 * n, (c0 + 1) * n, leaf.args[0].axes[0])
            return rename(r, {r.axes[0]: leaf.axes[1 - p]})
    if o == "setsel":
        # read over write: data = (axis position selector)
        base, val = leaf.args
        kind, sax, lo, hi = leaf.data
        if kind == "cols" and ax == sax and c is not None:
            if lo <= c < hi:
                if sax in base.axes:
                    pass
                if len(val.axes) == len(base.axes):
                    return idx(val, num(c - lo), val.axes[-1])
                return val
            return idx(base, k, ax)
    return mk("idx", (leaf, k), ax, _rest(leaf, ax))


def _refilt(t, newax):
    return push(t, newax[2], lambda l: _filt_leaf(l, newax), newax)


def rev(t, ax):
    return push(t, ax, lambda leaf: _rev_leaf(leaf, ax), ax)


def _rev_leaf(leaf, ax):
    o = leaf.op
    if o == "linspace" and not leaf.args[0].axes:
        a, b, n = leaf.args
        return mk("linspace", (b, a, n), None, leaf.axes)
    if o == "arr" and len(leaf.axes) == 1:
        return mk("arr", tuple(reversed(leaf.args)), None, leaf.axes)
    if o == "rev" and leaf.data == ax:
        return leaf.args[0]
    if o == "filt" and leaf.axes == (ax,) and False:
        pass
    return mk("rev", (leaf,), ax, leaf.axes)


def slc(t, a, b, ax):
    """t[a:b] with python ints/None"""
    if ax not in t.axes:
        return t
    if (a in (None, 0)) and b is None:
        return t
    if ax[0] == "n" and isinstance(ax[1], int):
        n = len(range(*slice(a, b, None).indices(ax[1])))
        newax = ("n", n)
    else:
        if a == 0:
            a = None
        newax = ("sl", a, b, ax)
    return push(t, ax, lambda leaf: _slc_leaf(leaf, a, b, ax, newax), newax)


def _slc_leaf(leaf, a, b, ax, newax):
    axes = tuple(newax if x == ax else x for x in leaf.axes)
    if leaf.op == "filt" and ax != leaf.data and ax in leaf.args[0].axes:
        return _refilt(slc(leaf.args[0], a, b, ax), leaf.data)
    if leaf.op == "arr" and leaf.axes == (ax,):
        return mk("arr", leaf.args[slice(a, b)], None, axes)
    if leaf.op == "arange" and const_int(leaf.args[2]) is not None and (a is None or a >= 0) and newax[0] == "n":
        s0, st, n = leaf.args
        return mk("arange", (add(s0, mul(num(a or 0), st)), st, num(newax[1])), None, axes)
    if leaf.op == "setsel":
        kind, sax, lo, hi = leaf.data
        base, val = leaf.args
        if kind == "cols" and sax == ax and newax[0] == "n":
            r = range(*slice(a, b).indices(ax[1]))
            if len(r) and r[0] >= lo and r[-1] < hi and len(val.axes) == len(base.axes):
                return slc(val, r[0] - lo, r[-1] - lo + 1, val.axes[-1])
            if len(r) and (r[-1] < lo or r[0] >= hi):
                return slc(base, a, b, ax)
    return mk("slice", (leaf,), (a, b, ax), axes)


def unmap(whole, elem, body, bv):
    """the array whose elements are `body` when elem = whole[bv]: pointwise
    bodies become pointwise arrays; None if the index is used otherwise"""
    r = subst(body, {elem: whole})
    return r if r.axes and bv not in set(subterms(r)) else None


def filt(t, m, ax=None):
    """rows of t (along ax) where the boolean array m holds"""
    if ax is None:
        ax = t.axes[0]
    if not m.axes:
        # scalar mask
        return unknown("scalar mask", t.axes)
    if m.axes[0] != ax:
        m = rename(m, {m.axes[0]: ax})
    keep = const_mask(m, ax)
    if keep is not None and t.axes[0] == ax and keep:
        return arr([idx(t, num(i), ax) for i in keep])
    # unfilter: if leaves are already filtered, merge the masks
    if ax[0] == "filt":
        m0 = unfilt(m, ax)
        if m0 is None:
            # the mask is only known on the rows already selected
            newax = ("filt", tuple(sorted(set(_conj(m)), key=lambda x: x.id)), ax)
            return push(t, ax, lambda leaf: _filt_leaf(leaf, newax), newax)
        base = ax[2]
        conj = tuple(sorted(set(ax[1]) | set(_conj(m0)), key=lambda x: x.id))
        newax = ("filt", conj, base)
        return push(t, ax, lambda leaf: _filt_leaf(unfilt_leaf(leaf, ax), newax), newax)
    conj = tuple(sorted(set(_conj(m)), key=lambda x: x.id))
    newax = ("filt", conj, ax)
    return push(t, ax, lambda leaf: _filt_leaf(leaf, newax), newax)


def const_mask(m, ax):
    """positions a mask over constants selects, else None"""
    n = const_int(axis_dim(ax))
    if n is None or n > 400 or len(m.axes) != 1 or not constant(m):
        return None
    out = []
    for i in range(n):
        v = idx(m, num(i), ax)
        if v is TRUE:
            out.append(i)
        elif v is not FALSE:
            return None
    return out


def constant(t):
    """built from numbers by comparisons and literals alone"""
    return all(x.op in ("num", "arr", "and", "or", "not", "lt", "le", "eq", "ne", "gt", "ge", "bc", "bool", "true", "false") for x in subterms(t))


def _conj(m):
    return list(m.args) if m.op == "and" else [m]


def _filt_leaf(leaf, newax):
    base = newax[2]
    if base not in leaf.axes:
        return leaf
    axes = tuple(newax if x == base else x for x in leaf.axes)
    if leaf.op == "arr" and all(c is TRUE or c is FALSE for c in newax[1]):
        pass
    if leaf.op == "idx" and len(leaf.axes) == 1 and False:
        pass
    return mk("filt", (leaf,) + newax[1], newax, axes)


def unfilt_leaf(leaf, ax):
    if leaf.op == "filt" and leaf.data == ax:
        return leaf.args[0]
    return mk("unfilt", (leaf,), ax, tuple(ax[2] if x == ax else x for x in leaf.axes))


def unfilt(t, ax):
    r = push(t, ax, lambda leaf: unfilt_leaf(leaf, ax), ax[2])
    from .terms import subterms
    for x in subterms(r):
        if x.op == "unfilt":
            return None
    return r


def newaxis(t, pos):
    """insert a size-one axis"""
    axes = list(t.axes)
    if pos < 0:
        pos += len(axes) + 1
    axes.insert(pos, ONEAX)
    axes = tuple(axes)
    if not t.axes:
        return mk("bc", (t,), None, axes)
    if t.op in POINTWISE:
        rank = len(t.axes)
        args = []
        for a in t.args:
            off = rank - len(a.axes)
            if a.axes and pos - off >= 0:
                args.append(newaxis(a, pos - off))
            else:
                args.append(a)
        if t.op == "bc":
            return mk("bc", tuple(args), None, axes)
        return mk(t.op, tuple(args), t.data, axes)
    return mk("newax", (t,), pos, axes)


def transpose(t):
    if len(t.axes) < 2:
        return t
    if t.op in POINTWISE:
        args = []
        for a in t.args:
            if len(a.axes) == 2:
                args.append(transpose(a))
            elif len(a.axes) == 0:
                args.append(a)
            else:
                return mk("transpose", (t,), None, tuple(reversed(t.axes)))
        return mk(t.op, tuple(args), t.data, tuple(reversed(t.axes)))
    if t.op == "transpose":
        return t.args[0]
    return mk("transpose", (t,), None, tuple(reversed(t.axes)))


def linspace(a, b, n):
    c = const_int(n)
    ax = axis_n(c) if c is not None else axis_n(n)
    return mk("linspace", (a, b, n), None, (ax,))


def arange(a, b, s):
    """np.arange(a,b,s)"""
    if isn(a) and isn(b) and isn(s) and s.data != 0:
        n = max(0, math.ceil((b.data - a.data) / s.data))
        if n <= 160:
            return arr([num(a.data + i * s.data) for i in range(n)])
        return mk("arange", (a, s, num(n)), None, (axis_n(n),))
    d = sub(b, a)
    n = div(d, s)
    if not (s is ONE and n.op in ("dim", "count") or _is_inty(n)):
        n = fn("ceil", n)
    c = const_int(n)
    return mk("arange", (a, s, n), None, (axis_n(c if c is not None else n),))


def _is_inty(t):
    if t.op in ("dim", "count", "floor", "ceil", "trunc"):
        return True
    if t.op == "sym" and t.data[1] == "int":
        return True
    if t.op == "num":
        return t.data.denominator == 1
    if t.op in ("add", "mul", "max", "min"):
        return all(_is_inty(a) for a in t.args)
    return False


def arr(elems):
    elems = tuple(elems)
    sub_axes = ()
    for e in elems:
        if len(e.axes) > len(sub_axes):
            sub_axes = e.axes
    return mk("arr", elems, None, (axis_n(len(elems)),) + sub_axes)


def dim(t, pos):
    return axis_dim(t.axes[pos])


def size(t):
    r = ONE
    for a in t.axes:
        r = mul(r, axis_dim(a))
    return r


def strcat(parts):
    out = []
    for p in parts:
        ps = p.args if p.op == "strcat" else (p,)
        for q in ps:
            if q.op == "str" and out and out[-1].op == "str":
                out[-1] = string(out[-1].data + q.data)
            elif q.op == "str" and q.data == "":
                continue
            else:
                out.append(q)
    if not out:
        return string("")
    if len(out) == 1:
        return out[0]
    return mk("strcat", tuple(out))


_BV = [0]


def fresh_bv(kind="int"):
    _BV[0] += 1
    return mk("bv", (), (_BV[0], kind))


def reidx(t, args):
    leaf, k = args
    ax = t.data
    if ax in leaf.axes:
        return idx(leaf, k, ax)
    if not leaf.axes:
        return leaf
    if len(leaf.axes) == 1:
        return idx(leaf, k, leaf.axes[0])
    return mk("idx", (leaf, k), ax, t.axes)


_ht = {}


def height(t):
    """nesting depth of binders"""
    r = _ht.get(t.id)
    if r is None:
        r = 0
        for a in t.args:
            r = max(r, height(a))
        if t.op in BINDERS:
            r += 1
        _ht[t.id] = r
    return r


BINDERS = ("bigsum", "map", "search", "bigprod")


def binder(op, n, bodies, bv, axes):
    """bind bv under its canonical name, so that equal loops are one term"""
    h = max(height(b) for b in bodies)
    nb = mk("bv", (), ("c", h, bv.data[-1]))
    if nb is not bv:
        bodies = tuple(subst(b, {bv: nb}) for b in bodies)
        axes = tuple(_axsub(a, bv, nb) for a in axes)
    return mk(op, (n,) + tuple(bodies) + (nb,), None, axes)


def _axsub(a, bv, nb):
    if isinstance(a, Term):
        return subst(a, {bv: nb})
    if isinstance(a, tuple):
        return tuple(_axsub(x, bv, nb) for x in a)
    return a


def bigsum(n, body, bv):
    if body is ZERO:
        return ZERO
    return binder("bigsum", n, (body,), bv, body.axes)


def total(t):
    """sum over all elements"""
    if not t.axes:
        return t
    if t.op == "ravel":
        return total(t.args[0])
    if len(t.axes) == 1:
        ax = t.axes[0]
        n = axis_dim(ax)
        c = const_int(n)
        if c is not None and c <= 16:
            r = ZERO
            for i in range(c):
                r = add(r, idx(t, num(i), ax))
            return r
        bv = fresh_bv()
        return bigsum(n, idx(t, bv, ax), bv)
    return mk("sum", (t,))


def trapz(y, x):
    if len(x.axes) != 1 or len(y.axes) > 1:
        return unknown("trapz rank")
    if y.axes and y.axes != x.axes:
        (y, x), _ = align([y, x])
    return mk("trapz", (y, x))


def amax(op, t):
    if not t.axes:
        return t
    if t.op == "ravel":
        return amax(op, t.args[0])
    if len(t.axes) == 1:
        ax = t.axes[0]
        c = const_int(axis_dim(ax))
        if c is not None and 0 < c <= 32:
            return _mm("max" if op == "amax" else "min", [idx(t, num(i), ax) for i in range(c)])
    return mk(op, (t,))


def elements(t, lim=32):
    """elements of a short constant-length vector, else None"""
    if len(t.axes) != 1:
        return None
    c = const_int(axis_dim(t.axes[0]))
    if c is None or c > lim:
        return None
    return [idx(t, num(i), t.axes[0]) for i in range(c)]
