"""Hash-consed value-graph terms with named, ordered array axes.

A Term denotes a scalar or a numpy-like array *pointwise*: its `axes` tuple
names the axes of the array it stands for, in numpy order.  Pointwise
operations align their operands the way numpy broadcasting does (right
aligned, size-one axes expand); when two operands carry different axis names
in the same position the second is renamed to the first, because numpy pairs
axes by position.  Selectors (index, mask, slice, reversal) are pushed down to
the leaves so that two programs which select before or after arithmetic get
the same graph.
"""
from fractions import Fraction

_TABLE = {}
_COUNT = [0]


class Term:
    __slots__ = ("op", "args", "data", "axes", "id", "unk", "_nf", "syms")

    def __repr__(self):
        return show(self)


import os

DUP = bool(os.environ.get("PBSA_DUP"))


def mk(op, args=(), data=None, axes=()):
    axes = axes or ()
    key = (op, args, data, axes)
    t = _TABLE.get(key)
    if t is not None:
        return t
    if DUP and len(axes) > 1 and len(set(axes)) < len(axes) and axes != (("one",), ("one",)) and axes != (("n", 1), ("n", 1)):
        raise ValueError("duplicate axes %s %s" % (op, axes))
    t = Term()
    t.op, t.args, t.data = op, args, data
    t.axes = axes
    _COUNT[0] += 1
    t.id = _COUNT[0]
    t.unk = op == "unknown" or any(a.unk for a in args)
    t._nf = None
    t.syms = None
    _TABLE[key] = t
    return t


# ---------------------------------------------------------------- leaves
def num(x):
    if isinstance(x, bool):
        return TRUE if x else FALSE
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else neg(INF)
        x = Fraction(repr(x))
    return mk("num", (), Fraction(x))


def sym(name, axes=(), kind="real"):
    return mk("sym", (), (name, kind), tuple(axes))


def string(s):
    return mk("str", (), s)


TRUE = mk("true")
FALSE = mk("false")
NONE = mk("none")
PI = mk("pi")
IMAG = mk("I")
NAN = mk("nan")
INF = mk("inf")
_UNK = [0]


def unknown(why="", axes=()):
    _UNK[0] += 1
    return mk("unknown", (), (why, _UNK[0]), tuple(axes))


ZERO = num(0)
ONE = num(1)


def is_num(t):
    return t.op == "num"


def const_int(t):
    if t.op == "num" and t.data.denominator == 1:
        return int(t.data)
    if t is TRUE:
        return 1
    if t is FALSE:
        return 0
    return None


# ---------------------------------------------------------------- axes
ONEAX = ("one",)


def axis_n(n):
    """axis of known constant length n, or of symbolic length n (a Term)."""
    return ("n", n)


def axis_dim(ax):
    """Length of an axis as a Term."""
    k = ax[0]
    if k == "n":
        return num(ax[1]) if isinstance(ax[1], int) else ax[1]
    if k == "one":
        return ONE
    if k in ("r", "c"):
        return axis_dim(ax[1])
    if k == "sl":  # ('sl', a, b, base) with python ints / None
        _, a, b, base = ax
        n = axis_dim(base)
        if const_int(n) is not None:
            return num(len(range(*slice(a, b, None).indices(const_int(n)))))
        a0 = a or 0
        if a0 >= 0 and (b is None or b < 0):
            return sub(n, num(a0 - (b or 0)))
        return mk("dim", (), ax)
    return mk("dim", (), ax)


def align(ts):
    """numpy right-aligned broadcasting.  Returns (aligned terms, axes)."""
    rank = max((len(t.axes) for t in ts), default=0)
    if rank == 0:
        return ts, ()
    out = [None] * rank
    for pos in range(1, rank + 1):
        cands = []
        for t in ts:
            if len(t.axes) >= pos:
                a = t.axes[-pos]
                if a != ONEAX and a not in cands:
                    cands.append(a)
        if not cands:
            out[-pos] = ONEAX
        elif len(cands) == 1:
            out[-pos] = cands[0]
        else:
            # prefer declared (symbolic) axis names, then lexical order
            cands.sort(key=lambda a: (a[0] != "ax", _axkey(a)))
            out[-pos] = cands[0]
    res = []
    for t in ts:
        if t.axes:
            mp = {}
            for pos in range(1, len(t.axes) + 1):
                a = t.axes[-pos]
                if a != out[-pos]:
                    mp[a] = out[-pos]
            if mp:
                t = rename(t, mp)
        res.append(t)
    return res, tuple(out)


_axkeys = {}


def _axkey(a):
    k = _axkeys.get(a)
    if k is None:
        k = _axkeys[a] = repr(a)
    return k


POINTWISE = set("""add mul pow neg exp log log10 sin cos tan arcsin arccos arctan arctan2 sinc abs
 sqrt eq lt le not and or ite nan_to_num jn mod floor ceil round trunc conj real imag max min sign bc
 isnan isfinite u8 poisson_at tanh sinh cosh erf idiv clip01""".split())


def pw(op, *ts, data=None):
    if any(t.axes for t in ts):
        ts, axes = align(list(ts))
    else:
        axes = ()
    return mk(op, tuple(ts), data, axes)


def _memo(f):
    cache = {}

    def g(t, key, *extra):
        k = (t.id, key)
        r = cache.get(k)
        if r is None:
            r = cache[k] = f(t, key, *extra)
        return r

    return g


def rename(t, mp):
    """rename axes of t: mp old->new.  Pushed down to leaves."""
    mp = {a: b for a, b in mp.items() if a in t.axes and a != b}
    if not mp:
        return t
    newaxes = tuple(mp.get(a, a) for a in t.axes)
    return _rename(t, tuple(sorted(mp.items(), key=repr)), newaxes)


def _rename1(t, items, newaxes):
    mp = dict(items)
    if t.op in POINTWISE:
        args = []
        for a in t.args:
            # a child's size-one axis may correspond to a renamed axis: fine
            args.append(rename(a, mp))
        if t.op == "bc":
            return mk("bc", tuple(args), None, newaxes)
        return mk(t.op, tuple(args), t.data, newaxes)
    if t.op in AXISPUSH:
        w = AXISPUSH[t.op]
        args = tuple(rename(a, mp) if i in w else a for i, a in enumerate(t.args))
        return mk(t.op, args, t.data, newaxes)
    if t.op == "ren":
        comp = {}
        inner = t.args[0]
        old = dict(t.data)
        for a in inner.axes:
            b = old.get(a, a)
            c = mp.get(b, b)
            if c != a:
                comp[a] = c
        if not comp:
            return inner
        return mk("ren", (inner,), tuple(sorted(comp.items(), key=repr)), newaxes)
    return mk("ren", (t,), tuple(sorted(mp.items(), key=repr)), newaxes)


_rename = _memo(_rename1)

# array-valued operations through which a selector on a result axis passes into
# the listed arguments only (the others are consumed whole)
AXISPUSH = {"interp": (0,), "interp1": (0,), "griddata": (0, 1), "bigsum": (1,), "bigprod": (1,), "search": (1, 2)}


# ---------------------------------------------------------------- selectors
def push(t, ax, leaf_fn, newax):
    """apply a selector on axis `ax` of t; leaf_fn(leaf) builds the selected
    leaf; newax is the axis replacing ax (None when the axis is removed)."""
    if ax not in t.axes:
        return t
    if t.op in POINTWISE:
        if newax is None:
            # the axis disappears: operands of size one there lose it too
            p = len(t.axes) - t.axes.index(ax)
            args = [drop_at(a, p) if len(a.axes) >= p and a.axes[-p] == ONEAX else push(a, ax, leaf_fn, newax) for a in t.args]
        else:
            args = [push(a, ax, leaf_fn, newax) for a in t.args]
        if t.op == "bc":
            axes = tuple(x for x in ((newax if a == ax else a) for a in t.axes) if x is not None)
            if not axes:
                return args[0]
            return mk("bc", tuple(args), None, axes)
        return rebuild_pw(t, args)
    if t.op in AXISPUSH:
        w = AXISPUSH[t.op]
        args = [push(a, ax, leaf_fn, newax) if i in w else a for i, a in enumerate(t.args)]
        return rebuild_axis(t, args)
    return leaf_fn(t)


def drop_at(t, p):
    """remove the size-one axis at position p from the right"""
    if len(t.axes) < p or t.axes[-p] != ONEAX:
        return t
    rest = tuple(a for i, a in enumerate(t.axes) if i != len(t.axes) - p)
    if t.op == "bc":
        a = drop_at(t.args[0], p)
        if not rest:
            return a
        return mk("bc", (a,), None, rest)
    if t.op in POINTWISE:
        return rebuild_pw(t, [drop_at(a, p) for a in t.args])
    if t.op == "newax" and len(t.args[0].axes) == len(rest) and t.args[0].axes == rest:
        return t.args[0]
    if t.op == "arr" and len(t.args) == 1 and p == len(t.axes):
        return t.args[0]
    return mk("idx", (t, ZERO_()), ONEAX, rest)


def ZERO_():
    return num(0)


def rebuild_pw(t, args):
    from . import build as B
    return B.rebuild(t, args)


def rebuild_axis(t, args):
    from . import build as B
    return B.rebuild(t, args)


def neg(t):
    from . import build as B
    return B.neg(t)


def sub(a, b):
    from . import build as B
    return B.sub(a, b)


# ---------------------------------------------------------------- display
_INFIX = {"add": " + ", "mul": "*", "and": " and ", "or": " or "}


def show(t, depth=0, lim=14):
    if depth > lim:
        return "…"
    o = t.op
    s = lambda x: show(x, depth + 1, lim)
    if o == "num":
        f = t.data
        if f.denominator == 1 and abs(f) < 10**7:
            return str(f.numerator)
        return "%.10g" % float(f) if abs(f) < 10**300 else str(f)
    if o == "sym":
        return t.data[0]
    if o == "str":
        return repr(t.data)
    if not t.args:
        if t.data is not None and o not in ("dim",):
            return "%s[%s]" % (o, t.data)
        if o == "dim":
            return "len(%s)" % (t.data,)
        return o
    if o in _INFIX:
        return "(" + _INFIX[o].join(s(a) for a in t.args) + ")"
    if o == "pow":
        return "%s**%s" % (s(t.args[0]), s(t.args[1]))
    if o == "eq":
        return "(%s == %s)" % (s(t.args[0]), s(t.args[1]))
    if o == "lt":
        return "(%s < %s)" % (s(t.args[0]), s(t.args[1]))
    if o == "le":
        return "(%s <= %s)" % (s(t.args[0]), s(t.args[1]))
    if o == "bc":
        return s(t.args[0])
    d = ""
    if t.data is not None and o not in ("sum", "trapz", "amax", "amin"):
        d = "{%s}" % (t.data if not isinstance(t.data, Term) else s(t.data),)
    return "%s%s(%s)" % (o, d, ", ".join(s(a) for a in t.args))


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(x.args)


def symbols(t):
    if t.syms is None:
        s = set()
        for x in subterms(t):
            if x.op == "sym":
                s.add(x.data[0])
        t.syms = frozenset(s)
    return t.syms
