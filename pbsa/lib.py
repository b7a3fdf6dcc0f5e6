"""Models of the Python builtins and the numpy/scipy/os/cv2 operations used by
array code.  Anything not modelled becomes `unknown` (obligations that depend
on it are undecided, never violated)."""
import ast
import math
import re
import string as _string
from fractions import Fraction

from . import build as B
from .terms import (
    FALSE, IMAG, INF, NAN, NONE, ONE, ONEAX, PI, TRUE, ZERO, Term, align, axis_dim, axis_n, const_int, mk, num, rename,
    string, subterms, sym, unknown,
)
from .interp import (
    BuiltinV, ClassV, CondV, DictV, ELLIPSIS, FuncV, IterV, ListV, ModV, ObjV, OpaqueV, PartialV, PV, Ref, SliceV, SymFunc,
    TupleV, UNBOUND, OPTIONAL, _boolish, _term2key, _key2term,
)

ALIAS = {
    "numpy.absolute": "numpy.abs", "numpy.fabs": "numpy.abs", "numpy.amax": "numpy.max", "numpy.amin": "numpy.min",
    "numpy.trapezoid": "numpy.trapz", "scipy.integrate.trapezoid": "numpy.trapz", "scipy.integrate.trapz": "numpy.trapz",
    "numpy.round_": "numpy.round", "numpy.around": "numpy.round", "numpy.rint": "numpy.round",
    "numpy.conjugate": "numpy.conj", "numpy.float_power": "numpy.power", "scipy.special.jv": "scipy.special.jn",
    "math.fabs": "numpy.abs", "numpy.acos": "numpy.arccos", "math.acos": "numpy.arccos", "math.asin": "numpy.arcsin",
    "math.atan": "numpy.arctan", "numpy.true_divide": "numpy.divide", "numpy.concat": "numpy.concatenate",
    "numpy.row_stack": "numpy.vstack", "numpy.asanyarray": "numpy.asarray", "numpy.ascontiguousarray": "numpy.asarray",
    "numpy.bitwise_and": "numpy.logical_and", "numpy.bitwise_or": "numpy.logical_or", "numpy.invert": "numpy.logical_not",
    "math.pow": "numpy.power", "scipy.special.sinc": "numpy.sinc", "math.dist": "math.dist", "numpy.product": "numpy.prod",
}
for _f in "sqrt exp log log10 sin cos tan floor ceil hypot isnan trunc radians degrees atan2".split():
    ALIAS["math." + _f] = "numpy." + _f
ALIAS["math.atan2"] = "numpy.arctan2"

UFUNC1 = {"sqrt", "exp", "log", "log10", "sin", "cos", "tan", "arcsin", "arccos", "arctan", "sinc", "abs", "floor", "ceil",
          "conj", "real", "imag", "isnan", "sign", "isfinite", "trunc", "tanh", "sinh", "cosh"}
CONSTS = {"pi": PI, "inf": INF, "nan": NAN, "newaxis": NONE, "e": None, "NaN": NAN, "Inf": INF, "infty": INF, "tau": B.mul(num(2), PI)}
FLOATT = {"numpy.float64", "numpy.double", "builtins.float", "numpy.float32", "numpy.float_", "numpy.floating"}

KNOWN_PURE = {"os.path.abspath", "os.path.realpath"}


def external(name):
    head, _, last = name.rpartition(".")
    if head in ("numpy", "math") and last in CONSTS and CONSTS[last] is not None:
        return CONSTS[last]
    if name in MODULES:
        return ModV(name)
    name = canon(name)
    return BuiltinV(name)


def canon(name):
    parts = name.split(".")
    if parts[0] == "np":
        parts[0] = "numpy"
        name = ".".join(parts)
    return ALIAS.get(name, name)


MODULES = {"numpy.fft", "numpy.random", "numpy.linalg", "scipy.interpolate", "scipy.special", "scipy.ndimage", "scipy.integrate",
           "scipy.fft", "scipy.constants", "os.path", "matplotlib.pyplot", "scipy.optimize", "scipy.signal"}

_BUILTINS = set("""len range enumerate zip min max sum abs int float str round list tuple dict set isinstance any all sorted
 reversed print map filter pow bool callable getattr hasattr setattr type complex divmod iter next super repr id object slice
 property staticmethod classmethod frozenset vars issubclass open format hash
 ValueError IndexError ImportError KeyError TypeError UserWarning Exception RuntimeError Warning RuntimeWarning
 DeprecationWarning AttributeError ZeroDivisionError FileNotFoundError NotImplementedError ArithmeticError LookupError
 AssertionError OSError StopIteration ModuleNotFoundError""".split())


def builtin_name(n):
    if n in _BUILTINS:
        return BuiltinV("builtins." + n)
    if n == "NotImplemented":
        return BuiltinV("builtins.NotImplemented")
    if n == "__name__":
        return string("__name__")
    return None


# ------------------------------------------------------------------ strings
def to_str(I, v, st, fmt=None):
    t = v if isinstance(v, Term) else I.term(st, v)
    if fmt:
        k = fmt[2:-1] if fmt[:2] in ("f'", 'f"') else fmt
        if k in ("d", "i"):
            return to_str(I, t if t.op in ("trunc", "floor", "ceil", "round", "dim", "count") else B.fn("trunc", t), st)
        if k == ".0f":
            return to_str(I, B.fn("trunc", B.fn("round", t)), st)
        if k != "s":
            # digits and padding are not modelled
            return unknown("format " + k)
    if t.op in ("str", "strcat", "dirname", "tostr"):
        return t
    if t.op == "sym" and t.data[1] == "str":
        return t
    if t.op == "num" and t.data.denominator == 1:
        return string(str(t.data.numerator))
    if t.op == "trunc" or t.op in ("floor",):
        return mk("tostr", (t,))
    return mk("tostr", (t,))


# ------------------------------------------------------------------ operators
def binop(I, op, a, b):
    if op == "Add":
        if _isstr(a) or _isstr(b):
            return B.strcat([a, b])
        return B.add(a, b)
    if op == "Sub":
        return B.sub(a, b)
    if op == "Mult":
        return B.mul(a, b)
    if op == "Div":
        return B.div(a, b)
    if op == "Pow":
        return B.pow_(a, b)
    if op == "Mod":
        return B.mod(a, b)
    if op == "FloorDiv":
        return B.idiv(a, b)
    if op == "BitAnd":
        return B.and_(a, b) if a.axes == b.axes else _boolpw(B.and_, a, b)
    if op == "BitOr":
        return B.or_(a, b) if a.axes == b.axes else _boolpw(B.or_, a, b)
    return unknown("operator " + op)


def _boolpw(f, a, b):
    (a, b), _ = align([a, b])
    return f(a, b)


def _isstr(t):
    return t.op in ("str", "strcat", "tostr", "dirname", "fmt") or (t.op == "sym" and t.data[1] == "str")


def percent(I, a, b, st):
    """'...%d...' % values"""
    if a.op != "str":
        return unknown("%-format")
    vals = I.items(st, b) if isinstance(b, TupleV) else [b]
    segs = re.split(r"%([-+ 0#]*[0-9]*(?:\.[0-9]+)?)([a-zA-Z%])", a.data)
    out, i = [string(segs[0])], 0
    for j in range(1, len(segs), 3):
        flags, kind, rest = segs[j:j + 3]
        if kind == "%":
            out.append(string("%"))
        elif vals is None or i >= len(vals):
            return unknown("%-format")
        else:
            out.append(to_str(I, vals[i], st, flags + kind))
            i += 1
        out.append(string(rest))
    return B.strcat(out)


def binop_values(I, op, a, b, st):
    if isinstance(a, CondV) or isinstance(b, CondV):
        a = I.term(st, a) if isinstance(a, CondV) and not _listy(a) else a
        b = I.term(st, b) if isinstance(b, CondV) and not _listy(b) else b
    # list/tuple concatenation and repetition
    if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)) and op == "Add":
        x, y = I.items(st, a), I.items(st, b)
        if x is not None and y is not None:
            return I.mklist(st, x + y) if isinstance(a, ListV) else TupleV(x + y)
        parts = [I.term(st, v) for v in (a, b)]
        if not any(t.unk or len(t.axes) != 1 for t in parts):
            loc = I.new()
            st.heap[loc] = _concat1(parts)
            return ListV(loc, "list")
        return unknown("list concat")
    if isinstance(a, (ListV, TupleV)) and op == "Mult" and isinstance(b, Term):
        n = const_int(b)
        x = I.items(st, a)
        if n is not None and x is not None and n * len(x) < 200:
            return I.mklist(st, x * n) if isinstance(a, ListV) else TupleV(x * n)
        if x is not None and len(x) == 1:
            el = I.term(st, x[0])
            loc = I.new()
            st.heap[loc] = B.binder("map", b, (el,), B.fresh_bv(), (axis_n(b),))
            return ListV(loc, "list")
        return unknown("list repeat")
    if isinstance(a, Term) and a.op in ("str", "strcat") and op == "Mod":
        return percent(I, a, b, st)
    if op == "Div" and isinstance(a, OpaqueV) and a.kind == "path":
        return OpaqueV("path", (B.strcat([a.args[0], string("/"), I.term(st, b)]),))
    if isinstance(a, OpaqueV) or isinstance(b, OpaqueV):
        return unknown("operator on library object")
    ta, tb = I.term(st, a), I.term(st, b)
    t = binop(I, op, ta, tb)
    return I.val(st, t)


def _listy(v):
    return isinstance(v, CondV) and (isinstance(v.a, (ListV, TupleV)) or isinstance(v.b, (ListV, TupleV)))


def skey(I, st, v):
    """a dictionary key: constants as they are, other scalars and tuples of
    scalars by their terms"""
    if isinstance(v, Term) and v.op in ("str", "num"):
        return v.data
    if isinstance(v, Term):
        return None if v.unk or v.axes else ("k", (v,))
    if isinstance(v, TupleV):
        out = []
        for x in v.items:
            if isinstance(x, (ObjV, Ref)):
                x = ident(x)
            if isinstance(x, TupleV):
                k = skey(I, st, x)
                if not isinstance(k, tuple):
                    return None
                out += [mk("tup", (num(len(k[1])),))] + list(k[1])
                continue
            if not isinstance(x, Term) or x.unk or x.axes:
                return None
            out.append(x)
        return ("k", tuple(out))
    if isinstance(v, ObjV):
        return ("k", (ident(v),))
    return None


def ident(v):
    """identity of an object: the same for one object whatever its contents"""
    nm = getattr(v, "sym", None) or getattr(v, "root", None) or str(v.loc)
    return sym("id(%s)" % nm, (), "posint")


def keyparts(k):
    return k[1] if isinstance(k, tuple) and k and k[0] == "k" else (_key2term(k),)


def samekey(a, b):
    x, y = keyparts(a), keyparts(b)
    if len(x) != len(y):
        return FALSE
    out = []
    for p, q in zip(x, y):
        if p.op == "strcat" and q.op == "strcat" and len(p.args) == len(q.args) and all((u.op == "str") == (w.op == "str") for u, w in zip(p.args, q.args)):
            # text built the same way from numbers
            for u, w in zip(p.args, q.args):
                if u.op == "str":
                    out.append(TRUE if u is w else FALSE)
                elif u.op == w.op and u.args and len(u.args) == len(w.args) and u.data == w.data:
                    out += [B.cmp("==", g, h) for g, h in zip(u.args, w.args)]
                else:
                    out.append(B.cmp("==", u, w))
            continue
        out.append(B.cmp("==", p, q))
    return B.and_(*out) if out else TRUE


def dlookup(I, st, d, k):
    """(condition, value) pairs, the latest entry first"""
    out = []
    for key in reversed(list(d)):
        c = samekey(key, k)
        if c is FALSE:
            continue
        v = d[key]
        while isinstance(v, CondV) and (v.a is UNBOUND or v.b is UNBOUND):
            c = B.and_(c, v.c if v.b is UNBOUND else B.not_(v.c))
            v = v.a if v.b is UNBOUND else v.b
        if v is UNBOUND or c is FALSE:
            continue
        out.append((c, v))
        if c is TRUE:
            break
    return out


def foreign(I, v):
    """a dictionary that outlives the call, so its entries are not all known"""
    r = getattr(v, "root", None)
    return isinstance(r, str) and r.startswith(("global:", "default:")) and not I.flags.get("history")


def compare(I, op, a, b, st):
    if op in ("Is", "IsNot"):
        r = _is(I, a, b, st)
        return B.not_(r) if op == "IsNot" else r
    if op in ("In", "NotIn"):
        r = None
        if isinstance(b, (ListV, TupleV)):
            its = I.items(st, b)
            if its is not None and isinstance(a, Term):
                r = B.or_(*[B.cmp("==", a, I.term(st, x)) for x in its])
        elif isinstance(b, DictV):
            d = st.heap[b.loc]
            k = skey(I, st, a)
            if isinstance(d, dict) and k is not None and not foreign(I, b):
                r = B.or_(*[c for c, _ in dlookup(I, st, d, k)]) if d else FALSE
        if r is None:
            r = mk("truth", (unknown("in"),))
        return B.not_(r) if op == "NotIn" else r
    o = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
    if isinstance(a, (ListV, TupleV)) and isinstance(b, (ListV, TupleV)):
        x, y = I.items(st, a), I.items(st, b)
        if x is not None and y is not None and o in ("==", "!="):
            r = FALSE if len(x) != len(y) else B.and_(*[B.cmp("==", I.term(st, p), I.term(st, q)) for p, q in zip(x, y)])
            return r if o == "==" else B.not_(r)
    if isinstance(a, (FuncV, ClassV, ModV, BuiltinV, OpaqueV)) or isinstance(b, (FuncV, ClassV, ModV, BuiltinV, OpaqueV)):
        return mk("truth", (unknown("compare"),))
    return B.cmp(o, I.term(st, a), I.term(st, b))


def _is(I, a, b, st):
    if isinstance(a, CondV):
        return B.ite(a.c, _is(I, a.a, b, st), _is(I, a.b, b, st))
    if isinstance(b, CondV):
        return B.ite(b.c, _is(I, a, b.a, st), _is(I, a, b.b, st))
    if isinstance(a, Term) and isinstance(b, Term):
        if a is b:
            return TRUE
        if b is NONE or a is NONE:
            x = a if b is NONE else b
            if x.op == "ite":
                return B.ite(x.args[0], _is(I, x.args[1], NONE, st), _is(I, x.args[2], NONE, st))
            if x.op == "sym" and x.data[1] == "opt":
                return B.cmp("==", x, NONE)
            if x.unk:
                return mk("truth", (x,))
            return FALSE
        return B.cmp("==", a, b)
    if a is NONE or b is NONE:
        v = a if b is NONE else b
        if isinstance(v, Ref):
            t = st.heap.get(v.loc)
            if isinstance(t, Term):
                if t.op == "ite":
                    return _is(I, t, NONE, st)
                if t.op == "sym" and t.data[1] == "opt":
                    return B.cmp("==", t, NONE)
                if t is NONE:
                    return TRUE
        return FALSE
    return TRUE if a is b else FALSE


# ------------------------------------------------------------------ indexing
def _listidx(I, items, ix, st):
    if isinstance(ix, SliceV):
        a, b, c = (None if x is NONE else const_int(I.term(st, x)) for x in (ix.a, ix.b, ix.c))
        for x, y in ((ix.a, a), (ix.b, b), (ix.c, c)):
            if x is not NONE and y is None:
                return None
        return items[slice(a, b, c)]
    return None


def getitem(I, o, ix, st):
    if isinstance(o, CondV):
        sa, sb = st.copy(), st.copy()
        a, b = getitem(I, o.a, ix, sa), getitem(I, o.b, ix, sb)
        out = I.merge(o.c, sa, sb)
        r = I.merge_val(o.c, a, b, sa, sb, out)
        st.vars, st.heap = out.vars, out.heap
        return r
    if isinstance(o, (TupleV, ListV)):
        items = I.items(st, o)
        if items is None:
            t = st.heap[o.loc]
            if isinstance(t, Term) and not t.unk:
                return getitem(I, I.ref(st, t), ix, st)
            return unknown("list index")
        if isinstance(ix, SliceV):
            r = _listidx(I, items, ix, st)
            if r is None:
                return unknown("list slice")
            return TupleV(r) if isinstance(o, TupleV) else I.mklist(st, r)
        k = I.term(st, ix)
        c = const_int(k)
        if c is not None:
            if -len(items) <= c < len(items):
                return items[c]
            I.effect("raise", "IndexError", data=("list index out of range",))
            return unknown("index out of range")
        # symbolic index over known items: generic element
        ts = [I.term(st, x) for x in items]
        if ts and not any(t.unk for t in ts):
            a = B.arr(ts)
            return I.val(st, B.idx(a, k, a.axes[0]))
        return unknown("symbolic list index")
    if isinstance(o, DictV):
        d = st.heap[o.loc]
        k = ix if not isinstance(ix, Term) else _term2key(ix)
        if isinstance(o.root, str) and o.root.startswith("global:"):
            I.effect("global-read", o.root)
            if I.flags.get("mutglobals") and o.root in I.flags["mutglobals"]:
                return unknown("mutable global")
        if isinstance(d, dict) and not isinstance(k, (PV, Term)) and k in d and not (isinstance(d[k], CondV) and UNBOUND in (d[k].a, d[k].b)):
            return d[k]
        k = skey(I, st, ix)
        if isinstance(d, dict) and k is not None and not foreign(I, o):
            got = dlookup(I, st, d, k)
            if got:
                r = got[-1][1]
                for c, v in reversed(got[:-1]):
                    r = I.merge_val(c, v, r, st, st, st)
                miss = B.and_(*[B.not_(c) for c, _ in got])
                if miss is not FALSE:
                    I.effect("raise", "KeyError", cond=B.and_(I.cond(), miss), data=("missing key",))
                return r
        return unknown("dict item")
    if isinstance(o, OpaqueV):
        if o.kind == "inspect.stack":
            return OpaqueV("inspect.frame", o.args)
        if o.kind == "inspect.frame":
            return mk("file", (), o.args[0])
        return unknown("index of library object")
    if isinstance(o, IterV):
        if o.concrete is not None:
            return getitem(I, TupleV(o.concrete), ix, st)
        if isinstance(ix, Term):
            return o.elem(ix)
        return unknown("iter index")
    if isinstance(o, (Ref, Term)):
        t = I.term(st, o)
        if t.unk and not t.axes:
            return unknown("index of unknown")
        r, view = index_term(I, t, ix, st)
        if isinstance(r, Term) and r.axes:
            if isinstance(o, Ref):
                if view:
                    return I.ref(st, r, root=o.root, base=o)
                return I.ref(st, r)
            return I.ref(st, r)
        return r
    return unknown("subscript of " + type(o).__name__)


def _ixlist(I, ix, st):
    if isinstance(ix, TupleV):
        return list(ix.items)
    return [ix]


def index_term(I, t, ix, st):
    """numpy indexing; returns (term, is_view)"""
    ixs = _ixlist(I, ix, st)
    # full boolean mask of same rank
    view = True
    pos = 0
    n_real = sum(1 for x in ixs if not (x is NONE or x is ELLIPSIS))
    out = t
    cur = 0  # current axis position in `out`
    for x in ixs:
        if x is NONE:
            out = B.newaxis(out, cur)
            cur += 1
            continue
        if x is ELLIPSIS:
            cur = len(out.axes) - (n_real - pos)
            continue
        pos += 1
        if cur >= len(out.axes):
            if not out.axes:
                return unknown("scalar index"), False
            return unknown("too many indices"), False
        ax = out.axes[cur]
        if isinstance(x, SliceV):
            a, b, c = x.a, x.b, x.c
            if c is not NONE and const_int(I.term(st, c)) not in (1,):
                cs = const_int(I.term(st, c))
                if cs == -1 and a is NONE and b is NONE:
                    out = B.rev(out, ax)
                    cur += 1
                    continue
                a_, b_ = (None if q is NONE else const_int(I.term(st, q)) for q in (a, b))
                els = B.elements(out, 64) if len(out.axes) == 1 else None
                if els is not None and cs is not None and (a is NONE or a_ is not None) and (b is NONE or b_ is not None):
                    out = B.arr(els[slice(a_, b_, cs)])
                    cur += 1
                    continue
                out = mk("stride", (out, I.term(st, a), I.term(st, b), I.term(st, c)), ax,
                         tuple(("ax", "stride", out.id, q) if q == ax else q for q in out.axes))
                out = unknown("strided slice", out.axes)
                cur += 1
                continue
            ta = None if a is NONE else I.term(st, a)
            tb = None if b is NONE else I.term(st, b)
            ia = None if ta is None else const_int(ta)
            ib = None if tb is None else const_int(tb)
            if (ta is None or ia is not None) and (tb is None or ib is not None):
                out = B.slc(out, ia, ib, ax)
            else:
                newax = ("ax", "slice", (ta or NONE), (tb or NONE), ax)
                axes = tuple(newax if q == ax else q for q in out.axes)
                out = mk("slicesym", (out, ta or NONE, tb or NONE), ax, axes)
            cur += 1
            continue
        if isinstance(x, (Ref, ListV)):
            tx = I.term(st, x)
            view = False
            if _boolish(tx) and tx.axes:
                if len(tx.axes) > 1:
                    return mk("maskflat", (out, tx), None, (("ax", "maskflat", tx, out.axes),)), False
                # selection of the entry whose coordinate equals a given element
                k = eq_index(tx, out, ax)
                if k is not None:
                    r = B.idx(out, k, ax)
                    return (r if r.axes else mk("bc", (r,), None, (ONEAX,))), False
                out = B.filt(out, tx, ax)
                cur += 1
                continue
            if not tx.axes:
                out = B.idx(out, tx, ax)
                continue
            ms = masks_of(tx)
            if ms is not None and axis_dim(tx.args[0].axes[0]) is axis_dim(ax):
                out = B.filt(out, B.and_(*ms), ax)
                cur += 1
                continue
            els = B.elements(tx, 64)
            oels = B.elements(out, 256) if len(out.axes) == 1 else None
            if els is not None and all(const_int(e) is not None for e in els) and oels is not None:
                return B.arr([oels[const_int(e)] for e in els]), False
            if len(tx.axes) == 1 and not tx.unk and len(ixs) == 1:
                nax = tx.axes[0] if tx.axes[0] not in out.axes or tx.axes[0] == ax else ("ax", "take", tx.id)
                return mk("take", (out, tx), ax, tuple(nax if q == ax else q for q in out.axes)), False
            return unknown("fancy index", out.axes), False
        if isinstance(x, Term):
            if x.unk:
                return unknown("unknown index"), False
            if _boolish(x):
                return unknown("boolean scalar index"), False
            if x.op == "idx" and masks_of(x.args[0]) is not None and axis_dim(x.args[0].args[0].axes[0]) is axis_dim(ax):
                # element of the rows selected
                sel = B.filt(out, B.and_(*masks_of(x.args[0])), ax)
                out = B.idx(sel, x.args[1], next(q for q in sel.axes if q not in out.axes))
                continue
            out = B.idx(out, x, ax)
            continue
        return unknown("index kind " + type(x).__name__), False
    return out, view


def eq_index(m, t, ax):
    """mask  X == X[k]  over distinct X  ->  k"""
    if m.op != "eq" or len(m.axes) != 1:
        return None
    for x, e in (m.args, m.args[::-1]):
        if len(x.axes) == 1 and not e.axes and e.op == "idx":
            leaf, k = e.args
            if B.idx(x, k, x.axes[0]) is e:
                return k
            # same leaf through an offset slice
            x0 = x
            if x0.op == "ren":
                x0 = x0.args[0]
            if leaf is x0:
                return k
    from .terms import subterms
    for x, e in (m.args, m.args[::-1]):
        if len(x.axes) == 1 and not e.axes:
            ks = []
            for q in subterms(e):
                if q.op == "idx" and not q.args[1].axes and q.args[1] not in ks:
                    ks.append(q.args[1])
            for k in ks[:12]:
                if B.idx(x, k, x.axes[0]) is e:
                    return k
    return None


def setitem(I, o, ix, v, st):
    if isinstance(o, CondV):
        for arm, c in ((o.a, o.c), (o.b, B.not_(o.c))):
            if not isinstance(arm, (Ref, ListV, DictV, CondV)):
                continue
            if isinstance(arm, CondV):
                locs = [x.loc for x in (arm.a, arm.b) if isinstance(x, (Ref, ListV, DictV))]
            else:
                locs = [arm.loc]
            before = {q: st.heap[q] for q in locs}
            I.pc.append(c)
            try:
                setitem(I, arm, ix, v, st)
            finally:
                I.pc.pop()
            for q, was in before.items():
                now = st.heap[q]
                if isinstance(was, Term) and isinstance(now, Term):
                    st.heap[q] = B.ite(c, now, was)
                elif isinstance(was, dict) and isinstance(now, dict):
                    nd = dict(was)
                    for k, x in now.items():
                        if was.get(k) is not x:
                            nd.pop(k, None)
                            nd[k] = I.merge_val(c, x, was.get(k, UNBOUND), st, st, st)
                    st.heap[q] = nd
                elif now is not was:
                    st.heap[q] = unknown("conditional item assignment")
        return
    if isinstance(o, ListV):
        I.mutate(o, st, "item assignment")
        items = I.items(st, o)
        if items is not None and isinstance(ix, Term) and const_int(ix) is not None and -len(items) <= const_int(ix) < len(items):
            items[const_int(ix)] = v
            st.heap[o.loc] = tuple(items)
        else:
            st.heap[o.loc] = unknown("list store")
        return
    if isinstance(o, DictV):
        I.mutate(o, st, "item assignment")
        d = st.heap[o.loc]
        k = skey(I, st, ix)
        if isinstance(d, dict) and k is not None:
            d = dict(d)
            d.pop(k, None)
            d[k] = v
            st.heap[o.loc] = d
        else:
            st.heap[o.loc] = unknown("dict store")
        return
    if isinstance(o, Ref):
        base = st.heap[o.loc]
        tv = I.term(st, v)
        st.heap[o.loc] = base
        new = store_term(I, base, ix, tv, st)
        I.setarray(o, st, new, "item assignment")
        return
    if isinstance(o, Term) and o.unk:
        return
    I.effect("unknown-store", "subscript")


def store_term(I, base, ix, v, st):
    ixs = _ixlist(I, ix, st)
    if not base.axes:
        return unknown("store into scalar")
    full = lambda s: isinstance(s, SliceV) and s.a is NONE and s.b is NONE and s.c is NONE
    # mask
    if len(ixs) >= 1 and isinstance(ixs[0], Ref) and all(full(x) for x in ixs[1:]):
        m = I.term(st, ixs[0])
        if _boolish(m) and m.axes:
            if len(m.axes) == len(base.axes) and m.axes != base.axes:
                m = rename(m, dict(zip(m.axes, base.axes)))
            if not v.axes:
                return _bcto(B.ite(m, v, base), base)
            # v = y[m]
            if v.op == "maskflat":
                pass
            for ax in v.axes:
                if ax[0] == "filt" and set(ax[1]) == set(B._conj(m)):
                    y = B.unfilt(v, ax)
                    if y is not None:
                        return _bcto(B.ite(m, y, base), base)
            r = _unmask(v, m)
            if r is not None:
                return _bcto(B.ite(m, r, base), base)
            if v.axes == base.axes:
                return _bcto(B.ite(m, v, base), base)
            return unknown("masked store", base.axes)
    if all(full(x) or x is ELLIPSIS for x in ixs):
        return _bcto(v, base)
    # columns of a table
    if len(ixs) == 2 and full(ixs[0]) and len(base.axes) == 2:
        n = const_int(axis_dim(base.axes[1]))
        x = ixs[1]
        if isinstance(x, SliceV) and x.c is NONE:
            a = 0 if x.a is NONE else const_int(I.term(st, x.a))
            b = n if x.b is NONE else const_int(I.term(st, x.b))
            if a is not None and b is not None and n is not None:
                r = range(*slice(a, b).indices(n))
                if len(r):
                    return mk("setsel", (base, v), ("cols", base.axes[1], r[0], r[-1] + 1), base.axes)
        if isinstance(x, Term) and const_int(x) is not None:
            c = const_int(x)
            if c < 0 and n is not None:
                c += n
            return mk("setsel", (base, v), ("cols", base.axes[1], c, c + 1), base.axes)
    # a block of a table of known size
    if len(ixs) == 2 and len(base.axes) == 2 and len(v.axes) in (0, 2):
        box = []
        for x, ax in zip(ixs, base.axes):
            n = const_int(axis_dim(ax))
            if n is None:
                break
            if isinstance(x, SliceV) and x.c is NONE:
                lim = [None if e is NONE else const_int(I.term(st, e)) for e in (x.a, x.b)]
                if any(e is None and f is not NONE for e, f in zip(lim, (x.a, x.b))):
                    break
                box.append(slice(*lim).indices(n)[:2])
            elif isinstance(x, Term) and const_int(x) is not None and not v.axes:
                c = const_int(x) % n
                box.append((c, c + 1))
        if len(box) == 2 and all(lo < hi for lo, hi in box):
            if not v.axes and box[0] == (0, const_int(axis_dim(base.axes[0]))):
                return mk("setsel", (base, v), ("cols", base.axes[1]) + tuple(box[1]), base.axes)
            return mk("setblk", (base, v), tuple(box), base.axes)
    if len(ixs) == 1 and isinstance(ixs[0], Term) and len(base.axes) == 1:
        k = ixs[0]
        c = const_int(k)
        n = const_int(axis_dim(base.axes[0]))
        if c is not None and n is not None and n <= 64:
            if c < 0:
                c += n
            if 0 <= c < n:
                els = [B.idx(base, num(i), base.axes[0]) for i in range(n)]
                els[c] = v
                return mk("arr", tuple(els), None, base.axes)
        return mk("setidx", (base, k, v), None, base.axes)
    return unknown("array store", base.axes)


def _unmask(v, m):
    """v pointwise in maskflat leaves of mask m -> full array"""
    mp = {}
    for x in subterms(v):
        if x.op == "maskflat":
            if x.args[1] is not m:
                return None
            mp[x] = x.args[0]
    if not mp:
        return None
    return B.subst(v, mp)


def _bcto(t, base):
    if t.axes == base.axes:
        return t
    return B.bc(t, base.axes)


# ------------------------------------------------------------------ attributes
def value_attr(I, v, name, st):
    if isinstance(v, (Ref, Term)):
        t = I.term(st, v)
        if name == "shape":
            if t.unk and not t.axes:
                return unknown("shape")
            if _declared_array(v, t):
                return TupleV([axis_dim(a) for a in t.axes])
            return TupleV([axis_dim(a) for a in t.axes])
        if name == "size":
            return B.size(t) if not (t.unk and not t.axes) else unknown("size")
        if name == "ndim":
            return num(len(t.axes)) if not t.unk else unknown("ndim")
        if name == "T":
            return I.ref(st, B.transpose(t), root=getattr(v, "root", None), base=v if isinstance(v, Ref) else None)
        if name in ("real", "imag"):
            return I.val(st, B.fn(name, t))
        if name == "flat":
            return I.val(st, t)
        if name == "dtype":
            return OpaqueV("dtype", (t,))
        if name == "nbytes" or name == "itemsize":
            return unknown(name)
        if t.op in ("str", "strcat") or (t.op == "sym" and t.data[1] == "str"):
            return BuiltinV("str." + name, v)
        return BuiltinV("ndarray." + name, v)
    if isinstance(v, ListV):
        return BuiltinV("list." + name, v)
    if isinstance(v, TupleV):
        return BuiltinV("tuple." + name, v)
    if isinstance(v, DictV):
        return BuiltinV("dict." + name, v)
    if isinstance(v, OpaqueV):
        if v.kind == "path":
            if name == "parent":
                return OpaqueV("path", (dirname(v.args[0]),))
            if name == "name":
                return unknown("path name")
        if v.kind == "inspect.frame" and name == "filename":
            return mk("file", (), v.args[0])
        if v.kind == "finfo":
            return unknown("finfo")
        if v.kind == "dtype":
            return unknown("dtype attr")
        return BuiltinV("opaque." + name, v)
    if isinstance(v, BuiltinV):
        return external(v.name + "." + name)
    if isinstance(v, FuncV):
        if name == "__name__":
            return string(v.name)
        return unknown("function attribute")
    if v is UNBOUND:
        return unknown("unbound")
    return unknown("attribute " + name)


def _declared_array(v, t):
    return isinstance(v, Ref)


def modfile(m):
    """source path below the import root"""
    p = m.name.replace(".", "/")
    return p + "/__init__.py" if m.path.endswith("__init__.py") else p + ".py"


def dirname(t):
    if t.op == "file" or (t.op == "dirname" and not t.args and "/" in t.data):
        return mk("dirname", (), t.data.rpartition("/")[0])
    return mk("dirname", (t,))


# ------------------------------------------------------------------ calls
def call_builtin(I, fn, args, kw, st, node):
    name = canon(fn.name)
    h = HANDLERS.get(name)
    if h is not None:
        return h(I, fn, args, kw, st)
    if name.startswith("numpy.") and name[6:] in UFUNC1:
        return _ufunc1(I, name[6:], args, kw, st)
    for pre, hh in PREFIX:
        if name.startswith(pre):
            return hh(I, fn, name, args, kw, st)
    if name.startswith("builtins.") and (name.endswith("Error") or name.endswith("Warning") or name.endswith("Exception")):
        return OpaqueV("exception", (name[9:], args))
    I.effect("unknown-call", name)
    # an unknown callee may modify array arguments
    return unknown("call " + name)


def T_(I, st, v):
    return I.term(st, v)


def _fin(I, st, t, kw=None):
    """wrap result; honours out="""
    if kw and "out" in kw and isinstance(kw["out"], Ref):
        o = kw["out"]
        I.setarray(o, st, _bcto(t, st.heap[o.loc]) if st.heap[o.loc].axes else t, "out=")
        return o
    if kw and "out" in kw and kw["out"] is not NONE:
        return unknown("out=")
    if kw and "where" in kw:
        return unknown("where=")
    return I.val(st, t)


def _ufunc1(I, op, args, kw, st):
    if not args:
        return unknown("ufunc arity")
    t = T_(I, st, args[0])
    kw = dict(kw)
    if len(args) > 1:
        kw["out"] = args[1]
    if op == "sqrt":
        r = B.sqrt(t)
    elif op == "exp":
        r = B.fn("exp", t)
    else:
        r = B.fn(op, t)
    return _fin(I, st, r, kw)


HANDLERS = {}
PREFIX = []


def H(*names):
    def d(f):
        for n in names:
            HANDLERS[n] = f
        return f
    return d


def _kwget(args, kw, pos, name, default=None):
    if len(args) > pos:
        return args[pos]
    return kw.get(name, default)


# ---- elementary
def _bin(op):
    def h(I, fn, args, kw, st):
        a, b = T_(I, st, args[0]), T_(I, st, args[1])
        kw = dict(kw)
        if len(args) > 2:
            kw["out"] = args[2]
        return _fin(I, st, binop(I, op, a, b), kw)
    return h


for _n, _o in (("add", "Add"), ("subtract", "Sub"), ("multiply", "Mult"), ("divide", "Div"), ("power", "Pow"), ("mod", "Mod"),
               ("remainder", "Mod"), ("floor_divide", "FloorDiv")):
    HANDLERS["numpy." + _n] = _bin(_o)
HANDLERS["builtins.pow"] = _bin("Pow")
for _n, _o in (("operator.mul", "Mult"), ("operator.add", "Add"), ("operator.sub", "Sub"), ("operator.truediv", "Div")):
    HANDLERS[_n] = _bin(_o)


@H("numpy.fmod", "math.fmod")
def _fmod(I, fn, args, kw, st):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    return _fin(I, st, binop(I, "Sub", a, binop(I, "Mult", b, B.fn("trunc", binop(I, "Div", a, b)))), kw)


@H("numpy.negative")
def _neg(I, fn, args, kw, st):
    return _fin(I, st, B.neg(T_(I, st, args[0])), kw)


@H("numpy.reciprocal")
def _rec(I, fn, args, kw, st):
    return _fin(I, st, B.pow_(T_(I, st, args[0]), num(-1)), kw)


@H("numpy.square")
def _sq(I, fn, args, kw, st):
    return _fin(I, st, B.pow_(T_(I, st, args[0]), num(2)), kw)


@H("numpy.cbrt")
def _cbrt(I, fn, args, kw, st):
    return _fin(I, st, B.pow_(T_(I, st, args[0]), num(Fraction(1, 3))), kw)


@H("numpy.expm1", "math.expm1")
def _expm1(I, fn, args, kw, st):
    return _fin(I, st, B.sub(B.fn("exp", T_(I, st, args[0])), ONE), kw)


@H("numpy.log1p", "math.log1p")
def _log1p(I, fn, args, kw, st):
    return _fin(I, st, B.fn("log", B.add(T_(I, st, args[0]), ONE)), kw)


@H("numpy.log2", "math.log2")
def _log2(I, fn, args, kw, st):
    return _fin(I, st, B.div(B.fn("log", T_(I, st, args[0])), B.fn("log", num(2))), kw)


@H("numpy.exp2")
def _exp2(I, fn, args, kw, st):
    return _fin(I, st, B.pow_(num(2), T_(I, st, args[0])), kw)


@H("numpy.arctan2")
def _atan2(I, fn, args, kw, st):
    from .terms import pw
    return _fin(I, st, pw("arctan2", T_(I, st, args[0]), T_(I, st, args[1])), kw)


@H("numpy.hypot")
def _hyp(I, fn, args, kw, st):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    return _fin(I, st, B.sqrt(B.add(B.pow_(a, num(2)), B.pow_(b, num(2)))), kw)


@H("numpy.radians", "numpy.deg2rad")
def _rad(I, fn, args, kw, st):
    return _fin(I, st, B.mul(T_(I, st, args[0]), B.div(PI, num(180))), kw)


@H("numpy.degrees", "numpy.rad2deg")
def _deg(I, fn, args, kw, st):
    return _fin(I, st, B.mul(T_(I, st, args[0]), B.div(num(180), PI)), kw)


@H("numpy.maximum", "numpy.fmax")
def _maxi(I, fn, args, kw, st):
    return _fin(I, st, B.max_(T_(I, st, args[0]), T_(I, st, args[1])), kw)


@H("numpy.minimum", "numpy.fmin")
def _mini(I, fn, args, kw, st):
    return _fin(I, st, B.min_(T_(I, st, args[0]), T_(I, st, args[1])), kw)


@H("numpy.clip")
def _clip(I, fn, args, kw, st):
    x = T_(I, st, args[0])
    lo = _kwget(args, kw, 1, "a_min", kw.get("min", NONE))
    hi = _kwget(args, kw, 2, "a_max", kw.get("max", NONE))
    kw = dict(kw)
    if len(args) > 3:
        kw["out"] = args[3]
    lo = None if lo is NONE else T_(I, st, lo)
    hi = None if hi is NONE else T_(I, st, hi)
    return _fin(I, st, B.clip(x, lo, hi), kw)


@H("numpy.where")
def _where(I, fn, args, kw, st):
    if len(args) == 1:
        r = positions(I, st, args[0])
        return TupleV((r,)) if isinstance(r, Ref) else r
    if len(args) != 3:
        return unknown("np.where")
    c, a, b = (T_(I, st, x) for x in args)
    if not _boolish(c):
        c = I.truth(c, st)
    return I.val(st, B.ite(c, a, b))


def positions(I, st, v):
    """indices where a one-dimensional mask holds"""
    m = T_(I, st, v)
    if m.unk or len(m.axes) != 1:
        return unknown("positions")
    if not _boolish(m):
        m = B.cmp("!=", m, ZERO)
    ax = m.axes[0]
    return I.ref(st, B.filt(mk("arange", (ZERO, ONE, axis_dim(ax)), None, (ax,)), m, ax))


def masks_of(tx):
    """the masks selecting a positions() array, or None"""
    if tx.op == "filt" and tx.args[0].op == "arange" and tx.args[0].args[0] is ZERO and tx.args[0].args[1] is ONE:
        return tx.args[1:]
    return None


@H("numpy.nonzero", "numpy.argwhere", "numpy.flatnonzero", "ndarray.nonzero")
def _nonzero(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    r = positions(I, st, args[0])
    if not isinstance(r, Ref):
        return r
    if fn.name == "numpy.argwhere":
        return unknown("argwhere")
    return r if fn.name == "numpy.flatnonzero" else TupleV((r,))


@H("numpy.argmin", "numpy.argmax", "ndarray.argmin", "ndarray.argmax", "numpy.argsort", "ndarray.argsort", "numpy.sort")
def _argm(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    t = T_(I, st, args[0])
    if t.unk or len(t.axes) != 1 or len(args) > 1 or set(kw) - {"axis", "kind"}:
        return unknown(fn.name)
    op = fn.name.split(".")[-1]
    if op == "sort":
        from .nf import _increasing, canon
        if not _increasing(t) and not _increasing(canon(t)):
            t = mk("take", (t, mk("argsort", (t,), None, t.axes)), t.axes[0], t.axes)
        return I.ref(st, t)
    if op == "argsort":
        return I.ref(st, mk("argsort", (t,), None, t.axes))
    return mk(op, (t,))


@H("numpy.nan_to_num")
def _n2n(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    if "posinf" in kw or "neginf" in kw:
        return unknown("nan_to_num options")
    cp = _kwget(args, kw, 1, "copy", TRUE)
    r = B.fn("nan_to_num", t)
    fill = _kwget(args, kw, 2, "nan", ZERO)
    fill = T_(I, st, fill)
    if fill is not ZERO:
        r = B.ite(B.fn("isnan", t), fill, r)
    if cp is FALSE and isinstance(args[0], Ref):
        I.setarray(args[0], st, r, "nan_to_num(copy=False)")
        return args[0]
    return I.val(st, r)


def _comparef(op):
    def h(I, fn, args, kw, st):
        return I.val(st, B.cmp(op, T_(I, st, args[0]), T_(I, st, args[1])))
    return h


for _n, _o in (("greater", ">"), ("less", "<"), ("greater_equal", ">="), ("less_equal", "<="), ("equal", "=="), ("not_equal", "!=")):
    HANDLERS["numpy." + _n] = _comparef(_o)


@H("numpy.logical_and")
def _land(I, fn, args, kw, st):
    return I.val(st, _boolpw(B.and_, T_(I, st, args[0]), T_(I, st, args[1])))


@H("numpy.logical_or")
def _lor(I, fn, args, kw, st):
    return I.val(st, _boolpw(B.or_, T_(I, st, args[0]), T_(I, st, args[1])))


@H("numpy.logical_not")
def _lnot(I, fn, args, kw, st):
    return I.val(st, B.not_(T_(I, st, args[0])))


@H("numpy.round", "builtins.round", "ndarray.round")
def _round(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    d = _kwget(args, kw, 1, "decimals", kw.get("ndigits", NONE))
    t = T_(I, st, args[0])
    if d is not NONE and const_int(T_(I, st, d)) != 0:
        k = const_int(T_(I, st, d))
        if k is None:
            return unknown("round digits")
        s = num(Fraction(10) ** k)
        return I.val(st, B.div(B.fn("round", B.mul(t, s)), s))
    return _fin(I, st, B.fn("round", t), kw)


@H("builtins.int", "numpy.int64", "numpy.int_", "numpy.int32", "numpy.intp", "numpy.fix")
def _int(I, fn, args, kw, st):
    if not args:
        return ZERO
    t = T_(I, st, args[0])
    if t.axes and all(a == ONEAX for a in t.axes):
        t = B.idx(t, ZERO, t.axes[0])
    if t.op == "tostr" or t.op == "str":
        return unknown("int(str)")
    if t in (TRUE, FALSE):
        return ONE if t is TRUE else ZERO
    return I.val(st, B.fn("trunc", t))


@H("builtins.float", "numpy.float64", "numpy.float32", "numpy.double")
def _float(I, fn, args, kw, st):
    if not args:
        return ZERO
    t = T_(I, st, args[0])
    if t.op == "str":
        if t.data.strip().lower() == "nan":
            return NAN
        if t.data.strip().lower() in ("inf", "+inf"):
            return INF
        return unknown("float(str)")
    if t.axes and all(a == ONEAX for a in t.axes):
        t = B.idx(t, ZERO, t.axes[0])
    return I.val(st, B.b2n(t))


@H("builtins.complex", "numpy.complex128")
def _cplx(I, fn, args, kw, st):
    if len(args) == 2:
        return I.val(st, B.add(T_(I, st, args[0]), B.mul(T_(I, st, args[1]), IMAG)))
    return args[0]


@H("builtins.bool", "numpy.bool_")
def _bool(I, fn, args, kw, st):
    return I.truth(args[0], st) if args else FALSE


@H("builtins.abs")
def _absb(I, fn, args, kw, st):
    return I.val(st, B.fn("abs", T_(I, st, args[0])))


@H("builtins.str", "builtins.repr", "builtins.format")
def _strb(I, fn, args, kw, st):
    return to_str(I, args[0], st)


@H("builtins.divmod")
def _divmod(I, fn, args, kw, st):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    return TupleV([B.idiv(a, b), B.mod(a, b)])


@H("scipy.special.jn")
def _jn(I, fn, args, kw, st):
    n = T_(I, st, args[0])
    x = T_(I, st, args[1])
    c = const_int(n)
    if c is None:
        return unknown("bessel order")
    from .terms import pw
    if x is ZERO:
        return ONE if c == 0 else ZERO
    return I.val(st, pw("jn", x, data=c))


@H("scipy.special.j0", "scipy.special.j1")
def _j01(I, fn, args, kw, st):
    from .terms import pw
    return I.val(st, pw("jn", T_(I, st, args[0]), data=int(fn.name[-1])))


@H("numpy.isclose", "math.isclose", "numpy.allclose")
def _isclose(I, fn, args, kw, st):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    every = fn.name.endswith("allclose")
    if a is b and (every or not a.axes):
        return TRUE
    if (a.axes or b.axes) and every:
        return mk("truth", (unknown("isclose on arrays"),))
    pos = [T_(I, st, x) for x in args[2:4]]
    d = B.fn("abs", B.sub(a, b))
    if fn.name.endswith("math.isclose") or fn.name == "isclose" and getattr(fn, "mod", "") == "math":
        rel = T_(I, st, kw["rel_tol"]) if "rel_tol" in kw else num("1e-9")
        ab = T_(I, st, kw["abs_tol"]) if "abs_tol" in kw else ZERO
        return B.cmp("<=", d, B.max_(B.mul(rel, B.max_(B.fn("abs", a), B.fn("abs", b))), ab))
    rel = T_(I, st, kw["rtol"]) if "rtol" in kw else pos[0] if pos else num("1e-5")
    ab = T_(I, st, kw["atol"]) if "atol" in kw else pos[1] if len(pos) > 1 else num("1e-8")
    return I.val(st, B.cmp("<=", d, B.add(ab, B.mul(rel, B.fn("abs", b)))))


# ---- python containers
@H("builtins.len")
def _len(I, fn, args, kw, st):
    v = args[0]
    if isinstance(v, (TupleV, ListV)):
        it = I.items(st, v)
        if it is not None:
            return num(len(it))
        t = st.heap[v.loc]
        return axis_dim(t.axes[0]) if isinstance(t, Term) and t.axes else unknown("len")
    if isinstance(v, DictV):
        d = st.heap[v.loc]
        return num(len(d)) if isinstance(d, dict) else unknown("len")
    if isinstance(v, IterV):
        return v.n
    if isinstance(v, (Ref, Term)):
        t = T_(I, st, v)
        if t.axes:
            return axis_dim(t.axes[0])
    return unknown("len")


@H("builtins.range")
def _range(I, fn, args, kw, st):
    a = [T_(I, st, x) for x in args]
    if len(a) == 1:
        lo, hi, step = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, step = a[0], a[1], ONE
    else:
        lo, hi, step = a
    cl, ch, cs = const_int(lo), const_int(hi), const_int(step)
    if None not in (cl, ch, cs) and cs != 0 and len(range(cl, ch, cs)) <= 16:
        r = range(cl, ch, cs)
        return IterV(num(len(r)), lambda i: B.add(lo, B.mul(step, i)), [num(i) for i in r])
    n = B.sub(hi, lo)
    if step is not ONE:
        n = B.fn("ceil", B.div(n, step))
    if None not in (cl, ch, cs):
        n = num(len(range(cl, ch, cs)))
    return IterV(n, lambda i: B.add(lo, B.mul(step, i)))


@H("builtins.enumerate")
def _enum(I, fn, args, kw, st):
    it = I.to_iter(args[0], st)
    start = _kwget(args, kw, 1, "start", ZERO)
    if it is None:
        return unknown("enumerate")
    start = T_(I, st, start)
    conc = None
    if it.concrete is not None:
        conc = [TupleV([B.add(start, num(i)), x]) for i, x in enumerate(it.concrete)]
    return IterV(it.n, lambda i: TupleV([B.add(start, i), it.elem(i)]), conc)


@H("builtins.zip")
def _zip(I, fn, args, kw, st):
    its = [I.to_iter(a, st) for a in args]
    if any(i is None for i in its):
        return unknown("zip")
    if all(i.concrete is not None for i in its):
        return IterV(None, None, [TupleV(list(x)) for x in zip(*[i.concrete for i in its])])

    def el(i, it):
        if it.elem is None:
            return getitem(I, TupleV(it.concrete), i, st)
        return it.elem(i)
    n = its[0].n
    return IterV(n, lambda i: TupleV([el(i, it) for it in its]))


@H("builtins.reversed")
def _revd(I, fn, args, kw, st):
    it = I.to_iter(args[0], st)
    if it is None:
        return unknown("reversed")
    if it.concrete is not None:
        return IterV(it.n, None, it.concrete[::-1])
    return IterV(it.n, lambda i: it.elem(B.sub(B.sub(it.n, ONE), i)))


@H("builtins.map")
def _map(I, fn, args, kw, st):
    its = [I.to_iter(a, st) for a in args[1:]]
    if any(i is None for i in its):
        return unknown("map")
    f = args[0]
    if all(i.concrete is not None for i in its):
        return I.mklist(st, [I.call(f, list(x), {}, st) for x in zip(*[i.concrete for i in its])])
    return IterV(its[0].n, lambda i: I.call(f, [it.elem(i) for it in its], {}, st))


@H("builtins.list", "builtins.tuple", "builtins.iter", "builtins.set", "builtins.frozenset")
def _list(I, fn, args, kw, st):
    if not args:
        return I.mklist(st, []) if "tuple" not in fn.name else TupleV([])
    it = I.to_iter(args[0], st)
    if it is None:
        return unknown("list()")
    if it.concrete is not None:
        return TupleV(list(it.concrete)) if "tuple" in fn.name else I.mklist(st, it.concrete)
    loc = I.new()
    st.heap[loc] = I.iter_term(st, it)
    return ListV(loc, "list")


@H("builtins.sorted")
def _sorted(I, fn, args, kw, st):
    its = I.items(st, args[0]) if isinstance(args[0], (ListV, TupleV)) else None
    if its is not None and len(its) == 2 and not kw and all(isinstance(x, Term) for x in its):
        return I.mklist(st, [B.min_(*its), B.max_(*its)])
    if isinstance(args[0], (Ref, Term)) and not kw and len(args) == 1:
        t = I.term(st, args[0])
        if not t.unk and len(t.axes) == 1:
            return _list(I, BuiltinV("builtins.list"), [_argm(I, BuiltinV("numpy.sort"), [args[0]], {}, st)], {}, st)
    return unknown("sorted")


@H("builtins.dict")
def _dict(I, fn, args, kw, st):
    d = {}
    if args:
        if isinstance(args[0], DictV) and isinstance(st.heap[args[0].loc], dict):
            d.update(st.heap[args[0].loc])
        else:
            it = I.to_iter(args[0], st)
            if it is None or it.concrete is None:
                return unknown("dict()")
            for x in it.concrete:
                p = I.items(st, x)
                if p is None:
                    return unknown("dict()")
                d[_term2key(p[0])] = p[1]
    d.update(kw)
    loc = I.new()
    st.heap[loc] = d
    return DictV(loc)


@H("builtins.isinstance")
def _isinst(I, fn, args, kw, st):
    v, c = args
    names = [c] if not isinstance(c, TupleV) else c.items
    ns = {x.name for x in names if isinstance(x, BuiltinV)}
    if isinstance(v, ObjV):
        return TRUE if any(isinstance(x, ClassV) and x.qual == v.cls.qual for x in names) else FALSE
    if isinstance(v, Ref) and "numpy.ndarray" in ns:
        return TRUE
    if isinstance(v, Term) and v.op == "str":
        return TRUE if "builtins.str" in ns else FALSE
    if isinstance(v, (ListV,)) and "builtins.list" in ns:
        return TRUE
    return mk("truth", (unknown("isinstance"),))


@H("builtins.callable")
def _callable(I, fn, args, kw, st):
    return TRUE if isinstance(args[0], (FuncV, BuiltinV, SymFunc, ClassV, PartialV)) else mk("truth", (unknown("callable"),))


@H("builtins.getattr")
def _ga(I, fn, args, kw, st):
    if isinstance(args[1], Term) and args[1].op == "str":
        if len(args) == 3 and isinstance(args[0], ObjV) and not args[0].sym:
            d = st.heap[args[0].loc]
            if isinstance(d, dict) and args[1].data not in d and args[1].data not in args[0].cls.members and args[1].data not in args[0].cls.props:
                return args[2]
        return I.getattr(args[0], args[1].data, st)
    return unknown("getattr")


@H("builtins.setattr", "builtins.object.__setattr__")
def _sa(I, fn, args, kw, st):
    if isinstance(args[1], Term) and args[1].op == "str":
        I.setattr(args[0], args[1].data, args[2], st)
    else:
        if isinstance(args[0], ObjV) and args[0].root:
            I.effect("setattr", args[0].root + ".?", data=(args[0].root, "?", args[2]))
        elif isinstance(args[0], ObjV):
            st.heap[args[0].loc] = unknown("dynamic setattr")
    return NONE


@H("builtins.hasattr")
def _hasa(I, fn, args, kw, st):
    if isinstance(args[0], ObjV) and isinstance(args[1], Term) and args[1].op == "str":
        n = args[1].data
        d = st.heap[args[0].loc]
        if isinstance(d, dict) and (n in d and not isinstance(d[n], CondV) or n in args[0].cls.members or n in args[0].cls.props):
            return TRUE
        if not args[0].sym:
            return FALSE
    return mk("truth", (unknown("hasattr"),))


@H("builtins.print")
def _print(I, fn, args, kw, st):
    I.effect("log", "print")
    return NONE


@H("builtins.id")
def _id(I, fn, args, kw, st):
    v = args[0]
    if isinstance(v, (ObjV, Ref)) and (getattr(v, "sym", None) or v.root):
        return ident(v)
    return unknown("id")


@H("builtins.type", "builtins.vars", "builtins.next", "builtins.filter", "builtins.hash", "builtins.issubclass")
def _unk(I, fn, args, kw, st):
    if fn.name == "builtins.type" and len(args) == 1 and isinstance(args[0], ObjV):
        return args[0].cls
    if fn.name == "builtins.vars":
        if len(args) == 1 and isinstance(args[0], ObjV):
            return I.getattr(args[0], "__dict__", st)
        I.effect("unknown-call", "vars()")
    return unknown(fn.name)


@H("builtins.open")
def _open(I, fn, args, kw, st):
    I.effect("io-open", "open")
    return unknown("open")


@H("builtins.slice")
def _slice(I, fn, args, kw, st):
    if len(args) == 1:
        return SliceV(NONE, args[0], NONE)
    if len(args) == 2:
        return SliceV(args[0], args[1], NONE)
    return SliceV(*args)


def _minmax(which):
    def h(I, fn, args, kw, st):
        if "key" in kw:
            return unknown("min/max key")
        if len(args) == 1:
            v = args[0]
            if isinstance(v, IterV) and v.concrete is not None:
                v = TupleV(v.concrete)
            if isinstance(v, (ListV, TupleV)):
                its = I.items(st, v)
                if its is not None:
                    ts = [T_(I, st, x) for x in its]
                    if not ts:
                        return unknown("max of empty")
                    return I.val(st, B._mm(which, [_scal(t) for t in ts]))
            t = T_(I, st, v)
            return B.amax("a" + which, t)
        return I.val(st, B._mm(which, [T_(I, st, x) for x in args]))
    return h


def _scal(t):
    if t.axes and all(a == ONEAX for a in t.axes):
        return B.idx(t, ZERO, t.axes[0])
    return t


HANDLERS["builtins.max"] = _minmax("max")
HANDLERS["builtins.min"] = _minmax("min")


def _npminmax(which):
    def h(I, fn, args, kw, st):
        if fn.self_ is not None:
            args = [fn.self_] + list(args)
        ax = _kwget(args, kw, 1, "axis", NONE)
        v = args[0]
        if isinstance(v, (ListV, TupleV)):
            its = I.items(st, v)
            if its is not None:
                ts = [T_(I, st, x) for x in its]
                if all(not t.axes for t in ts) and ts:
                    return I.val(st, B._mm(which, ts))
                if ax is ZERO and ts:
                    return I.val(st, B._mm(which, ts))
                if ts and ax is NONE:
                    return B._mm(which, [B.amax("a" + which, t) for t in ts])
        t = T_(I, st, v)
        if ax is not NONE and len(t.axes) > 1:
            return unknown("max axis")
        if t.unk and not t.axes:
            return unknown("max of unknown")
        return B.amax("a" + which, t)
    return h


for _n in ("numpy.max", "ndarray.max", "numpy.nanmax"):
    HANDLERS[_n] = _npminmax("max")
for _n in ("numpy.min", "ndarray.min", "numpy.nanmin"):
    HANDLERS[_n] = _npminmax("min")


@H("numpy.ptp")
def _ptp(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    return B.sub(B.amax("amax", t), B.amax("amin", t))


@H("numpy.sum", "ndarray.sum", "builtins.sum", "math.fsum", "numpy.nansum")
def _sum(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    if fn.name == "builtins.sum" or fn.name == "math.fsum":
        start = _kwget(args, kw, 1, "start", ZERO)
        it = I.to_iter(args[0], st)
        if it is None:
            return unknown("sum")
        if it.concrete is not None:
            r = T_(I, st, start)
            for x in it.concrete:
                r = B.add(r, T_(I, st, x))
            return I.val(st, r)
        bv = B.fresh_bv()
        body = T_(I, st, it.elem(bv))
        return I.val(st, B.add(T_(I, st, start), B.bigsum(it.n, body, bv)))
    ax = _kwget(args, kw, 1, "axis", NONE)
    v = args[0]
    t = T_(I, st, v)
    if t.unk and not t.axes:
        return unknown("sum of unknown")
    if ax is not NONE and len(t.axes) > 1:
        c = const_int(T_(I, st, ax)) if isinstance(ax, Term) else None
        if c is None:
            return unknown("sum axis")
        if c < 0:
            c += len(t.axes)
        a = t.axes[c]
        n = axis_dim(a)
        if const_int(n) is not None and const_int(n) <= 16:
            r = ZERO
            for i in range(const_int(n)):
                r = B.add(r, B.idx(t, num(i), a))
            return I.val(st, r)
        bv = B.fresh_bv()
        return I.val(st, B.bigsum(n, B.idx(t, bv, a), bv))
    if "keepdims" in kw and kw["keepdims"] is not FALSE:
        return unknown("keepdims")
    return B.total(t)


@H("numpy.mean", "ndarray.mean", "numpy.average", "numpy.nanmean")
def _mean(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    ax = kw.get("axis", args[1] if len(args) > 1 else NONE)
    t = T_(I, st, args[0])
    w = kw.get("weights", NONE)
    if len(t.axes) > 1 and ax is not NONE:
        return unknown("mean axis")
    if w is not NONE:
        tw = T_(I, st, w)
        return B.div(B.total(B.mul(t, tw)), B.total(tw))
    return B.div(B.total(t), B.size(t))


@H("numpy.prod", "ndarray.prod", "math.prod")
def _prod(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    v = args[0]
    its = I.items(st, v) if isinstance(v, (ListV, TupleV)) else None
    ax = _kwget(args, kw, 1, "axis", NONE)
    if its is not None and (ax is ZERO or fn.name == "math.prod" or all(not T_(I, st, x).axes for x in its)):
        r = ONE
        for x in its:
            r = B.mul(r, T_(I, st, x))
        return I.val(st, r)
    return unknown("prod")


@H("functools.reduce")
def _reduce(I, fn, args, kw, st):
    it = I.to_iter(args[1], st)
    if it is None or it.concrete is None:
        return unknown("reduce")
    items = list(it.concrete)
    acc = args[2] if len(args) > 2 else items.pop(0)
    for x in items:
        acc = I.call(args[0], [acc, x], {}, st)
    return acc


@H("functools.partial")
def _partial(I, fn, args, kw, st):
    return PartialV(args[0], args[1:], kw)


@H("numpy.multiply.reduce", "numpy.logical_and.reduce")
def _mulred(I, fn, args, kw, st):
    it = I.to_iter(args[0], st)
    if it is None or it.concrete is None:
        return unknown("reduce")
    r = ONE if "multiply" in fn.name else TRUE
    for x in it.concrete:
        t = T_(I, st, x)
        r = B.mul(r, t) if "multiply" in fn.name else _boolpw(B.and_, r, t)
    return I.val(st, r)


@H("numpy.all", "ndarray.all", "builtins.all", "numpy.any", "ndarray.any", "builtins.any")
def _allany(I, fn, args, kw, st):
    isall = fn.name.endswith("all")
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    v = args[0]
    if isinstance(v, IterV) and v.concrete is not None:
        v = TupleV(v.concrete)
    if isinstance(v, (ListV, TupleV)):
        its = I.items(st, v)
        if its is not None:
            ts = [I.truth(x, st) for x in its]
            return B.and_(*ts) if isall else B.or_(*ts)
    t = T_(I, st, v)
    if not t.axes:
        return I.truth(t, st)
    els = B.elements(t)
    if els is not None:
        ts = [I.truth(x, st) for x in els]
        return B.and_(*ts) if isall else B.or_(*ts)
    return mk("allred" if isall else "anyred", (t,))


@H("numpy.trapz")
def _trapz(I, fn, args, kw, st):
    y = T_(I, st, args[0])
    x = _kwget(args, kw, 1, "x", NONE)
    dx = kw.get("dx", args[2] if len(args) > 2 else NONE)
    if "axis" in kw and len(y.axes) != 1:
        return unknown("trapz axis")
    if x is NONE:
        if len(y.axes) != 1:
            return unknown("trapz")
        n = axis_dim(y.axes[0])
        xs = mk("arange", (ZERO, ONE, n), None, (y.axes[0],))
        d = ONE if dx is NONE else T_(I, st, dx)
        return B.trapz(y, B.mul(xs, d))
    return B.trapz(y, T_(I, st, x))


@H("numpy.dot", "numpy.inner", "numpy.vdot", "ndarray.dot")
def _dot(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    if len(a.axes) <= 1 and len(b.axes) <= 1:
        return B.total(B.mul(a, b))
    return unknown("dot")


@H("numpy.linalg.norm", "scipy.linalg.norm")
def _norm(I, fn, args, kw, st):
    """Euclidean (vector) and Frobenius (matrix) norm; other orders are left open"""
    t = T_(I, st, _kwget(args, kw, 0, "x"))
    o = _kwget(args, kw, 1, "ord")
    o = None if o is None or T_(I, st, o) is NONE else T_(I, st, o)
    if len(args) > 2 or any(k not in ("x", "ord") for k in kw):
        return unknown("norm axis")
    fro = o is not None and o.op == "str" and o.data == "fro"
    if o is None or fro and len(t.axes) == 2 or const_int(o) == 2 and len(t.axes) == 1:
        return B.sqrt(B.total(B.pow_(B.fn("abs", t), num(2)) if t.axes else B.mul(t, t)))
    if len(t.axes) == 2 and const_int(o) == 2:
        return mk("specnorm", (t,), None, ())
    return unknown("norm order")


@H("numpy.unique")
def _unique(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    if len(args) > 1 or kw or not t.axes:
        return unknown("unique")
    return I.ref(st, mk("unique", (t,), None, (("n", mk("nuniq", (t,), None, ())),)))


@H("numpy.diff")
def _diff(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    if len(t.axes) != 1 or len(args) > 1 or kw:
        return unknown("diff")
    ax = t.axes[0]
    els = B.elements(t)
    if els is not None:
        return I.val(st, B.arr([B.sub(b, a) for a, b in zip(els, els[1:])]))
    return I.val(st, B.sub(B.slc(t, 1, None, ax), B.slc(t, None, -1, ax)))


# ---- array construction
@H("numpy.array", "numpy.asarray", "numpy.copy", "ndarray.copy", "copy.copy", "copy.deepcopy", "list.copy", "numpy.atleast_1d",
   "ndarray.astype", "numpy.asfarray", "numpy.matrix")
def _array(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    if not args:
        args = [kw.get("object", kw.get("a", unknown("array()")))]
    v = args[0]
    if fn.name in ("copy.copy", "copy.deepcopy"):
        return _copyobj(I, v, st, fn.name.endswith("deepcopy"))
    if fn.name == "ndarray.astype" or "dtype" in kw or (fn.name in ("numpy.array", "numpy.asarray") and len(args) > 1):
        dt = kw.get("dtype", args[1] if len(args) > 1 else None)
        t = T_(I, st, v)
        r = _cast(I, t, dt, st)
        cp = kw.get("copy", TRUE)
        if fn.name == "ndarray.astype" and cp is FALSE and isinstance(v, Ref):
            return I.ref(st, r, root=v.root, base=v)
        if fn.name == "numpy.asarray" and isinstance(v, Ref):
            return I.ref(st, r, root=v.root, base=v)
        if isinstance(v, (ListV, TupleV)) or isinstance(v, Ref):
            return I.ref(st, r)
        return I.val(st, r)
    if fn.name in ("numpy.asarray", "numpy.atleast_1d") and isinstance(v, Ref):
        if fn.name == "numpy.asarray" or T_(I, st, v).axes:
            return v
    if isinstance(v, Ref) and fn.name == "numpy.array" and kw.get("copy", TRUE) is FALSE:
        return v
    if isinstance(v, ListV) and fn.name == "list.copy":
        its = I.items(st, v)
        return I.mklist(st, its) if its is not None else unknown("list copy")
    if isinstance(v, (ObjV, FuncV, DictV)):
        return unknown("array of object")
    t = T_(I, st, v)
    if t.unk and not t.axes:
        return unknown("array of unknown")
    if fn.name == "numpy.atleast_1d" and not t.axes:
        t = mk("bc", (t,), None, (ONEAX,))
    return I.ref(st, t)


def _copyobj(I, v, st, deep):
    if isinstance(v, ObjV):
        loc = I.new()
        d = st.heap[v.loc]
        if isinstance(d, dict):
            d = dict(d)
            # attributes of symbolic objects materialise through the original
            if deep:
                for k, x in list(d.items()):
                    if isinstance(x, (Ref, ListV, DictV)):
                        d[k] = _copyobj(I, x, st, True)
        st.heap[loc] = d
        o = ObjV(loc, v.cls, v.sym, None)
        if deep:
            o.root = None
            o.sym = v.sym
        return o
    if isinstance(v, Ref):
        return I.ref(st, T_(I, st, v))
    if isinstance(v, ListV):
        its = I.items(st, v)
        return I.mklist(st, its) if its is not None else unknown("copy list")
    if isinstance(v, DictV):
        loc = I.new()
        st.heap[loc] = st.heap[v.loc]
        return DictV(loc)
    return v


def _cast(I, t, dt, st):
    n = _dtname(dt)
    if n in ("float", "float64", "double", "complex", "complex128", "float_"):
        return B.b2n(t) if not t.axes else t
    if n in ("float32",):
        return t
    if n in ("int", "int64", "int32", "intp", "int_"):
        return B.fn("trunc", t)
    if n in ("int8", "int16", "uint16", "uint32"):
        # integers wrap around
        m, h = {"int8": (256, 128), "int16": (65536, 32768), "uint16": (65536, 0), "uint32": (2 ** 32, 0)}[n]
        return B.sub(B.mod(B.add(B.fn("trunc", t), num(h)), num(m)), num(h))
    if n == "uint8":
        from .terms import pw
        return pw("u8", t)
    if n is None:
        return t if dt is None or dt is NONE else unknown("cast", t.axes)
    if n == "bool":
        return I.truth(t, st) if not t.axes else unknown("cast bool", t.axes)
    return unknown("cast to " + n, t.axes)


def _dtname(dt):
    if isinstance(dt, BuiltinV):
        return dt.name.split(".")[-1]
    if isinstance(dt, Term) and dt.op == "str":
        return dt.data
    if isinstance(dt, OpaqueV) and dt.kind == "dtype":
        return "float" if True else None
    return None


def _shape_axes(I, st, v):
    """axes of a new array of the given shape"""
    if isinstance(v, (TupleV, ListV)):
        its = I.items(st, v)
        if its is None:
            return None
        out = []
        for x in its:
            t = T_(I, st, x)
            out.append(_dim2axis(t))
        return _distinct(tuple(out))
    t = T_(I, st, v)
    if t.axes or t.unk:
        return None
    return (_dim2axis(t),)


def _distinct(ax):
    """rows and columns of a square table keep different names"""
    if len(ax) == 2 and ax[0] == ax[1] and ax[0] != ("n", 1):
        return (("r", ax[0]), ("c", ax[1]))
    return ax


def _dim2axis(t):
    c = const_int(t)
    if c is not None:
        return axis_n(c)
    if t.op == "dim":
        return t.data
    return axis_n(t)


def _filled(val):
    def h(I, fn, args, kw, st):
        sh = _kwget(args, kw, 0, "shape", None)
        ax = _shape_axes(I, st, sh)
        v = val
        if val is None:
            v = T_(I, st, _kwget(args, kw, 1, "fill_value", ZERO))
        if ax is None:
            return unknown("shape")
        return I.ref(st, mk("bc", (v,), None, ax) if ax else v)
    return h


HANDLERS["numpy.zeros"] = _filled(ZERO)
HANDLERS["numpy.ones"] = _filled(ONE)
HANDLERS["numpy.full"] = _filled(None)


@H("numpy.empty", "numpy.empty_like")
def _empty(I, fn, args, kw, st):
    if fn.name.endswith("like"):
        ax = T_(I, st, args[0]).axes
    else:
        ax = _shape_axes(I, st, _kwget(args, kw, 0, "shape", None))
    if ax is None:
        return unknown("shape")
    return I.ref(st, mk("bc", (unknown("uninitialised"),), None, ax))


def _like(val):
    def h(I, fn, args, kw, st):
        t = T_(I, st, args[0])
        v = val if val is not None else T_(I, st, _kwget(args, kw, 1, "fill_value", ZERO))
        if t.unk and not t.axes:
            return unknown("like")
        return I.ref(st, mk("bc", (v,), None, t.axes) if t.axes else v)
    return h


HANDLERS["numpy.zeros_like"] = _like(ZERO)
HANDLERS["numpy.ones_like"] = _like(ONE)
HANDLERS["numpy.full_like"] = _like(None)


@H("numpy.linspace")
def _linspace(I, fn, args, kw, st):
    a, b = T_(I, st, _kwget(args, kw, 0, "start")), T_(I, st, _kwget(args, kw, 1, "stop"))
    n = T_(I, st, _kwget(args, kw, 2, "num", num(50)))
    ep = _kwget(args, kw, 3, "endpoint", TRUE)
    rs = _kwget(args, kw, 4, "retstep", FALSE)
    if a.axes or b.axes or ep not in (TRUE, FALSE):
        return unknown("linspace")
    if ep is FALSE:
        t = B.linspace(a, B.add(a, B.mul(B.sub(b, a), B.div(B.sub(n, ONE), n))), n)
        step = B.div(B.sub(b, a), n)
    else:
        t = B.linspace(a, b, n)
        step = B.div(B.sub(b, a), B.sub(n, ONE))
    r = I.ref(st, t)
    if rs is TRUE:
        return TupleV([r, step])
    return r


@H("numpy.arange")
def _arange(I, fn, args, kw, st):
    a = [T_(I, st, x) for x in args]
    if len(a) == 1:
        lo, hi, s = ZERO, a[0], ONE
    elif len(a) == 2:
        lo, hi, s = a[0], a[1], ONE
    else:
        lo, hi, s = a[:3]
    if "step" in kw:
        s = T_(I, st, kw["step"])
    if "stop" in kw:
        hi = T_(I, st, kw["stop"])
        if len(a) == 1:
            lo = a[0]
    return I.ref(st, B.arange(lo, hi, s))


@H("numpy.meshgrid")
def _mesh(I, fn, args, kw, st):
    if len(args) != 2 or any(k != "indexing" for k in kw):
        return unknown("meshgrid")
    u, v = T_(I, st, args[0]), T_(I, st, args[1])
    if len(u.axes) != 1 or len(v.axes) != 1:
        return unknown("meshgrid")
    ij = False
    if "indexing" in kw:
        if isinstance(kw["indexing"], Term) and kw["indexing"].op == "str":
            ij = kw["indexing"].data == "ij"
        else:
            return unknown("meshgrid")
    cax, rax = ("c", u.axes[0]), ("r", v.axes[0])
    X = rename(u, {u.axes[0]: cax})
    Y = rename(v, {v.axes[0]: rax})
    axes = (cax, rax) if ij else (rax, cax)
    if ij:
        X = mk("bc", (B.newaxis(X, 1),), None, axes)
        Y = mk("bc", (Y,), None, axes)
    else:
        X = mk("bc", (X,), None, axes)
        Y = mk("bc", (B.newaxis(Y, 1),), None, axes)
    return TupleV([I.ref(st, X), I.ref(st, Y)])


def _parts(I, st, v):
    its = I.items(st, v) if isinstance(v, (ListV, TupleV)) else None
    if its is None:
        return None
    return [T_(I, st, x) for x in its]


def _concat1(ts):
    """1-D concatenation"""
    els = []
    for t in ts:
        if not t.axes:
            els.append(t)
            continue
        e = B.elements(t, 300)
        if e is None:
            n = ZERO
            for x in ts:
                n = B.add(n, B.size(x))
            return mk("cat", tuple(ts), None, (axis_n(n),))
        els += e
    return B.arr(els)


@H("numpy.append")
def _append(I, fn, args, kw, st):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    if len(a.axes) > 1 or len(b.axes) > 1 or a.unk or b.unk:
        return unknown("append")
    return I.ref(st, _concat1([a, b]))


@H("numpy.concatenate", "numpy.hstack", "numpy.r_")
def _conc(I, fn, args, kw, st):
    ts = _parts(I, st, args[0])
    if ts is None or any(t.unk for t in ts):
        return unknown("concatenate")
    ax = _kwget(args, kw, 1, "axis", ZERO)
    if all(len(t.axes) <= 1 for t in ts):
        return I.ref(st, _concat1(ts))
    c = const_int(T_(I, st, ax)) if isinstance(ax, Term) else None
    if all(len(t.axes) == 2 for t in ts) and (fn.name == "numpy.hstack" or c in (1, -1)):
        return I.ref(st, hcat(ts))
    return unknown("concatenate 2-D")


def hcat(ts):
    n = ZERO
    for t in ts:
        n = B.add(n, axis_dim(t.axes[1]))
    rows = next((t.axes[0] for t in ts), None)
    ts2 = []
    for t in ts:
        if t.axes[0] != rows:
            t = rename(t, {t.axes[0]: rows})
        ts2.append(t)
    c = const_int(n)
    return mk("hcat", tuple(ts2), None, (rows, axis_n(c if c is not None else n)))


@H("numpy.column_stack")
def _colstack(I, fn, args, kw, st):
    ts = _parts(I, st, args[0])
    if ts is None or any(t.unk for t in ts):
        return unknown("column_stack")
    ts = [B.newaxis(t, 1) if len(t.axes) == 1 else t for t in ts]
    if any(len(t.axes) != 2 for t in ts):
        return unknown("column_stack")
    return I.ref(st, hcat(ts))


@H("numpy.vstack", "numpy.stack")
def _vstack(I, fn, args, kw, st):
    ts = _parts(I, st, args[0])
    if ts is None or any(t.unk for t in ts) or kw and not (kw.get("axis") is ZERO):
        return unknown("vstack")
    if all(len(t.axes) == 1 for t in ts):
        ax0 = ts[0].axes[0]
        ts = [t if t.axes[0] == ax0 else rename(t, {t.axes[0]: ax0}) for t in ts]
        return I.ref(st, mk("vstack", tuple(ts), None, (axis_n(len(ts)), ax0)))
    if all(not t.axes for t in ts):
        return I.ref(st, B.arr(ts))
    return unknown("vstack")


@H("numpy.expand_dims")
def _expand(I, fn, args, kw, st):
    ax = _kwget(args, kw, 1, "axis")
    t = T_(I, st, args[0])
    c = const_int(T_(I, st, ax)) if isinstance(ax, Term) else None
    if c is None:
        return unknown("expand_dims")
    return I.ref(st, B.newaxis(t, c), root=getattr(args[0], "root", None), base=args[0] if isinstance(args[0], Ref) else None)


@H("numpy.squeeze", "ndarray.squeeze")
def _squeeze(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    t = T_(I, st, args[0])
    while ONEAX in t.axes:
        t = B.drop_one(t)
    return I.val(st, t)


@H("numpy.reshape", "ndarray.reshape")
def _reshape(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    t = T_(I, st, args[0])
    if t.unk:
        return unknown("reshape")
    sh = args[1:] if len(args) > 2 or (len(args) == 2 and isinstance(args[1], Term)) else None
    if sh is None:
        s = args[1] if len(args) > 1 else kw.get("newshape", kw.get("shape"))
        sh = I.items(st, s) if isinstance(s, (ListV, TupleV)) else None
    if sh is None:
        return unknown("reshape")
    dims = [T_(I, st, x) for x in sh]
    order = kw.get("order", string("C"))
    root = getattr(args[0], "root", None)
    base = args[0] if isinstance(args[0], Ref) else None
    od = order.data if isinstance(order, Term) and order.op == "str" else "?"
    if len(dims) == 1 and const_int(dims[0]) == -1 and od == "C":
        if len(t.axes) == 1:
            return I.ref(st, t, root=root, base=base)
        return I.ref(st, mk("ravel", (t,), None, (("ax", "ravel", t.axes),)), root=root, base=base)
    if len(dims) == 2 and len(t.axes) == 1 and const_int(dims[1]) == 1 and od == "C":
        return I.ref(st, B.newaxis(t, 1), root=root, base=base)
    ax = tuple(_dim2axis(d) for d in dims)
    if any(const_int(d) is not None and const_int(d) < 0 for d in dims):
        if od == "F" and len(dims) == 2 and len(t.axes) == 1:
            pass
        ax = tuple(("ax", "resh", t.id, i) if const_int(d) is not None and const_int(d) < 0 else a for i, (d, a) in enumerate(zip(dims, ax)))
    return I.ref(st, mk("reshape", (t,) + tuple(dims), od, ax), root=root, base=base)


@H("numpy.ravel", "ndarray.ravel", "ndarray.flatten")
def _ravel(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    t = T_(I, st, args[0])
    if t.unk:
        return unknown("ravel", t.axes)
    view = fn.name != "ndarray.flatten"
    if len(t.axes) != 1:
        t = mk("ravel", (t,), None, (("ax", "ravel", t.axes),))
    return I.ref(st, t, root=getattr(args[0], "root", None) if view else None, base=args[0] if view and isinstance(args[0], Ref) else None)


@H("numpy.transpose", "ndarray.transpose")
def _transp(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    if len(args) > 1 or kw:
        return unknown("transpose axes")
    v = args[0]
    return I.ref(st, B.transpose(T_(I, st, v)), root=getattr(v, "root", None), base=v if isinstance(v, Ref) else None)


@H("numpy.flip", "numpy.flipud", "numpy.fliplr")
def _flip(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    if len(t.axes) == 1:
        return I.ref(st, B.rev(t, t.axes[0]))
    if fn.name == "numpy.flipud" and len(t.axes) == 2:
        return I.ref(st, B.rev(t, t.axes[0]))
    if fn.name == "numpy.fliplr" and len(t.axes) == 2:
        return I.ref(st, B.rev(t, t.axes[1]))
    return unknown("flip", t.axes)


@H("numpy.shape")
def _shape(I, fn, args, kw, st):
    return value_attr(I, args[0], "shape", st)


@H("numpy.size")
def _size(I, fn, args, kw, st):
    return value_attr(I, args[0], "size", st)


@H("numpy.ndim")
def _ndim(I, fn, args, kw, st):
    return value_attr(I, args[0], "ndim", st)


@H("numpy.median", "numpy.percentile", "numpy.quantile", "numpy.nanmedian", "numpy.nanpercentile")
def _perc(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    if t.op == "ravel":
        t = t.args[0]
    if "axis" in kw and len(t.axes) > 1:
        return unknown("percentile axis")
    if any(k not in ("axis", "q", "a") for k in kw):
        return unknown("percentile options")
    if fn.name.endswith("median"):
        q = num(50)
    else:
        qv = _kwget(args, kw, 1, "q")
        if isinstance(qv, (ListV, TupleV)):
            its = I.items(st, qv)
            if its is None:
                return unknown("percentile")
            return I.ref(st, B.arr([_percentile(t, T_(I, st, x), fn.name) for x in its]))
        q = T_(I, st, qv)
        if len(q.axes) == 1:
            els = B.elements(q)
            if els is None:
                return unknown("percentile")
            return I.ref(st, B.arr([_percentile(t, x, fn.name) for x in els]))
    return _percentile(t, q, fn.name)


def _percentile(t, q, name):
    if name.endswith("quantile"):
        q = B.mul(q, num(100))
    els = B.elements(t)
    if els is not None and all(e.op == "num" for e in els) and q.op == "num":
        vs = sorted(e.data for e in els)
        pos = q.data / 100 * (len(vs) - 1)
        lo = math.floor(pos)
        hi = min(lo + 1, len(vs) - 1)
        return num(vs[lo] + (vs[hi] - vs[lo]) * (pos - lo))
    return mk("percentile", (t, q))


@H("numpy.diag", "numpy.diagonal", "ndarray.diagonal")
def _diag(I, fn, args, kw, st):
    if fn.self_ is not None:
        args = [fn.self_] + list(args)
    t = T_(I, st, args[0])
    if len(t.axes) != 2 or len(args) > 1 or kw:
        return unknown("diag")
    return I.ref(st, mk("diag", (t,), None, (t.axes[0],)))


@H("numpy.interp")
def _interp(I, fn, args, kw, st):
    x, xp, fp = (T_(I, st, _kwget(args, kw, i, n)) for i, n in enumerate(("x", "xp", "fp")))
    left = _kwget(args, kw, 3, "left", NONE)
    right = _kwget(args, kw, 4, "right", NONE)
    if kw.get("period", NONE) is not NONE or len(xp.axes) != 1 or len(fp.axes) != 1:
        return unknown("interp")
    left = B.idx(fp, ZERO, fp.axes[0]) if left is NONE else T_(I, st, left)
    right = B.idx(fp, num(-1), fp.axes[0]) if right is NONE else T_(I, st, right)
    return I.val(st, mk("interp", (x, xp, fp, left, right), None, x.axes))


@H("scipy.interpolate.interp1d")
def _interp1d(I, fn, args, kw, st):
    xs, ys = T_(I, st, _kwget(args, kw, 0, "x")), T_(I, st, _kwget(args, kw, 1, "y"))
    kind = _kwget(args, kw, 2, "kind", string("linear"))
    fill = kw.get("fill_value", NONE)
    be = kw.get("bounds_error", NONE)
    if isinstance(fill, TupleV):
        fl = [T_(I, st, x) for x in fill.items]
        mode = ("clamp", tuple(fl))
    else:
        tf = T_(I, st, fill)
        mode = ("extrapolate",) if tf.op == "str" and tf.data == "extrapolate" else (("raise",) if tf is NONE else ("fill", tf))
    if not (isinstance(kind, Term) and kind.op == "str"):
        return unknown("interp1d kind")
    as_ = kw.get("assume_sorted", FALSE)
    s = I.truth(as_, st)
    if s not in (TRUE, FALSE):
        return unknown("interp1d assume_sorted")
    return OpaqueV("interp1d", (xs, ys, kind.data, mode, s is TRUE, be if isinstance(be, Term) else NONE))


@H("scipy.interpolate.interp2d")
def _interp2d(I, fn, args, kw, st):
    if kw:
        return unknown("interp2d options")
    return OpaqueV("interp2d", tuple(T_(I, st, a) for a in args[:3]))


@H("scipy.interpolate.RegularGridInterpolator")
def _rgi(I, fn, args, kw, st):
    pts = _parts(I, st, _kwget(args, kw, 0, "points"))
    vals = T_(I, st, _kwget(args, kw, 1, "values"))
    if pts is None:
        return unknown("RegularGridInterpolator")
    opts = []
    for k, v in sorted(kw.items()):
        if k in ("points", "values"):
            continue
        opts.append((k, T_(I, st, v)))
    return OpaqueV("rgi", (tuple(pts), vals, tuple(opts)))


@H("scipy.interpolate.interpn")
def _interpn(I, fn, args, kw, st):
    f = _rgi(I, fn, args[:2], {k: v for k, v in kw.items() if k != "xi"}, st)
    xi = _kwget(args, kw, 2, "xi")
    if isinstance(f, Term):
        return f
    return call_opaque(I, f, [xi], {}, st, None)


@H("scipy.ndimage.map_coordinates")
def _mapc(I, fn, args, kw, st):
    cs = _parts(I, st, args[1])
    t = T_(I, st, args[0])
    if cs is None:
        return unknown("map_coordinates")
    opts = tuple(sorted((k, T_(I, st, v)) for k, v in kw.items()))
    ax = max((c.axes for c in cs), key=len)
    return I.val(st, mk("map_coordinates", (t,) + tuple(cs), opts, ax))


@H("scipy.interpolate.griddata")
def _griddata(I, fn, args, kw, st):
    pts = _kwget(args, kw, 0, "points")
    vals = T_(I, st, _kwget(args, kw, 1, "values"))
    xi = _kwget(args, kw, 2, "xi")
    p, x = _parts(I, st, pts), _parts(I, st, xi)
    if p is None or x is None or len(p) != 2 or len(x) != 2:
        return unknown("griddata")
    method = _kwget(args, kw, 3, "method", string("linear"))
    fv = _kwget(args, kw, 4, "fill_value", NAN)
    (x0, x1), ax = align(x)
    data = (method.data if isinstance(method, Term) and method.op == "str" else "?",)
    return I.val(st, mk("griddata", (x0, x1, p[0], p[1], vals, T_(I, st, fv)), data, ax))


def call_opaque(I, f, args, kw, st, node):
    if f.kind == "interp1d":
        xs, ys, kind, mode, srt, be = f.args
        x = T_(I, st, args[0])
        if x.unk:
            return unknown("interp1d of unknown", x.axes)
        return I.ref(st, mk("interp1", (x, xs, ys), (kind, mode, srt), x.axes)) if x.axes else mk("interp1", (x, xs, ys), (kind, mode, srt), ())
    if f.kind == "interp2d":
        x, y = T_(I, st, args[0]), T_(I, st, args[1])
        if len(x.axes) != 1 or len(y.axes) != 1:
            return unknown("interp2d eval")
        return I.ref(st, mk("interp2d", f.args + (x, y), None, (("r", y.axes[0]), ("c", x.axes[0]))))
    if f.kind == "rgi":
        pts, vals, opts = f.args
        xi = args[0]
        cs = _parts(I, st, xi)
        if cs is None:
            t = T_(I, st, xi)
            if t.op == "hcat" and all(len(p.axes) == 2 for p in t.args):
                cs = []
                for c in range(len(pts)):
                    cs.append(B.idx(t, num(c), t.axes[-1]))
            elif t.op in ("transpose",) and t.args[0].op in ("vstack", "arr"):
                cs = list(t.args[0].args)
            elif t.op == "stack_last":
                cs = list(t.args)
            else:
                return unknown("rgi eval")
        if len(cs) != len(pts):
            return unknown("rgi eval")
        cs, ax = align(cs)
        return I.val(st, mk("rgi", tuple(pts) + (vals,) + tuple(cs), (len(pts), opts), ax))
    if f.kind == "exception":
        return unknown("exception call")
    return unknown("call of library object " + f.kind)


@H("numpy.stack")
def _stack(I, fn, args, kw, st):
    ts = _parts(I, st, args[0])
    ax = _kwget(args, kw, 1, "axis", ZERO)
    if ts is None:
        return unknown("stack")
    if ax is ZERO and all(len(t.axes) == 1 for t in ts):
        return _vstack(I, fn, args[:1], {}, st)
    c = const_int(T_(I, st, ax))
    if c == -1 or (ts and c == len(ts[0].axes)):
        ts, axes = align(ts)
        return I.ref(st, mk("stack_last", tuple(ts), None, axes + (axis_n(len(ts)),)))
    return unknown("stack")


# ---- fft, cv2: array-to-array library calls kept as nodes
def _fft(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    t = T_(I, st, args[0])
    extra = [T_(I, st, x) for x in args[1:]] + [T_(I, st, kw[k]) for k in sorted(kw)]
    if t.unk or any(e.unk for e in extra):
        return unknown("fft of unknown", t.axes)
    if short in ("fftshift", "ifftshift"):
        if extra:
            return unknown("fftshift axes", t.axes)
        return I.ref(st, mk(short, (t,), None, t.axes))
    if short in ("fft2", "ifft2"):
        axes = t.axes
        s = kw.get("s", args[1] if len(args) > 1 else NONE)
        if set(kw) - {"s", "a"}:
            return unknown("fft2 options", t.axes)
        if s is not NONE:
            ax = _shape_axes(I, st, s)
            if ax is None:
                return unknown("fft2 s")
            axes = ax
            dims = tuple(axis_dim(a) for a in axes)
            return I.ref(st, mk(short, (t,) + dims, None, axes))
        return I.ref(st, mk(short, (t,), None, axes))
    I.effect("unknown-call", name)
    return unknown(name)


PREFIX.append(("numpy.fft.", _fft))
PREFIX.append(("scipy.fft.", _fft))


def _cv2(I, fn, name, args, kw, st):
    I.effect("uses-cv2", name)
    short = name.split(".")[-1]
    if short == "resize":
        t = T_(I, st, args[0])
        ds = _kwget(args, kw, 1, "dsize")
        its = I.items(st, ds) if isinstance(ds, (TupleV, ListV)) else None
        opts = tuple((k, T_(I, st, v)) for k, v in sorted(kw.items()) if k not in ("dsize", "src") and not (
            k == "interpolation" and (isinstance(v, BuiltinV) and v.name.endswith(".INTER_LINEAR") or const_int(T_(I, st, v)) == 1)))
        if its is None or len(its) != 2 or len(args) > 2:
            return unknown("resize")
        nx, ny = (T_(I, st, x) for x in its)
        ax = (("r", axis_n(_c(ny))), ("c", axis_n(_c(nx))))
        return I.ref(st, mk("cv2.resize", (t, nx, ny), opts, ax))
    if short == "filter2D":
        t = T_(I, st, _kwget(args, kw, 0, "src"))
        d = T_(I, st, _kwget(args, kw, 1, "ddepth"))
        k = T_(I, st, _kwget(args, kw, 2, "kernel"))
        opts = []
        for q, v in sorted(kw.items()):
            if q in ("src", "ddepth", "kernel"):
                continue
            c = v.name.split(".")[-1] if isinstance(v, BuiltinV) else None
            v = sym("cv2." + c) if c is not None and c.startswith("BORDER_") else T_(I, st, v)
            if q == "delta" and const_int(v) == 0 or q == "borderType" and (
                    const_int(v) == 4 or c in ("BORDER_DEFAULT", "BORDER_REFLECT101", "BORDER_REFLECT_101")):
                continue  # OpenCV's own defaults
            opts.append((q, v))
        opts = tuple(opts)
        if len(args) > 3:
            return unknown("filter2D options", t.axes)
        return I.ref(st, mk("cv2.filter2D", (t, d, k), opts, t.axes))
    if short.isupper() or "_" in short and short.upper() == short:
        return sym(name)
    I.effect("unknown-call", name)
    return unknown(name)


def _c(t):
    c = const_int(t)
    return c if c is not None else t


PREFIX.append(("cv2.", _cv2))


# ---- randomness
def _rng(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    if short in ("default_rng", "RandomState", "Generator"):
        return OpaqueV("rng", tuple(T_(I, st, a) for a in args))
    if short == "seed":
        I.effect("rng-seed", name)
        return NONE
    return _draw(I, short, args, kw, st)


def _draw(I, short, args, kw, st):
    names = {"poisson": ["lam", "size"], "normal": ["loc", "scale", "size"], "standard_normal": ["size"], "uniform": ["low", "high", "size"]}.get(short)
    I.effect("rng", short, data=(list(args), dict(kw)))
    I.rng += 1
    if names is None:
        return unknown("random draw")
    vals = {}
    for n, a in zip(names, args):
        vals[n] = a
    vals.update(kw)
    ts = []
    for n in names:
        if n == "size":
            continue
        dflt = {"loc": ZERO, "scale": ONE, "lam": ONE, "low": ZERO, "high": ONE}[n]
        ts.append(T_(I, st, vals.get(n, dflt)))
    ax = ()
    if "size" in vals and vals["size"] is not NONE:
        ax = _shape_axes(I, st, vals["size"])
        if ax is None:
            return unknown("draw size")
    ts, bx = align(ts)
    axes = ax if len(ax) > len(bx) else bx
    if short == "standard_normal":
        ts = [ZERO, ONE]
        short = "normal"
    return I.val(st, mk("draw", tuple(ts), (short, I.rng), axes))


PREFIX.append(("numpy.random.", _rng))
PREFIX.append(("random.", lambda I, fn, name, args, kw, st: (I.effect("rng", name), unknown(name))[1]))


# ---- environment
@H("os.path.join")
def _join(I, fn, args, kw, st):
    parts = []
    for i, a in enumerate(args):
        if i:
            parts.append(string("/"))
        parts.append(to_str(I, a if not (isinstance(a, OpaqueV) and a.kind == "path") else a.args[0], st))
    return B.strcat(parts)


@H("os.path.abspath", "os.path.realpath", "os.path.normpath", "os.fspath")
def _abspath(I, fn, args, kw, st):
    if isinstance(args[0], OpaqueV) and args[0].kind == "path":
        return args[0].args[0]
    return args[0]


@H("os.path.dirname")
def _dirname(I, fn, args, kw, st):
    return dirname(T_(I, st, args[0]))


@H("pathlib.Path")
def _path(I, fn, args, kw, st):
    ts = [to_str(I, a.args[0] if isinstance(a, OpaqueV) else a, st) for a in args]
    out = [ts[0]]
    for t in ts[1:]:
        out += [string("/"), t]
    return OpaqueV("path", (B.strcat(out),))


@H("os.path.isfile", "os.path.exists")
def _isfile(I, fn, args, kw, st):
    p = args[0].args[0] if isinstance(args[0], OpaqueV) and args[0].kind == "path" else T_(I, st, args[0])
    I.effect("io-read", "isfile", data=p)
    return mk("isfile", (p,))


def _opaque_attr(I, fn, name, args, kw, st):
    o = fn.self_
    short = name.split(".")[-1]
    if o.kind == "path":
        if short in ("is_file", "exists"):
            I.effect("io-read", "isfile", data=o.args[0])
            return mk("isfile", (o.args[0],))
        if short in ("resolve", "absolute"):
            return o
        if short == "joinpath":
            return OpaqueV("path", (B.strcat([o.args[0], string("/"), T_(I, st, args[0])]),))
    if o.kind == "rng":
        return _draw(I, short, args, kw, st)
    if o.kind == "mpl":
        I.effect("plot", short, data=([_plotarg(I, st, a) for a in args], {k: _plotarg(I, st, v) for k, v in kw.items()}))
        return OpaqueV("mpl", ())
    return unknown("method of " + o.kind)


PREFIX.append(("opaque.", _opaque_attr))


@H("importlib.util.find_spec")
def _find_spec(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    k = OPTIONAL.get(str(t.data).split(".")[0]) if t.op == "str" else None
    if k is None:
        return OpaqueV("spec", ())
    return CondV(sym(k, (), "bool"), OpaqueV("spec", ()), NONE)


@H("inspect.stack")
def _istack(I, fn, args, kw, st):
    return OpaqueV("inspect.stack", (modfile(I.frames[-1].mod) if I.frames else "?",))


@H("numpy.genfromtxt", "numpy.loadtxt")
def _gen(I, fn, args, kw, st):
    p = args[0].args[0] if isinstance(args[0], OpaqueV) and args[0].kind == "path" else T_(I, st, args[0])
    I.effect("io-read", "csv", data=p)
    opts = tuple(sorted((k, T_(I, st, v)) for k, v in kw.items()))
    if fn.name.endswith("loadtxt") or set(k for k, _ in opts) - {"delimiter", "skip_header"}:
        return unknown("csv options")
    return I.ref(st, mk("readcsv", (p,), opts, (("ax", "csvrows"), ("ax", "csvcols"))))


@H("numpy.fromfile")
def _fromfile(I, fn, args, kw, st):
    p = args[0].args[0] if isinstance(args[0], OpaqueV) and args[0].kind == "path" else T_(I, st, args[0])
    I.effect("io-read", "bin", data=p)
    dt = _dtname(kw.get("dtype", args[1] if len(args) > 1 else None)) or "float64"
    off = kw.get("offset", ZERO)
    cnt = kw.get("count", args[2] if len(args) > 2 else num(-1))
    if const_int(T_(I, st, cnt)) != -1 and const_int(T_(I, st, cnt)) != 1371 * 5 or T_(I, st, off) is not ZERO:
        return I.ref(st, mk("readbin", (p, T_(I, st, cnt), T_(I, st, off)), dt, (("ax", "raw"),)))
    return I.ref(st, mk("readbin", (p,), dt, (("ax", "raw"),)))


@H("warnings.warn")
def _warn(I, fn, args, kw, st):
    w = args[0] if args else kw.get("message")
    cat = "UserWarning"
    if isinstance(w, OpaqueV) and w.kind == "exception":
        cat = w.args[0]
    elif "category" in kw or len(args) > 1:
        c = kw.get("category", args[1] if len(args) > 1 else None)
        cat = c.name.split(".")[-1] if isinstance(c, BuiltinV) else "?"
    I.effect("warn", cat)
    return NONE


def _ignore(kind):
    def h(I, fn, name, args, kw, st):
        I.effect(kind, name)
        return OpaqueV("ctx", ())
    return h


PREFIX.append(("warnings.", _ignore("log")))
PREFIX.append(("logging.", _ignore("log")))
PREFIX.append(("numpy.errstate", _ignore("log")))
PREFIX.append(("numpy.seterr", _ignore("global-config")))
PREFIX.append(("contextlib.", _ignore("log")))
PREFIX.append(("time.", lambda I, fn, name, args, kw, st: (I.effect("clock", name), unknown(name))[1]))
PREFIX.append(("datetime.", lambda I, fn, name, args, kw, st: (I.effect("clock", name), unknown(name))[1]))
PREFIX.append(("os.environ", lambda I, fn, name, args, kw, st: (I.effect("env", name), unknown(name))[1]))
PREFIX.append(("os.getenv", lambda I, fn, name, args, kw, st: (I.effect("env", name), unknown(name))[1]))
PREFIX.append(("os.urandom", lambda I, fn, name, args, kw, st: (I.effect("rng", name), unknown(name))[1]))


def _plotarg(I, st, v):
    if isinstance(v, (TupleV, ListV)):
        its = I.items(st, v)
        if its is None:
            return I.term(st, v)
        return tuple(_plotarg(I, st, x) for x in its)
    if isinstance(v, DictV):
        d = st.heap[v.loc]
        return {k: _plotarg(I, st, x) for k, x in d.items()} if isinstance(d, dict) else None
    if isinstance(v, (Term, Ref, CondV)):
        return I.term(st, v)
    return v


def _plt(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    I.effect("plot", short, data=([_plotarg(I, st, a) for a in args], {k: _plotarg(I, st, v) for k, v in kw.items()}))
    if short == "subplots":
        return TupleV([OpaqueV("mpl", ()), OpaqueV("mpl", ())])
    return OpaqueV("mpl", ())


PREFIX.append(("matplotlib.pyplot.", _plt))


# ---- methods of arrays, lists, dicts, strings
def _ndarray(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    v = fn.self_
    if short in ("conj", "conjugate"):
        return I.val(st, B.fn("conj", T_(I, st, v)))
    if short == "clip":
        return _clip(I, BuiltinV("numpy.clip"), [v] + list(args), kw, st)
    if short == "item":
        t = T_(I, st, v)
        if t.axes and all(a == ONEAX for a in t.axes):
            return B.idx(t, ZERO, t.axes[0])
        if not t.axes:
            return t
        if len(args) == 1 and len(t.axes) == 1:
            return B.idx(t, T_(I, st, args[0]), t.axes[0])
        return unknown("item")
    if short == "tolist":
        t = T_(I, st, v)
        els = B.elements(t, 300)
        if els is not None:
            return I.mklist(st, els)
        loc = I.new()
        st.heap[loc] = t
        return ListV(loc, "list")
    if short in ("sort", "fill", "put", "resize", "partition", "itemset", "setfield", "byteswap"):
        if isinstance(v, Ref):
            t = T_(I, st, v)
            new = unknown("in-place " + short, t.axes)
            if short == "fill" and args:
                new = _bcto(T_(I, st, args[0]), t)
            I.setarray(v, st, new, "in-place " + short)
        return NONE
    if short == "view":
        return v
    if short in ("cumsum", "std", "var", "repeat", "tobytes", "searchsorted", "swapaxes"):
        I.effect("unknown-call", name)
        return unknown(name)
    I.effect("unknown-call", name)
    return unknown(name)


PREFIX.append(("ndarray.", _ndarray))


def _listm(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    v = fn.self_
    items = I.items(st, v)
    if short == "append":
        I.mutate(v, st, "append")
        st.heap[v.loc] = tuple(items) + (args[0],) if items is not None else unknown("append")
        return NONE
    if short == "extend":
        I.mutate(v, st, "extend")
        it = I.to_iter(args[0], st)
        st.heap[v.loc] = tuple(items) + tuple(it.concrete) if items is not None and it is not None and it.concrete is not None else unknown("extend")
        return NONE
    if short == "index" and items is not None and isinstance(args[0], Term):
        for i, x in enumerate(items):
            if x is args[0]:
                return num(i)
        return unknown("index")
    if short in ("insert", "pop", "remove", "clear", "sort", "reverse"):
        I.mutate(v, st, short)
        if items is not None and short == "reverse":
            st.heap[v.loc] = tuple(items[::-1])
            return NONE
        if items is not None and short == "pop" and not args and items:
            st.heap[v.loc] = tuple(items[:-1])
            return items[-1]
        if items is not None and short == "insert" and const_int(T_(I, st, args[0])) is not None:
            items.insert(const_int(T_(I, st, args[0])), args[1])
            st.heap[v.loc] = tuple(items)
            return NONE
        st.heap[v.loc] = unknown("list " + short)
        return unknown("list " + short)
    return unknown(name)


PREFIX.append(("list.", _listm))
PREFIX.append(("tuple.", lambda I, fn, name, args, kw, st: unknown(name)))


def _dictm(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    v = fn.self_
    d = st.heap[v.loc]
    if not isinstance(d, dict):
        if short in ("update", "setdefault", "pop", "clear"):
            I.mutate(v, st, short)
        return unknown("dict")
    if short == "items":
        return I.mklist(st, [TupleV([k if isinstance(k, PV) else _key2term(k), x]) for k, x in d.items()])
    if short == "keys":
        return I.mklist(st, [k if isinstance(k, PV) else _key2term(k) for k in d])
    if short == "values":
        return I.mklist(st, list(d.values()))
    if short == "get":
        k = skey(I, st, args[0])
        if k is None or foreign(I, v) and k not in d:
            return unknown("dict.get")
        r = args[1] if len(args) > 1 else NONE
        for c, x in reversed(dlookup(I, st, d, k)):
            r = I.merge_val(c, x, r, st, st, st)
        return r
    if short in ("update", "setdefault", "pop", "clear"):
        I.mutate(v, st, short)
        if short == "update":
            nd = dict(d)
            nd.update(kw)
            if args and isinstance(args[0], DictV) and isinstance(st.heap[args[0].loc], dict):
                nd.update(st.heap[args[0].loc])
            st.heap[v.loc] = nd
            return NONE
        if short == "setdefault" and args:
            k = skey(I, st, args[0])
            if k is None or foreign(I, v) and k not in d:
                return unknown("dict.setdefault")
            r = args[1] if len(args) > 1 else NONE
            for c, x in reversed(dlookup(I, st, d, k)):
                r = I.merge_val(c, x, r, st, st, st)
            nd = {q: x for q, x in d.items() if q != k}
            nd[k] = r
            st.heap[v.loc] = nd
            return r
        return unknown("dict " + short)
    if short == "copy":
        loc = I.new()
        st.heap[loc] = dict(d)
        return DictV(loc)
    return unknown(name)


PREFIX.append(("dict.", _dictm))


def _strm(I, fn, name, args, kw, st):
    short = name.split(".")[-1]
    t = T_(I, st, fn.self_)
    if short == "join":
        its = I.items(st, args[0]) if isinstance(args[0], (ListV, TupleV)) else None
        if its is not None:
            out = []
            for i, x in enumerate(its):
                if i:
                    out.append(t)
                out.append(T_(I, st, x))
            return B.strcat(out)
    if short == "format" and t.op == "str":
        try:
            fields = list(_string.Formatter().parse(t.data))
        except ValueError:
            return unknown("format string")
        out, i = [], 0
        for lit, field, spec, conv in fields:
            out.append(string(lit))
            if field is None:
                continue
            if field == "":
                field, i = str(i), i + 1
            v = args[int(field)] if field.isdigit() and int(field) < len(args) else kw.get(field)
            if v is None or "{" in (spec or ""):
                return unknown("format field")
            out.append(to_str(I, v, st, spec or None))
        return B.strcat(out)
    ts = [T_(I, st, a) for a in args]
    if short in ("lower", "upper", "strip", "lstrip", "rstrip", "replace", "zfill", "title", "capitalize") and not kw and t.op == "str":
        cs = [x.data if x.op == "str" else const_int(x) for x in ts]
        if all(c is not None for c in cs):
            try:
                return string(getattr(t.data, short)(*cs))
            except (TypeError, ValueError):
                pass
    return unknown("string method " + short)


PREFIX.append(("str.", _strm))


@H("numpy.copyto")
def _copyto(I, fn, args, kw, st):
    if isinstance(args[0], Ref):
        I.setarray(args[0], st, _bcto(T_(I, st, args[1]), st.heap[args[0].loc]) if not kw else unknown("copyto"), "copyto")
    return NONE


@H("numpy.random.shuffle", "numpy.put", "numpy.place", "numpy.putmask", "numpy.fill_diagonal", "numpy.add.at")
def _inplace(I, fn, args, kw, st):
    if args and isinstance(args[0], Ref):
        I.setarray(args[0], st, unknown(fn.name, st.heap[args[0].loc].axes), fn.name)
    return NONE


@H("numpy.finfo")
def _finfo(I, fn, args, kw, st):
    return OpaqueV("finfo", ())


@H("numpy.outer")
def _outer(I, fn, args, kw, st):
    a, b = T_(I, st, args[0]), T_(I, st, args[1])
    if len(a.axes) == 1 and len(b.axes) == 1:
        if a.axes == b.axes:
            a = rename(a, {a.axes[0]: ("r", a.axes[0])})
            b = rename(b, {b.axes[0]: ("c", b.axes[0])})
        return I.ref(st, B.mul(B.newaxis(a, 1), b))
    return unknown("outer")


@H("numpy.broadcast_to")
def _bto(I, fn, args, kw, st):
    ax = _shape_axes(I, st, args[1])
    if ax is None:
        return unknown("broadcast_to")
    return I.ref(st, B.bc(T_(I, st, args[0]), ax))


@H("numpy.s_", "numpy.index_exp")
def _s(I, fn, args, kw, st):
    return unknown("s_")


@H("numpy.searchsorted")
def _ss(I, fn, args, kw, st):
    a, v = T_(I, st, args[0]), T_(I, st, args[1])
    side = _kwget(args, kw, 2, "side", string("left"))
    if a.unk or v.unk or len(a.axes) != 1 or v.axes or not (isinstance(side, Term) and side.op == "str"):
        return unknown("searchsorted")
    return mk("searchsorted", (a, v), side.data)


@H("numpy.count_nonzero")
def _cnz(I, fn, args, kw, st):
    t = T_(I, st, args[0])
    if len(t.axes) == 1:
        bv = B.fresh_bv()
        return B.bigsum(axis_dim(t.axes[0]), B.ite(B.idx(t, bv, t.axes[0]), ONE, ZERO), bv)
    return unknown("count_nonzero")
