"""Normal form of value-graph terms.

A term becomes a polynomial with rational coefficients over *atoms* with
rational exponents.  Atoms are hash-consed terms whose arguments are already
normal, so that equality of normal forms is identity.  Exponentials in one
monomial are merged, logarithms split over positive factors, branch conditions
are 0/1 indicator atoms (multilinear polynomials decide propositional
structure), scalar factors are pulled out of sums, trapezoids, maxima and
percentiles, and a common denominator decides rational identities.
"""
from fractions import Fraction
import math

from . import build as B
from .terms import FALSE, IMAG, INF, NAN, NONE, ONE, PI, TRUE, ZERO, Term, mk, num, subterms

F0, F1 = Fraction(0), Fraction(1)
TOL = Fraction(1, 10**12)
LIMIT = 4000


class TooBig(Exception):
    pass


# ------------------------------------------------------------------ domains
POSK = {"pos", "posint", "wave", "pos1"}
NONNEGK = POSK | {"nonneg", "unit", "unit1", "incr0", "nonnegint"}
REALK_COMPLEX = {"cx"}

_nn = {}


def nonneg(t):
    """is the atom/term known to be >= 0 (over the declared domains)?"""
    r = _nn.get(t.id)
    if r is None:
        _nn[t.id] = False
        r = _nn[t.id] = _nonneg(t)
    return r


def _nonneg(t):
    o = t.op
    if o == "num":
        return t.data >= 0
    if o in ("pi", "inf", "dim", "count", "ind", "u8", "true", "false", "scen_atm", "db"):
        return True
    if o == "sym":
        return t.data[1] in NONNEGK
    if o in ("abs", "zero"):
        return True
    if o == "P":
        return all(c >= 0 and all(nonneg(a) or _even(e) for a, e in m) for m, c in items(t))
    if o == "exp":
        return isreal(t.args[0])
    if o in ("idx", "ren", "filt", "bc", "rev", "slice", "newax", "amax", "amin", "ravel", "floor", "ceil", "round", "trunc", "transpose", "nan_to_num", "percentile"):
        return nonneg(t.args[0])
    if o == "max":
        return any(nonneg(a) for a in t.args)
    if o == "min":
        return all(nonneg(a) for a in t.args)
    if o in ("add", "mul"):
        return all(nonneg(a) for a in t.args)
    if o == "pow":
        if nonneg(t.args[0]):
            return True
        b = t.args[1]
        return b.op == "num" and _even(b.data) and isreal(t.args[0])
    if o in ("bigsum", "bigprod"):
        return nonneg(t.args[1])
    if o == "sum":
        return nonneg(t.args[0])
    if o == "trapz":
        x = t.args[1]
        return nonneg(t.args[0]) and _increasing(x)
    if o == "db" or o == "scen_atm":
        return True
    if o in ("interp", "interp1"):
        return len(t.args) > 2 and nonneg(t.args[2]) and not (t.data and "extrapolate" in repr(t.data))
    if o in ("linspace",):
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if o == "arange":
        return nonneg(t.args[0]) and nonneg(t.args[1])
    if o == "bv":
        return True
    if o == "draw":
        return t.data[0] == "poisson"
    if o in ("arccos",):
        return True
    if o == "arctan" or o == "tanh":
        return nonneg(t.args[0])
    if o == "arr":
        return all(nonneg(a) for a in t.args)
    return False


def _increasing(x):
    if x.op == "sym":
        return x.data[1] in ("wave", "incr", "incr0")
    if x.op == "arange":
        return nonneg(x.args[1])
    if x.op == "P":
        # scale * (0, 1, 2, ...) + offset
        its = [(m, c) for m, c in items(x) if any(a_.axes for a_, _ in m)]
        if len(its) == 1:
            m, c = its[0]
            v = [(a_, e) for a_, e in m if a_.axes]
            return c > 0 and len(v) == 1 and v[0][1] == 1 and _increasing(v[0][0]) and all(nonneg(a_) for a_, e in m if not a_.axes)
        return False
    if x.op == "linspace":
        d = poly(B.sub(x.args[1], x.args[0]))
        return all(c >= 0 and all(nonneg(a) for a, e in m) for m, c in d.items())
    if x.op in ("filt", "slice", "ren", "bc"):
        return _increasing(x.args[0])
    if x.op == "idx" and x.args[0].op in ("db", "scen_atm") and x.args[1] is ZERO:
        return True
    return False


def positive(t):
    o = t.op
    if o == "num":
        return t.data > 0
    if o == "pi":
        return True
    if o == "sym":
        return t.data[1] in POSK or t.data[1] == "unit1"
    if o == "exp":
        return isreal(t.args[0])
    if o == "idx" and t.args[0].op in ("scen_atm", "db"):
        return t.data == ("n", 6) and t.args[1].op == "num" and t.args[1].data == 0  # the wavelengths
    if o in ("idx", "ren", "filt", "bc", "rev", "slice", "newax", "amax", "amin", "percentile", "transpose"):
        return positive(t.args[0])
    if o == "dim":
        ax = t.data
        while ax[0] in ("r", "c", "sl"):
            ax = ax[-1]
        return ax[0] != "filt" and not (ax[0] == "ax" and ax[1] in ("maskflat", "csvrows"))
    if o == "P":
        ok = False
        for m, c in items(t):
            if c < 0 or not all(nonneg(a) or _even(e) for a, e in m):
                return False
            if c > 0 and all(positive(a) for a, e in m):
                ok = True
        return ok
    if o == "pow":
        return positive(t.args[0])
    if o == "max":
        return any(positive(a) for a in t.args)
    if o == "min":
        return all(positive(a) for a in t.args)
    if o in ("db", "scen_atm"):
        return True
    if o == "ceil":
        return positive(t.args[0])
    return False


_re = {}


def isreal(t):
    r = _re.get(t.id)
    if r is None:
        r = True
        for x in subterms(t):
            if x.op in ("I", "fft2", "ifft2", "fft", "ifft", "apply") or (x.op == "sym" and x.data[1] == "cx"):
                r = x is t and False
                break
        if t.op in ("abs", "real", "imag"):
            r = True
        _re[t.id] = r
    return r


def _even(e):
    return e.denominator == 1 and e.numerator % 2 == 0


# ------------------------------------------------------------------ poly
def const(c):
    return {(): Fraction(c)} if c else {}


def items(t):
    """(mono, coef) of a canonical poly term"""
    for c, m in t.data:
        yield tuple((t.args[i], e) for i, e in m), c


def atom(t, e=F1):
    if t.op == "P":
        if e == 1:
            return {m: c for m, c in items(t)}
    if t.op == "num" and e == 1:
        return const(t.data)
    return {((t, Fraction(e)),): F1}


def padd(*ps):
    r = {}
    for p in ps:
        for m, c in p.items():
            v = r.get(m, F0) + c
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return r


def pscale(p, c):
    return {m: v * c for m, v in p.items()} if c else {}


def pneg(p):
    return pscale(p, -1)


def monomul(a, b):
    """product of monomials -> (coef, mono) or poly"""
    d = dict(a)
    for x, e in b:
        d[x] = d.get(x, F0) + e
    return fixmono(d)


def fixmono(d):
    """normalise an atom->exponent dict; returns a poly"""
    coef = F1
    exps = []
    extra = None
    for x in list(d):
        e = d[x]
        if not e:
            del d[x]
            continue
        o = x.op
        if o == "I":
            if e.denominator == 1:
                k = e.numerator % 4
                if k in (2, 3):
                    coef = -coef
                if k in (1, 3):
                    d[x] = F1
                else:
                    del d[x]
        elif o == "num":
            k = math.floor(e)
            if k:
                coef *= x.data ** k
                e -= k
                if e:
                    d[x] = e
                else:
                    del d[x]
        elif o == "ind" or o == "zero":
            if e != 1:
                d[x] = F1
        elif o == "exp":
            exps.append(x)
        elif o == "P":
            k = math.floor(e)
            if k >= 1:
                # expand integer part
                rest = e - k
                if rest:
                    d[x] = rest
                else:
                    del d[x]
                base = dict(items(x))
                pw_ = base
                for _ in range(k - 1):
                    pw_ = pmul(pw_, base)
                extra = pw_ if extra is None else pmul(extra, pw_)
    # P (positive) and zero of the same difference exclude each other
    if exps:
        if len(exps) > 1 or d[exps[0]] != 1:
            tot = {}
            for x in exps:
                tot = padd(tot, pscale(poly(x.args[0]), d.pop(x)))
            ex = pexp(tot)
            base = {tuple(sorted(d.items(), key=_mk)): coef} if True else None
            r = pmul(base, ex)
            return pmul(r, extra) if extra is not None else r
    inds = [x for x in d if x.op in ("ind", "zero")]
    if len(inds) > 1:
        seen = {}
        for x in inds:
            seen.setdefault(x.args[0], set()).add(x.op)
        if any(len(v) > 1 for v in seen.values()):
            return {}
        if _excl(inds):
            return {}
    r = {tuple(sorted(d.items(), key=_mk)): coef}
    return pmul(r, extra) if extra is not None else r


def _excl(inds):
    """zero(d1)*zero(d2) with d1-d2 a nonzero constant; ind(d1)*zero(d2)..."""
    for i, a in enumerate(inds):
        for b in inds[i + 1:]:
            if a.op == "zero" and b.op == "zero":
                d = padd(poly(a.args[0]), pneg(poly(b.args[0])))
                if len(d) == 1 and () in d:
                    return True
    return False


def _mk(ae):
    return (ae[0].id, ae[1])


def pmul(p, q):
    if not p or not q:
        return {}
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    if len(q) == 1 and () in q:
        return pscale(p, q[()])
    if len(p) * len(q) > LIMIT:
        raise TooBig()
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            for k, v in monomul(m, n).items():
                w = r.get(k, F0) + v * c * d
                if w:
                    r[k] = w
                else:
                    r.pop(k, None)
    return r


_canon = {}


def term(p, axes=()):
    """canonical Term of a poly"""
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if not m:
            return num(c)
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    key = frozenset(p.items())
    r = _canon.get(key)
    if r is not None:
        return r
    atoms = sorted({a for m in p for a, _ in m}, key=lambda a: a.id)
    ix = {a: i for i, a in enumerate(atoms)}
    data = tuple(sorted(((c, tuple((ix[a], e) for a, e in m)) for m, c in p.items()), key=lambda z: (z[1], z[0])))
    ax = ()
    for a in atoms:
        if len(a.axes) > len(ax):
            ax = a.axes
    r = mk("P", tuple(atoms), data, ax)
    _canon[key] = r
    return r


def lead(p):
    m = min(p, key=_order)
    return m, p[m]


def _order(m):
    return (len(m), tuple((a.id, e) for a, e in m))


def content(p):
    """p = coef * mono * q with q primitive (exponents' minimum zero, leading
    coefficient magnitude one).  Returns (coef>0 , mono dict, q)."""
    atoms = {}
    first = True
    for m in p:
        d = dict(m)
        if first:
            atoms = dict(d)
            first = False
        else:
            for a in list(atoms):
                atoms[a] = min(atoms[a], d.get(a, F0))
            for a in d:
                if a not in atoms:
                    atoms[a] = min(F0, d[a])
    atoms = {a: e for a, e in atoms.items() if e and a.op not in ("exp", "ind", "zero", "I", "num")}
    if atoms:
        inv = tuple(sorted(((a, -e) for a, e in atoms.items()), key=_mk))
        q = pmul(p, {inv: F1})
    else:
        q = p
    _, c = lead(q)
    c = abs(c)
    return c, atoms, pscale(q, 1 / c)


# ------------------------------------------------------------------ powers
def numpow(f, e):
    """positive Fraction to a rational power, as poly"""
    k = math.floor(e)
    r = {(): Fraction(f) ** k if abs(k) < 2000 else F1}
    e = e - k
    if not e:
        return r
    d = {}
    for n, s in ((f.numerator, 1), (f.denominator, -1)):
        for p_ in (2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97):
            j = 0
            while n % p_ == 0 and n > 1:
                n //= p_
                j += 1
            if j:
                d[num(p_)] = d.get(num(p_), F0) + s * j * e
        if n > 1:
            w = 1
            while math.isqrt(n) ** 2 == n and n > 1:
                n, w = math.isqrt(n), 2 * w
            d[num(n)] = d.get(num(n), F0) + s * e * w
    return pmul(r, fixmono(d))


def inds_of(*ps):
    s = []
    for p in ps:
        for m in p:
            for a, _ in m:
                if a.op in ("ind", "zero") and a not in s:
                    s.append(a)
    return s


def setind(p, a, v):
    r = {}
    for m, c in p.items():
        if any(x is a for x, _ in m):
            if not v:
                continue
            m = tuple((x, e) for x, e in m if x is not a)
        w = r.get(m, F0) + c
        if w:
            r[m] = w
        else:
            r.pop(m, None)
    return r


def lift(f, *ps):
    """f applied to piecewise arguments, with the pieces outermost"""
    s = inds_of(*ps)
    if not s:
        return f(*ps)
    if len(s) > 6:
        raise TooBig()
    a = s[0]
    p1 = lift(f, *[setind(p, a, 1) for p in ps])
    p0 = lift(f, *[setind(p, a, 0) for p in ps])
    A = atom(a)
    return padd(pmul(A, p1), pmul(padd(const(1), pneg(A)), p0))


def ppow(p, e):
    if e == 1:
        return p
    if e == 0:
        return const(1)
    if inds_of(p):
        if e.denominator == 1 and 0 < e <= 4:
            r = p
            for _ in range(int(e) - 1):
                r = pmul(r, p)
            return r
        return lift(lambda q: ppow(q, e), p)
    if not p:
        return {} if e > 0 else atom(INF)
    if len(p) == 1:
        (m, c), = p.items()
        return monopow(m, c, e)
    if e.denominator == 1 and 0 < e <= 8:
        k = int(e)
        if len(p) ** k <= 600:
            r = p
            for _ in range(k - 1):
                r = pmul(r, p)
            return r
    c, mono, q = content(p)
    if e.denominator == 1:
        _, lc = lead(q)
        if lc < 0:
            q = pneg(q)
            c = -c
        head = monopow(tuple(sorted(mono.items(), key=_mk)), c, e)
        return pmul(head, powP(q, e))
    # fractional: pull out what is certainly nonnegative
    sq = perfect_root(q, e)
    if sq is not None:
        head = monopow_nn(mono, c, e)
        if head is not None:
            return pmul(head, sq)
    head = monopow_nn(mono, c, e)
    if head is None:
        out, inn = {}, {}
        for a, k in mono.items():
            (out if nonneg(a) or _even(k) else inn)[a] = k
        head = monopow_nn(out, c, e) or const(1)
        if inn:
            q = pmul(q, fixmono(dict(inn)))
            c2, m2, q2 = content(q)
            if not m2:
                q = q2
                head = pmul(head, numpow(c2, e))
    return pmul(head, powP(q, e))


def perfect_root(q, e):
    """q = r**2 with r known nonneg (two-term squares): q**(1/2) = r"""
    if e != Fraction(1, 2) or len(q) != 3:
        return None
    sqs = []
    for m, c in q.items():
        if c > 0 and all(_even(k) for _, k in m):
            r = _isq(c)
            if r is not None:
                sqs.append((tuple((a, k / 2) for a, k in m), r))
    for i in range(len(sqs)):
        for j in range(i + 1, len(sqs)):
            for s in (1, -1):
                r = padd({sqs[i][0]: sqs[i][1]}, {sqs[j][0]: s * sqs[j][1]})
                if pmul(r, r) == q:
                    return pabs(r)
    return None


def _isq(c):
    a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if a * a == c.numerator and b * b == c.denominator:
        return Fraction(a, b)
    return None


def powP(q, e):
    if not q:
        return {}
    if len(q) == 1:
        (m, c), = q.items()
        return monopow(m, c, e)
    t = term(q)
    return fixmono({t: e})


def monopow_nn(mono, c, e):
    r = numpow(c, e)
    d = {}
    for a, k in mono.items():
        if nonneg(a):
            d[a] = d.get(a, F0) + k * e
        elif _even(k) and isreal(a):
            for m, cc in pabs(atom(a)).items():
                for x, kk in m:
                    d[x] = d.get(x, F0) + kk * k * e
                r = pscale(r, 1)
        else:
            return None
    return pmul(r, fixmono(d))


def monopow(m, c, e):
    if e.denominator == 1:
        return pmul(const(c ** int(e)) if abs(e) < 4000 else const(1), fixmono({a: k * e for a, k in m}))
    # fractional power
    neg = c < 0
    d, rest = {}, {}
    for a, k in m:
        if a.op == "exp" and isreal(a):
            d[a] = k * e
        elif nonneg(a) and a.op != "num":
            d[a] = d.get(a, F0) + k * e
        elif a.op == "num":
            d[a] = d.get(a, F0) + k * e
        elif _even(k) and isreal(a) and a.op != "I":
            b = term(pabs(atom(a)))
            for mm, cc in poly(b).items():
                for x, kk in mm:
                    d[x] = d.get(x, F0) + kk * k * e
        else:
            rest[a] = k
    r = pmul(numpow(abs(c), e), fixmono(d))
    if not rest and not neg:
        return r
    q = pmul(const(-1 if neg else 1), fixmono(rest))
    if not rest:
        if e == Fraction(1, 2):
            return pmul(r, atom(IMAG))
        return pmul(r, {((mk("negpow", (), e), F1),): F1})
    t = term(q)
    if t.op == "P":
        return pmul(r, {((t, e),): F1})
    return pmul(r, {((t, e),): F1})


# ------------------------------------------------------------------ functions
def fatom(op, p, data=None):
    return atom(mk(op, (term(p),), data, term(p).axes))


def pexp(p):
    if not p:
        return const(1)

    def f(q):
        if not q:
            return const(1)
        # exp(k*log x) = x**k
        r = const(1)
        rest = {}
        for m, c in q.items():
            if len(m) == 1 and m[0][0].op == "log" and m[0][1] == 1:
                r = pmul(r, ppow(poly(m[0][0].args[0]), c))
            else:
                rest[m] = c
        if not rest:
            return r
        return pmul(r, fatom("exp", rest)) if r != const(1) else fatom("exp", rest)

    return lift(f, p)


def plog(p):
    def f(q):
        if not q:
            return pneg(atom(INF))
        if len(q) == 1:
            (m, c), = q.items()
            if c > 0 and all(positive(a) or a.op == "num" for a, _ in m):
                r = lognum(c)
                for a, k in m:
                    if a.op == "exp":
                        r = padd(r, pscale(poly(a.args[0]), k))
                    elif a.op == "num":
                        r = padd(r, pscale(lognum(a.data), k))
                    elif a.op == "max" and False:
                        pass
                    else:
                        r = padd(r, pscale(fatom("log", atom(a)), k))
                return r
            pos = {a: k for a, k in m if positive(a)}
            oth = {a: k for a, k in m if not positive(a)}
            if pos and c > 0:
                r = lognum(c)
                for a, k in pos.items():
                    r = padd(r, pscale(plog(atom(a)), k))
                return padd(r, plog(fixmono(dict(oth))))
            if len(oth) == 1 and not pos and c > 0:
                (a, k), = oth.items()
                if k != 1 and (nonneg(a)):
                    return padd(lognum(c), pscale(fatom("log", atom(a)), k))
            return fatom("log", q)
        c, mono, r = content(q)
        out = lognum(c)
        left = {}
        for a, k in mono.items():
            if positive(a):
                out = padd(out, pscale(plog(atom(a)), k))
            else:
                left[a] = k
        if left:
            r = pmul(r, fixmono(left))
        return padd(out, fatom("log", r))

    return lift(f, p)


def lognum(c):
    if c == 1:
        return {}
    r = {}
    for n, s in ((c.numerator, 1), (c.denominator, -1)):
        for p_ in (2, 3, 5, 7, 11, 13):
            j = 0
            while n % p_ == 0 and n > 1:
                n //= p_
                j += 1
            if j:
                r = padd(r, pscale(atom(mk("log", (num(p_),))), s * j))
        if n > 1:
            r = padd(r, pscale(atom(mk("log", (num(n),))), s))
    return r


def signlead(p):
    return lead(p)[1] < 0


def pabs(p):
    def f(q):
        if not q:
            return {}
        if len(q) == 1:
            (m, c), = q.items()
            r = const(abs(c))
            for a, k in m:
                if nonneg(a) or (_even(k) and isreal(a)):
                    r = pmul(r, fixmono({a: k}))
                elif a.op == "I":
                    pass
                elif a.op == "exp" and _pureimag(poly(a.args[0])):
                    pass
                else:
                    b = mk("abs", (a,), None, a.axes)
                    r = pmul(r, fixmono({b: k}))
            return r
        c, mono, r = content(q)
        if all(cc >= 0 and all(nonneg(a) or _even(e) for a, e in m) for m, cc in r.items()):
            ar = r
        else:
            if signlead(r):
                r = pneg(r)
            ar = fatom("abs", r)
        h = pabs(fixmono(dict(mono))) if mono else const(1)
        return pmul(pscale(h, c), ar)

    return lift(f, p)


def _pureimag(p):
    return all(any(a is IMAG for a, _ in m) for m in p)


def trig(op, p):
    def f(q):
        if not q:
            return {} if op in ("sin", "tan", "arctan", "arcsin", "sinh", "tanh") else const(1)
        sg = 1
        if len(q) == 1:
            (m, c), = q.items()
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                if c == 1 and op in ("sin", "cos", "tan") and a.op in ("arccos", "arcsin", "arctan"):
                    x = poly(a.args[0])
                    s1 = ppow(padd(const(1), pneg(pmul(x, x))), Fraction(1, 2))
                    if a.op == "arccos":
                        return {"cos": lambda: x, "sin": lambda: s1, "tan": lambda: pmul(s1, ppow(x, Fraction(-1)))}[op]()
                    if a.op == "arcsin":
                        return {"sin": lambda: x, "cos": lambda: s1, "tan": lambda: pmul(x, ppow(s1, Fraction(-1)))}[op]()
                    if op == "tan":
                        return x
                if a is PI and op in ("sin", "cos", "tan") and c.denominator in (1, 2, 3, 4, 6):
                    v = _trigpi(op, c)
                    if v is not None:
                        return v
        # sin(pi/2 - x), cos(pi/2 - x)
        if op in ("sin", "cos"):
            pm = ((PI, F1),)
            if pm in q and len(q) > 1:
                c = q[pm]
                k = math.floor(c * 2 + Fraction(0))
                if Fraction(k, 2) == c:
                    r = {m: v for m, v in q.items() if m != pm}
                    k %= 4
                    tab = {"sin": [("sin", 1), ("cos", 1), ("sin", -1), ("cos", -1)],
                           "cos": [("cos", 1), ("sin", -1), ("cos", -1), ("sin", 1)]}
                    o2, s2 = tab[op][k]
                    return pscale(trig(o2, r), s2)
        if signlead(q):
            q = pneg(q)
            if op in ("sin", "tan", "arctan", "arcsin", "sinh", "tanh"):
                sg = -1
        if op == "tan":
            return pscale(pmul(fatom("sin", q), ppow(fatom("cos", q), Fraction(-1))), sg)
        return pscale(fatom(op, q), sg)

    return lift(f, p)


def _trigpi(op, c):
    s = {F0: const(0), Fraction(1, 6): const(Fraction(1, 2)), Fraction(1, 4): pscale(numpow(Fraction(2), Fraction(1, 2)), Fraction(1, 2)),
         Fraction(1, 3): pscale(numpow(Fraction(3), Fraction(1, 2)), Fraction(1, 2)), Fraction(1, 2): const(1)}

    def sin(x):
        x = x % 2
        if x >= 1:
            return pneg(sin(x - 1))
        if x > Fraction(1, 2):
            return sin(1 - x)
        return s.get(x)

    if op == "sin":
        return sin(c)
    if op == "cos":
        return sin(c + Fraction(1, 2))
    a, b = sin(c), sin(c + Fraction(1, 2))
    if a is None or b is None or not b:
        return None
    return pmul(a, ppow(b, Fraction(-1)))


# ------------------------------------------------------------------ booleans
def ind(p):
    """indicator of p > 0"""
    def f(q):
        if not q:
            return {}
        c, mono, r = content(q)
        left = {}
        extra = const(1)
        for a, k in mono.items():
            if positive(a):
                continue
            if nonneg(a):
                extra = pmul(extra, padd(const(1), pneg(zero(atom(a)))))
                continue
            if _even(k) and isreal(a):
                extra = pmul(extra, padd(const(1), pneg(zero(atom(a)))))
                continue
            left[a] = k
        if left:
            left = {a: (F1 if k.denominator == 1 and k.numerator % 2 else k) for a, k in left.items()}
            r = pmul(r, fixmono(left))
        if len(r) == 1 and () in r:
            return extra if r[()] > 0 else {}
        if all(cc <= 0 and all(nonneg(a) or _even(e) for a, e in m) for m, cc in r.items()):
            return {}
        if all(cc >= 0 and all(nonneg(a) or _even(e) for a, e in m) for m, cc in r.items()) and any(
                all(positive(a) for a, e in m) for m, cc in r.items()):
            return extra
        if signlead(r):
            n = pneg(r)
            i = atom(mk("ind", (term(n),), None, term(n).axes))
            return pmul(extra, padd(const(1), pneg(i), pneg(zero(n))))
        return pmul(extra, atom(mk("ind", (term(r),), None, term(r).axes)))

    return lift(f, p)


def zero(p):
    """indicator of p == 0"""
    def f(q):
        if not q:
            return const(1)
        c, mono, r = content(q)
        out = const(1)
        for a, k in mono.items():
            if k > 0 and not positive(a):
                out = pmul(out, padd(const(1), pneg(atom(mk("zero", (a,), None, a.axes)))))
        if len(r) == 1 and () in r:
            return padd(const(1), pneg(out))
        if all(cc > 0 and all(positive(a) for a, e in m) for m, cc in r.items()):
            return padd(const(1), pneg(out))
        sgn = {cc > 0 for cc in r.values()}
        if len(sgn) == 1 and all(all(nonneg(a) or _even(e) for a, e in m) for m in r):
            # a sum of nonnegative terms vanishes iff each does
            z = const(1)
            if any(all(positive(a) for a, e in m) for m in r):
                z = {}
            else:
                for m in r:
                    nz = const(1)
                    for a, e in m:
                        if e > 0 and not positive(a):
                            nz = pmul(nz, padd(const(1), pneg(atom(mk("zero", (a,), None, a.axes)))))
                    z = pmul(z, padd(const(1), pneg(nz)))
            return padd(const(1), pneg(pmul(out, padd(const(1), pneg(z)))))
        if signlead(r):
            r = pneg(r)
        t = term(r)
        z = atom(mk("zero", (t,), None, t.axes))
        return padd(const(1), pneg(pmul(out, padd(const(1), pneg(z)))))

    return lift(f, p)


def boolpoly(t):
    o = t.op
    if t is TRUE:
        return const(1)
    if t is FALSE:
        return {}
    return poly(t)


# ------------------------------------------------------------------ main
_poly = {}
_DEPTH = [0]


def poly(t):
    r = _poly.get(t.id)
    if r is None:
        _DEPTH[0] += 1
        if _DEPTH[0] > 3000:
            _DEPTH[0] -= 1
            raise TooBig()
        try:
            r = _norm(t)
        finally:
            _DEPTH[0] -= 1
        if len(r) > LIMIT:
            raise TooBig()
        _poly[t.id] = r
    return r


def canon(t):
    """canonical Term with t's axes preserved"""
    if t.op in ("none", "str", "true", "false", "num"):
        return t
    r = term(poly(t))
    ax = canon_axes(t.axes)
    if r.axes != ax and ax:
        r = mk("bc", (r,), None, ax)
    return r


_axc = {}


def canon_axis(a):
    r = _axc.get(a)
    if r is None:
        r = a
        if a[0] == "filt":
            conj = []
            for m in a[1]:
                conj.append(term(poly(m)))
            r = ("filt", tuple(sorted(conj, key=lambda x: x.id)), canon_axis(a[2]))
        elif a[0] in ("r", "c"):
            r = (a[0], canon_axis(a[1]))
        elif a[0] == "n" and isinstance(a[1], Term):
            r = ("n", term(poly(a[1])))
        elif a[0] == "sl":
            r = ("sl", a[1], a[2], canon_axis(a[3]))
        elif a[0] == "ax" and len(a) > 2:
            r = tuple(canon_data(x) for x in a)
        _axc[a] = r
    return r


def canon_axes(axes):
    return tuple(canon_axis(a) for a in axes)


def canon_data(d):
    if isinstance(d, Term):
        if d.op in ("none", "str"):
            return d
        return canon(d)
    if isinstance(d, tuple):
        if d and d[0] in ("filt", "r", "c", "n", "sl"):
            try:
                return canon_axis(d)
            except Exception:
                pass
        return tuple(canon_data(x) for x in d)
    return d


def _norm(t):
    o = t.op
    if o == "num":
        return const(t.data)
    if o == "P":
        return dict(items(t))
    if t is TRUE:
        return const(1)
    if t is FALSE:
        return {}
    if o in ("ind", "zero"):
        return {((t, F1),): F1}
    a = t.args
    if o == "add":
        return padd(*[poly(x) for x in a])
    if o == "mul":
        r = poly(a[0])
        for x in a[1:]:
            r = pmul(r, poly(x))
        return r
    if o == "bc":
        return poly(a[0])
    if o == "pow":
        if a[1].op == "num":
            return ppow(poly(a[0]), a[1].data)
        b = poly(a[1])
        if len(b) == 1 and () in b:
            return ppow(poly(a[0]), b[()])

        def f(x, y):
            c0 = y.get((), F0)
            y = {m: c for m, c in y.items() if m != ()}
            r = ppow(x, c0) if c0 else const(1)
            if not y:
                return r
            _, lc = lead(y)
            y = pscale(y, 1 / lc)
            tx, ty = term(x), term(y)
            return pmul(r, fixmono({mk("pow", (tx, ty), None, tx.axes or ty.axes): lc}))

        return lift(f, poly(a[0]), b)
    if o == "exp":
        return pexp(poly(a[0]))
    if o == "log":
        return plog(poly(a[0]))
    if o == "log10":
        return pmul(plog(poly(a[0])), ppow(lognum(Fraction(10)), Fraction(-1)))
    if o in ("sin", "cos", "tan", "sinc", "arctan", "arcsin", "sinh", "cosh", "tanh"):
        return trig(o, poly(a[0]))
    if o == "arccos":
        def acos(q):
            if q == const(1):
                return const(0)
            if not q:
                return pscale(atom(PI), Fraction(1, 2))
            if q == const(-1):
                return atom(PI)
            return fatom("arccos", q)
        return lift(acos, poly(a[0]))
    if o == "abs":
        return pabs(poly(a[0]))
    if o == "ite":
        c = poly(a[0])
        x, y = poly(a[1]), poly(a[2])
        mm = ite_minmax(a[0], x, y)
        if mm is not None:
            return mm
        c = as_bool(c)
        return padd(pmul(c, x), pmul(padd(const(1), pneg(c)), y))
    if o == "lt":
        return ind(padd(poly(a[1]), pneg(poly(a[0]))))
    if o == "le":
        return padd(const(1), pneg(ind(padd(poly(a[0]), pneg(poly(a[1]))))))
    if o == "eq":
        if a[0].op in ("str", "none") or a[1].op in ("str", "none"):
            x, y = sorted((canon(a[0]), canon(a[1])), key=lambda z: z.id)
            return atom(mk("zero", (mk("streq", (x, y)),)))
        return zero(padd(poly(a[0]), pneg(poly(a[1]))))
    if o == "not":
        return padd(const(1), pneg(as_bool(poly(a[0]))))
    if o == "and":
        r = const(1)
        for x in a:
            r = pmul(r, as_bool(poly(x)))
        return r
    if o == "or":
        r = const(1)
        for x in a:
            r = pmul(r, padd(const(1), pneg(as_bool(poly(x)))))
        return padd(const(1), pneg(r))
    if o in ("max", "min"):
        return minmax(o, [poly(x) for x in a])
    if o in ("floor", "ceil", "round", "trunc"):
        return lift(lambda q: integral(o, q), poly(a[0]))
    if o == "nan_to_num":
        def g(q):
            if not q or (len(q) == 1 and () in q):
                return q
            if q == atom(NAN):
                return {}
            if all(x is PI or (x.op == "sym" and x.data[1] != "str" and (e > 0 and e.denominator == 1 or x.data[1] in ("pos", "wave", "posint", "incr", "unit1")))
                   for m in q for x, e in m):
                return q
            return fatom("nan_to_num", q)
        return lift(g, poly(a[0]))
    if o in ("real", "conj", "imag"):
        return lift(lambda q: complexop(o, q), poly(a[0]))
    if o == "bigsum":
        return bigsum(*a)
    if o == "trapz":
        return trapz(*a)
    if o == "sum":
        return pullout(t, a[0], "sum", additive_count=True)
    if o in ("amax", "amin"):
        return aminmax(o, a[0])
    if o == "percentile":
        return percentile(t)
    if o == "idx":
        k = canon(a[1])
        leaf = a[0]
        cl = canon(leaf)
        return atom(mk("idx", (cl, k), canon_axis(t.data), canon_axes(t.axes)))
    if o == "filt":
        return atom(mk("filt", (canon(a[0]),), None, canon_axes(t.axes)))
    if o == "dim":
        ax = canon_axis(t.data)
        return atom(mk("dim", (), ax))
    if o == "map":
        n, body, bv = a
        cb, nb = rebind(body, bv)
        return atom(mk("map", (canon(n), canon(cb), nb), None, canon_axes(t.axes)))
    if o == "search":
        n, c, body, bv = a
        d = max(binder_depth(c), binder_depth(body))
        nb = mk("bv", (), ("c", d, bv.data[-1]))
        return atom(mk("search", (canon(n), canon(B.subst(c, {bv: nb})), canon(B.subst(body, {bv: nb})), nb), None, canon_axes(t.axes)))
    if o == "bigprod":
        n, body, bv = a
        cb, nb = rebind(body, bv)
        return atom(mk("bigprod", (canon(n), canon(cb), nb), None, canon_axes(t.axes)))
    if o in ("linspace", "arange") and not a[0].axes and not a[1].axes:
        # evenly spaced: start + step * (0, 1, 2, ...)
        n = canon(a[2])
        i = atom(mk("arange", (ZERO, ONE, n), None, canon_axes(t.axes)))
        if o == "arange":
            return padd(poly(a[0]), pmul(poly(a[1]), i))
        if n is ONE:
            return poly(a[0])
        return padd(poly(a[0]), pmul(pmul(padd(poly(a[1]), pneg(poly(a[0]))), ppow(padd(poly(n), const(-1)), Fraction(-1))), i))
    if o == "mod":
        return lift(lambda x, y: atom(mk("mod", (term(x), term(y)), None, t.axes)), poly(a[0]), poly(a[1]))
    if o == "jn":
        def f(q):
            if not q:
                return const(1 if t.data in (0, ("0",)) else 0)
            s = 1
            if signlead(q):
                q = pneg(q)
                s = -1 if (t.data if isinstance(t.data, int) else 0) % 2 else 1
            return pscale(fatom("jn", q, t.data), s)
        return lift(f, poly(a[0]))
    if o == "sign":
        return lift(lambda q: padd(ind(q), pneg(ind(pneg(q)))), poly(a[0]))
    if o in ("newax", "ren") and len(a) == 1:
        # a relabelling of axes acts on each factor
        q = poly(a[0])
        ax0, ax1 = canon_axes(a[0].axes), canon_axes(t.axes)
        dt = canon_data(t.data)
        if (len(q) != 1 or () in q or any(c != 1 or len(m) != 1 or m[0][1] != 1 for m, c in q.items())) and all(
                x.axes in ((), ax0) for m in q for x, e in m):
            out = {}
            for m, c in q.items():
                d = {}
                for x, e in m:
                    y = mk(o, (x,), dt, ax1) if x.axes else x
                    d[y] = d.get(y, F0) + e
                out = padd(out, pscale(fixmono(d), c))
            return out
        return atom(mk(o, (canon(a[0]),), dt, ax1))
    if not a:
        if t.axes or t.data is not None:
            return {((mk(o, (), canon_data(t.data), canon_axes(t.axes)), F1),): F1}
        return {((t, F1),): F1}
    return {((mk(o, tuple(canon(x) for x in a), canon_data(t.data), canon_axes(t.axes)), F1),): F1}


def as_bool(p):
    """arbitrary value used as a truth value"""
    if all(all(x.op in ("ind", "zero") for x, _ in m) for m in p):
        return p
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1 and len(m) == 1 and m[0][0].op == "sym" and m[0][0].data[1] == "bool":
            return {((mk("ind", (m[0][0],)), F1),): F1}
    if all(all(x.op in ("ind", "zero") or (x.op == "sym" and x.data[1] == "bool") or x.op in ("isfile", "isnan", "isfinite") for x, _ in m) for m in p):
        return p
    return padd(const(1), pneg(zero(p)))


def ite_minmax(c, x, y):
    """ite(a<b, b, a) = max(a, b) etc."""
    if c.op not in ("lt", "le"):
        return None
    l, r = poly(c.args[0]), poly(c.args[1])
    if x == r and y == l:
        return minmax("max", [l, r])
    if x == l and y == r:
        return minmax("min", [l, r])
    return None


def minmax(op, ps):
    # max(a, b, ...) ; flatten nested, pull out common nonnegative factors
    def f(*qs):
        flat = []
        for q in qs:
            if len(q) == 1:
                (m, c), = q.items()
                if c == 1 and len(m) == 1 and m[0][0].op == op and m[0][1] == 1:
                    flat += [poly(z) for z in m[0][0].args]
                    continue
            if q not in flat:
                flat.append(q)
        cs = [q for q in flat if not q or (len(q) == 1 and () in q)]
        if len(cs) > 1:
            vals = [q.get((), F0) for q in cs]
            v = max(vals) if op == "max" else min(vals)
            flat = [q for q in flat if q not in cs] + [const(v)]
        # domain pruning: max(x, 0) for nonneg x
        if len(flat) > 1:
            keep = []
            for i, q in enumerate(flat):
                dominated = False
                for j, r in enumerate(flat):
                    if i == j:
                        continue
                    d = padd(r, pneg(q)) if op == "max" else padd(q, pneg(r))
                    if d and all(cc >= 0 and all(nonneg(a) or _even(e) for a, e in m) for m, cc in d.items()):
                        dominated = True
                        break
                if not dominated:
                    keep.append(q)
            flat = keep or flat
        if len(flat) == 1:
            return flat[0]
        if op == "min" and len(flat) == 2:
            for i in (0, 1):
                k, q = flat[i], flat[1 - i]
                if (not k or (len(k) == 1 and () in k)) and len(q) == 1:
                    (m, cc), = q.items()
                    if cc == 1 and len(m) == 1 and m[0][0].op == "max" and m[0][1] == 1:
                        qs2 = [poly(z) for z in m[0][0].args]
                        lo = [z for z in qs2 if not z or (len(z) == 1 and () in z)]
                        if lo and lo[0].get((), F0) <= k.get((), F0):
                            rest = [z for z in qs2 if z is not lo[0]]
                            return minmax("max", [lo[0], minmax("min", [k, minmax("max", rest) if len(rest) > 1 else rest[0]])])
        # common factor
        common = None
        for q in flat:
            if not q:
                continue
            for m in q:
                d = {a: e for a, e in m if nonneg(a) and a.op not in ("exp", "num", "ind", "zero")}
                if common is None:
                    common = dict(d)
                else:
                    common = {a: min(e, d[a]) for a, e in common.items() if a in d and (e > 0) == (d[a] > 0) or False}
        common = {a: e for a, e in (common or {}).items() if e}
        h = const(1)
        if common:
            inv = tuple(sorted(((a, -e) for a, e in common.items()), key=_mk))
            flat = [pmul(q, {inv: F1}) for q in flat]
            h = fixmono(dict(common))
        ts = sorted({term(q) for q in flat}, key=lambda z: z.id)
        if len(ts) == 1:
            return pmul(h, poly(ts[0]))
        ax = ()
        for z in ts:
            if len(z.axes) > len(ax):
                ax = z.axes
        # scale by the leading coefficient of the first
        return pmul(h, atom(mk(op, tuple(ts), None, ax)))

    return lift(f, *ps)


def integral(op, q):
    if not q:
        return q
    whole = all(c.denominator == 1 and all(_intatom(a) and e.denominator == 1 and e > 0 for a, e in m) for m, c in q.items())
    if whole:
        return q
    # pull out integer constants/atoms
    out, rest = {}, {}
    for m, c in q.items():
        if m == () and op in ("floor", "ceil"):
            k = math.floor(c)
            if k:
                out[()] = Fraction(k)
            if c - k:
                rest[()] = c - k
        elif op in ("floor", "ceil") and c.denominator == 1 and all(_intatom(a) and e.denominator == 1 and e > 0 for a, e in m):
            out[m] = c
        else:
            rest[m] = c
    if not rest:
        return out
    if len(rest) == 1 and () in rest and op in ("floor", "ceil"):
        return padd(out, const(math.floor(rest[()]) if op == "floor" else math.ceil(rest[()])))
    if len(rest) == 1 and () in rest:
        return padd(out, const(B.fn(op, num(rest[()])).data))
    return padd(out, fatom(op, rest))


def _intatom(a):
    return a.op in ("floor", "ceil", "round", "trunc", "dim", "count") or (a.op == "sym" and a.data[1] in ("int", "posint", "nonnegint")) or (
        a.op == "bv" and a.data[-1] == "int") or a.op in ("ind", "zero")


def complexop(o, q):
    r = {}
    allreal = True
    for m, c in q.items():
        for a, e in m:
            if a.op == "I" or not isreal(a):
                allreal = False
    if allreal:
        return {} if o == "imag" else q
    if o == "conj":
        for m, c in q.items():
            x = const(c)
            for a, e in m:
                if a.op == "I":
                    x = pmul(x, pscale(fixmono({a: e}), -1))
                elif isreal(a):
                    x = pmul(x, fixmono({a: e}))
                elif a.op == "exp":
                    x = pmul(x, pexp(complexop("conj", poly(a.args[0]))))
                elif a.op == "bigsum" and e == 1:
                    n, body, bv = a.args
                    x = pmul(x, bigsum(n, term(complexop("conj", poly(body))), bv))
                else:
                    x = pmul(x, fixmono({mk("conj", (a,), None, a.axes): e}))
            r = padd(r, x)
        return r
    # real scalar factors come out
    for m, c in q.items():
        rl = {a: e for a, e in m if a.op != "I" and isreal(a)}
        im = {a: e for a, e in m if not (a.op != "I" and isreal(a))}
        if not im:
            if o == "real":
                r = padd(r, {m: c})
            continue
        r = padd(r, pmul(pscale(fixmono(dict(rl)), c), _reim(o, im)))
    return r


def _reim(o, im):
    t = term(fixmono(dict(im)))
    if t is IMAG:
        return {} if o == "real" else const(1)
    if t.op == "exp":
        p = poly(t.args[0])
        if _pureimag(p):
            ang = pmul(p, pscale(atom(IMAG), -1))
            return trig("cos" if o == "real" else "sin", ang)
    return atom(mk(o, (t,), None, t.axes))


_bd = {}


def binder_depth(t):
    r = _bd.get(t.id)
    if r is None:
        r = 0
        for a in t.args:
            r = max(r, binder_depth(a))
        if t.op in ("bigsum", "map", "search", "bigprod"):
            r += 1
        _bd[t.id] = r
    return r


def rebind(body, bv):
    nb = mk("bv", (), ("c", binder_depth(body), bv.data[-1]))
    return B.subst(body, {bv: nb}), nb


_dep = {}


def depends(t, bv):
    k = (t.id, bv.id)
    r = _dep.get(k)
    if r is None:
        r = t is bv or any(depends(a, bv) for a in t.args)
        if not r and t.data is not None and not isinstance(t.data, (str, Fraction, int)):
            r = _datadep(t.data, bv)
        if not r:
            for ax in t.axes:
                if len(ax) > 2 and _datadep(ax, bv):
                    r = True
        _dep[k] = r
    return r


def _datadep(d, bv):
    if isinstance(d, Term):
        return depends(d, bv)
    if isinstance(d, tuple):
        return any(_datadep(x, bv) for x in d)
    return False


_SUMBV = [0]


def bigsum(n, body, bv):
    np_ = poly(n)
    off = np_.get((), F0)
    if len(np_) > 1 and off < 0 and off.denominator == 1 and off >= -6:
        k = int(-off)
        N = term(padd(np_, const(k)))
        f = B.subst(body, {bv: B.add(bv, num(-k))})
        r = bigsum(N, f, bv)
        for j in range(k):
            r = padd(r, pneg(poly(B.subst(f, {bv: num(j)}))))
        return r
    if len(np_) <= 1 and (not np_ or () in np_):
        c = int(off)
        if c <= 0:
            return {}
        if c <= 12:
            return padd(*[poly(B.subst(body, {bv: num(j)})) for j in range(c)])
    # a private binder while normalising
    _SUMBV[0] += 1
    tmp = mk("bv", (), ("t", _SUMBV[0], bv.data[-1]))
    p = poly(B.subst(body, {bv: tmp}))
    out = {}
    N = term(np_)
    for m, c in p.items():
        ind_, dep = {}, {}
        for a, e in m:
            (dep if depends(a, tmp) else ind_)[a] = e
        # exponentials: split the argument
        for a in list(dep):
            if a.op == "exp":
                pa = poly(a.args[0])
                pi_ = {mm: cc for mm, cc in pa.items() if not any(depends(x, tmp) for x, _ in mm)}
                if pi_:
                    del dep[a]
                    pd = padd(pa, pneg(pi_))
                    for mm, cc in pexp(pi_).items():
                        for x, e in mm:
                            ind_[x] = ind_.get(x, F0) + e
                    for mm, cc in pexp(pd).items():
                        for x, e in mm:
                            dep[x] = dep.get(x, F0) + e
        h = pscale(fixmono(ind_), c)
        if not dep:
            out = padd(out, pmul(h, np_))
            continue
        bt = term(fixmono(dep))
        if bt is tmp:
            # sum of i for i<n
            out = padd(out, pmul(h, pscale(pmul(np_, padd(np_, const(-1))), Fraction(1, 2))))
            continue
        d = binder_depth(bt)
        nb = mk("bv", (), ("c", d, bv.data[-1]))
        cb = subst_canon(bt, tmp, nb)
        cb = canon(cb)
        out = padd(out, pmul(h, atom(mk("bigsum", (N, cb, nb), None, cb.axes))))
    return out


def subst_canon(t, a, b):
    return B.subst(decanon(t), {a: b})


_dec = {}


def decanon(t):
    """ordinary term of a canonical one (P nodes expanded)"""
    r = _dec.get(t.id)
    if r is not None:
        return r
    if t.op == "P":
        r = ZERO
        for m, c in items(t):
            x = num(c)
            for a, e in m:
                x = B.mul(x, B.pow_(decanon(a), num(e)))
            r = B.add(r, x)
    elif t.op == "ind":
        r = B.cmp("<", ZERO, decanon(t.args[0])) if not (t.args[0].op == "sym" and t.args[0].data[1] == "bool") else t.args[0]
    elif t.op == "zero":
        if t.args[0].op == "streq":
            r = B.cmp("==", *t.args[0].args)
        else:
            r = B.cmp("==", ZERO, decanon(t.args[0]))
    elif not t.args:
        r = t
    elif t.op == "filt" and len(t.args) == 1:
        ax = next(a for a in t.axes if a[0] == "filt")
        leaf = decanon(t.args[0])
        r = mk("filt", (leaf,) + tuple(decanon(c) for c in ax[1]), ax, t.axes)
    elif t.op == "negpow":
        r = B.pow_(num(-1), num(t.data))
    else:
        r = mk(t.op, tuple(decanon(x) for x in t.args), t.data, t.axes)
    _dec[t.id] = r
    return r


def _scalar(a):
    return not a.axes


def trapz(y, x):
    px, py = poly(x), poly(y)
    # x: drop additive scalars, pull scale
    px = {m: c for m, c in px.items() if any(a.axes for a, _ in m)}
    if not px:
        return {}
    hx = const(1)
    if True:
        c, mono, q = content(px)
        mono = {a: e for a, e in mono.items() if _scalar(a)}
        # remove scalar common factor
        if mono:
            inv = tuple(sorted(((a, -e) for a, e in mono.items()), key=_mk))
            px = pmul(px, {inv: F1})
            hx = fixmono(dict(mono))
        _, lc = lead(px)
        px = pscale(px, 1 / lc)
        hx = pscale(hx, lc)
    tx = term(px)
    if tx.op == "linspace":
        a, b, n = tx.args
        if a is not ZERO or b is not ONE:
            d = poly(B.sub(b, a))
            hx = pmul(hx, d)
            tx = canon(B.linspace(ZERO, ONE, decanon(n)))
            if tx.axes != x.axes and x.axes:
                tx = mk("linspace", tx.args, None, canon_axes(x.axes))
    out = {}
    for m, c in py.items():
        s = {a: e for a, e in m if _scalar(a)}
        v = {a: e for a, e in m if not _scalar(a)}
        # scalar parts of exponentials
        for a in list(v):
            if a.op == "exp":
                pa = poly(a.args[0])
                ps = {mm: cc for mm, cc in pa.items() if all(_scalar(z) for z, _ in mm)}
                if ps:
                    del v[a]
                    for mm, _ in pexp(ps).items():
                        for z, e in mm:
                            s[z] = s.get(z, F0) + e
                    for mm, _ in pexp(padd(pa, pneg(ps))).items():
                        for z, e in mm:
                            v[z] = v.get(z, F0) + e
        h = pscale(fixmono(s), c)
        if not v:
            body = ONE
        else:
            body = term(fixmono(v))
        out = padd(out, pmul(pmul(h, hx), atom(mk("trapz", (body, tx)))))
    return out


def pullout(t, y, op, additive_count=False):
    """linear reduction over all elements of a multi-axis array"""
    py = poly(y)
    axes = canon_axes(y.axes)
    out = {}
    for m, c in py.items():
        s = {a: e for a, e in m if _scalar(a)}
        v = {a: e for a, e in m if not _scalar(a)}
        h = pscale(fixmono(s), c)
        body = term(fixmono(v)) if v else ONE
        if body.axes != axes:
            body = mk("bc", (body,), None, axes)
        if body.op == "bc" and body.args[0] is ONE:
            cnt = const(1)
            for ax in y.axes:
                from .terms import axis_dim
                cnt = pmul(cnt, poly(axis_dim(ax)))
            out = padd(out, pmul(h, cnt))
            continue
        out = padd(out, pmul(h, atom(mk(op, (body,)))))
    return out


def split_affine(p):
    """p = s*q + d with s scalar monomial factor > 0 (or sign), d scalar additive"""
    d = {m: c for m, c in p.items() if all(_scalar(a) for a, _ in m)}
    q = padd(p, pneg(d))
    if not q:
        return None
    c, mono, r = content(q)
    mono = {a: e for a, e in mono.items() if _scalar(a)}
    s = const(1)
    sign_known = True
    for a, e in mono.items():
        if not (nonneg(a) or _even(e)):
            sign_known = False
    if mono and sign_known:
        inv = tuple(sorted(((a, -e) for a, e in mono.items()), key=_mk))
        q = pmul(q, {inv: F1})
        s = fixmono(dict(mono))
    _, lc = lead(q)
    lc = abs(lc)
    q = pscale(q, 1 / lc)
    s = pscale(s, lc)
    return s, q, d


def aminmax(op, y):
    p = poly(y)

    def f(q0):
        sp = split_affine(q0)
        if sp is None:
            return q0
        s, q, d = sp
        if signlead(q):
            q2 = pneg(q)
            r = pneg(_am("amin" if op == "amax" else "amax", q2, y.axes))
        else:
            r = _am(op, q, y.axes)
        return padd(pmul(s, r), d)

    return f(p)


def _am(op, q, axes):
    t = term(q)
    if t.op == "linspace":
        return minmax("max" if op == "amax" else "min", [poly(t.args[0]), poly(t.args[1])])
    if t.op == "arange" and t.args[0] is ZERO and t.args[1] is ONE:
        return padd(poly(t.args[2]), const(-1)) if op == "amax" else {}
    if t.op == "sym" and len(t.axes) == 1 and t.data[1] in ("wave", "incr", "incr0"):
        # sorted data: extremum is an end element
        return poly(B.idx(t, num(-1 if op == "amax" else 0), t.axes[0]))
    if t.op == "filt" and t.args[0].op == "arr" and all(x.op == "num" for x in t.args[0].args):
        v = [x.data for x in t.args[0].args]
        if all(x < y for x, y in zip(v, v[1:])):
            return poly(B.idx(t, num(-1 if op == "amax" else 0), t.axes[0]))
    if t.op == "rev":
        t = t.args[0]
    return atom(mk(op, (t,)))


def percentile(t):
    y = t.args[0]
    p = poly(y)
    sp = split_affine(p)
    q_ = canon(t.args[1]) if len(t.args) > 1 else None
    if sp is None:
        return p
    s, q, d = sp
    if signlead(q):
        # percentile(-x, q) = -percentile(x, 100-q)
        return padd(pmul(s, atom(mk("percentile", (term(q),) + tuple(canon(z) for z in t.args[1:]), t.data, t.axes))), d)
    return padd(pmul(s, atom(mk("percentile", (term(q),) + tuple(canon(z) for z in t.args[1:]), t.data, t.axes))), d)


# ------------------------------------------------------------------ equality
def near(c, scale):
    return abs(c) <= TOL * scale


def iszero(p, depth=0):
    """is the poly identically zero (rational identity)?"""
    if not p:
        return True
    # collect poly atoms with non-positive-integer exponents
    mins = {}
    for m in p:
        for a, e in m:
            if a.op == "P" or e < 0:
                mins[a] = min(mins.get(a, F0), e)
    fac = {a: -e for a, e in mins.items() if e < 0 and a.op not in ("exp", "I", "num", "ind", "zero")}
    if fac and depth < 4:
        # multiply so that every exponent is >= 0
        q = {}
        for m, c in p.items():
            d = dict(m)
            for a, e in fac.items():
                d[a] = d.get(a, F0) + e
            q = padd(q, pscale(fixmono(d), c))
        return iszero(q, depth + 1)
    return False


def equal(a, b):
    """True: identical for every value of the symbols.  None: not shown."""
    return True if _equal(a, b, {}, 0) else None


def _equal(a, b, memo, depth):
    if a is b:
        return not a.unk
    if a.unk or b.unk:
        return False
    k = (a.id, b.id) if a.id < b.id else (b.id, a.id)
    if k in memo:
        return memo[k]
    memo[k] = False
    r = _eqnf(a, b)
    if not r and depth < 12 and a.op == b.op and len(a.args) == len(b.args) and a.args and a.data == b.data and a.op not in ("P",):
        # congruence (for graphs too large for one normal form)
        if a.op in ("bigsum", "bigprod", "map", "search"):
            nb = B.fresh_bv()
            A, Bb = (tuple(B.subst(x, {t.args[-1]: nb}) for x in t.args[:-1]) for t in (a, b))
        else:
            A, Bb = a.args, b.args
        if a.op in ("add", "mul", "and", "or", "max", "min") and len(A) == 2:
            r = any(all(_equal(x, y, memo, depth + 1) for x, y in zip(A, q)) for q in (Bb, Bb[::-1]))
        else:
            r = all(_equal(x, y, memo, depth + 1) for x, y in zip(A, Bb))
    memo[k] = r
    return r


def _eqnf(a, b):
    try:
        pa, pb = poly(a), poly(b)
        d = padd(pa, pneg(pb))
        if not d:
            return True
        scale = {}
        for p in (pa, pb):
            for m, c in p.items():
                scale[m] = max(scale.get(m, F0), abs(c))
        d = {m: c for m, c in d.items() if not near(c, scale.get(m, F1))}
        if not d or iszero(d):
            return True
    except (TooBig, RecursionError, ZeroDivisionError, OverflowError):
        pass
    return False
