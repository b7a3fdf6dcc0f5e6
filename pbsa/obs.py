"""Obligations: what a property demands of the analysed source, and how each
demand is decided.

An obligation compares the value graph of a construct of /repo (a function
result, a result field, an effect summary) with the graph of its specification
or with an algebraic transform of itself.  Verdicts:

  proved     the normal forms coincide (or the structural fact holds)
  violated   they do not, and an interpretation of the leaves separates them
             (for structural facts: the offending site is exhibited)
  undecided  neither; never reported as a violation
"""
import ast
import json
import os
import signal
import time
import traceback

from . import build as B
from . import nf, rint
from .api import RANGES, TYPICAL
from .harness import REPO, Session
from .interp import (
    AnalysisError, Anchor, BuiltinV, ClassV, CondV, DictV, FuncV, ListV, ModV, ObjV, Ref, SymFunc, TupleV, UNBOUND,
)
from .terms import FALSE, NONE, ONE, TRUE, Term, ZERO, const_int, mk, num, show, subterms, sym, symbols

PROVED, VIOLATED, UNDECIDED, KNOWN = "proved", "violated", "undecided", "known-finding"


class Timeout(Exception):
    pass


def _alarm(*_):
    raise Timeout()


class Out:
    """what one abstract call did: result, effects, conditions, final heap"""

    def __init__(self, S, fn, v, st, effects, raised):
        self.S, self.fn, self.v, self.st, self.effects = S, fn, v, st, effects
        self.raised = raised

    # paths such as "", "[0]", ".tgt_n", "[1].f"
    def val(self, path=""):
        v = self.v
        i = 0
        while i < len(path):
            if path[i] == "[":
                j = path.index("]", i)
                k = int(path[i + 1:j])
                v = self._item(v, k)
                i = j + 1
            elif path[i] == ".":
                j = i + 1
                while j < len(path) and path[j] not in ".[":
                    j += 1
                v = self.S.I.getattr(v, path[i + 1:j], self.st)
                i = j
            else:
                raise ValueError(path)
        return v

    def _item(self, v, k):
        its = self.S.I.items(self.st, v)
        if its is not None:
            if k >= len(its):
                return mk("missing", (), "no element %d" % k)
            return its[k]
        if isinstance(v, CondV):
            a, b = self._item(v.a, k), self._item(v.b, k)
            return B.ite(v.c, self.t_(a), self.t_(b))
        t = self.S.I.term(self.st, v)
        if t.axes:
            return B.idx(t, num(k), t.axes[0])
        return mk("missing", (), "no element %d" % k)

    def t_(self, v):
        return self.S.I.term(self.st, v)

    def term(self, path=""):
        return self.t_(self.val(path))

    def has(self, path, name):
        v = self.val(path)
        if isinstance(v, ObjV):
            d = self.st.heap.get(v.loc)
            return isinstance(d, dict) and name in d
        return False

    def fields(self, path=""):
        v = self.val(path)
        d = self.st.heap.get(v.loc) if isinstance(v, ObjV) else None
        return dict(d) if isinstance(d, dict) else {}

    @property
    def alive(self):
        """condition under which the call returns normally"""
        return B.and_(*[B.not_(c) for c in self.raised]) if self.raised else TRUE


class Check:
    def __init__(self, prop, tier="quick", seed=1, known=None):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.obl = []
        self.visited = set()
        self.count = 28 if tier == "quick" else 160
        self.limit = 40 if tier == "quick" else 240
        self.budget = 330 if tier == "quick" else 3000
        self.spent = 0.0
        self.known = known or {}
        self.sites = 0
        self.notes = []
        self.worlds = []
        self.label = ""
        self.anchors = []

    # -- sessions and calls -------------------------------------------------
    def session(self, atm=True):
        S = Session()
        if atm:
            S.summarise_atm()
        self.worlds.append(S)
        return S

    def call(self, S, fn, *args, base=None, **kw):
        """abstractly run fn from S's current state (or base), which is left untouched"""
        f = S.look(fn) if isinstance(fn, str) else fn
        st0 = S.st
        S.st = (base or st0).copy()
        e0 = len(S.I.effects)
        r0 = list(S.I.raised)
        S.I.raised = []
        rng0 = S.I.rng
        S.I.rng = 0
        pc0 = list(S.I.pc)
        try:
            v = S.I.call(f, list(args), kw, S.st)
            o = Out(S, fn, v, S.st, S.I.effects[e0:], list(S.I.raised))
            o.final = S.st
            return o
        finally:
            S.I.rng = rng0
            S.st = st0
            S.I.raised = r0
            S.I.pc[:] = pc0
            for q in S.I.visited_funcs:
                self.visited.add(q)

    # -- deciding -----------------------------------------------------------
    def add(self, name, verdict, where, rule, detail=None, kind="value"):
        self.obl.append(dict(name=name, verdict=verdict, where=where, rule=rule, detail=detail, kind=kind))
        return verdict

    def eq(self, name, code, spec, where, rule, assume=None, ranges=None, alts=(), count=None, rel="eq", lemma=()):
        """the graph `code` equals `spec` for every value of the leaves (under `assume`)"""
        why = None
        ranges = ranges or RANGES
        self.sites += 1
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        t0 = time.time()
        rint.CHEAP[0] = 6.0 if self.spent < self.budget / 3 else 1.5
        try:
            if code is spec and not code.unk:
                return self.add(name, PROVED, where, rule)
            if rel == "eq" and nf.equal(code, spec) is True:
                return self.add(name, PROVED, where, rule)
            for text, x, y in lemma:
                # the construct has a documented form for which the fact is known
                if nf.equal(x, y) is True:
                    return self.add(name, PROVED, where, rule + "; " + text)
            for tag, alt in alts:
                if nf.equal(code, alt) is True or (
                        not code.unk and rint.differ(code, alt, count or self.count, ranges, assume, self.seed) is None):
                    return self.known_or_violated(name, tag, where, rule, {"form": "the source has the form recorded as finding '%s'" % tag})
            if code.unk or spec.unk:
                why = "source not fully interpretable: " + "; ".join(
                    str(x.data[0]) for t in (code, spec) for x in subterms(t) if x.op == "unknown")[:300]
                return self.add(name, UNDECIDED, where, rule, why)
            if code.op == "missing" and spec.op != "missing":
                return self.add(name, VIOLATED, where, rule, {"reason": code.data})
            if self.spent > self.budget:
                raise Timeout()
            if rel == "eq":
                parts = coincidences(code, spec)
                if parts and all(nf.equal(x, y) is True for _, x, y in parts):
                    return self.add(name, PROVED, where, rule + "; by cases on equal scalars")
                for text, x, y in parts:
                    if text and assume is None and nf.equal(x, y) is not True:
                        d = rint.differ(x, y, 8, ranges, None, self.seed)
                        if d is not None:
                            return self.add(name, VIOLATED, where, rule, {
                                "reason": "normal forms differ and an interpretation of the leaves separates them", "where": text,
                                "separating": rint.describe(d[0], d[1], [x, y]), "code": show(code)[:1500], "specification": show(spec)[:1500]})
            d = rint.differ(code, spec, count or self.count, ranges, assume, self.seed, rel=rel)
            if d is not None:
                ev, at = d
                return self.add(name, VIOLATED, where, rule, {
                    "reason": "normal forms differ and an interpretation of the leaves separates them",
                    "separating": rint.describe(ev, at, [code, spec]), "code": show(code)[:1500], "specification": show(spec)[:1500]})
            why = "normal forms differ, not separated (%d/%d interpretations usable; %s)" % (
                rint.differ.last[1], rint.differ.last[0], str(rint.differ.why)[:100])
            near = {k: v for k, v in TYPICAL.items() if ranges.get(k) is RANGES.get(k)}
            if any(x.op == "sym" and x.data[0] in near for t in (code, spec) for x in subterms(t)):
                d = rint.differ(code, spec, max(8, (count or self.count) // 2), {**ranges, **near}, assume, self.seed + 7, rel=rel)
                if d is not None:
                    ev, at = d
                    return self.add(name, VIOLATED, where, rule, {
                        "reason": "normal forms differ and an interpretation of the leaves (of the magnitudes met in practice) separates them",
                        "separating": rint.describe(ev, at, [code, spec]), "code": show(code)[:1500], "specification": show(spec)[:1500]})
        except Timeout:
            why = "time limit"
        except (RecursionError, MemoryError, nf.TooBig) as e:
            why = "analysis limit: " + type(e).__name__
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
            self.spent += time.time() - t0
        return self.add(name, UNDECIDED, where, rule, why)

    def known_or_violated(self, name, tag, where, rule, detail):
        key = (self.prop, tag)
        if key in self.known:
            return self.add(name, KNOWN, where, rule, self.known[key])
        return self.add(name, VIOLATED, where, rule, detail)

    def le(self, name, code, bound, where, rule, assume=None, ranges=None, count=None, lemma=()):
        return self.eq(name, code, bound, where, rule, assume, ranges, count=count, rel="le", lemma=lemma)

    def fact(self, name, ok, where, rule, detail=None):
        """structural fact: ok True/False/None(undecided)"""
        self.sites += 1
        return self.add(name, PROVED if ok else UNDECIDED if ok is None else VIOLATED, where, rule, detail, "structure")

    def never(self, name, cond, where, rule, assume=None, ranges=None, detail=None):
        """the condition `cond` holds for no value of the leaves"""
        self.sites += 1
        ranges = ranges or RANGES
        if cond is FALSE:
            return self.add(name, PROVED, where, rule, kind="structure")
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, self.limit)
        try:
            for part in (cond.args + (cond,) if cond.op == "and" else (cond,)):
                # one conjunct that is false by normal form suffices
                try:
                    if not part.unk and nf.equal(B.ite(part, ONE, ZERO), ZERO) is True:
                        return self.add(name, PROVED, where, rule, kind="structure")
                except (nf.TooBig, RecursionError):
                    pass
            if not cond.unk:
                w = satisfiable(cond, self.count, ranges, assume, self.seed)
                if w is not None:
                    return self.add(name, VIOLATED, where, rule, {"reason": detail, "condition": show(cond)[:800], "leaves": w}, "structure")
        except Timeout:
            pass
        finally:
            signal.setitimer(signal.ITIMER_REAL, 0)
        return self.add(name, UNDECIDED, where, rule, "condition %s not shown feasible" % show(cond)[:200], "structure")

    def group(self, label, f, *a):
        """one family of obligations; analysis limits inside are undecided, a
        missing public anchor is an error of the analysis"""
        try:
            return f(*a)
        except Anchor:
            raise
        except (AnalysisError, RecursionError, AttributeError, TypeError, ValueError, KeyError, IndexError, AssertionError, ZeroDivisionError,
                NotImplementedError, nf.TooBig) as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            self.add(label, UNDECIDED, label, "analysis", "analysis limit: %s: %s (%s:%d)" % (type(e).__name__, str(e)[:200], os.path.basename(tb.filename), tb.lineno))
            if os.environ.get("PBSA_DEBUG"):
                traceback.print_exc()


def coincidences(a, b, depth=0, text=""):
    """the pair specialised to every pattern of equal and different scalar
    leaves its decisions test"""
    atom = None
    if depth < 5:
        for t in (a, b):
            for x in subterms(t):
                if x.op == "eq" and len(x.args) == 2 and all(y.op == "sym" and not y.axes and y.data[1] not in ("str", "bool") for y in x.args):
                    atom = atom if atom is not None and atom.id < x.id else x
    if atom is None:
        return [(text, a, b)] if depth else []
    x, y = atom.args
    t = [B.subst(B.subst(z, {atom: TRUE}), {y: x}) for z in (a, b)]
    f = [B.subst(z, {atom: FALSE}) for z in (a, b)]
    return coincidences(*t, depth + 1, text + "%s = %s; " % (x.data[0], y.data[0])) + coincidences(*f, depth + 1, text)


def satisfiable(cond, count, ranges, assume, seed):
    ts = [cond] + ([assume] if assume is not None else [])
    for ev in rint.samples(ts, count, ranges, seed):
        try:
            if assume is not None and not rint.truth(ev.ev(assume)):
                continue
            if rint.truth(ev.ev(cond)):
                return rint.describe(ev, ((), True, False), ts)["leaves"]
        except Exception as e:
            if isinstance(e, Timeout):
                raise
            continue
    return None


REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY.setdefault(pid, []).append(f)
        return f
    return deco
