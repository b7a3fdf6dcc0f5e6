"""Abstract interpreter: Python source -> value graph + effect summary.

Not an execution: one pass over the syntax tree per call context, both arms of
every branch are analysed and merged (gated values), loops become closed forms
(sums, maps, searches) or an opaque node, calls are inlined, unknown library
calls become `unknown` leaves, which make every obligation that depends on
them undecided.
"""
import ast
import os
from fractions import Fraction

from . import build as B
from .terms import (
    FALSE, IMAG, INF, NAN, NONE, ONE, ONEAX, PI, TRUE, ZERO, Term, axis_dim, axis_n, const_int, mk, num, string,
    subterms, sym, unknown,
)


class AnalysisError(Exception):
    pass


class Anchor(Exception):
    """a public name the properties are anchored at is gone"""


# ------------------------------------------------------------------ values
class PV:
    pass


class Ref(PV):
    __slots__ = ("loc", "root", "base", "sel")

    def __init__(self, loc, root=None, base=None, sel=None):
        self.loc, self.root, self.base, self.sel = loc, root, base, sel


class ListV(PV):
    __slots__ = ("loc", "kind", "root")

    def __init__(self, loc, kind, root=None):
        self.loc, self.kind, self.root = loc, kind, root


class DictV(PV):
    __slots__ = ("loc", "root")

    def __init__(self, loc, root=None):
        self.loc, self.root = loc, root


class TupleV(PV):
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = list(items)


class ObjV(PV):
    __slots__ = ("loc", "cls", "sym", "root")

    def __init__(self, loc, cls, sym=None, root=None):
        self.loc, self.cls, self.sym, self.root = loc, cls, sym, root


class FuncV(PV):
    __slots__ = ("node", "mod", "fid", "self_", "name", "defaults", "kwdefaults", "cls", "chain")

    def __init__(self, node, mod, chain, name, defaults=(), kwdefaults=None, self_=None, cls=None):
        self.node, self.mod, self.chain, self.name = node, mod, chain, name
        self.defaults, self.kwdefaults, self.self_, self.cls = defaults, kwdefaults or {}, self_, cls


class PartialV(PV):
    def __init__(self, fn, args, kw):
        self.fn, self.args, self.kw = fn, args, kw


class ClassV(PV):
    def __init__(self, node, mod, qual):
        self.node, self.mod, self.qual = node, mod, qual
        self.members = {}
        self.props = {}
        self.setters = {}
        self.anns = {}
        self.bases = []
        self.static = set()
        self.classm = set()


class BuiltinV(PV):
    __slots__ = ("name", "self_")

    def __init__(self, name, self_=None):
        self.name, self.self_ = name, self_


class ModV(PV):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class SymFunc(PV):
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


class SliceV(PV):
    __slots__ = ("a", "b", "c")

    def __init__(self, a, b, c):
        self.a, self.b, self.c = a, b, c


class IterV(PV):
    """symbolic iterable: n elements, elem(i)"""

    def __init__(self, n, elem, concrete=None, kind=None):
        self.n, self.elem, self.concrete, self.kind = n, elem, concrete, kind


class CondV(PV):
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class OpaqueV(PV):
    """library object we do not interpret structurally, e.g. interp1d(...)"""

    def __init__(self, kind, args):
        self.kind, self.args = kind, args


class Unbound(PV):
    def __repr__(self):
        return "UNBOUND"


UNBOUND = Unbound()
ELLIPSIS = BuiltinV("Ellipsis")


class Effect:
    __slots__ = ("kind", "what", "cond", "file", "line", "func", "data", "stack")

    def __init__(self, kind, what, cond, file, line, func, data=None, stack=()):
        self.kind, self.what, self.cond, self.file, self.line, self.func = kind, what, cond, file, line, func
        self.data = data
        self.stack = stack

    def __repr__(self):
        return "%s(%s) @%s:%s in %s if %r" % (self.kind, self.what, os.path.basename(self.file), self.line, self.func, self.cond)


class State:
    __slots__ = ("vars", "heap")

    def __init__(self, vars=None, heap=None):
        self.vars, self.heap = vars or {}, heap or {}

    def copy(self):
        return State(dict(self.vars), dict(self.heap))


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.names = None  # name -> ('def',node)|('class',node)|('import',..)|('assign',[nodes])
        self.values = {}


class World:
    """all parsed source: the repository package plus the reference module"""

    def __init__(self, root, extra=None):
        self.root = root
        self.mods = {}
        self.extra = extra or {}
        self.files = {}

    def find(self, name):
        if name in self.mods:
            return self.mods[name]
        path = None
        if name in self.extra:
            path = self.extra[name]
        elif name.split(".")[0] == "pybsm":
            p = os.path.join(self.root, "src", *name.split("."))
            if os.path.isfile(p + ".py"):
                path = p + ".py"
            elif os.path.isfile(os.path.join(p, "__init__.py")):
                path = os.path.join(p, "__init__.py")
        if path is None:
            return None
        src = open(path, encoding="utf-8").read()
        m = Module(name, path, ast.parse(src, path), src)
        self.mods[name] = m
        self.files[path] = m
        m.names = {}
        self._scan(m, m.tree.body, m.names)
        return m

    def _scan(self, m, body, names):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                names[s.name] = ("def", s)
            elif isinstance(s, ast.ClassDef):
                names[s.name] = ("class", s)
            elif isinstance(s, ast.Import):
                for a in s.names:
                    if a.asname:
                        names[a.asname] = ("module", a.name)
                    else:
                        names[a.name.split(".")[0]] = ("module", a.name.split(".")[0])
            elif isinstance(s, ast.ImportFrom):
                base = self._abs(m, s)
                for a in s.names:
                    if a.name == "*":
                        sub = self.find(base)
                        if sub is not None:
                            for n, v in sub.names.items():
                                if not n.startswith("_"):
                                    names[n] = ("from", base, n)
                    else:
                        names[a.asname or a.name] = ("from", base, a.name)
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    for n in _targets(t):
                        names.setdefault(n, None)
                        prev = names[n]
                        names[n] = ("assign", s, prev)
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                names[s.target.id] = ("assign", s, names.get(s.target.id))
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                names[s.target.id] = ("assign", s, names.get(s.target.id))
            elif isinstance(s, (ast.If,)):
                self._scan(m, s.body, names)
                self._scan(m, s.orelse, names)
            elif isinstance(s, ast.Try):
                h, b = {}, {}
                for hd in s.handlers:
                    self._scan(m, hd.body, h)
                self._scan(m, s.body, b)
                self._scan(m, s.orelse, b)
                opt = _optional_import(s)
                for k in list(b) + [k for k in h if k not in b]:
                    other = h.get(k) or names.get(k)
                    if k in b and other is not None and opt:
                        # guarded import of an optional dependency: both outcomes
                        names[k] = ("optional", b[k], other)
                    elif k in b:
                        names[k] = b[k]
                    elif opt:
                        names[k] = ("optional", names[k], h[k]) if names.get(k) is not None else h[k]
                    else:
                        names.setdefault(k, h[k])
                self._scan(m, s.finalbody, names)
            elif isinstance(s, ast.With):
                self._scan(m, s.body, names)

    def _abs(self, m, s):
        if not s.level:
            return s.module or ""
        is_pkg = os.path.basename(m.path) == "__init__.py"
        parts = m.name.split(".")
        if not is_pkg:
            parts = parts[:-1]
        up = s.level - 1
        if up:
            parts = parts[:-up]
        if s.module:
            parts = parts + s.module.split(".")
        return ".".join(parts)


OPTIONAL = {"cv2": "opencv_available"}

PLAIN = set(("wraps lru_cache cache overload final override staticmethod classmethod property cached_property setter getter deleter abstractmethod "
             "no_type_check no_type_check_decorator deprecated errstate typechecked jit njit profile").split())


def _plain(d):
    """a decorator that leaves the values of the function as they are"""
    b = d.func if isinstance(d, ast.Call) else d
    return ast.unparse(b).split(".")[-1] in PLAIN


def _optional_import(s):
    """symbol of the optional dependency a try statement guards, if any"""
    caught = set()
    for hd in s.handlers:
        if hd.type is None:
            caught.add("Exception")
        for e in hd.type.elts if isinstance(hd.type, ast.Tuple) else [hd.type] if hd.type is not None else []:
            caught.add(ast.unparse(e))
    if not caught & {"ImportError", "ModuleNotFoundError", "Exception", "BaseException"}:
        return None
    for x in ast.walk(ast.Module(s.body, [])):
        if isinstance(x, ast.Import):
            for a in x.names:
                if a.name.split(".")[0] in OPTIONAL:
                    return OPTIONAL[a.name.split(".")[0]]
        if isinstance(x, ast.ImportFrom) and (x.module or "").split(".")[0] in OPTIONAL:
            return OPTIONAL[(x.module or "").split(".")[0]]
    return None


def _targets(t):
    if isinstance(t, ast.Name):
        return [t.id]
    if isinstance(t, (ast.Tuple, ast.List)):
        return [n for e in t.elts for n in _targets(e)]
    if isinstance(t, ast.Starred):
        return _targets(t.value)
    return []


class Frame:
    def __init__(self, fid, fn, mod, chain):
        self.fid, self.fn, self.mod, self.chain = fid, fn, mod, chain
        self.returns = []
        self.loops = []
        self.globals = set()
        self.nonlocals = set()
        self.locals = None
        self.pcbase = 0


class LoopCtx:
    def __init__(self, pclen):
        self.breaks = []
        self.conts = []
        self.pclen = pclen


class Interp:
    MAXDEPTH = 40

    def __init__(self, world, domains=None):
        self.w = world
        self.effects = []
        self.pc = []
        self.raised = []
        self.frames = []
        self.uid = 0
        self.nodeloc = []
        self.rng = 0
        self.assume = {}
        self.objdom = domains or (lambda cls, name: None)
        self.trace = {}
        self.visited_funcs = set()
        self.call_log = []
        self.prov = {}
        self.flags = {}
        self.summaries = {}
        self.steps = 0
        from . import lib

        self.lib = lib

    # -------------------------------------------------------------- basics
    def new(self):
        self.uid += 1
        return self.uid

    def here(self):
        fr = self.frames[-1] if self.frames else None
        f = fr.mod.path if fr else "?"
        ln = self.nodeloc[-1] if self.nodeloc else 0
        return f, ln, (fr.fn if fr else "<module>")

    def cond(self):
        conds = list(self.pc)
        for e in self.raised:
            conds.append(B.not_(e))
        for fr in self.frames:
            for rc, _, _ in fr.returns:
                conds.append(B.not_(rc))
        return B.and_(*conds)

    def settled(self, v):
        """the arm of a conditional value the path here has already chosen"""
        if not isinstance(v, CondV):
            return v
        known, todo, more = set(), list(self.pc), list(self.raised) + [rc for fr in self.frames for rc, _, _ in fr.returns if rc is not None]
        while True:
            while todo:
                t = todo.pop()
                if t.op == "and":
                    todo += t.args
                else:
                    known.add(t)
            for e in more:
                # not e holds: with all but one conjunct known, that one is false
                left = [x for x in (e.args if e.op == "and" else (e,)) if x not in known]
                if len(left) == 1 and B.not_(left[0]) not in known:
                    todo.append(B.not_(left[0]))
            if not todo:
                break
        while isinstance(v, CondV):
            if v.c in known:
                v = v.a
            elif B.not_(v.c) in known:
                v = v.b
            else:
                break
        return v

    def effect(self, kind, what, data=None, cond=None):
        f, ln, fn = self.here()
        self.effects.append(
            Effect(kind, what, self.cond() if cond is None else cond, f, ln, fn, data, tuple(fr.fn for fr in self.frames))
        )

    # arrays
    def ref(self, st, term, root=None, base=None, sel=None):
        loc = self.new()
        st.heap[loc] = term
        return Ref(loc, root, base, sel)

    def term(self, st, v, why=""):
        """value as Term"""
        if isinstance(v, Term):
            return v
        if isinstance(v, Ref):
            return st.heap.get(v.loc, NONE) if v.loc in st.heap else unknown("dead ref")
        if isinstance(v, (ListV, TupleV)):
            items = self.items(st, v)
            if items is None:
                return st.heap[v.loc] if isinstance(v, ListV) else unknown("list")
            ts = [self.term(st, i) for i in items]
            return B.arr(ts) if ts else mk("arr", (), None, (axis_n(0),))
        if isinstance(v, CondV):
            return B.ite(v.c, self.term(st, v.a), self.term(st, v.b))
        if isinstance(v, IterV):
            return self.iter_term(st, v)
        if v is UNBOUND:
            return unknown("unbound")
        return unknown("non-numeric value %s %s" % (type(v).__name__, why))

    def iter_term(self, st, it):
        if it.concrete is not None:
            return B.arr([self.term(st, c) for c in it.concrete]) if it.concrete else mk("arr", (), None, (axis_n(0),))
        bv = B.fresh_bv()
        body = self.term(st, it.elem(bv))
        return self.mkmap(it.n, body, bv)

    def mkmap(self, n, body, bv):
        c = const_int(n)
        ax = axis_n(c if c is not None else n)
        # un-indexing: body is idx(leaf,bv) of a whole array
        if body.op == "idx" and body.args[1] is bv and bv not in set(subterms(body.args[0])) and len(body.args[0].axes) == 1:
            if axis_dim(body.data) is n:
                return body.args[0]
        return B.binder("map", n, (body,), bv, (ax,) + body.axes)

    def items(self, st, v):
        if isinstance(v, TupleV):
            return v.items
        if isinstance(v, ListV):
            c = st.heap[v.loc]
            return list(c) if isinstance(c, tuple) else None
        return None

    def mklist(self, st, items, root=None):
        loc = self.new()
        st.heap[loc] = tuple(items)
        return ListV(loc, "list", root)

    def val(self, st, t, force_ref=False):
        """wrap a Term as a value: arrays become Refs"""
        if isinstance(t, Term) and (t.axes or force_ref):
            return self.ref(st, t)
        return t

    # -------------------------------------------------------------- merging
    def merge_val(self, c, a, b, sa, sb, out):
        if a is b or c is TRUE:
            return a
        if c is FALSE:
            return b
        if a is UNBOUND or b is UNBOUND:
            return CondV(c, a, b)
        if isinstance(a, Term) and isinstance(b, Term):
            return B.ite(c, a, b)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.loc == b.loc:
                return a
            ta, tb = sa.heap[a.loc], sb.heap[b.loc]
            r = self.ref(out, B.ite(c, ta, tb), root=a.root if a.root == b.root else None)
            if a.root or b.root:
                if a.root != b.root:
                    return CondV(c, a, b)
            return r
        if isinstance(a, TupleV) and isinstance(b, TupleV) and len(a.items) == len(b.items):
            return TupleV([self.merge_val(c, x, y, sa, sb, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, FuncV) and isinstance(b, FuncV) and a.node is b.node and a.chain == b.chain and a.self_ is b.self_:
            return a
        if isinstance(a, ModV) and isinstance(b, ModV) and a.name == b.name:
            return a
        if isinstance(a, BuiltinV) and isinstance(b, BuiltinV) and a.name == b.name and a.self_ is b.self_:
            return a
        return CondV(c, a, b)

    def merge(self, c, sa, sb):
        """state if c then sa else sb"""
        if sa is None:
            return sb
        if sb is None:
            return sa
        out = State()
        for k in list(sa.heap) + [k for k in sb.heap if k not in sa.heap]:
            x, y = sa.heap.get(k), sb.heap.get(k)
            if x is None:
                out.heap[k] = y
            elif y is None or x is y:
                out.heap[k] = x
            elif isinstance(x, Term) and isinstance(y, Term):
                out.heap[k] = B.ite(c, x, y)
            elif isinstance(x, tuple) and isinstance(y, tuple):
                if x == y:
                    out.heap[k] = x
                elif len(x) == len(y):
                    out.heap[k] = ("__pend__", x, y)
                else:
                    out.heap[k] = unknown("list of varying length")
            elif isinstance(x, dict) and isinstance(y, dict):
                out.heap[k] = ("__pendd__", x, y)
            else:
                out.heap[k] = unknown("merge")
        for k in list(out.heap):
            v = out.heap[k]
            if isinstance(v, tuple) and v and v[0] == "__pend__":
                out.heap[k] = tuple(self.merge_val(c, p, q, sa, sb, out) for p, q in zip(v[1], v[2]))
            elif isinstance(v, tuple) and v and v[0] == "__pendd__":
                d = {}
                for n in list(v[1]) + [n for n in v[2] if n not in v[1]]:
                    p, q = v[1].get(n, UNBOUND), v[2].get(n, UNBOUND)
                    d[n] = p if p is q else self.merge_attr(c, n, p, q, sa, sb, out)
                out.heap[k] = d
        for k in list(sa.vars) + [k for k in sb.vars if k not in sa.vars]:
            p, q = sa.vars.get(k, UNBOUND), sb.vars.get(k, UNBOUND)
            if k[0] == "g" and (p is UNBOUND or q is UNBOUND):
                # not assigned on one side: the value it was defined with
                d = self.module_name(k[1], k[2], out)
                p, q = (d if x is UNBOUND and d is not None else x for x in (p, q))
            out.vars[k] = p if p is q else self.merge_val(c, p, q, sa, sb, out)
        return out

    def merge_attr(self, c, name, p, q, sa, sb, out):
        return self.merge_val(c, p, q, sa, sb, out)

    # -------------------------------------------------------------- modules
    def module_name(self, mod, name, st):
        """value of a module-level name"""
        m = self.w.find(mod) if isinstance(mod, str) else mod
        if m is None:
            return None
        if name in m.values:
            return m.values[name]
        ent = m.names.get(name)
        if ent is None:
            sub = self.w.find(m.name + "." + name)
            if sub is not None:
                return ModV(m.name + "." + name)
            return None
        v = self._modent(m, name, ent, st)
        m.values[name] = v
        return v

    def _modent(self, m, name, ent, st):
        k = ent[0]
        if k == "optional":
            a, b = self._modent(m, name, ent[1], st), self._modent(m, name, ent[2], st)
            g = self.gstate()
            return self.merge_val(sym("opencv_available", (), "bool"), a, b, g, g, g)
        if k == "def":
            f = self.make_func(ent[1], m, (), st)
            if any(not _plain(d) for d in ent[1].decorator_list):
                return self.at_import(m, lambda fr: self.decorate(f, ent[1], self.gstate(), fr))
            return f
        if k == "class":
            return self.make_class(ent[1], m)
        if k == "module":
            return ModV(ent[1])
        if k == "from":
            sub = self.w.find(ent[1])
            if sub is not None:
                v = self.module_name(sub, ent[2], st)
                if v is not None:
                    return v
                raise AnalysisError("cannot import %s from %s" % (ent[2], ent[1]))
            s2 = self.w.find(ent[1] + "." + ent[2])
            if s2 is not None:
                return ModV(ent[1] + "." + ent[2])
            return self.lib.external(ent[1] + "." + ent[2])
        if k == "assign":
            s = ent[1]
            if name in ("dir_path",) and isinstance(s, ast.Assign):
                pass
            fr = Frame(self.new(), "<module %s>" % m.name, m, ())
            self.frames.append(fr)
            try:
                if isinstance(s, ast.AugAssign):
                    return unknown("module augassign")
                v = self.eval(s.value, self.gstate(), fr)
                if isinstance(v, (Ref, ListV, DictV)) or isinstance(v, ObjV) and not v.root:
                    v.root = "global:%s.%s" % (m.name, name)
                if isinstance(s, ast.Assign) and isinstance(s.targets[0], (ast.Tuple, ast.List)):
                    names = _targets(s.targets[0])
                    if isinstance(v, TupleV) and len(v.items) == len(names):
                        v = v.items[names.index(name)]
                    else:
                        v = unknown("module unpack")
            finally:
                self.frames.pop()
            return v
        raise AnalysisError("module entry")

    def gstate(self):
        if not hasattr(self, "_g"):
            self._g = State()
        return self._g

    def at_import(self, m, f):
        """evaluate f(frame) as the module's own code: on no path of the caller"""
        saved = self.pc, self.frames, self.raised
        fr = Frame(self.new(), "<module %s>" % m.name, m, ())
        self.pc, self.frames, self.raised = [], [fr], []
        try:
            before = set(self.gstate().vars)
            v = f(fr)
            for k, x in self.gstate().vars.items():
                if k not in before and isinstance(x, (Ref, ListV, DictV, ObjV)) and not x.root:
                    x.root = "global:%s.%s" % (m.name, k[1])
            return v
        finally:
            self.pc, self.frames, self.raised = saved

    def decorate(self, f, node, st, fr):
        for d in reversed(node.decorator_list):
            if _plain(d):
                continue
            dec = self.eval(d, st, fr)
            if not isinstance(dec, (FuncV, ClassV, PartialV, ObjV, CondV)):
                self.effect("unknown-call", "decorator " + ast.unparse(d))
                return unknown("decorator " + ast.unparse(d))
            f = self.call(dec, [f], {}, st)
        return f

    def make_func(self, node, m, chain, st):
        fr = Frame(self.new(), "<defaults>", m, chain)
        self.frames.append(fr)
        try:
            s = st if st is not None else self.gstate()
            ds = []
            for d in node.args.defaults:
                v = self.eval(d, s, fr)
                if isinstance(v, (Ref, ListV, DictV)):
                    v.root = "default:%s.%s" % (m.name, node.name if hasattr(node, "name") else "<lambda>")
                ds.append(v)
            kd = {}
            for a, d in zip(node.args.kwonlyargs, node.args.kw_defaults):
                if d is not None:
                    kd[a.arg] = self.eval(d, s, fr)
        finally:
            self.frames.pop()
        return FuncV(node, m, chain, getattr(node, "name", "<lambda>"), ds, kd)

    def make_class(self, node, m):
        c = ClassV(node, m, m.name + "." + node.name)
        for b in node.bases:
            fr = Frame(self.new(), "<class>", m, ())
            self.frames.append(fr)
            try:
                bv = self.eval(b, self.gstate(), fr)
                if isinstance(bv, ClassV):
                    c.bases.append(bv)
                    c.members.update(bv.members)
                    c.props.update(bv.props)
                    c.setters.update(bv.setters)
                    c.anns.update(bv.anns)
            finally:
                self.frames.pop()
        for s in node.body:
            if isinstance(s, ast.FunctionDef):
                decs = [ast.unparse(d) for d in s.decorator_list]
                f = self.make_func(s, m, (), None)
                f.cls = c
                f.name = node.name + "." + s.name
                if any(not _plain(d) for d in s.decorator_list):
                    g = self.at_import(m, lambda fr: self.decorate(f, s, self.gstate(), fr))
                    if isinstance(g, FuncV):
                        f = FuncV(g.node, g.mod, g.chain, g.name, g.defaults, g.kwdefaults, g.self_, c)
                    else:
                        f = g
                if "property" in decs or any(d.endswith("cached_property") for d in decs):
                    c.props[s.name] = f
                    if any(d.endswith("cached_property") for d in decs):
                        c.props[s.name] = ("cached", f)
                elif any(d.endswith(".setter") for d in decs):
                    c.setters[s.name] = f
                else:
                    if "staticmethod" in decs:
                        c.static.add(s.name)
                    if "classmethod" in decs:
                        c.classm.add(s.name)
                    c.members[s.name] = f
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                c.anns[s.target.id] = s.annotation
                if s.value is not None:
                    fr = Frame(self.new(), "<class>", m, ())
                    self.frames.append(fr)
                    v = c.members[s.target.id] = self.eval(s.value, self.gstate(), fr)
                    self.frames.pop()
                    if isinstance(v, (Ref, ListV, DictV)):
                        v.root = "global:%s.%s" % (c.qual, s.target.id)
            elif isinstance(s, ast.Assign):
                fr = Frame(self.new(), "<class>", m, ())
                self.frames.append(fr)
                v = self.eval(s.value, self.gstate(), fr)
                self.frames.pop()
                if isinstance(v, (Ref, ListV, DictV)):
                    v.root = "global:%s.%s" % (c.qual, ast.unparse(s.targets[0]))
                for t in s.targets:
                    for n in _targets(t):
                        if isinstance(v, BuiltinV) and False:
                            pass
                        c.members[n] = v
                # altitude = property(get, set)
                if isinstance(s.value, ast.Call) and ast.unparse(s.value.func) == "property":
                    a = s.value.args
                    nm = _targets(s.targets[0])[0]
                    if a and isinstance(a[0], ast.Name) and a[0].id in c.members:
                        c.props[nm] = c.members[a[0].id]
                        if len(a) > 1 and isinstance(a[1], ast.Name) and a[1].id in c.members:
                            c.setters[nm] = c.members[a[1].id]
                        c.members.pop(nm, None)
        return c

    def lookup_qual(self, qual):
        """'pybsm.otf.functional.jitter_OTF' -> value; raises Anchor"""
        parts = qual.split(".")
        for i in range(len(parts), 0, -1):
            m = self.w.find(".".join(parts[:i]))
            if m is not None:
                v = ModV(".".join(parts[:i]))
                for p in parts[i:]:
                    if isinstance(v, ModV):
                        nv = self.module_name(v.name, p, None)
                    elif isinstance(v, ClassV):
                        nv = v.members.get(p)
                    else:
                        nv = None
                    if nv is None:
                        raise Anchor(qual)
                    v = nv
                return v
        raise Anchor(qual)

    # -------------------------------------------------------------- calls
    def call(self, fn, args, kw, st, node=None):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError("step budget")
        if isinstance(fn, FuncV):
            return self.call_func(fn, args, kw, st)
        if isinstance(fn, PartialV):
            k = dict(fn.kw)
            k.update(kw)
            return self.call(fn.fn, list(fn.args) + list(args), k, st, node)
        if isinstance(fn, ClassV):
            return self.instantiate(fn, args, kw, st)
        if isinstance(fn, BuiltinV):
            return self.lib.call_builtin(self, fn, args, kw, st, node)
        if isinstance(fn, SymFunc):
            ts = [self.term(st, a) for a in args] + [self.term(st, v) for _, v in sorted(kw.items())]
            _, axes = _al(ts)
            return self.val(st, mk("apply", tuple(ts), fn.name, ()))
        if isinstance(fn, CondV):
            one = self.settled(fn)
            if one is not fn:
                return self.call(one, args, kw, st, node)
            sa, sb = st.copy(), st.copy()
            self.pc.append(fn.c)
            a = self.call(fn.a, args, kw, sa, node)
            self.pc[-1] = B.not_(fn.c)
            b = self.call(fn.b, args, kw, sb, node)
            self.pc.pop()
            out = self.merge(fn.c, sa, sb)
            r = self.merge_val(fn.c, a, b, sa, sb, out)
            st.vars, st.heap = out.vars, out.heap
            return r
        if isinstance(fn, OpaqueV):
            return self.lib.call_opaque(self, fn, args, kw, st, node)
        if isinstance(fn, ObjV) and "__call__" in fn.cls.members:
            return self.call_func(self.bind(fn.cls.members["__call__"], fn), args, kw, st)
        self.effect("unknown-call", str(type(fn).__name__))
        return unknown("call of " + type(fn).__name__)

    def bind(self, f, obj):
        if isinstance(f, FuncV):
            g = FuncV(f.node, f.mod, f.chain, f.name, f.defaults, f.kwdefaults, obj, f.cls)
            return g
        return f

    def bind_args(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        pos = list(args)
        if fn.self_ is not None:
            pos = [fn.self_] + pos
        rest = []
        for i, v in enumerate(pos):
            if i < len(names):
                vals[names[i]] = v
            else:
                rest.append(v)
        if a.vararg:
            vals[a.vararg.arg] = TupleV(rest)
        elif rest:
            self.effect("type-error", "too many positional arguments for %s" % fn.name)
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in kwonly:
                if k in vals:
                    self.effect("type-error", "duplicate argument %s for %s" % (k, fn.name))
                vals[k] = v
            else:
                extra[k] = v
        if a.kwarg:
            loc = self.new()
            st.heap[loc] = dict(extra)
            vals[a.kwarg.arg] = DictV(loc)
        elif extra:
            self.effect("type-error", "unexpected keyword %s for %s" % (sorted(extra), fn.name))
        nd = len(fn.defaults)
        for i, nm in enumerate(names):
            if nm not in vals:
                j = i - (len(names) - nd)
                if j >= 0:
                    vals[nm] = fn.defaults[j]
                    d = fn.defaults[j]
                    if isinstance(d, (Ref, ListV, DictV)) and d.loc not in st.heap:
                        st.heap[d.loc] = self.gstate().heap.get(d.loc, unknown("default"))
                else:
                    self.effect("type-error", "missing argument %s for %s" % (nm, fn.name))
                    vals[nm] = unknown("missing arg")
        for nm in kwonly:
            if nm not in vals:
                if nm in fn.kwdefaults:
                    vals[nm] = fn.kwdefaults[nm]
                else:
                    vals[nm] = unknown("missing kwarg")
        return vals

    def call_func(self, fn, args, kw, st):
        h = self.summaries.get(fn.mod.name + "." + fn.name)
        if h is not None:
            return h(self, st, self.bind_args(fn, args, kw, st))
        if len(self.frames) > self.MAXDEPTH:
            return unknown("call depth")
        vals = self.bind_args(fn, args, kw, st)
        fid = self.new()
        fr = Frame(fid, fn.name, fn.mod, (fid,) + tuple(fn.chain))
        fr.pcbase = len(self.pc)
        fr.cls = fn.cls
        self.visited_funcs.add(fn.mod.name + "." + fn.name)
        if isinstance(fn.node, ast.Lambda):
            for k, v in vals.items():
                st.vars[(fid, k)] = v
            self.frames.append(fr)
            try:
                return self.eval(fn.node.body, st, fr)
            finally:
                self.frames.pop()
        for d in fn.node.decorator_list:
            ds = ast.unparse(d)
            if "cache" in ds and "property" not in ds:
                self.effect("memo", fn.name, data=(fn, dict(vals)))
                if self.flags.get("history") and not getattr(self, "_inmemo", None) == fn.node:
                    return self.memoised(fn, vals, fr, st)
        if any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in _walk_own(fn.node)):
            return unknown("generator")
        self._localnames(fn.node, fr)
        for k, v in vals.items():
            st.vars[(fid, k)] = v
        self.frames.append(fr)
        # work on a separate state so that early returns keep their own heap
        try:
            s2 = self.exec_block(fn.node.body, st.copy(), fr)
        finally:
            self.frames.pop()
        outs = list(fr.returns)
        if s2 is not None:
            outs.append((None, NONE, s2))
        if not outs:
            # always raises
            return unknown("noreturn")
        c, v, s = outs[-1]
        for rc, rv, rs in reversed(outs[:-1]):
            out = self.merge(rc, rs, s)
            v = self.merge_val(rc, rv, v, rs, s, out)
            s = out
        st.vars, st.heap = s.vars, s.heap
        for k in [k for k in st.vars if k[0] == fid]:
            pass
        return v

    def _localnames(self, node, fr):
        loc = set()
        for x in _walk_own(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                loc.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                loc.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    loc.add((a.asname or a.name).split(".")[0])
            elif isinstance(x, ast.Global):
                fr.globals.update(x.names)
            elif isinstance(x, ast.Nonlocal):
                fr.nonlocals.update(x.names)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                loc.add(x.name)
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            loc.add(a.arg)
        if node.args.vararg:
            loc.add(node.args.vararg.arg)
        if node.args.kwarg:
            loc.add(node.args.kwarg.arg)
        fr.locals = loc - fr.globals - fr.nonlocals

    def instantiate(self, cls, args, kw, st):
        loc = self.new()
        st.heap[loc] = {}
        o = ObjV(loc, cls)
        init = cls.members.get("__init__")
        if init is not None:
            self.call_func(self.bind(init, o), args, kw, st)
        elif any("dataclass" in ast.unparse(d) for d in cls.node.decorator_list):
            names = list(cls.anns)
            vals = dict(zip(names, args))
            vals.update(kw)
            for n in names:
                if n not in vals:
                    vals[n] = cls.members.get(n, UNBOUND)
            st.heap[loc] = {k: v for k, v in vals.items() if v is not UNBOUND}
        return o

    # -------------------------------------------------------------- attributes
    def symobj(self, st, cls, name, root=None):
        """symbolic instance whose attributes appear on demand"""
        loc = self.new()
        st.heap[loc] = {}
        return ObjV(loc, cls, name, root or name)

    def getattr(self, v, name, st):
        if isinstance(v, ModV):
            if ("g", v.name, name) in st.vars:
                return st.vars[("g", v.name, name)]
            r = self.module_name(v.name, name, st)
            if r is not None:
                if isinstance(r, (Ref, ListV, DictV)) and r.loc not in st.heap:
                    st.heap[r.loc] = self.gstate().heap.get(r.loc, unknown("global"))
                return r
            if self.w.find(v.name) is not None:
                return unknown("no attribute %s.%s" % (v.name, name))
            return self.lib.external(v.name + "." + name)
        if isinstance(v, ClassV):
            if ("g", v.qual, name) in st.vars:
                return st.vars[("g", v.qual, name)]
            if name in v.members:
                m = v.members[name]
                if name in v.classm:
                    return self.bind(m, v)
                if isinstance(m, (Ref, ListV, DictV)) and m.loc not in st.heap:
                    st.heap[m.loc] = self.gstate().heap.get(m.loc)
                return m
            return unknown("class attr " + name)
        if isinstance(v, ObjV):
            cls = v.cls
            if cls is not None and name in cls.props:
                p = cls.props[name]
                if isinstance(p, tuple):
                    d = st.heap[v.loc]
                    if name in d:
                        return d[name]
                    r = self.call_func(self.bind(p[1], v), [], {}, st)
                    d = dict(st.heap[v.loc])
                    d[name] = r
                    st.heap[v.loc] = d
                    return r
                return self.call_func(self.bind(p, v), [], {}, st)
            d = st.heap[v.loc]
            if not isinstance(d, dict):
                return unknown("object state")
            if name in d:
                x = d[name]
                if isinstance(x, CondV) and (x.a is UNBOUND or x.b is UNBOUND):
                    if v.sym:
                        fresh = self.symattr(v, name, st)
                        a = fresh if x.a is UNBOUND else x.a
                        b = fresh if x.b is UNBOUND else x.b
                        return self.merge_val(x.c, a, b, st, st, st)
                    self.effect("maybe-missing-attr", "%s.%s" % (cls.node.name, name), data=x.c)
                    return x.b if x.a is UNBOUND else x.a
                return x
            if cls is not None and ("g", cls.qual, name) in st.vars:
                return st.vars[("g", cls.qual, name)]
            if cls is not None and name in cls.members:
                m = cls.members[name]
                if name in cls.static:
                    return m
                if isinstance(m, FuncV):
                    return self.bind(m, v)
                if not v.sym or name not in cls.anns or isinstance(m, (Ref, ListV, DictV)):
                    if isinstance(m, (Ref, ListV, DictV)) and m.loc not in st.heap:
                        st.heap[m.loc] = self.gstate().heap.get(m.loc)
                    return m
            if name == "__class__":
                return cls
            if name == "__dict__":
                if not v.sym:
                    return DictV(v.loc, v.root)
                self.effect("unknown-call", "__dict__ of %s" % cls.qual if cls is not None else "__dict__")
                return unknown("__dict__")
            if v.sym:
                val = self.symattr(v, name, st)
                d = dict(st.heap[v.loc])
                d[name] = val
                st.heap[v.loc] = d
                return val
            self.effect("missing-attr", "%s.%s" % (cls.node.name if cls else "?", name))
            return unknown("missing attribute " + name)
        if isinstance(v, CondV):
            one = self.settled(v)
            if one is not v:
                return self.getattr(one, name, st)
            a, b = v.a, v.b
            sa, sb = st.copy(), st.copy()
            ra, rb = self.getattr(a, name, sa), self.getattr(b, name, sb)
            if isinstance(ra, BuiltinV) or isinstance(rb, BuiltinV) or isinstance(ra, FuncV):
                return CondV(v.c, ra, rb)
            out = self.merge(v.c, sa, sb)
            r = self.merge_val(v.c, ra, rb, sa, sb, out)
            st.vars, st.heap = out.vars, out.heap
            return r
        return self.lib.value_attr(self, v, name, st)

    def symattr(self, v, name, st):
        """fresh symbolic attribute of a symbolic object"""
        full = "%s.%s" % (v.sym, name.lstrip("_"))
        return self.objdom(self, st, v, name, full)

    def setattr(self, v, name, val, st):
        if isinstance(v, ObjV):
            cls = v.cls
            if cls is not None and name in cls.setters:
                self.call_func(self.bind(cls.setters[name], v), [val], {}, st)
                if v.root:
                    self.effect("setattr", "%s.%s" % (v.root, name), data=(v.root, name, val))
                return
            if cls is not None and name in cls.props and not isinstance(cls.props[name], tuple):
                self.effect("raise", "AttributeError", data=("property without setter %s" % name,))
                return
            d = st.heap[v.loc]
            if not isinstance(d, dict):
                return
            d = dict(d)
            d[name] = val
            st.heap[v.loc] = d
            if v.root:
                self.effect("setattr", "%s.%s" % (v.root, name), data=(v.root, name, val))
            return
        if isinstance(v, CondV):
            # both arms may be written
            for arm in (v.a, v.b):
                if isinstance(arm, ObjV):
                    d = dict(st.heap[arm.loc])
                    old = d.get(name, UNBOUND)
                    c = v.c if arm is v.a else B.not_(v.c)
                    d[name] = self.merge_val(c, val, old, st, st, st)
                    st.heap[arm.loc] = d
                    if arm.root:
                        self.effect("setattr", "%s.%s" % (arm.root, name), data=(arm.root, name, val))
            return
        if isinstance(v, ModV):
            self.effect("global-write", "%s.%s" % (v.name, name))
            st.vars[("g", v.name, name)] = val
            return
        if isinstance(v, ClassV):
            self.effect("global-write", "%s.%s" % (v.qual, name))
            st.vars[("g", v.qual, name)] = val
            return
        if isinstance(v, FuncV):
            self.effect("global-write", "%s.%s" % (v.name, name))
            st.vars[("g", v.mod.name + "." + v.name, name)] = val
            return
        if isinstance(v, Ref):
            if name == "shape":
                self.mutate(v, st, "reshape in place")
                st.heap[v.loc] = unknown("shape assignment")
                return
            return
        if isinstance(v, Term) and v.unk:
            return
        self.effect("unknown-store", name)

    def memoised(self, fn, vals, fr, st):
        """a function behind an argument-keyed cache that outlives the call"""
        from .lib import dlookup, skey
        loc = "memo:%s.%s" % (fn.mod.name, fn.name)
        table = st.heap.get(loc, {})
        k = skey(self, st, TupleV([vals[n] for n in sorted(vals)]))
        old = self._inmemo if hasattr(self, "_inmemo") else None
        self._inmemo = fn.node
        try:
            fresh = self.call_func(fn, [], {n: v for n, v in vals.items() if not (fn.self_ is v)}, st)
        finally:
            self._inmemo = old
        if k is None:
            return unknown("cache key")
        got = dlookup(self, st, table, k)
        r = fresh
        for c, v in reversed(got):
            r = self.merge_val(c, v, r, st, st, st)
        if isinstance(r, Ref):
            r = Ref(r.loc, loc, r.base, r.sel)
        d = dict(st.heap.get(loc, {}))
        d.pop(k, None)
        d[k] = r
        st.heap[loc] = d
        return r

    # -------------------------------------------------------------- in-place
    def mutate(self, v, st, how):
        """an in-place change of array/list/dict v"""
        root = getattr(v, "root", None)
        if root:
            self.effect("mutate", root, data=how)
        if isinstance(v, Ref) and v.base is not None:
            b = v.base
            # propagate to the base array: content no longer known
            st.heap[b.loc] = unknown("written through a view", st.heap[b.loc].axes if isinstance(st.heap[b.loc], Term) else ())
            self.mutate_base(b, st)

    def mutate_base(self, b, st):
        if b.base is not None:
            st.heap[b.base.loc] = unknown("written through a view")
            self.mutate_base(b.base, st)

    def setarray(self, v, st, t, how):
        self.mutate(v, st, how)
        st.heap[v.loc] = t

    # -------------------------------------------------------------- statements
    def exec_block(self, body, st, fr):
        for i, s in enumerate(body):
            if st is None:
                return None
            self.nodeloc.append(getattr(s, "lineno", 0))
            try:
                st = self.exec(s, st, fr)
            finally:
                self.nodeloc.pop()
        return st

    def relcond(self, fr):
        return B.and_(*self.pc[fr.pcbase:])

    def exec(self, s, st, fr):
        self.steps += 1
        if self.steps > 400000:
            raise AnalysisError("step budget")
        m = getattr(self, "x_" + type(s).__name__, None)
        if m is None:
            self.effect("unsupported", type(s).__name__)
            for x in ast.walk(s):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    st.vars[(fr.fid, x.id)] = unknown("unsupported statement")
            return st
        return m(s, st, fr)

    def x_Expr(self, s, st, fr):
        self.eval(s.value, st, fr)
        return st

    def x_Pass(self, s, st, fr):
        return st

    def x_Import(self, s, st, fr):
        for a in s.names:
            if a.asname:
                st.vars[(fr.fid, a.asname)] = ModV(a.name)
            else:
                st.vars[(fr.fid, a.name.split(".")[0])] = ModV(a.name.split(".")[0])
            self.optional(a.name)
        return st

    def optional(self, name):
        """importing an optional dependency raises when it is not installed"""
        k = OPTIONAL.get(name.split(".")[0])
        if k is None:
            return
        self.pc.append(B.not_(sym(k, (), "bool")))
        try:
            if self.cond() is not FALSE:
                self.effect("raise", "ModuleNotFoundError", data=())
                self.raised.append(self.cond())
        finally:
            self.pc.pop()

    def x_ImportFrom(self, s, st, fr):
        base = self.w._abs(fr.mod, s)
        self.optional(base)
        for a in s.names:
            sub = self.w.find(base)
            v = None
            if sub is not None:
                v = self.module_name(sub, a.name, st)
            if v is None:
                v = self.lib.external(base + "." + a.name)
            st.vars[(fr.fid, a.asname or a.name)] = v
        return st

    def x_Global(self, s, st, fr):
        return st

    x_Nonlocal = x_Global

    def x_FunctionDef(self, s, st, fr):
        st.vars[(fr.fid, s.name)] = self.decorate(self.make_func(s, fr.mod, fr.chain, st), s, st, fr)
        return st

    def x_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars[(fr.fid, t.id)] = UNBOUND
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                if isinstance(o, ObjV) and o.root:
                    self.effect("setattr", "%s.%s" % (o.root, t.attr), data=(o.root, t.attr, UNBOUND))
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                if isinstance(o, (ListV, DictV, Ref)):
                    self.mutate(o, st, "del")
                    if not isinstance(o, DictV):
                        st.heap[o.loc] = unknown("del item")
        return st

    def x_Return(self, s, st, fr):
        v = NONE if s.value is None else self.eval(s.value, st, fr)
        fr.returns.append((self.relcond(fr), v, st))
        return None

    def x_Raise(self, s, st, fr):
        name = "?"
        data = None
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func)
                args = []
                for a in e.args:
                    v = self.eval(a, st, fr)
                    args.append(self.term(st, v) if not isinstance(v, PV) or isinstance(v, Ref) else NONE)
                data = tuple(args)
            else:
                name = ast.unparse(e)
        self.effect("raise", name, data=data)
        self.raised.append(self.cond())
        return None

    def x_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        n = B.not_(c)
        if n is not FALSE:
            self.pc.append(n)
            self.effect("raise", "AssertionError", data=())
            self.raised.append(self.cond())
            self.pc.pop()
        return st

    def x_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return st

    def x_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return st

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            if t.id in fr.globals:
                self.effect("global-write", "%s.%s" % (fr.mod.name, t.id))
                st.vars[("g", fr.mod.name, t.id)] = v
                return
            if t.id in fr.nonlocals:
                for fid in fr.chain[1:]:
                    if (fid, t.id) in st.vars:
                        st.vars[(fid, t.id)] = v
                        return
            st.vars[(fr.fid, t.id)] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.unpack(v, len(t.elts), st, t)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, x, st, fr)
                else:
                    self.assign(e, x, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, t.attr, v, st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            self.setitem(o, t.slice, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)

    def unpack(self, v, n, st, t=None):
        if t is not None and any(isinstance(e, ast.Starred) for e in t.elts):
            items = self.items(st, v)
            if items is None:
                return [unknown("unpack*")] * n
            k = [isinstance(e, ast.Starred) for e in t.elts].index(True)
            after = n - k - 1
            mid = items[k:len(items) - after]
            return items[:k] + [self.mklist(st, mid)] + items[len(items) - after:]
        if isinstance(v, CondV):
            a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
            return [self.merge_val(v.c, x, y, st, st, st) for x, y in zip(a, b)]
        items = self.items(st, v) if isinstance(v, (TupleV, ListV)) else None
        if items is not None:
            if len(items) == n:
                return items
            return [unknown("unpack arity")] * n
        if isinstance(v, (Ref, Term)):
            t_ = self.term(st, v)
            if t_.axes:
                return [self.val(st, B.idx(t_, num(i), t_.axes[0])) for i in range(n)]
        if isinstance(v, IterV) and v.concrete is not None and len(v.concrete) == n:
            return v.concrete
        return [unknown("unpack")] * n

    def x_AugAssign(self, s, st, fr):
        op = type(s.op).__name__
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, st, fr, s)
            rhs = self.eval(s.value, st, fr)
            if isinstance(cur, Ref):
                t = self.lib.binop(self, op, self.term(st, cur), self.term(st, rhs))
                c0 = self.term(st, cur)
                if t.axes and c0.axes and len(t.axes) == len(c0.axes):
                    t = B.rename(t, dict(zip(t.axes, c0.axes))) if t.axes != c0.axes else t
                self.setarray(cur, st, t, "augmented assignment")
                return st
            if isinstance(cur, ListV) and op == "Add":
                self.mutate(cur, st, "+=")
                a, b = self.items(st, cur), self.items(st, rhs) if isinstance(rhs, (ListV, TupleV)) else None
                st.heap[cur.loc] = tuple(a) + tuple(b) if a is not None and b is not None else unknown("list +=")
                return st
            if isinstance(cur, CondV) and (isinstance(cur.a, Ref) or isinstance(cur.b, Ref)):
                for arm in (cur.a, cur.b):
                    if isinstance(arm, Ref):
                        self.mutate(arm, st, "augmented assignment")
                self.assign(s.target, unknown("augassign on merged arrays"), st, fr)
                return st
            self.assign(s.target, self.binop(op, cur, rhs, st), st, fr)
            return st
        if isinstance(s.target, ast.Attribute):
            o = self.eval(s.target.value, st, fr)
            cur = self.getattr(o, s.target.attr, st)
            rhs = self.eval(s.value, st, fr)
            if isinstance(cur, Ref):
                t = self.lib.binop(self, op, self.term(st, cur), self.term(st, rhs))
                self.setarray(cur, st, t, "augmented assignment")
                # also rebinding the same object: not an attribute change
                return st
            self.setattr(o, s.target.attr, self.binop(op, cur, rhs, st), st)
            return st
        if isinstance(s.target, ast.Subscript):
            o = self.eval(s.target.value, st, fr)
            cur = self.getitem(o, s.target.slice, st, fr)
            rhs = self.eval(s.value, st, fr)
            v = self.binop(op, cur, rhs, st)
            self.setitem(o, s.target.slice, v, st, fr)
            return st
        return st

    def x_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        c = self.decide(c)
        if c is TRUE:
            return self.exec_block(s.body, st, fr)
        if c is FALSE:
            return self.exec_block(s.orelse, st, fr)
        sa, sb = st.copy(), st
        nret = len(fr.returns)
        self.pc.append(c)
        try:
            ra = self.exec_block(s.body, sa, fr)
        finally:
            self.pc.pop()
        self.pc.append(B.not_(c))
        try:
            rb = self.exec_block(s.orelse, sb, fr)
        finally:
            self.pc.pop()
        if ra is None and rb is None:
            return None
        return self.merge(c, ra, rb)

    def decide(self, c):
        if c in self.assume:
            return self.assume[c]
        n = B.not_(c)
        if n in self.assume:
            return B.not_(self.assume[n])
        for p in self.pc:
            if p is c:
                return TRUE
            if p is n:
                return FALSE
            if p.op == "and":
                if c in p.args:
                    return TRUE
                if n in p.args:
                    return FALSE
        return c

    def x_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, unknown("with target"), st, fr)
        return self.exec_block(s.body, st, fr)

    def x_Try(self, s, st, fr):
        pre = st.copy()
        n0 = len(self.effects)
        r0 = len(self.raised)
        nret = len(fr.returns)
        st2 = self.exec_block(s.body, st, fr)
        handled = []
        names = []
        for h in s.handlers:
            if h.type is None:
                names.append("*")
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                names += [ast.unparse(t) for t in ts]
        # explicit raises that a handler catches
        for e in self.effects[n0:]:
            if e.kind == "raise" and _catches(names, e.what):
                handled.append(e)
        if handled and s.handlers:
            c = B.or_(*[e.cond for e in handled])
            for e in handled:
                e.kind = "caught"
            self.raised = self.raised[:r0]
            sh = pre
            self.pc.append(c)
            try:
                sh = self.exec_block(s.handlers[0].body, sh, fr)
            finally:
                self.pc.pop()
            st2 = self.merge(c, sh, st2) if (sh is not None and st2 is not None) else (sh or st2)
        elif s.handlers:
            # implicit exceptions: analyse the handler for effects under an opaque condition
            c = mk("exc", (), (fr.mod.name, s.lineno))
            sh = pre
            for h in s.handlers:
                if h.name:
                    sh.vars[(fr.fid, h.name)] = unknown("exception object")
            self.pc.append(c)
            k0 = len(fr.returns)
            try:
                sh = self.exec_block(s.handlers[0].body, sh, fr)
            finally:
                self.pc.pop()
            if sh is None and len(fr.returns) == k0:
                # handler re-raises
                self.raised = [r for r in self.raised if c not in set(subterms(r))]
            elif sh is not None and st2 is not None:
                st2 = self.merge(c, sh, st2)
        if st2 is not None and s.orelse:
            st2 = self.exec_block(s.orelse, st2, fr)
        if s.finalbody:
            st2b = self.exec_block(s.finalbody, st2 if st2 is not None else pre, fr)
            if st2 is not None:
                st2 = st2b
        return st2

    def x_Match(self, s, st, fr):
        self.effect("unsupported", "match")
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.vars[(fr.fid, x.id)] = unknown("match")
            if isinstance(x, ast.Return):
                fr.returns.append((mk("exc", (), (fr.mod.name, s.lineno)), unknown("match"), st))
        return st

    def x_Break(self, s, st, fr):
        lc = fr.loops[-1]
        lc.breaks.append((B.and_(*self.pc[lc.pclen:]), st))
        return None

    def x_Continue(self, s, st, fr):
        lc = fr.loops[-1]
        lc.conts.append((B.and_(*self.pc[lc.pclen:]), st))
        return None

    # -------------------------------------------------------------- loops
    def to_iter(self, v, st):
        if isinstance(v, IterV):
            return v
        if isinstance(v, TupleV):
            return IterV(num(len(v.items)), None, list(v.items))
        if isinstance(v, ListV):
            it = self.items(st, v)
            if it is not None:
                return IterV(num(len(it)), None, it)
            v = st.heap[v.loc]
        if isinstance(v, DictV):
            d = st.heap[v.loc]
            if isinstance(d, dict):
                return IterV(num(len(d)), None, [k if isinstance(k, PV) else _key2term(k) for k in d])
        if isinstance(v, (Ref, Term)):
            t = self.term(st, v)
            if t.unk or not t.axes:
                return None
            ax = t.axes[0]
            n = axis_dim(ax)
            c = const_int(n)
            if c is not None and c <= 16:
                return IterV(n, None, [self.val(st, B.idx(t, num(i), ax)) for i in range(c)])
            return IterV(n, lambda i, t=t, ax=ax: self.val(st, B.idx(t, i, ax)))
        return None

    def x_For(self, s, st, fr):
        itv = self.eval(s.iter, st, fr)
        it = self.to_iter(itv, st)
        if it is None:
            self.havoc(s, st, fr, "loop over unknown iterable")
            return st
        if it.concrete is not None and len(it.concrete) <= 160:
            return self.unrolled(s, it.concrete, st, fr)
        names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if (any(st.vars.get((fr.fid, k)) is NONE for k in names) and not s.orelse
                and not any(isinstance(x, (ast.Break, ast.Return)) for b in s.body for x in ast.walk(b))):
            # a variable starts as None: the first round on its own (there is
            # one: such loops run over the samples of a spectrum)
            st = self.unrolled(s, [it.elem(ZERO)], st, fr)
            if st is None:
                return None
            return self.symloop(s, B.sub(it.n, ONE), lambda i, st2: self.assign(s.target, it.elem(B.add(i, ONE)), st2, fr), st, fr)
        return self.symloop(s, it.n, lambda i, st2: self.assign(s.target, it.elem(i), st2, fr), st, fr)

    def unrolled(self, s, items, st, fr):
        brk = []
        depth = len(self.pc)
        pushed = 0
        for x in items:
            lc = LoopCtx(len(self.pc))
            fr.loops.append(lc)
            self.assign(s.target, x, st, fr)
            st2 = self.exec_block(s.body, st, fr)
            fr.loops.pop()
            for c, cs in reversed(lc.conts):
                st2 = self.merge(c, cs, st2) if st2 is not None else cs
            if lc.breaks:
                if len(lc.breaks) == 1 and st2 is None and not lc.conts:
                    # unconditional break
                    brk.append((lc.breaks[0][0], lc.breaks[0][1]))
                    st = None
                    break
                bc_ = lc.breaks[0][0]
                bs = lc.breaks[0][1]
                for c, cs in lc.breaks[1:]:
                    bs = self.merge(bc_, bs, cs)
                    bc_ = B.or_(bc_, c)
                brk.append((bc_, bs))
                self.pc.append(B.not_(bc_))
                pushed += 1
            st = st2
            if st is None:
                break
        for _ in range(pushed):
            self.pc.pop()
        if st is not None and s.orelse:
            st = self.exec_block(s.orelse, st, fr)
        for c, bs in reversed(brk):
            st = self.merge(c, bs, st) if st is not None else bs
        return st

    def havoc(self, s, st, fr, why):
        self.effect("unsupported", why)
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                st.vars[(fr.fid, x.id)] = unknown(why)
            elif isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.ctx, ast.Store):
                try:
                    o = self.eval(x.value, st, fr)
                    if isinstance(o, (Ref, ListV)):
                        self.mutate(o, st, why)
                        st.heap[o.loc] = unknown(why)
                    elif isinstance(o, ObjV) and isinstance(x, ast.Attribute):
                        self.setattr(o, x.attr, unknown(why), st)
                except Exception:
                    pass
            elif isinstance(x, ast.Return):
                fr.returns.append((mk("exc", (), (fr.mod.name, s.lineno)), unknown(why), st.copy()))

    def x_While(self, s, st, fr):
        # recognise counted loops
        names = {x.id for b in s.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        trial = st.copy()
        carry = {}
        for nme in names:
            v = trial.vars.get((fr.fid, nme))
            if isinstance(v, Term):
                cterm = mk("carry", (), (self.new(), nme))
                carry[nme] = cterm
                trial.vars[(fr.fid, nme)] = cterm
        snap = self.snapshot()
        lc = LoopCtx(len(self.pc))
        fr.loops.append(lc)
        nret = len(fr.returns)
        try:
            c = self.truth(self.eval(s.test, trial, fr), trial)
            t2 = self.exec_block(s.body, trial, fr)
        finally:
            fr.loops.pop()
        bad = len(fr.returns) > nret or t2 is None or lc.conts
        del fr.returns[nret:]
        self.restore(snap)
        ctr = None
        if not bad:
            for nme, cterm in carry.items():
                v = t2.vars.get((fr.fid, nme))
                if isinstance(v, Term):
                    d = _addend(v, cterm)
                    if d is not None and const_int(d) is not None and const_int(d) > 0 and c.op in ("lt", "le"):
                        if c.args[0] is cterm and not _has(c.args[1], set(carry.values())):
                            ctr = (nme, const_int(d), c.op, c.args[1])
        if ctr is None:
            self.havoc(s, st, fr, "while loop")
            return st
        nme, step, op, bound = ctr
        init = st.vars[(fr.fid, nme)]
        span = B.sub(bound, init)
        if op == "le":
            span = B.add(span, num(step)) if step == 1 else B.add(span, num(step))
        n = B.div(span, num(step))
        if step != 1:
            n = B.fn("ceil", n)
        c = const_int(n)
        if c is not None and c <= 160:
            for i in range(max(0, c)):
                lc = LoopCtx(len(self.pc))
                fr.loops.append(lc)
                st = self.exec_block(s.body, st, fr)
                fr.loops.pop()
                if lc.breaks or st is None:
                    if st is None:
                        st = lc.breaks[0][1] if lc.breaks else None
                    if st is not None:
                        self.havoc(s, st, fr, "while break")
                    return st
            return st
        return self.symloop(s, n, lambda i, st2: None, st, fr)

    def snapshot(self):
        return (len(self.effects), len(self.raised), self.rng, len(self.call_log))

    def restore(self, s):
        del self.effects[s[0]:]
        del self.raised[s[1]:]
        self.rng = s[2]
        del self.call_log[s[3]:]

    def symloop(self, s, n, bind, st, fr):
        """loop with n (symbolic or large) iterations"""
        bv = B.fresh_bv()
        pre = st
        stored = set()
        for b in s.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                    stored.add(x.id)
        tgt = set(_targets(s.target)) if isinstance(s, ast.For) else set()
        stored -= tgt

        def run(inst):
            """execute body once; inst: key->placeholder"""
            trial = pre.copy()
            for key, ph in inst.items():
                if key[0] == "v":
                    trial.vars[key[1]] = ph
                else:
                    if isinstance(key[1], tuple):
                        d = dict(trial.heap[key[1][0]])
                        d[key[1][1]] = ph
                        trial.heap[key[1][0]] = d
                    else:
                        trial.heap[key[1]] = ph
            bind(bv, trial)
            lc = LoopCtx(len(self.pc))
            fr.loops.append(lc)
            nret = len(fr.returns)
            try:
                t2 = self.exec_block(s.body, trial, fr)
            finally:
                fr.loops.pop()
            rets = fr.returns[nret:]
            del fr.returns[nret:]
            for c, cs in reversed(lc.conts):
                t2 = self.merge(c, cs, t2) if t2 is not None else cs
            return t2, lc.breaks, rets

        def changed(t2, base):
            ks = []
            for k, v in t2.vars.items():
                if k in base.vars and k[0] != "g" and base.vars[k] is not v and k[1] not in tgt:
                    ks.append(("v", k))
                elif k not in base.vars and k[0] == fr.fid and k[1] not in tgt:
                    ks.append(("n", k))
            for k, v in t2.heap.items():
                if k in base.heap:
                    o = base.heap[k]
                    if o is v or o == v and not isinstance(v, Term):
                        continue
                    if isinstance(v, dict) and isinstance(o, dict):
                        for a in v:
                            if a not in o:
                                if self._lazy(v[a]):
                                    continue
                                ks.append(("h", (k, a)))
                            elif o[a] is not v[a]:
                                ks.append(("h", (k, a)))
                    else:
                        ks.append(("h", k))
            return ks

        snap = self.snapshot()
        t2, brks, rets = run({})
        self.restore(snap)
        if t2 is None or rets:
            self.havoc(s, st, fr, "loop exits by return")
            return st
        keys = changed(t2, pre)
        # placeholders
        inst = {}
        lists = {}
        for key in keys:
            if key[0] == "n":
                continue
            old = pre.vars[key[1]] if key[0] == "v" else (
                pre.heap[key[1][0]].get(key[1][1], UNBOUND) if isinstance(key[1], tuple) else pre.heap[key[1]])
            if key[0] == "v" and isinstance(old, Ref):
                # rebinding of an array variable: placeholder array
                ph = mk("carry", (), (self.new(), str(key[1])), pre.heap[old.loc].axes if isinstance(pre.heap[old.loc], Term) else ())
                inst[key] = ("ref", ph, old)
            elif isinstance(old, Term):
                ph = mk("carry", (), (self.new(), str(key[1])), old.axes)
                inst[key] = ("term", ph, old)
            elif isinstance(old, tuple):
                inst[key] = ("list", None, old)
            elif old is UNBOUND:
                continue
            else:
                inst[key] = ("other", None, old)
        if any(v[0] == "other" for v in inst.values()):
            self.havoc(s, st, fr, "loop-carried object")
            return st

        def placeholders(closed):
            d = {}
            for key, (kind, ph, old) in inst.items():
                if key in closed:
                    d[key] = closed[key]
                elif kind == "ref":
                    r = Ref(self.new())
                    pre.heap[r.loc] = ph
                    d[key] = r
                elif kind == "term":
                    d[key] = ph
                # lists keep their content (append detection by length)
            return d

        closed = {}
        for rnd in range(3):
            snap = self.snapshot()
            t2, brks, rets = run(placeholders(closed))
            if t2 is None or rets:
                self.restore(snap)
                self.havoc(s, st, fr, "loop")
                return st
            newc = {}
            for key, (kind, ph, old) in inst.items():
                if key in closed or kind != "term":
                    continue
                v = self._after(t2, key)
                if isinstance(v, Term):
                    d = _addend(v, ph)
                    if d is not None and not _has(d, {i[1] for i in inst.values() if i[1] is not None}) and bv not in set(subterms(d)) and not d.axes and const_int(d) is not None:
                        newc[key] = B.add(old, B.mul(bv, d))
            if newc and rnd < 2:
                closed.update(newc)
                self.restore(snap)
                continue
            break
        phs = {v[1] for v in inst.values() if v[1] is not None}
        out = pre.copy()
        res = {}
        for key in keys:
            kind, ph, old = inst.get(key, ("new", None, None))
            v = self._after(t2, key)
            if kind == "list":
                base_items = old
                cur = self._after(t2, key)
                if isinstance(cur, tuple) and len(cur) == len(base_items) + 1 and all(a is b for a, b in zip(cur, base_items)) and not base_items and not brks:
                    el = self.term(t2, cur[-1])
                    if not _has(el, phs):
                        res[key] = ("raw", self.mkmap(n, el, bv))
                        continue
                res[key] = ("raw", unknown("list in loop"))
                continue
            tv = self.term(t2, v) if v is not UNBOUND else unknown("unbound")
            if isinstance(v, (FuncV, BuiltinV, ModV, ClassV, SliceV, TupleV, ListV, ObjV, DictV, OpaqueV)):
                if isinstance(v, (FuncV, BuiltinV, ModV, ClassV)):
                    res[key] = ("val", v)
                    continue
                if isinstance(v, TupleV):
                    its = []
                    for x in v.items:
                        tx = self.term(t2, x)
                        its.append(unknown("loop tuple") if _has(tx, phs) or brks else B.subst(tx, {bv: B.sub(n, ONE)}))
                    res[key] = ("val", TupleV([self.val(out, x) for x in its]))
                    continue
                res[key] = ("val", unknown("loop object"))
                continue
            if brks:
                if kind == "new" or not _has(tv, phs):
                    # value at first break or last iteration
                    bcs = [c for c, _ in brks]
                    bstate = brks[0][1]
                    bvv = self._after(bstate, key)
                    bt = self.term(bstate, bvv) if bvv is not UNBOUND else unknown("unbound at break")
                    cterm = B.or_(*bcs)
                    if len(brks) == 1 and bt is tv and not _has(cterm, phs):
                        r = B.binder("search", n, (cterm, tv), bv, tv.axes)
                        if kind != "new" and self.nonempty(n) is not True:
                            # no iteration: the value before the loop (its array
                            # lengths may differ, so no alignment of axes here)
                            o = old if isinstance(old, Term) else pre.heap[old.loc]
                            r = mk("ite", (B.cmp("<", ZERO, n), r, o), None, r.axes)
                        res[key] = ("t", r)
                        continue
                res[key] = ("t", unknown("loop with break", tv.axes))
                continue
            own = ph
            if kind == "new" or not _has(tv, phs):
                if kind in ("new",):
                    res[key] = ("t", self._last(tv, n, bv))
                else:
                    res[key] = ("t", B.ite(B.cmp("<", ZERO, n), self._last(tv, n, bv), old if isinstance(old, Term) else pre.heap[old.loc]))
                continue
            if key in closed:
                res[key] = ("t", B.subst(closed[key], {bv: n}))
                continue
            init = old if isinstance(old, Term) else pre.heap[old.loc]
            d = _addend(tv, own)
            if d is not None and not _has(d, phs):
                res[key] = ("t", B.add(init, B.bigsum(n, d, bv)))
                continue
            d = _cond_addend(tv, own)
            if d is not None and not _has(d, phs):
                res[key] = ("t", B.add(init, B.bigsum(n, d, bv)))
                continue
            d = _factor(tv, own)
            if d is not None and not _has(d, phs):
                res[key] = ("t", B.mul(init, B.binder("bigprod", n, (d,), bv, d.axes)))
                continue
            if tv.op in ("max", "min") and own in tv.args:
                rest = [a for a in tv.args if a is not own]
                if not any(_has(a, phs) for a in rest):
                    body = B._mm(tv.op, rest)
                    agg = mk("amax" if tv.op == "max" else "amin", (B.binder("map", n, (body,), bv, (axis_n(n),)),), None, ())
                    res[key] = ("t", B._mm(tv.op, [init, agg]))
                    continue
            if tv.op == "setidx" and tv.args[0] is own and not _has(tv.args[1], phs) and not _has(tv.args[2], phs):
                k, val = tv.args[1], tv.args[2]
                dimn = axis_dim(init.axes[0]) if init.axes else None
                if k is bv and dimn is not None and (dimn is n or (const_int(dimn) is not None and const_int(dimn) == const_int(n)) or self._same(dimn, n)):
                    res[key] = ("t", self.mkmap(n, val, bv))
                    continue
                res[key] = ("t", unknown("partial array fill", init.axes))
                continue
            res[key] = ("t", unknown("loop-carried value", tv.axes))
        # write back
        empty_possible = not (const_int(n) is not None and const_int(n) > 0)
        for key, r in res.items():
            kind, ph, old = inst.get(key, ("new", None, None))
            v = r[1]
            if key[0] in ("v", "n"):
                if r[0] == "t":
                    v = self.val(out, v, force_ref=isinstance(old, Ref))
                if key[0] == "n" and empty_possible:
                    v = CondV(B.cmp("<", ZERO, n), v, UNBOUND) if self.nonempty(n) is not True else v
                out.vars[key[1]] = v
            else:
                if r[0] == "t" and isinstance(key[1], tuple):
                    v = self.val(out, v)
                if isinstance(key[1], tuple):
                    d = dict(out.heap[key[1][0]])
                    d[key[1][1]] = v
                    out.heap[key[1][0]] = d
                else:
                    out.heap[key[1]] = v
        # lazily created symbolic attributes survive
        for k, v in t2.heap.items():
            if k not in out.heap:
                out.heap[k] = v
        if tgt and isinstance(s, ast.For):
            try:
                bind(B.sub(n, ONE), out)
            except Exception:
                pass
        return out

    def _same(self, a, b):
        from . import nf
        try:
            return nf.equal(a, b) is True
        except Exception:
            return False

    def _lazy(self, v):
        return True

    def nonempty(self, n):
        """is n >= 1 known?"""
        c = const_int(n)
        if c is not None:
            return c > 0
        hook = self.flags.get("nonempty")
        if hook:
            return hook(n)
        return None

    def _last(self, tv, n, bv):
        return B.subst(tv, {bv: B.sub(n, ONE)})

    def _after(self, st, key):
        if key[0] in ("v", "n"):
            return st.vars.get(key[1], UNBOUND)
        if isinstance(key[1], tuple):
            return st.heap[key[1][0]].get(key[1][1], UNBOUND)
        return st.heap[key[1]]

    # -------------------------------------------------------------- expressions
    def eval(self, e, st, fr):
        self.steps += 1
        ln = getattr(e, "lineno", None)
        if ln is not None:
            self.nodeloc.append(ln)
        try:
            m = getattr(self, "e_" + type(e).__name__, None)
            if m is None:
                self.effect("unsupported", type(e).__name__)
                return unknown(type(e).__name__)
            v = m(e, st, fr)
            return v
        finally:
            if ln is not None:
                self.nodeloc.pop()

    def e_Constant(self, e, st, fr):
        v = e.value
        if v is None:
            return NONE
        if isinstance(v, bool):
            return TRUE if v else FALSE
        if isinstance(v, (int,)):
            return num(v)
        if isinstance(v, float):
            seg = ast.get_source_segment(fr.mod.src, e) if False else None
            return num(v)
        if isinstance(v, complex):
            return B.add(num(v.real), B.mul(num(v.imag), IMAG))
        if isinstance(v, str):
            return string(v)
        if v is Ellipsis:
            return ELLIPSIS
        return unknown("constant")

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for p in e.values:
            if isinstance(p, ast.Constant):
                parts.append(string(p.value))
            else:
                v = self.eval(p.value, st, fr)
                fs = ast.unparse(p.format_spec) if p.format_spec else None
                parts.append(self.lib.to_str(self, v, st, fs))
        return B.strcat(parts)

    def e_Name(self, e, st, fr):
        return self.name(e.id, st, fr, e)

    def name(self, nme, st, fr, node=None):
        if nme in fr.globals and ("g", fr.mod.name, nme) in st.vars:
            return st.vars[("g", fr.mod.name, nme)]
        if fr.locals is not None and nme in fr.locals:
            if (fr.fid, nme) in st.vars:
                v = st.vars[(fr.fid, nme)]
            else:
                v = UNBOUND
            return self.check_bound(v, nme, st)
        for fid in fr.chain:
            if (fid, nme) in st.vars:
                return self.check_bound(st.vars[(fid, nme)], nme, st)
            if (fid, nme) in self.gstate().vars:
                # closed over at import
                return self.held(self.gstate().vars[(fid, nme)], st)
        if ("g", fr.mod.name, nme) in st.vars:
            return st.vars[("g", fr.mod.name, nme)]
        v = self.module_name(fr.mod, nme, st)
        if v is not None:
            return self.held(v, st)
        if nme == "__file__":
            return mk("file", (), self.lib.modfile(fr.mod))
        b = self.lib.builtin_name(nme)
        if b is not None:
            return b
        self.effect("name-error", nme)
        return unknown("undefined name " + nme)

    def held(self, v, st):
        if isinstance(v, (Ref, ListV, DictV)) and v.loc not in st.heap:
            st.heap[v.loc] = self.gstate().heap.get(v.loc, unknown("global"))
        if isinstance(v, ObjV) and v.loc not in st.heap:
            st.heap[v.loc] = dict(self.gstate().heap.get(v.loc, {}))
        return v

    def check_bound(self, v, nme, st):
        if v is UNBOUND:
            self.effect("unbound", nme)
            return unknown("unbound " + nme)
        if isinstance(v, CondV) and (v.a is UNBOUND or v.b is UNBOUND):
            missing = B.not_(v.c) if v.b is UNBOUND else v.c
            if self.decide(missing) is not FALSE:
                self.effect("unbound", nme, cond=B.and_(self.cond(), missing))
            return self.check_bound(v.a if v.b is UNBOUND else v.b, nme, st)
        return v

    def e_NamedExpr(self, e, st, fr):
        v = self.eval(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Attribute(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.getattr(o, e.attr, st)

    def e_Tuple(self, e, st, fr):
        return TupleV(self._elts(e.elts, st, fr))

    def _elts(self, elts, st, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, st, fr)
                its = self.items(st, v)
                if its is None:
                    it = self.to_iter(v, st)
                    its = it.concrete if it is not None and it.concrete is not None else [unknown("*")]
                out += its
            else:
                out.append(self.eval(x, st, fr))
        return out

    def e_List(self, e, st, fr):
        return self.mklist(st, self._elts(e.elts, st, fr))

    def e_Set(self, e, st, fr):
        return self.mklist(st, self._elts(e.elts, st, fr))

    def e_Dict(self, e, st, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                o = self.eval(v, st, fr)
                if isinstance(o, DictV) and isinstance(st.heap[o.loc], dict):
                    d.update(st.heap[o.loc])
                continue
            kk = _term2key(self.eval(k, st, fr))
            d[kk] = self.eval(v, st, fr)
        loc = self.new()
        st.heap[loc] = d
        return DictV(loc)

    def e_Lambda(self, e, st, fr):
        return self.make_func(e, fr.mod, fr.chain, st)

    def e_IfExp(self, e, st, fr):
        c = self.decide(self.truth(self.eval(e.test, st, fr), st))
        if c is TRUE:
            return self.eval(e.body, st, fr)
        if c is FALSE:
            return self.eval(e.orelse, st, fr)
        sa, sb = st.copy(), st.copy()
        self.pc.append(c)
        a = self.eval(e.body, sa, fr)
        self.pc[-1] = B.not_(c)
        b = self.eval(e.orelse, sb, fr)
        self.pc.pop()
        out = self.merge(c, sa, sb)
        r = self.merge_val(c, a, b, sa, sb, out)
        st.vars, st.heap = out.vars, out.heap
        return r

    def e_BoolOp(self, e, st, fr):
        isand = isinstance(e.op, ast.And)
        vals = []
        acc = None
        pushed = 0
        out = None
        firsts = []
        for x in e.values:
            v = self.eval(x, st, fr)
            t = self.truth(v, st)
            firsts.append((v, t))
            self.pc.append(t if isand else B.not_(t))
            pushed += 1
        for _ in range(pushed):
            self.pc.pop()
        ts = [t for _, t in firsts]
        # value semantics: `x or default` returns operands
        if all(isinstance(v, Term) and _boolish(v) for v, _ in firsts):
            return B.and_(*ts) if isand else B.or_(*ts)
        r = firsts[-1][0]
        for v, t in reversed(firsts[:-1]):
            if isand:
                r = self.merge_val(t, r, v, st, st, st)
            else:
                r = self.merge_val(t, v, r, st, st, st)
        return r

    def e_UnaryOp(self, e, st, fr):
        v = self.eval(e.operand, st, fr)
        if isinstance(e.op, ast.Not):
            return B.not_(self.truth(v, st))
        t = self.term(st, v)
        if isinstance(e.op, ast.USub):
            return self.val(st, B.neg(t))
        if isinstance(e.op, ast.UAdd):
            return self.val(st, t)
        if isinstance(e.op, ast.Invert):
            return self.val(st, B.not_(t))
        return unknown("unary")

    def e_BinOp(self, e, st, fr):
        a = self.eval(e.left, st, fr)
        b = self.eval(e.right, st, fr)
        return self.binop(type(e.op).__name__, a, b, st)

    def binop(self, op, a, b, st):
        return self.lib.binop_values(self, op, a, b, st)

    def e_Compare(self, e, st, fr):
        left = self.eval(e.left, st, fr)
        out = []
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, st, fr)
            out.append(self.lib.compare(self, type(op).__name__, left, right, st))
            left = right
        if len(out) == 1:
            t = out[0]
            return self.val(st, t) if isinstance(t, Term) else t
        return self.val(st, B.and_(*[self.term(st, o) for o in out]))

    def e_Call(self, e, st, fr):
        # super().__init__(...)
        if isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Call) and isinstance(e.func.value.func, ast.Name) and e.func.value.func.id == "super":
            cls = getattr(fr, "cls", None)
            if cls is not None:
                selfv = st.vars.get((fr.fid, fr_first(fr)))
                for b in cls.bases:
                    if e.func.attr in b.members:
                        args, kw = self.args(e, st, fr)
                        return self.call_func(self.bind(b.members[e.func.attr], st.vars[(fr.fid, "self")]), args, kw, st)
                self.args(e, st, fr)
                return NONE
        fn = self.eval(e.func, st, fr)
        args, kw = self.args(e, st, fr)
        if isinstance(fn, (FuncV, ClassV, BuiltinV)):
            self.call_log.append((fr.fn, fr.mod.path, e.lineno, fn, args, kw))
        return self.call(fn, args, kw, st, e)

    def args(self, e, st, fr):
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.eval(a.value, st, fr)
                its = self.items(st, v)
                if its is None:
                    t = self.term(st, v)
                    if t.axes and const_int(axis_dim(t.axes[0])) is not None and const_int(axis_dim(t.axes[0])) <= 16:
                        its = [self.val(st, B.idx(t, num(i), t.axes[0])) for i in range(const_int(axis_dim(t.axes[0])))]
                    else:
                        its = [unknown("*args")]
                args += its
            else:
                args.append(self.eval(a, st, fr))
        kw = {}
        for k in e.keywords:
            v = self.eval(k.value, st, fr)
            if k.arg is None:
                if isinstance(v, DictV) and isinstance(st.heap[v.loc], dict):
                    for kk, vv in st.heap[v.loc].items():
                        kw[kk if isinstance(kk, str) else str(kk)] = vv
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def e_Starred(self, e, st, fr):
        return self.eval(e.value, st, fr)

    def e_Slice(self, e, st, fr):
        f = lambda x: NONE if x is None else self.eval(x, st, fr)
        return SliceV(f(e.lower), f(e.upper), f(e.step))

    def e_Subscript(self, e, st, fr):
        o = self.eval(e.value, st, fr)
        return self.getitem(o, e.slice, st, fr)

    def getitem(self, o, sl, st, fr):
        ix = self.eval(sl, st, fr)
        return self.lib.getitem(self, o, ix, st)

    def setitem(self, o, sl, v, st, fr):
        ix = self.eval(sl, st, fr)
        return self.lib.setitem(self, o, ix, v, st)

    # comprehensions
    def e_ListComp(self, e, st, fr):
        return self.comp(e, e.elt, st, fr)

    e_GeneratorExp = e_ListComp
    e_SetComp = e_ListComp

    def e_DictComp(self, e, st, fr):
        g = e.generators[0]
        it = self.to_iter(self.eval(g.iter, st, fr), st)
        if len(e.generators) > 1 or it is None or it.concrete is None or g.ifs:
            return unknown("dict comprehension")
        f2 = self.compframe(fr)
        d = {}
        for x in it.concrete:
            self.assign(g.target, x, st, f2)
            d[_term2key(self.eval(e.key, st, f2))] = self.eval(e.value, st, f2)
        loc = self.new()
        st.heap[loc] = d
        return DictV(loc)

    def compframe(self, fr):
        fid = self.new()
        f2 = Frame(fid, fr.fn, fr.mod, (fid,) + tuple(fr.chain))
        f2.locals = None
        f2.globals = fr.globals
        f2.pcbase = fr.pcbase
        f2.loops = fr.loops
        f2.cls = getattr(fr, "cls", None)
        return f2

    def comp(self, e, elt, st, fr):
        f2 = self.compframe(fr)

        def go(gens):
            if not gens:
                return [("one", self.eval(elt, st, f2))]
            g = gens[0]
            it = self.to_iter(self.eval(g.iter, st, f2), st)
            if it is None:
                return None
            if it.concrete is not None:
                out = []
                for x in it.concrete:
                    self.assign(g.target, x, st, f2)
                    cs = [self.truth(self.eval(c, st, f2), st) for c in g.ifs]
                    c = B.and_(*cs) if cs else TRUE
                    if c is FALSE:
                        continue
                    if c is not TRUE:
                        return self._comp_filter(e, elt, g, it, gens, st, f2)
                    sub = go(gens[1:])
                    if sub is None or (sub and sub[0][0] == "map"):
                        return None
                    out += sub
                return out
            if g.ifs and len(gens) == 1:
                return self._comp_filter(e, elt, g, it, gens, st, f2)
            if g.ifs or len(gens) > 1:
                return None
            bv = B.fresh_bv()
            self.assign(g.target, it.elem(bv), st, f2)
            v = self.eval(elt, st, f2)
            if isinstance(v, TupleV):
                return None
            return [("map", self.mkmap(it.n, self.term(st, v), bv))]

        r = go(e.generators)
        if r is None:
            return unknown("comprehension")
        if r and r[0][0] == "map":
            loc = self.new()
            st.heap[loc] = r[0][1]
            return ListV(loc, "list")
        return self.mklist(st, [x[1] for x in r])

    def _comp_filter(self, e, elt, g, it, gens, st, f2):
        """[f(x) for x in xs if p(x)]: the rows where p holds of the mapped array"""
        if len(gens) > 1:
            return None
        if it.concrete is not None:
            ts = [self.term(st, x) for x in it.concrete if isinstance(x, (Term, Ref))]
            if len(ts) != len(it.concrete) or not ts or any(t.unk or t.axes for t in ts):
                return None
            arr = B.arr(ts)
            n, elem = num(len(ts)), (lambda k: B.idx(arr, k, arr.axes[0]))
        else:
            n, elem = it.n, it.elem
        bv = B.fresh_bv()
        x = elem(bv)
        self.assign(g.target, x, st, f2)
        cs = [self.truth(self.eval(c, st, f2), st) for c in g.ifs]
        c = B.and_(*cs)
        v = self.term(st, self.eval(elt, st, f2))
        if c.unk or v.unk:
            return None
        src = self.term(st, x)
        m = self.mkmap(n, c, bv)
        if src.op == "idx" and src.args[1] is bv and not src.axes and bv not in set(subterms(src.args[0])):
            m = B.unmap(src.args[0], src, c, bv) or m
        a = self.mkmap(n, v, bv)
        if a.axes[0] != m.axes[0]:
            if axis_dim(a.axes[0]) is not axis_dim(m.axes[0]) and not (a.axes[0][0] == "n" or m.axes[0][0] == "n"):
                return None
            m = B.rename(m, {m.axes[0]: a.axes[0]})
        return [("map", B.filt(a, m, a.axes[0]))]

    # -------------------------------------------------------------- truthiness
    def truth(self, v, st):
        if isinstance(v, Term):
            if v in (TRUE, FALSE):
                return v
            if v is NONE:
                return FALSE
            if v.op == "num":
                return TRUE if v.data != 0 else FALSE
            if v.op == "str":
                return TRUE if v.data else FALSE
            if _boolish(v):
                return v
            if v.op == "ite":
                return B.ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
            if v.unk:
                return mk("truth", (v,))
            return B.cmp("!=", v, ZERO)
        if isinstance(v, Ref):
            t = self.term(st, v)
            if not t.axes:
                return self.truth(t, st)
            return mk("truth", (t,))
        if isinstance(v, (TupleV, ListV)):
            it = self.items(st, v)
            if it is not None:
                return TRUE if it else FALSE
            return mk("truth", (unknown("list truth"),))
        if isinstance(v, DictV):
            d = st.heap[v.loc]
            return (TRUE if d else FALSE) if isinstance(d, dict) else mk("truth", (unknown("dict truth"),))
        if isinstance(v, CondV):
            return B.ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        if isinstance(v, (FuncV, ClassV, ModV, ObjV, BuiltinV, OpaqueV)):
            return TRUE
        return mk("truth", (unknown("truth"),))


def fr_first(fr):
    return "self"


def _boolish(t):
    if t.op in ("true", "false", "eq", "lt", "le", "not", "isnan", "isfinite", "truth", "exc", "isfile", "anyred", "allred", "isclose"):
        return True
    if t.op in ("and", "or"):
        return all(_boolish(a) for a in t.args)
    if t.op == "ite":
        return _boolish(t.args[1]) and _boolish(t.args[2])
    if t.op == "sym":
        return t.data[1] == "bool"
    return False


def _al(ts):
    from .terms import align
    return align(ts)


def _has(t, phs):
    if not phs:
        return False
    for x in subterms(t):
        if x in phs:
            return True
    return False


def _addends(t):
    if t.op == "add":
        return _addends(t.args[0]) + _addends(t.args[1])
    return [t]


def _addend(t, ph):
    """t = ph + d -> d"""
    if ph is None:
        return None
    parts = _addends(t)
    own = [p for p in parts if p is ph or (p.op == "bc" and p.args[0] is ph)]
    if len(own) != 1:
        return None
    rest = [p for p in parts if p not in own]
    if any(_has(p, {ph}) for p in rest):
        return None
    r = ZERO
    for p in rest:
        r = B.add(r, p)
    return r


def _cond_addend(t, ph):
    """t = ite(c, ph + d, ph) etc."""
    if t is ph:
        return ZERO
    if t.op == "ite" and not _has(t.args[0], {ph}):
        a, b = _cond_addend(t.args[1], ph), _cond_addend(t.args[2], ph)
        if a is not None and b is not None:
            return B.ite(t.args[0], a, b)
    return _addend(t, ph)


def _factors(t):
    if t.op == "mul":
        return _factors(t.args[0]) + _factors(t.args[1])
    return [t]


def _factor(t, ph):
    parts = _factors(t)
    own = [p for p in parts if p is ph]
    if len(own) != 1:
        return None
    rest = [p for p in parts if p is not ph]
    if any(_has(p, {ph}) for p in rest):
        return None
    r = ONE
    for p in rest:
        r = B.mul(r, p)
    return r


def _walk_own(node):
    """walk a function body without nested functions"""
    st = list(node.body) if isinstance(node.body, list) else [node.body]
    while st:
        x = st.pop()
        yield x
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
            # targets are local to the comprehension
            for g in x.generators:
                st.append(g.iter)
            continue
        st.extend(ast.iter_child_nodes(x))


def _term2key(v):
    if isinstance(v, Term):
        if v.op == "str":
            return v.data
        if v.op == "num":
            return v.data
    return v


def _key2term(k):
    if isinstance(k, str):
        return string(k)
    if isinstance(k, (int, Fraction)):
        return num(k)
    if isinstance(k, tuple) and k and k[0] == "k":
        return k[1][0] if len(k[1]) == 1 else TupleV(k[1])
    return k


def _catches(names, exc):
    for n in names:
        if n in ("*", "Exception", "BaseException", exc):
            return True
        if n == "ImportError" and exc == "ModuleNotFoundError":
            return True
        if n == "LookupError" and exc in ("IndexError", "KeyError"):
            return True
        if n == "ArithmeticError" and exc == "ZeroDivisionError":
            return True
    return False
