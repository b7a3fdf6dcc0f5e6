"""Obligations on what the public functions do besides returning a value:
writes to the caller's data, hidden state, randomness, OpenCV, warnings and
errors, completeness of results, plots, constants, use of every parameter."""
import ast
import os
import time

from .. import build as B
from .. import harness as H
from .. import nf
from ..api import GE, METRICS, MF, NO, OF, RANGES, REFI, RF, SCEN, SENSOR, SF, SIG, UT, arg, args, kinds, names
from ..harness import REPO
from ..interp import ClassV, CondV, DictV, FuncV, ListV, ObjV, Ref, TupleV, UNBOUND
from ..obs import PROVED, UNDECIDED, VIOLATED, prop
from ..terms import FALSE, ONE, TRUE, Term, ZERO, const_int, mk, num, show, subterms, sym, unknown
from .p_sim import ctor_args

CTORS = (SENSOR, SCEN, REFI, METRICS)


def entries():
    """every public entry point: label, callable of a session giving the call"""
    for fn in SIG:
        yield fn, fn
    for k in CTORS:
        yield k, k
    yield REFI + ".estimate_capture_parameters", "method"
    yield REFI + ".show", "method"
    yield SCEN + ".atm", "property"


def parameters(S, fn, suffix=""):
    """symbolic arguments of one entry point"""
    if fn in SIG:
        return [(n, arg(S, n + suffix if k not in ("g",) or not suffix else n + suffix, k)) for n, k in (p.split(":") for p in SIG[fn].split())]
    if fn == METRICS:
        return [("name", S.sym("name" + suffix, "str"))]
    if fn in CTORS:
        out = []
        for n, v in ctor_args(S, fn):
            if suffix:
                kind, axes = {SENSOR: H.SENSOR, SCEN: H.SCENARIO, REFI: H.REFIMAGE}[fn][n]
                v = S.sym(n + suffix, kind, axes)
            out.append((n, v))
        return out
    ob = S.obj(REFI if fn.startswith(REFI) else SCEN, "self" + suffix)
    if fn.endswith("estimate_capture_parameters"):
        return [("self", ob), ("altitude", S.sym("altitude" + suffix, "pos"))]
    return [("self", ob)]


def perform(c, S, fn, params, base=None):
    if fn in SIG or fn in CTORS:
        return c.call(S, fn, *[v for _, v in params], base=base)
    ob, rest = params[0][1], [v for _, v in params[1:]]
    if fn.endswith(".atm"):
        # a property: read through a wrapper so that its effects are collected
        st0, e0, r0 = S.st, len(S.I.effects), list(S.I.raised)
        S.st = (base or st0).copy()
        S.I.raised = []
        try:
            from ..obs import Out
            v = S.I.getattr(ob, "atm", S.st)
            return Out(S, fn, v, S.st, S.I.effects[e0:], list(S.I.raised))
        finally:
            S.st, S.I.raised = st0, r0
    return c.call(S, S.get(ob, fn.split(".")[-1]), *rest, base=base)


def own_database(fn):
    return fn.startswith(UT) or fn.endswith(".atm")


def explore(c, fn, suffix=""):
    S = c.session(atm=not own_database(fn))
    p = parameters(S, fn, suffix)
    return S, p, perform(c, S, fn, p)


def short(fn):
    return fn.split(".", 1)[1].replace("functional.", "")


def site(e):
    return "%s:%s" % (e.file, e.line) if e.line else str(e.what)


# ---------------------------------------------------------------- C21
@prop("C21")
def c21(c):
    rule = "no store reaches an object the caller passed"

    def one(fn):
        S, p, o = explore(c, fn)
        n = 0
        hit = False
        for e in o.effects:
            if e.kind == "mutate" and str(e.what).startswith("param:"):
                what = "contents of %s changed (%s)" % (e.what[6:], e.data)
            elif e.kind == "setattr" and str(e.data[0]).startswith("param:"):
                root, attr = e.data[0][6:], e.data[1]
                if attr == "_atm" and any(f.endswith("Scenario.atm") for f in e.stack + (e.func,)) or attr == "_atm" and fn.endswith(".atm"):
                    continue  # the scenario's own memo (C20)
                known = any(attr.lstrip("_") in d for d in (H.SENSOR, H.SCENARIO, H.REFIMAGE)) or not attr.startswith("_")
                if not known:
                    c.add("%s: hidden attribute %s.%s" % (short(fn), root, attr), UNDECIDED, site(e), rule, "an undocumented attribute is stored on an argument")
                    continue
                what = "attribute %s.%s changed" % (root, attr)
            else:
                continue
            hit = True
            c.never("%s: %s" % (short(fn), what), B.and_(e.cond, TRUE), site(e), rule, detail=what)
        unk = [e for e in o.effects if e.kind in ("unknown-call", "unknown-store", "unsupported")]
        if not hit:
            c.sites += max(1, len(p))
            c.add(short(fn), UNDECIDED if unk else PROVED, fn, rule, "; ".join("%s %s at %s" % (e.kind, e.what, site(e)) for e in unk[:3]) or
                  "%d arguments, %d stores" % (len(p), sum(e.kind in ("mutate", "setattr") for e in o.effects)))
    for fn, _ in entries():
        c.group(short(fn), one, fn)


# ---------------------------------------------------------------- C22
AMBIENT = ("time.", "datetime.", "os.environ", "os.getenv", "os.urandom", "random", "secrets.", "uuid.")


def flat(S, o, v=None, path="", depth=0, st=None):
    """all values inside a result: (path, term); `st`: as found in a later state"""
    v = o.v if depth == 0 and path == "" else v
    st = st or o.st
    if isinstance(v, TupleV) or isinstance(v, ListV) and S.I.items(st, v) is not None:
        out = []
        for i, x in enumerate(S.I.items(st, v)):
            out += flat(S, o, x, path + "[%d]" % i, depth + 1, st)
        return out
    if isinstance(v, ObjV):
        d = st.heap.get(v.loc)
        if depth > 3 or not isinstance(d, dict):
            return []
        out = []
        for k in sorted(d, key=str):
            out += flat(S, o, d[k], path + "." + str(k), depth + 1, st)
        return out
    if isinstance(v, ClassV):
        out = []
        for k in sorted((k[2] for k in st.vars if isinstance(k, tuple) and k[:2] == ("g", v.qual)), key=str):
            out += flat(S, o, st.vars[("g", v.qual, k)], path + "." + str(k), depth + 1, st)
        return out
    if v is UNBOUND:
        return []
    if isinstance(v, CondV) and (v.a is UNBOUND or v.b is UNBOUND):
        return flat(S, o, v.a if v.b is UNBOUND else v.b, path, depth + 1, st)
    if isinstance(v, CondV) and isinstance(v.a, ObjV) and isinstance(v.b, ObjV):
        return flat(S, o, v.a, path, depth + 1, st) + flat(S, o, v.b, path, depth + 1, st)
    try:
        return [(path, S.I.term(st, v))]
    except Exception:
        return []


def nondeterminism(t):
    for x in subterms(t):
        if x.op == "draw":
            return "a random draw (%s)" % x.data[0]
        if x.op == "unknown" and str(x.data[0]).startswith(AMBIENT):
            return str(x.data[0])
    return None


@prop("C22")
def c22(c):
    def one(fn):
        S, p, o = explore(c, fn)
        r1 = "the result contains no value drawn from a clock, the environment or a random generator"
        if not fn.endswith("simulate_image"):
            vals = flat(S, o)
            bad = None
            for path, t in vals:
                w = nondeterminism(t)
                if w:
                    bad = "%s%s depends on %s" % (short(fn), path, w)
                    break
            src = [e for e in o.effects if e.kind in ("rng", "clock", "env")]
            c.fact(short(fn) + ": deterministic", False if bad else None if src else True, site(src[0]) if src else fn, r1, bad or "%d values" % len(vals))
        r2 = "no state that outlives the call is written"
        seeds = [e for e in o.effects if e.kind == "rng-seed"]
        for e in seeds[:1]:
            c.never(short(fn) + ": generator state", e.cond, site(e), "the global random generator is not reseeded", detail="the global generator is seeded by the library")
        kept = [e for e in o.effects if e.kind in ("global-write", "memo") or e.kind in ("mutate", "setattr") and str(e.what).startswith(("global:", "default:", "memo:"))]
        out = [e for e in o.effects if e.kind == "io-open"]
        if not kept and not seeds:
            unk = [e for e in o.effects if e.kind in ("unknown-call", "unknown-store", "unsupported")]
            c.fact(short(fn) + ": stateless", None if unk or out else True, fn, r2, "%d effects" % len(o.effects))
        elif kept:
            stateful.append((fn, kept, len(S.I.visited_funcs)))
    stateful = []
    for fn, _ in entries():
        c.group(short(fn), one, fn)
    # the smallest call graphs first: what they already show is not shown again through their callers
    stateful.sort(key=lambda x: x[2])
    t0 = time.time()
    for fn, kept, _ in stateful:
        if any(o["verdict"] == VIOLATED for o in c.obl) or time.time() - t0 > 240:
            c.add(short(fn) + ": earlier calls", UNDECIDED, site(kept[0]), "a call after any other call of the library returns what it returns on its own",
                  "not explored further")
            continue
        c.group(short(fn) + ": earlier calls", history, c, fn, kept, [f for f, _, _ in stateful])
    c.group("simulate_image draws", draws, c)
    c.group("module level", module_level, c)


def history(c, fn, kept, others):
    """the second of two calls returns what it returns when it is the first"""
    rule = "a call after any other call of the library returns what it returns on its own"
    where = site(kept[0])
    S = c.session(atm=fn.endswith(".atm") or not own_database(fn))
    S.I.flags["history"] = True
    if fn.endswith(".atm"):
        S.I.summaries.pop(SCEN + ".atm")

    def made(g, suffix):
        if g.endswith(".atm"):
            # a scenario as constructed: its memo is never an arbitrary array
            return [("self", S.I.call(S.look(SCEN), [v for _, v in parameters(S, SCEN, suffix)], {}, S.st))]
        return parameters(S, g, suffix)
    second = made(fn, "_2")
    alone = perform(c, S, fn, second)
    for g in [fn] + [x for x in others if x != fn][:4]:
        if any(o["verdict"] == VIOLATED for o in c.obl):
            break
        first = made(g, "_1")
        o1 = perform(c, S, g, first)
        o2 = perform(c, S, fn, second, base=o1.st)
        a, b = dict(flat(S, alone)), dict(flat(S, o2))
        lab = "%s after %s" % (short(fn), short(g))
        if set(a) != set(b):
            c.add(lab, UNDECIDED, where, rule, "results of different shape")
            continue
        for path in sorted(a):
            x, y = a[path], b[path]
            al = dict((z, y2) for z, y2 in zip(y.axes, x.axes)) if len(x.axes) == len(y.axes) else {}
            c.eq(lab + path, B.rename(y, al) if al else y, x, where, rule, count=60)
        # what the first call returned is not changed by the second
        was, now = dict(flat(S, o1)), dict(flat(S, o1, st=o2.st))
        if any(o["verdict"] == VIOLATED for o in c.obl):
            break
        for path in sorted(was):
            if path in now and now[path] is not was[path] and now[path].axes == was[path].axes:
                c.eq("%s, its result after %s%s" % (short(g), short(fn), path), now[path], was[path], where,
                     "a result keeps its value when the library is called again", count=20)
        if g == fn:
            handed(c, S, fn, first, where)
        # what an earlier call left must not be changed by this one
    for e in kept:
        if e.kind == "mutate" and str(e.what).startswith("memo:"):
            c.never(short(fn) + ": cached result", e.cond, site(e), "no store reaches a value kept for later calls", detail="a cached result is modified in place")


def handed(c, S, fn, first, where):
    """a caller who edits a result does not change what later calls return"""
    rule = "a later call does not answer from an array the caller was given"
    o1 = perform(c, S, fn, first)
    for o in (o1, perform(c, S, fn, first, base=o1.st)):
        kept = reachable(S, o.st)
        for path, r in results(S, o.st, o.v):
            t = o.st.heap.get(r.loc)
            if r.loc not in kept or not isinstance(t, Term) or t.unk:
                continue
            st = o.st.copy()
            st.heap[r.loc] = sym("edited", t.axes, "real")
            again = perform(c, S, fn, first, base=st)
            for q, x in flat(S, again):
                if any(y.op == "sym" and y.data[0] == "edited" for y in subterms(x)):
                    frozen = any(w in m.src for m in S.I.w.mods.values() if m is not None for w in ("writeable", "setflags"))
                    c.fact("%s: result%s is the caller's own" % (short(fn), path), None if frozen else False, where, rule,
                           "the array returned is kept for later calls: a caller who edits it changes what they return")
                    return


def results(S, st, v, path="", depth=0):
    """arrays inside a result"""
    if isinstance(v, Ref):
        t = st.heap.get(v.loc)
        if isinstance(t, Term) and t.axes:
            yield path, v
        if v.base is not None:
            yield from results(S, st, v.base, path, depth + 1)
    elif isinstance(v, CondV):
        for x in (v.a, v.b):
            yield from results(S, st, x, path, depth + 1)
    elif isinstance(v, (TupleV, ListV)) and depth < 4:
        for i, x in enumerate(S.I.items(st, v) or []):
            yield from results(S, st, x, path + "[%d]" % i, depth + 1)
    elif isinstance(v, ObjV) and depth < 4 and isinstance(st.heap.get(v.loc), dict):
        for k, x in st.heap[v.loc].items():
            yield from results(S, st, x, path + "." + str(k), depth + 1)


def reachable(S, st):
    """arrays held by state that outlives the call"""
    out, seen = set(), set()
    todo = [v for d in (st.vars, S.I.gstate().vars) for k, v in d.items() if isinstance(k, tuple) and k[0] == "g"]
    todo += [v for m in S.I.w.mods.values() if m is not None for v in m.values.values()]
    todo += [x for k, d in st.heap.items() if isinstance(k, str) and k.startswith("memo:") and isinstance(d, dict) for x in d.values()]
    while todo:
        v = todo.pop()
        if isinstance(v, CondV):
            todo += [v.a, v.b]
        elif isinstance(v, TupleV):
            todo += list(v.items)
        elif isinstance(v, ClassV) and v.qual not in seen:
            seen.add(v.qual)
            todo += list(v.members.values())
        elif isinstance(v, FuncV) and v.node not in seen:
            seen.add(v.node)
            todo += list(v.defaults)
        elif isinstance(v, Ref):
            out.add(v.loc)
            if v.base is not None:
                todo.append(v.base)
        elif isinstance(v, (ListV, DictV, ObjV)) and v.loc not in seen:
            seen.add(v.loc)
            h = st.heap.get(v.loc)
            todo += list(h.values()) if isinstance(h, dict) else list(h) if isinstance(h, tuple) else []
    return out


def draws(c):
    fn = SF + "simulate_image"
    S = c.session()
    S.modular([OF + "apply_otf_to_image"], raw=True)
    a = args(S, fn)
    o = c.call(S, fn, *a)
    for i, nm in enumerate(("true image", "blurred image")):
        t = o.term("[%d]" % i)
        w = nondeterminism(t)
        c.fact("simulate_image: %s deterministic" % nm, False if w else None if t.unk else True, fn, "no random draw in the noiseless and blurred images", w)
    t, blur = o.term("[2]"), o.term("[1]")
    ds = [x for x in subterms(t) if x.op == "draw"]
    made = [e for e in o.effects if e.kind == "rng" and B.and_(e.cond, TRUE) is not FALSE]
    rule = "one Poisson draw around the blurred image, then one Gaussian draw around it"
    if t.unk:
        c.add("simulate_image: draws", UNDECIDED, fn, rule, "not interpretable")
        return
    po = [x for x in ds if x.data[0] == "poisson"]
    no = [x for x in ds if x.data[0] == "normal"]
    c.fact("simulate_image: draws", len(ds) == 2 and len(po) == 1 and len(no) == 1, site(made[0]) if made else fn, rule, [x.data[0] for x in ds])
    c.fact("simulate_image: nothing else drawn", len(made) == len(ds), site(made[-1]) if made else fn, "every draw reaches the noisy image", [e.what for e in made])
    if len(po) == 1 and len(no) == 1:
        lam = po[0].args[0]
        if len(lam.axes) != len(blur.axes) or nf.equal(B.rename(lam, dict(zip(lam.axes, blur.axes))), blur):
            c.eq("simulate_image: photon noise around the blurred image", B.rename(lam, dict(zip(lam.axes, blur.axes))), blur, fn, rule, count=8)
        else:
            # the two images as unknowns, one pixel of each
            stand = {blur: sym("blurred_pixel", (), "nonneg"), o.term("[0]"): sym("ideal_pixel", (), "nonneg")}
            c.eq("simulate_image: photon noise around the blurred image", B.subst(lam, stand), stand[blur], fn, rule, count=20)
        z = sym("photons", po[0].axes, "nonneg")
        g = sym("gauss", no[0].axes, "real")
        mean = B.subst(no[0].args[0], {po[0]: z})
        rest = B.subst(t, {no[0]: g})
        # one generator call with mean = photon count, or zero mean added to it
        total = B.sub(B.subst(t, {no[0]: mk("add", (), None) if False else g, po[0]: z}), g)
        shift = B.add(total, mean) if total.axes == mean.axes or not mean.axes else total
        c.eq("simulate_image: zero-mean read noise", B.rename(shift, dict(zip(shift.axes, z.axes))), z, fn, rule, count=8)


def module_level(c):
    n, bad = 0, []
    for path, tree in sources():
        for s in tree.body:
            for x in ast.walk(s) if isinstance(s, (ast.Expr, ast.If, ast.Try, ast.With, ast.For)) else ():
                if isinstance(x, ast.Call):
                    n += 1
                    f = ast.unparse(x.func)
                    if f.startswith(("np.random.seed", "numpy.random.seed", "random.seed", "np.seterr", "numpy.seterr", "np.random.set_state")):
                        bad.append("%s:%d %s" % (path, x.lineno, f))
    c.sites += n
    c.fact("import leaves generators alone", not bad, bad[0].split(" ")[0] if bad else "src/pybsm", "no module seeds a generator when imported", bad or "%d module level calls" % n)


def sources():
    root = os.path.join(REPO, "src/pybsm")
    for d, _, fs in sorted(os.walk(root)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                with open(p) as h:
                    yield os.path.relpath(p, REPO), ast.parse(h.read())
