"""Obligations on the atmosphere database and the scenario's view of it."""
import csv
import os
import time

from mpmath import mpf

from .. import build as B
from .. import nf, rint
from ..api import RANGES, SCEN, SIG, UT, arg, args
from ..harness import REPO
from ..obs import PROVED, UNDECIDED, VIOLATED, prop
from ..rint import hsh
from ..terms import FALSE, ONE, TRUE, Term, ZERO, const_int, mk, num, show, subterms, sym
from .p_otf import returns, same

SA = "spec_atm."
NOI = UT + "load_database_atmosphere_no_interp"
INT = UT + "load_database_atmosphere"


# ---- one stored condition
# the latter ones are close to another: a tenth of a percent, or less than half a metre
ALTS = (2, 75, 1000, 2000, 4000, 8000, 16000, mpf("75.4"), mpf("1000.4"), 4002)
RNGS = (0, 100, 1000, 2000, 4000, 8000, 16000, 64000, mpf("100.4"), mpf("1000.4"), 8006)
NEAR = [(75, mpf("75.4")), (100, mpf("100.4")), (1000, mpf("1000.4")), (4000, 4002), (8000, 8006)]


def pick(name, xs):
    return lambda ev: mpf(xs[hsh(ev.seed, name) % len(xs)])


def other(xs, x, h, but):
    """another stored value: half of the time the nearest one"""
    ys = [y for y in xs if y != x and y not in but]
    for p in NEAR:
        if x in p and p[1 - p.index(x)] in ys:
            return mpf(p[1 - p.index(x)])
    return mpf(min(ys, key=lambda y: abs(y - x)) if h % 2 else ys[h // 2 % 5])


def decoder(present):
    """a database index holding (or lacking) the requested condition, among
    conditions that share one or two of its settings"""
    def f(ev, path):
        a, g, h = (ev.ev(sym(n, (), k)) for n, k in (("altitude", "pos"), ("ground_range", "nonneg"), ("ihaze", "int")))
        oa = other(ALTS, a, hsh(ev.seed, "oa"), ())
        og = other(RNGS, g, hsh(ev.seed, "og"), (a,))
        rows = []
        for x in (a, oa):
            for y in (g, og):
                for z in (h, 3 - h):
                    rows.append([x / 1000, y / 1000, z])
        rows += [[g / 1000, a / 1000, h], [a, g, h], [h, a / 1000, g / 1000], [oa / 1000, a / 1000, h]]
        if not present:
            rows = [r for r in rows if r != [a / 1000, g / 1000, h]]
        uniq = []
        for r in rows:
            if r not in uniq:
                uniq.append(r)
        uniq.sort(key=lambda r: hsh(ev.seed, path, str(r)))
        return [[mpf(17 + 3 * i), *r, rint.NAN] for i, r in enumerate(uniq)]
    return f


def stored(ev, path):
    """the files of the index entries, and no others, exist"""
    k = path.rpartition("/")[2]
    return k.endswith(".bin") and k[:-4].isdigit() and int(k[:-4]) >= 17 and (int(k[:-4]) - 17) % 3 == 0 and int(k[:-4]) < 17 + 36


def some_stored(ev, path):
    return hsh(ev.seed, "file", path) % 2 == 0


R19 = dict(RANGES, altitude=pick("altitude", ALTS), ground_range=pick("ground_range", RNGS), ihaze=pick("ihaze", (1, 2)))
R19["@csv"], R19["@bin"], R19["@isfile"] = decoder(True), 6855, stored


@prop("C19")
def c19(c):
    fn = NOI

    def columns():
        S = c.session(atm=False)
        a = args(S, fn)
        o, s = c.call(S, fn, *a), c.call(S, SA + "load_database_atmosphere_no_interp", *a)
        t = o.term()
        ok = None if t.unk else len(t.axes) == 2 and const_int(B.dim(t, 0)) == 1371 and const_int(B.dim(t, 1)) == 6
        c.fact("table shape", ok, fn, "1371 wavelengths by wavelength, transmission and four radiances", str(t.axes)[:200])
        if ok:
            for k, nm in enumerate(("wavelength", "transmission", "path emission", "path and solar scattering", "direct solar", "diffuse solar")):
                x, y = B.idx(t, num(k), t.axes[1]), s.term("[%d]" % k)
                c.eq("column %d, %s" % (k, nm), x, B.rename(y, {y.axes[0]: x.axes[0]}), fn,
                     "column of the file of the entry matching haze, altitude and ground range, in SI units", ranges=R19, count=12)
        return o, s
    r = c.group("columns", columns)

    def selection():
        o, s = r
        S = c.session(atm=False)
        want = c.call(S, SA + "entry_file", *args(S, fn)).term()
        t = o.term()
        paths = sorted({x.args[0] for x in subterms(t) if x.op == "readbin"}, key=lambda x: x.id)
        c.fact("one file read", None if t.unk else len(paths) == 1, fn, "the result comes from one database file", [show(p)[:200] for p in paths])
        rule = "the file named by the one index entry whose haze, altitude (km) and ground range (km) equal the request"
        bad = [e for e in o.effects if e.kind == "raise" and e.what != "IndexError"]
        for e in bad:
            c.never("request not in the database", B.and_(e.cond, TRUE), "%s:%s" % (e.file, e.line), "an index error, not %s" % e.what,
                    ranges=dict(R19, **{"@isfile": some_stored, "@csv": lambda ev, p: decoder(hsh(ev.seed, "gone") % 2)(ev, p)}), detail="raises " + e.what)
        for e in o.effects:
            if e.kind == "raise" and e.what == "IndexError":
                if e.cond.op == "not" and e.cond.args[0].op == "isfile" and nf.equal(e.cond.args[0].args[0], want) is True:
                    c.add("stored request served", PROVED, "%s:%s" % (e.file, e.line), "raised only when the entry's own file is absent")
                else:
                    c.never("stored request served", e.cond, "%s:%s" % (e.file, e.line), "no error when the entry and its file exist", ranges=R19,
                            detail="a stored condition is refused")
        for p in paths:
            if nf.equal(p, want) is True:
                c.add("entry selected", PROVED, fn, rule)
                c.add("request not in the database", PROVED, fn, "no matching entry is an index error")
                continue
            # a stored condition must be found, and be the right one
            verdict, detail = UNDECIDED, None
            for ev in rint.samples([p, want], 40, R19, c.seed):
                try:
                    w = ev.ev(want)
                except rint.Undef:
                    continue
                try:
                    g = ev.ev(p)
                except rint.Undef as e:
                    if "out of range" in str(e):
                        verdict, detail = VIOLATED, {"reason": "a stored condition is not found", "leaves": rint.describe(ev, ((), "no entry", w), [p, want])}
                    continue
                except Exception:
                    continue
                if g != w:
                    verdict, detail = VIOLATED, {"reason": "another entry's file is read", "separating": rint.describe(ev, ((), g, w), [p, want])}
                    break
            c.add("entry selected", verdict, fn, rule, detail)
            verdict, detail = UNDECIDED, None
            gone = dict(R19, **{"@csv": decoder(False)})
            stop = B.or_(*o.raised) if o.raised else FALSE
            for ev in rint.samples([p, want, stop], 40, gone, c.seed):
                try:
                    if rint.truth(ev.ev(stop)):
                        continue
                    g = ev.ev(p)
                except Exception:
                    continue
                verdict, detail = VIOLATED, {"reason": "a condition the database lacks is served from " + str(g), "separating": rint.describe(ev, ((), g, "IndexError"), [p])}
                break
            c.add("request not in the database", verdict, fn, "no matching entry is an index error", detail)
    if r:
        c.group("selection", selection)

    def index():
        rows, bad = table()
        c.fact("index entries unique", len({x[0] for x in rows}) == len(rows) and len({x[1:] for x in rows}) == len(rows), "src/pybsm/atms/fileDecoder.csv",
               "each condition names one file and each file one condition", "%d rows" % len(rows))
        miss = [x[0] for x in rows if not os.path.exists(os.path.join(REPO, "src/pybsm/atms/%d.bin" % x[0]))]
        c.fact("index entries have files", not miss, "src/pybsm/atms", "the file of every entry is shipped", miss[:5])
    c.group("index", index)


_TABLE = {}


def table():
    """the shipped index: (index, altitude km, ground range km, haze) rows"""
    p = os.path.join(REPO, "src/pybsm/atms/fileDecoder.csv")
    if p not in _TABLE:
        rows, bad = [], []
        with open(p, newline="", encoding="utf-8-sig") as f:
            for i, r in enumerate(csv.reader(f)):
                if i == 0:
                    continue
                try:
                    rows.append((int(float(r[0])), float(r[1]), float(r[2]), int(float(r[3]))))
                except (ValueError, IndexError):
                    if any(x.strip() for x in r):
                        bad.append((i, r))
        _TABLE[p] = rows, bad
    return _TABLE[p]


def opaque_db(S, log=None, fail=None):
    """stored conditions as an uninterpreted function of the condition"""
    def h(I, st, vals):
        ts = tuple(I.term(st, vals[k]) for k in ("altitude", "ground_range", "ihaze"))
        if log is not None:
            log.append((ts, B.and_(*I.pc) if I.pc else TRUE))
        if fail is not None:
            raise fail(st)
        return I.ref(st, mk("db", ts, "exact", (("ax", "aw"), ("n", 6))))
    S.I.summaries[NOI] = h


R18 = dict(RANGES, altitude=(2, 20000), ground_range=(0, 300000))
LIMITS = ((2, 20000), (0, 300000))


@prop("C18")
def c18(c):
    def blend():
        S = c.session(atm=False)
        opaque_db(S)
        a = args(S, INT)
        o, s = c.call(S, INT, *a), c.call(S, SA + "load_database_atmosphere", *a)
        alt, gr = (S.term(x) for x in a[:2])
        inside = B.and_(*[B.not_(B.cmp("<", x, num(lo))) for x, (lo, _) in zip((alt, gr), LIMITS)],
                        *[B.not_(B.cmp("<", num(hi), x)) for x, (_, hi) in zip((alt, gr), LIMITS)])
        r = "bilinear blend of the entries at the enclosing stored altitudes and ground ranges, with the requested haze"
        x, y = o.term(), s.term()
        c.eq("interpolated atmosphere", x, y, INT, r, inside, R18, count=120 if c.tier == "quick" else 900)
        if x is not y and c.obl[-1]["verdict"] == UNDECIDED and not x.unk and len(x.axes) == len(y.axes) == 2:
            sweep(x, y)
        # exactly at grid nodes the stored entry itself
        for nm, sub_ in (("altitude node", {alt: num(3000)}), ("ground range node", {gr: num(22000)}), ("grid node", {alt: num("32.5"), gr: num(100)}),
                         ("highest node", {alt: num(20000), gr: num(300000)}), ("lowest node", {alt: num(2), gr: ZERO})):
            x, y = (c.call(S, f, *[sub_.get(S.term(v), v) for v in a]).term() for f in (INT, SA + "load_database_atmosphere"))
            c.eq("at " + nm, x, y, INT, "exact at stored conditions", inside, R18, count=60)
        x, y = (c.call(S, f, num(3000), num(22000), a[2]).term() for f in (INT, SA + "load_database_atmosphere"))
        e = mk("db", (num(3000), num(22000), S.term(a[2])), "exact", (("ax", "aw"), ("n", 6)))
        c.eq("stored entry itself", x, e, INT, "a stored condition is returned unchanged", None, R18, count=20)

    def sweep(x, y):
        """the two graphs at every stored range (altitude) and between, at a few altitudes (ranges)"""
        try:
            x, y = (B.idx(B.idx(t, num(1), t.axes[0]), num(3), t.axes[1]) for t in (x, y))
        except Exception:
            return
        rows, _ = table()
        alts = sorted({a * 1000 for _, a, _, _ in rows if a <= 20})
        rngs = sorted({r * 1000 for _, _, r, _ in rows})

        def between(p):
            return sorted(set(p) | {a + (b - a) * k for a, b in zip(p, p[1:]) for k in (0.01, 0.45)})
        C, n, t0 = Cells(c.seed), 0, time.time()

        for av, gv in [(a, g) for a in (3000.0, 12345.0, 20000.0) for g in between(rngs)] + [(a, g) for g in (0.0, 650.0, 21000.0) for a in between(alts)]:
            if time.time() - t0 > 200:
                break
            env = {"altitude": av, "ground_range": gv, "ihaze": 2}
            try:
                p, q = C.ev(x, env), C.ev(y, env)
            except rint.Undef:
                continue
            n += 1
            if abs(p - q) > 1e-7 * (abs(p) + abs(q)):
                c.add("interpolated atmosphere, swept", VIOLATED, INT, "the interpolated atmosphere at every stored altitude and range and between them",
                      {"reason": "the two graphs differ at a request", "request": [av, gv, 2], "code": str(p)[:12], "specification": str(q)[:12]})
                return
        c.sites += n
    c.group("interpolation", blend)


class Cells:
    """values of a term over constant requests, shared between equal requests"""

    def __init__(self, seed):
        self.memo, self.deps, self.seed = {}, {}, seed

    def leaves(self, t):
        if t.id not in self.deps:
            self.deps[t.id] = frozenset(x.data[0] for x in subterms(t) if x.op == "sym")
        return self.deps[t.id]

    def ev(self, t, env):
        if t.op in ("and", "or") and not t.axes:
            r = t.op == "and"
            for x in t.args:
                if self.ev(x, env) != r:
                    return not r
            return r
        if t.op == "not" and not t.axes:
            return not self.ev(t.args[0], env)
        L = self.leaves(t)
        key = (t.id, tuple(env[n] for n in sorted(L) if n in env))
        if key not in self.memo:
            e = rint.Ev(self.seed, rint.PROFILES[0], {n: mpf(v) for n, v in env.items()}, RANGES, ())
            try:
                v = e.ev(t)
                self.memo[key] = (rint.truth(v) if isinstance(v, bool) else v, None)
            except rint.Undef as x:
                self.memo[key] = (None, str(x))
        v, err = self.memo[key]
        if err is not None:
            raise rint.Undef(err)
        return v


def float_(v):
    return float(v)


@prop("C17")
def c17(c):
    def nodes():
        rows, bad = table()
        have = {(round(a * 1000, 6), round(r * 1000, 6), h) for _, a, r, h in rows}
        alts = sorted({a for a, _, _ in have if a <= 20000})
        rngs = sorted({r for _, r, _ in have})
        last = {a: max(r for x, r, h in have if x == a and h == 1) for a in alts}
        c.fact("database grid", {a for a in alts} and all((a, r, h) in have for a in alts for h in (1, 2) for r in rngs if r <= last[a]), "src/pybsm/atms/fileDecoder.csv",
               "at every altitude both hazes are stored for every grid range up to the last", "%d altitudes, %d ranges" % (len(alts), len(rngs)))
        S = c.session(atm=False)
        calls = []
        opaque_db(S, calls)
        a = args(S, INT)
        alt, gr, hz = (S.term(x) for x in a)
        o = c.call(S, INT, *a)
        raises = [(e.cond, e.what, e) for e in o.effects if e.kind == "raise"]
        where = INT
        unk = [t for ts, cond in calls for t in ts + (cond,) if t.unk] + [r[0] for r in raises if r[0].unk]
        rule = "for every cell of the altitude and ground range axes cut at every threshold, each stored condition requested exists"
        if not calls or unk:
            c.add("conditions requested are stored", UNDECIDED, where, rule, "requests not interpretable")
            return
        # cut the axes at every constant a decision can depend on
        cuts = {float(x.data) for ts, cond in calls for t in ts + (cond,) for x in subterms(t) if x.op == "num"}
        cuts |= {float(x.data) for r in raises for x in subterms(r[0]) if x.op == "num"}

        def axis(points, lo, hi):
            p = sorted({x for x in points if lo <= x <= hi} | {lo, hi} | {x for x in cuts if lo <= x <= hi})
            return sorted(set(p) | {(x + y) / 2 for x, y in zip(p, p[1:])})
        A, G = axis(alts, 2.0, 20000.0), axis(rngs, 0.0, 300000.0)
        C = Cells(c.seed)
        n, missing, refused, undec, ok = 0, {}, {}, {}, 0
        for av in A:
            low = max(x for x in alts if x <= av)
            for gv in G:
                if gv > last[low]:
                    continue
                env = {"altitude": av, "ground_range": gv, "ihaze": 1}
                n += 1
                try:
                    for cond, what, e in raises:
                        if C.ev(cond, env):
                            refused.setdefault("%s:%s raises %s" % (os.path.basename(e.file), e.line, what), (av, gv))
                    for ts, cond in calls:
                        if not C.ev(cond, env):
                            continue
                        x, y = (round(float_(C.ev(t, env)), 6) for t in ts[:2])
                        for h in (1, 2):
                            z = int(C.ev(ts[2], dict(env, ihaze=h)))
                            if (x, y, z) not in have:
                                missing.setdefault((x, y, z), (av, gv, h))
                            ok += 1
                except rint.Undef as e:
                    if "out of range" in str(e):
                        refused.setdefault("no grid point at or beyond the request", (av, gv))
                    else:
                        undec[str(e)] = (av, gv)
        c.sites += n
        why = "%d cells, %d requests checked" % (n, ok)
        if missing:
            k = sorted(missing)[0]
            c.add("conditions requested are stored", VIOLATED, where, rule,
                  {"reason": "request %s consults the condition %s, which the database lacks" % (missing[k], k), "conditions lacking": [list(x) for x in sorted(missing)[:10]]})
        else:
            c.add("conditions requested are stored", UNDECIDED if undec else PROVED, where, rule, str(undec)[:200] if undec else why)
        r2 = "no request inside the limits is refused"
        if refused:
            k = sorted(refused)[0]
            c.add("requests inside the limits are served", VIOLATED, where, r2, {"reason": "request (altitude, ground range) = %s: %s" % (refused[k], k)})
        else:
            c.add("requests inside the limits are served", UNDECIDED if undec else PROVED, where, r2, why)
        # outside the limits
        r3 = "a request outside the limits raises IndexError and consults nothing"
        bad, undec, m = None, None, 0
        far = [x for x in sorted(cuts) if x > 0]
        outA = [-1.0, 0.0, 1.0, 1.999, 20000.5, 24500.0, 30000.0, 550000.0] + [x for x in far if x < 2 or x > 20000]
        outG = [-1.0, -1e-3, 300000.5, 300500.0, 301000.0, 305000.0, 1e6] + [x for x in far if x > 300000]
        for av, gv in [(x, y) for x in outA for y in (0.0, 450.0, 1000.0)] + [(x, y) for x in (2.0, 5.0, 3000.0, 20000.0) for y in outG]:
            env = {"altitude": av, "ground_range": gv, "ihaze": 1}
            m += 1
            try:
                hit = [(what, e) for cond, what, e in raises if C.ev(cond, env)]
                if hit:
                    if hit[0][0] != "IndexError":
                        bad = bad or "request (%g, %g) raises %s at %s:%s" % (av, gv, hit[0][0], os.path.basename(hit[0][1].file), hit[0][1].line)
                    continue
                for ts, cond in calls:
                    if C.ev(cond, env):
                        x, y = (float_(C.ev(t, env)) for t in ts[:2])
                        bad = bad or "request (%g, %g) is served from (%g, %g)" % (av, gv, x, y)
            except rint.Undef as e:
                if "out of range" not in str(e):
                    undec = str(e)
        c.sites += m
        c.add("requests outside the limits are rejected", VIOLATED if bad else UNDECIDED if undec else PROVED, where, r3,
              {"reason": bad} if bad else undec or "%d requests" % m)
    c.group("nodes", nodes)


# ---- the scenario's cached atmosphere
class LoadFailed(Exception):
    def __init__(self, st):
        Exception.__init__(self, "load failed")
        self.st = st


def loader(kind, log, fail):
    def h(I, st, vals):
        ts = tuple(I.term(st, vals[k]) for k in ("altitude", "ground_range", "ihaze"))
        log.append((ts, B.and_(*I.pc) if I.pc else TRUE))
        if fail[0]:
            raise LoadFailed(st.copy())
        return I.ref(st, mk("db", ts, kind, (("ax", "aw"), ("n", 6))))
    return h


OPS = ("read", "ihaze", "altitude", "ground_range", "target_reflectance", "failed read")
KIND = {"ihaze": "int", "altitude": "pos", "ground_range": "nonneg", "target_reflectance": "unit"}


@prop("C20")
def c20(c):
    def histories(interp, which):
        S = c.session(atm=False)
        I = S.I
        I.flags["history"] = True  # whatever outlives a scenario starts as the modules leave it
        log = []
        fail = [False]
        I.summaries[INT], I.summaries[NOI] = loader("interp", log, fail), loader("exact", log, fail)
        cur0 = {n: S.sym(n + "_0", KIND[n]) for n in KIND}
        S.sym("name", "str")
        f = S.look(SCEN)
        kw = {} if interp is None else {"interp": interp}
        ob = I.call(f, [S.sym("name", "str"), cur0["ihaze"], cur0["altitude"], cur0["ground_range"]], kw, S.st)
        for e in I.effects:
            if e.kind == "raise":
                raise ValueError("constructor raises")

        def want(cur):
            w = lambda k: mk("db", (cur["altitude"], cur["ground_range"], cur["ihaze"]), k, (("ax", "aw"), ("n", 6)))
            if isinstance(interp, Term) and interp not in (TRUE, FALSE):
                return B.ite(interp, w("interp"), w("exact"))
            return w("interp" if interp is TRUE else "exact")

        def key(st, cur):
            d = st.heap[ob.loc]
            ren = {cur[n]: sym("@" + n, (), KIND[n]) for n in KIND}
            out = []
            old = {}
            for k in sorted(d):
                if k in KIND:
                    continue
                t = I.term(st, d[k])
                t = B.subst(t, ren)
                for x in subterms(t):
                    if x.op == "sym" and x.data[0].rpartition("_")[0] in KIND and x not in old:
                        old[x] = sym("@old%d" % len(old), (), x.data[1])
                out.append((k, t))
            return tuple((k, B.subst(t, old).id) for k, t in out)

        label = "mode %s: " % which
        rule = "the atmosphere read is the database's for the current settings and mode"
        todo = [(S.st, cur0, ())]
        seen = {key(S.st, cur0): ()}
        closed, steps, done = True, 0, set()
        while todo:
            st, cur, hist = todo.pop(0)
            for op in OPS:
                if len(seen) > 24:
                    closed = False
                    break
                n = len(hist) + 1
                s2, c2 = st.copy(), dict(cur)
                I.raised, I.pc[:] = [], []
                log.clear()
                e0 = len(I.effects)
                S.st = s2
                h2 = hist + (op,)
                steps += 1
                if op == "failed read":
                    fail[0] = True
                    try:
                        I.getattr(ob, "atm", s2)
                    except LoadFailed as x:
                        s2 = x.st
                    finally:
                        fail[0] = False
                    I.pc[:] = []
                elif op == "read":
                    v = I.term(s2, I.getattr(ob, "atm", s2))
                    nm = label + "read after " + (", ".join(hist) or "construction")
                    c.eq(nm, v, want(c2), SCEN + ".atm", rule, ranges=RANGES, count=24)
                    bad = [e for e in I.effects[e0:] if e.kind == "raise"]
                    for e in bad:
                        c.never(nm + " returns", e.cond, "%s:%s" % (e.file, e.line), "no exception of the scenario's own", detail="raises " + e.what)
                    # a second read without a change
                    log.clear()
                    s3 = s2.copy()
                    S.st = s3
                    I.getattr(ob, "atm", s3)
                    again = [g for g in log if g[1] is not FALSE]
                    nm = label + "repeated read after " + (", ".join(hist) or "construction")
                    if not again:
                        c.fact(nm, True, SCEN + ".atm", "a repeated read does not load again")
                    else:
                        for _, g in again[:1]:
                            c.never(nm, g, SCEN + ".atm", "a repeated read does not load again", detail="the database is consulted again")
                else:
                    c2[op] = S.sym("%s_%d" % (op, n), KIND[op])
                    I.setattr(ob, op, c2[op], s2)
                k = key(s2, c2)
                if k not in seen:
                    seen[k] = h2
                    todo.append((s2, c2, h2))
        if any(e.kind in ("global-write", "memo") or e.kind in ("mutate", "setattr") and str(e.what).startswith(("global:", "default:", "memo:")) for e in I.effects):
            closed = False  # state that is not the scenario's own: explored to a bounded depth only
        c.add(label + "all histories", PROVED if closed else UNDECIDED, SCEN, "the reachable states of the scenario are closed under every operation",
              "%d states, %d transitions" % (len(seen), steps))
    def neighbours(field):
        """a scenario's atmosphere after another scenario, alike but for one setting, was read"""
        S = c.session(atm=False)
        I = S.I
        I.flags["history"] = True
        I.summaries[INT], I.summaries[NOI] = loader("interp", [], [False]), loader("exact", [], [False])
        mine = {n: S.sym(n, KIND[n]) for n in ("ihaze", "altitude", "ground_range")}
        other = dict(mine)
        im, io = TRUE, TRUE
        if field == "interp":
            io = FALSE
        else:
            other[field] = S.sym(field + "_other", KIND[field])
        f = S.look(SCEN)
        name = S.sym("name", "str")
        b = I.call(f, [name, other["ihaze"], other["altitude"], other["ground_range"]], {"interp": io}, S.st)
        I.getattr(b, "atm", S.st)
        a = I.call(f, [name, mine["ihaze"], mine["altitude"], mine["ground_range"]], {"interp": im}, S.st)
        v = I.term(S.st, I.getattr(a, "atm", S.st))
        c.eq("read after another scenario with a different %s was read" % field, v,
             mk("db", (mine["altitude"], mine["ground_range"], mine["ihaze"]), "interp", (("ax", "aw"), ("n", 6))), SCEN + ".atm",
             "the atmosphere read is the database's for the current settings and mode", ranges=RANGES, count=24)
    for field in ("ihaze", "altitude", "ground_range", "interp"):
        c.group("another scenario, " + field, neighbours, field)
    for which, interp in (("default", None), ("exact", FALSE), ("interpolating", TRUE)):
        c.group("histories " + which, histories, interp, which)
    c.group("histories any", histories, sym("interp", (), "bool"), "any")
