"""Obligations on image simulation and the sensor, scenario and image objects."""
import numpy as np
from mpmath import mpf

from .. import build as B
from .. import harness as H
from .. import nf, rint
from ..api import GE, MF, NO, OF, RANGES, REFI, RF, SCEN, SENSOR, SF, SIG, arg, args, kinds, names
from ..interp import UNBOUND, CondV, ObjV
from ..obs import PROVED, UNDECIDED, VIOLATED, prop
from ..terms import NONE, ONE, TRUE, Term, ZERO, mk, num, show, subterms, sym, symbols
from .p_otf import returns, same

SP = "spec_sim."
SIM_PARTS = ["pybsm.radiance.functional.reflectance_to_photoelectrons", OF + "common_OTFs", OF + "apply_otf_to_image"]

IMAGES = ("true image", "blurred image", "noisy image")


def same_term(x, y):
    return not x.unk and not y.unk and nf.equal(x, y) is True


def passed(t, name):
    """arguments of the one opaque call t is"""
    if t is not None and t.op == "opq" and t.data[0].endswith(name):
        return dict(zip(t.args[0].data, t.args[0].args))
    return None


def blurs(c, o, q, fn, rule):
    """what the blur is given: the image, its angular sampling, the transfer
    function and its spacing, the pixel angle"""
    x, y = passed(o.term("[1]"), "apply_otf_to_image"), passed(q.term("[1]"), "apply_otf_to_image")
    if x is None or y is None or set(x) != set(y):
        c.add("simulate_image blurred image", UNDECIDED, fn, rule, "not a direct blur of the true image")
        return
    for nm, f in (("image", lambda d: d["ref_img"]), ("angular sampling", lambda d: B.div(d["ref_gsd"], d["ref_range"])),
                  ("frequency spacing", lambda d: d["df"]), ("pixel angle", lambda d: d["ifov"]), ("transfer function", lambda d: d["otf"])):
        v = c.eq("simulate_image blur: " + nm, f(x), f(y), fn, rule, count=6)
    return v


@prop("C23")
def c23(c):
    r = "value graph equals the documented simulation step"
    for fn in ("instantaneous_FOV", "wiener_filter", "img_to_reflectance"):
        c.group(fn, lambda fn=fn: same(c, SF + fn, SP + fn, r))

    def anyorder():
        S = c.session()
        same(c, SF + "img_to_reflectance", SP + "img_to_reflectance", "the calibration may be given in any order", S,
             over={"pix_values": S.vec("pix_values", "real", "cal")})
    c.group("img_to_reflectance, any order", anyorder)

    def sim():
        fn = SF + "simulate_image"
        # with its three components opaque: equal arguments, equal results
        S = c.session()
        S.modular(SIM_PARTS)
        a = args(S, fn)
        o, q = c.call(S, fn, *a), c.call(S, SP + "simulate_image", *a)
        left = []
        for i, nm in enumerate(IMAGES):
            x, y = o.term("[%d]" % i), q.term("[%d]" % i)
            if same_term(x, y):
                c.sites += 1
                c.add("simulate_image " + nm, PROVED, fn, r)
            else:
                left.append(nm)
        if IMAGES[2] in left:
            # noise around whatever image was blurred
            n = []
            for w in (o, q):
                blur, noisy = w.term("[1]"), w.term("[2]")
                z = sym("blurred", blur.axes, "nonneg")
                n.append(B.subst(noisy, {blur: z}))
            here = [x for x in subterms(n[0]) if x.op == "draw" and x.data[0] == n[1].data[0] and same_term(x, n[1])] if n[1].op == "draw" else []
            if here and n[0] not in here:
                # a normal draw takes every real value
                z = sym("drawn", n[1].axes, "real")
                n = [B.subst(n[0], {x: z for x in here}), z]
            c.eq("simulate_image noise", n[0], n[1], fn, r, count=20)
        S = c.session()
        S.modular([OF + "apply_otf_to_image"], raw=True)
        a = args(S, fn)
        o, q = c.call(S, fn, *a), c.call(S, SP + "simulate_image", *a)
        returns(c, o, q, fn)
        if IMAGES[0] in left:
            c.eq("simulate_image " + IMAGES[0], o.term("[0]"), q.term("[0]"), fn, r, count=6)
        if IMAGES[1] in left and blurs(c, o, q, fn, r) == UNDECIDED:
            # what the system transfer function is given
            S = c.session()
            S.modular([OF + "apply_otf_to_image", OF + "common_OTFs"], raw=True)
            a = args(S, fn)
            x, y = (passed((passed(c.call(S, f, *a).term("[1]"), "apply_otf_to_image") or {}).get("otf"), "common_OTFs") for f in (fn, SP + "simulate_image"))
            if x is not None and y is not None and set(x) == set(y):
                for k in sorted(x):
                    u, v = x[k], y[k]
                    if k == "mtf_weights":
                        u, v = B.div(u, B.total(u)), B.div(v, B.total(v))
                    for i, (m, n) in enumerate(zip(u.args, v.args) if u.op == "args" else [(u, v)]):
                        c.eq("simulate_image transfer function: %s %s" % (k, i or ""), m, n, fn, r, count=6)
    c.group("simulate_image", sim)


def spec_dict(c, S, fn, *a, **kw):
    """the attribute table a specification module returns"""
    o = c.call(S, fn, *a, **kw)
    d = o.st.heap.get(o.v.loc)
    t = {}
    for k, v in d.items():
        t[k.data if isinstance(k, Term) else k] = o.t_(v)
    return t


def absent(c, o, k, fn, nm, path):
    """the constructed object has no such attribute (on some path)"""
    ob = o.val(path)
    if not isinstance(ob, ObjV) or ob.sym or ob.cls is None:
        return False
    d = o.st.heap.get(ob.loc)
    if not isinstance(d, dict):
        return False
    if k not in d:
        if any(k in q.members or k in q.props or "__getattr__" in q.members or len(q.bases) != len([b for b in q.bases if hasattr(b, "members")])
               for q in lineage(ob.cls)) or any(e.kind not in PLAIN for e in o.effects):
            return False
        c.fact(nm, False, fn, "the attribute is set", "never assigned")
        return True
    if isinstance(d[k], CondV) and (d[k].a is UNBOUND or d[k].b is UNBOUND):
        c.never(nm + " set", d[k].c if d[k].a is UNBOUND else B.not_(d[k].c), fn, "the attribute is set on every path", detail="not assigned")
    return False


PLAIN = ("read", "setattr", "store", "raise", "warn", "log")


def lineage(cls):
    out, todo = [], [cls]
    while todo:
        q = todo.pop()
        if q in out:
            continue
        out.append(q)
        todo += [b for b in getattr(q, "bases", []) if hasattr(b, "members")]
    return out


def attributes(c, S, o, want, fn, label, rule, path=""):
    for k, v in sorted(want.items()):
        nm = "%s %s" % (label, k)
        if absent(c, o, k, fn, nm, path):
            continue
        x = o.term(path + "." + k)
        if v.op in ("str",) or (v.op == "sym" and v.data[1] == "str"):
            c.fact(nm, x is v if not x.unk else None, fn, rule, None if x is v else "holds %s" % show(x)[:200])
            continue
        xs, vs = B.elements(x), B.elements(v)
        if xs is not None and vs is not None and len(xs) == len(vs):
            for i, (p, q) in enumerate(zip(xs, vs)):
                c.eq("%s[%d]" % (nm, i), p, q, fn, rule)
            continue
        c.eq(nm, x, v, fn, rule)


NEEDED = {SENSOR: 5, SCEN: 4, REFI: 2}
ATTRS = {SENSOR: SP + "sensor_attributes", SCEN: SP + "scenario_attributes", REFI: SP + "image_attributes"}
DERIVED = ("p_y", "w_x", "w_y")


def ctor_args(S, cls, loose=False):
    """a symbol for every constructor argument, by documented name;
    `loose`: arrays in any order"""
    I = S.I
    spec = S.look(ATTRS[cls])
    dom = {SENSOR: H.SENSOR, SCEN: H.SCENARIO, REFI: H.REFIMAGE}[cls]
    out = []
    for p in spec.node.args.args:
        n = p.arg
        kind, axes = dom[n]
        out.append((n, S.sym(n, {"incr": "real"}.get(kind, kind) if loose else kind, axes)))
    return out


@prop("C24")
def c24(c):
    r = "the attribute is the constructor argument, or its documented default when omitted"
    for cls in (SENSOR, SCEN, REFI):
        short = cls.split(".")[-1]
        n = NEEDED[cls]

        def full(cls=cls, short=short, n=n):
            S = c.session(atm=False)
            al = ctor_args(S, cls, True)
            # documented order, everything given
            o = c.call(S, cls, *[v for _, v in al])
            attributes(c, S, o, spec_dict(c, S, ATTRS[cls], *[v for _, v in al]), cls, short + " all given:", r)
            ctor_returns(c, o, cls, short + " all given")
            # by name, everything given
            kw = dict(al)
            o = c.call(S, cls, **kw)
            attributes(c, S, o, spec_dict(c, S, ATTRS[cls], **kw), cls, short + " by name:", r)
            # optional ones omitted
            o = c.call(S, cls, *[v for _, v in al[:n]])
            attributes(c, S, o, spec_dict(c, S, ATTRS[cls], *[v for _, v in al[:n]]), cls, short + " defaults:", r)
            ctor_returns(c, o, cls, short + " defaults")
        c.group(short, full)

    def derived():
        # geometry defaults, in every combination of what is given
        for m in range(1, 8):
            S = c.session(atm=False)
            al = dict(ctor_args(S, SENSOR, True))
            given = [k for i, k in enumerate(DERIVED) if m >> i & 1]
            kw = {k: v for k, v in list(al.items())[:5]}
            kw.update({k: al[k] for k in given})
            o = c.call(S, SENSOR, **kw)
            want = spec_dict(c, S, ATTRS[SENSOR], **kw)
            attributes(c, S, o, {k: want[k] for k in DERIVED}, SENSOR, "Sensor given %s:" % "+".join(given), r)
    c.group("Sensor geometry defaults", derived)

    def held():
        # what is assigned later is what is read
        rr = "an assigned attribute reads back unchanged"
        for cls, dom in ((SENSOR, H.SENSOR), (SCEN, H.SCENARIO), (REFI, H.REFIMAGE)):
            S = c.session(atm=False)
            al = ctor_args(S, cls, True)
            ob = S.call(cls, *[v for _, v in al])
            short = cls.split(".")[-1]
            for k, (kind, axes) in dom.items():
                if k == "interp":
                    continue
                v = S.sym("new_" + k, {"incr": "real"}.get(kind, kind), axes)
                S.set(ob, k, v)
            for k, (kind, axes) in dom.items():
                if k == "interp":
                    continue
                x, y = S.term(S.get(ob, k)), S.term(S.sym("new_" + k, {"incr": "real"}.get(kind, kind), axes))
                nm = "%s %s assigned" % (short, k)
                if kind == "str":
                    c.fact(nm, x is y or (None if x.unk else False), cls, rr, show(x)[:200])
                else:
                    c.eq(nm, x, y, cls, rr)
    c.group("assignment", held)


def ctor_returns(c, o, fn, label):
    for e in o.effects:
        if e.kind == "raise":
            c.never("%s returns (%s)" % (label, e.what), e.cond, "%s:%s" % (e.file, e.line), "no exception for valid arguments",
                    detail="raises %s for valid arguments" % e.what)


@prop("C25")
def c25(c):
    fn = REFI + ".estimate_capture_parameters"
    r = "attribute implied by the image's sample distance and the altitude"

    def one(default):
        S = c.session(atm=False)
        ob = S.obj(REFI, "image")
        alt = num(2000000) if default else S.sym("altitude", "pos")
        m = S.get(ob, "estimate_capture_parameters")
        o = c.call(S, m, *([] if default else [alt]))
        nm, gsd = S.term(S.get(ob, "name")), S.term(S.get(ob, "gsd"))
        lab = "default altitude: " if default else ""
        attributes(c, S, o, spec_dict(c, S, SP + "capture_sensor", nm, gsd, alt), fn, lab + "sensor", r, "[0]")
        attributes(c, S, o, spec_dict(c, S, SP + "capture_scenario", nm, alt), fn, lab + "scenario", r, "[1]")
        # straight down, one pixel covers one image sample
        t = B.div(B.mul(o.term("[0].p_x"), o.term("[1].altitude")), o.term("[0].f"))
        c.eq(lab + "sample distance across", t, gsd, fn, "pixel pitch projected straight down is the image's sample distance")
        t = B.div(B.mul(o.term("[0].p_y"), o.term("[1].altitude")), o.term("[0].f"))
        c.eq(lab + "sample distance along", t, gsd, fn, "pixel pitch projected straight down is the image's sample distance")
        ctor_returns(c, o, fn, lab + "estimate_capture_parameters")
    c.group("estimate_capture_parameters", one, False)
    c.group("estimate_capture_parameters default", one, True)


def poles(t):
    """division whose denominator vanishes identically, outside any guard that
    makes the result finite; None: none"""
    seen = {}

    def go(t):
        if t in seen:
            return seen[t]
        seen[t] = None
        r = None
        if t.op == "nan_to_num":
            return None
        if t.op == "ite":
            cnd = t.args[0]
            try:
                v = True if nf.equal(B.ite(cnd, ONE, ZERO), ONE) is True else False if nf.equal(B.ite(cnd, ONE, ZERO), ZERO) is True else None
            except nf.TooBig:
                v = None
            r = go(t.args[1]) if v is True else go(t.args[2]) if v is False else go(t.args[1]) or go(t.args[2])
        elif t.op == "pow" and t.args[1].op == "num" and t.args[1].data < 0 and nf.equal(t.args[0], ZERO) is True:
            r = t
        else:
            for x in t.args:
                r = r or go(x)
        seen[t] = r
        return r
    return go(t)


def plain(t):
    """the graph with every nan_to_num removed (equal where all quotients are finite)"""
    m = {x: x.args[0] for x in subterms(t) if x.op == "nan_to_num"}
    for _ in range(4):
        if not m:
            break
        t = B.subst(t, m)
        m = {x: x.args[0] for x in subterms(t) if x.op == "nan_to_num"}
    return t


def leaves(t):
    """results of the branches of a value"""
    if t.op == "ite":
        return leaves(t.args[1]) + leaves(t.args[2])
    return [t]


@prop("C26")
def c26(c):
    fn = SF + "stretch_contrast_convert_8bit"

    def stretch(label, args_, assume_pair, fill):
        S = c.session(atm=False)
        img = arg(S, "img", "img")
        a = args_(S)
        o = c.call(S, fn, img, *a)
        s = c.call(S, SP + "stretch_contrast_convert_8bit", img, a[0] if a else S.I.mklist(S.st, [num("0.1"), num("99.9")]))
        lo, hi = fill(S)
        I = S.term(img)
        spread = B.sub(mk("percentile", (I, hi)), mk("percentile", (I, lo)))
        x, y = o.term(), s.term()
        # quotients are finite when the percentiles differ
        finite = all(any(nf.equal(B.mul(d.args[0], k), B.mul(spread, j)) is True for k, j in ((num(255), ONE), (ONE, ONE), (ONE, num(255)), (num(-1), ONE)))
                     for d in subterms(plain(x)) if d.op == "pow" and d.args[1].op == "num" and d.args[1].data < 0)
        lem = [("every quotient is finite where the percentiles differ", plain(x), y)] if finite else ()
        rule = "linear map of the percentile levels to 0 and 255, limited, rounded, converted"
        v = c.eq(label, x, y, fn, rule, B.cmp(">", spread, ZERO), ranges=R26, lemma=lem)
        if v == UNDECIDED:
            # stored images hold whole numbers: levels half way between two outputs occur
            c.eq(label + ", whole-valued image", x, y, fn, rule, B.cmp(">", spread, ZERO),
                 ranges=dict(R26, img=whole, perc_lo=(0, 0), perc_hi=(100, 100)), lemma=lem)
        returns(c, o, s, fn)
        return o
    R26 = dict(RANGES, perc_lo=(0, 45), perc_hi=(55, 100))
    c.group("stretch", stretch, "stretch, percentiles given", lambda S: [arg(S, "perc", "pair")], None,
            lambda S: (S.sym("perc_lo", "unit"), S.sym("perc_hi", "unit")))
    c.group("stretch default", stretch, "stretch, default percentiles", lambda S: [], None, lambda S: (num("0.1"), num("99.9")))

    def valid():
        for label, mkargs in (("percentiles given", lambda S: [arg(S, "perc", "pair")]), ("percentiles equal", lambda S: [S.I.mklist(S.st, [S.sym("p", "unit"), S.sym("p", "unit")])])):
            S = c.session(atm=False)
            img = arg(S, "img", "img")
            o = c.call(S, fn, img, *mkargs(S))
            t = o.term()
            bad = [x for x in leaves(t) if x.op not in ("u8", "unknown")]
            c.fact("8-bit type, " + label, None if t.unk else not bad, fn, "every returned value is a conversion to unsigned 8-bit", [show(x)[:200] for x in bad])
            if label == "percentiles equal":
                w = None
                if not t.unk:
                    w = poles(t)
                c.fact("valid data where the percentiles coincide", None if t.unk else w is None, fn,
                       "no undefined quotient reaches the 8-bit conversion", None if w is None else "0/0 reaches the conversion: " + show(w)[:300])
            ef = [e for e in o.effects if e.kind == "mutate"]
            c.fact("input untouched, " + label, not [e for e in ef if e.data == "param:img" or str(e.what).startswith("param:img")], fn, "no store reaches the argument's array", [repr(e)[:200] for e in ef])
    c.group("8-bit", valid)

    def affine():
        S = c.session(atm=False)
        img = arg(S, "img", "img")
        k, b = S.sym("scale", "pos"), S.sym("offset", "real")
        I = S.term(img)
        p = arg(S, "perc", "pair")
        o = c.call(S, fn, img, p)
        q = c.call(S, fn, S.I.ref(S.st, B.add(I, b)), p)
        c.eq("unaffected by an added constant", q.term(), o.term(), fn, "stretch(img + b) equals stretch(img)", ranges=R26,
             assume=B.cmp(">", mk("percentile", (I, S.sym("perc_hi", "unit"))), mk("percentile", (I, S.sym("perc_lo", "unit")))))
        q = c.call(S, fn, S.I.ref(S.st, B.mul(I, k)), p)
        c.eq("unaffected by a positive factor", q.term(), o.term(), fn, "stretch(k img) equals stretch(img)", ranges=R26,
             assume=B.cmp(">", mk("percentile", (I, S.sym("perc_hi", "unit"))), mk("percentile", (I, S.sym("perc_lo", "unit")))))
    c.group("affine", affine)


def whole(ev, shape):
    """whole-valued images over 0..510"""
    a = np.empty(shape, dtype=object)
    for k, ix in enumerate(np.ndindex(shape)):
        a[ix] = mpf(0 if k == 0 else 510 if k == 1 else rint.hsh(ev.seed, "whole", ix) % 511)
    return a


# ------------------------------------------------------------------ C41
@prop("C41")
def c41(c):
    r = "value graph equals the documented definition"
    W = SF + "wiener_filter"

    def wiener():
        for kind in ("otfcx", "otf"):
            S = c.session(atm=False)
            H, k = arg(S, "otf", kind), S.sym("noise_to_signal_power_spectrum", "pos")
            o, s = c.call(S, W, H, k), c.call(S, SP + "wiener_filter", H, k)
            tag = " of a complex transfer function" if kind == "otfcx" else " of a real transfer function"
            c.eq("wiener_filter" + tag, o.term(), s.term(), W, r)
            returns(c, o, s, W)
            h = S.term(H)
            z = c.call(S, W, H, ZERO)
            a = B.fn("abs", h)
            c.eq("noiseless restoration" + tag, B.mul(z.term(), B.mul(a, a)), mk("conj", (h,)) if kind == "otfcx" else h, W,
                 "without noise the filter undoes the transfer function; its product with the squared magnitude is the conjugate")
    c.group("wiener_filter", wiener)

    def spectrum():     # the ratio may differ between frequencies
        S = c.session(atm=False)
        H, k = arg(S, "otf", "otfcx"), S.grid("ratio", "pos", "row", "col")
        c.eq("wiener_filter with a ratio per frequency", c.call(S, W, H, k).term(), c.call(S, SP + "wiener_filter", H, k).term(), W, r)
    c.group("ratio per frequency", spectrum)
    c.group("instantaneous_FOV", lambda: same(c, SF + "instantaneous_FOV", SP + "instantaneous_FOV", r))

    def shown(colour, tag):
        fn = REFI + ".show"
        rule = "the image is drawn over its own extent in metres, centred"
        S = c.session(atm=False)
        ob = S.obj(REFI, "ref_img")
        if colour:  # rows, columns and colour bands
            S.st.heap[ob.loc] = {**S.st.heap[ob.loc], "img": S.I.ref(S.st, sym("img", (("ax", "ir"), ("ax", "ic"), ("ax", "band")), "nonneg"))}
        o = c.call(S, S.get(ob, "show"))
        drawn = [e for e in o.effects if e.kind == "plot" and e.what == "imshow"]
        if len(drawn) != 1:
            lost = any(e.kind in ("unknown-call", "unsupported") for e in o.effects)
            c.fact("display%s: drawn once" % tag, None if lost or drawn else False, fn, rule, "%d images drawn" % len(drawn))
            return
        e = drawn[0]
        where = "%s:%s" % (e.file, e.line)
        c.fact("display%s: drawn once" % tag, e.cond is TRUE, where, rule)
        a, kw = e.data
        img = S.term(S.get(ob, "img"))
        c.eq("display%s: image" % tag, kw.get("X", a[0] if a else None), img, where, rule)
        org = kw.get("origin")
        org = org.data if isinstance(org, Term) and org.op == "str" else org
        c.fact("display%s: upright" % tag, True if org in (None, "upper") or org is NONE else False if isinstance(org, str) else None, where, rule, "drawn with origin %r" % (org,))
        ext = kw.get("extent")
        ext = list(ext) if isinstance(ext, (tuple, list)) else B.elements(ext) if isinstance(ext, Term) else None
        if ext is None or len(ext) != 4:
            c.fact("display%s: extent" % tag, None if ext is None and "extent" in kw else False, where, rule, "no extent of four numbers")
            return
        gsd = S.term(S.get(ob, "gsd"))
        half = lambda ax: B.mul(B.mul(B.dim(img, ax), num("0.5")), gsd)
        for nm, x, y in zip(("left", "right", "bottom", "top"), ext, (B.neg(half(1)), half(1), B.neg(half(0)), half(0))):
            c.eq("display%s: " % tag + nm, x, y, where, rule)
    c.group("display", shown, False, "")
    c.group("display, colour", shown, True, " of a colour image")
