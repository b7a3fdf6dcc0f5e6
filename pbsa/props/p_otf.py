"""Obligations on the optical transfer functions."""
import mpmath
import numpy as np
from mpmath import mpf

from .. import build as B
from .. import nf
from ..api import GE, MF, OF, RANGES, SCEN, SENSOR, SIG, arg, args, kinds, names
from ..bound import at_most, magnitude_at_most_one
from ..obs import UNDECIDED, prop
from ..rint import rnd
from ..terms import ONE, TRUE, ZERO, mk, num, subterms, sym, symbols

SP = "spec_otf."

COMPONENTS = [
    "circular_aperture_OTF", "circular_aperture_OTF_with_defocus", "cte_OTF", "defocus_OTF", "detector_OTF",
    "detector_OTF_with_aggregation", "diffusion_OTF", "drift_OTF", "gaussian_OTF", "jitter_OTF", "tdi_OTF",
    "turbulence_OTF", "wavefront_OTF", "wavefront_OTF_2", "wind_speed_turbulence_OTF",
]
HELPERS = ["object_domain_defocus_radii", "image_domain_defocus_radii", "dark_current_from_density"]


def lt(a, b):
    return B.cmp("<", a, b)


def domain(S, fn):
    """further documented parameter constraints"""
    if fn == "circular_aperture_OTF":
        return lt(S.sym("eta", "unit"), ONE)
    return None


def same(c, fn, spec, rule, S=None, assume=None, over=None, paths=("",), ranges=None, alts=(), count=None):
    """fn's result equals the specification's, and fn always returns"""
    S = S or c.session()
    a = args(S, fn, **(over or {}))
    o = c.call(S, fn, *a)
    s = c.call(S, spec, *a)
    short = fn.split(".")[-1]
    for p in paths:
        alt = [(tag, c.call(S, q, *a).term(p)) for tag, q in alts]
        c.eq(short + p, o.term(p), s.term(p), fn, rule, assume, ranges or RANGES, alts=alt, count=count)
    returns(c, o, s, fn, assume, ranges or RANGES)
    return o, s


def returns(c, o, s, fn, assume=None, ranges=None):
    """a call fails only where its specification does"""
    short = fn.split(".")[-1]
    allowed = B.or_(*s.raised) if s is not None and s.raised else None
    from .. import build as BB
    bad = [e for e in o.effects if e.kind == "raise" and e.what != "ImportError"]
    for e in bad:
        cond = e.cond if allowed is None else B.and_(e.cond, B.not_(allowed))
        c.never("%s returns (%s)" % (short, e.what), cond, "%s:%s %s" % (e.file, e.line, e.func),
                "no exception for valid arguments", assume, ranges, detail="raises %s for valid arguments" % e.what)


@prop("C06")
def c06(c):
    for fn in COMPONENTS + HELPERS:
        def one(fn=fn):
            S = c.session()
            same(c, OF + fn, SP + fn, "value graph equals the documented model", S, domain(S, fn))
        c.group(fn, one)
    # branch boundaries stated in the property, with the parameter fixed
    for fn, over in [("circular_aperture_OTF", {"eta": ZERO}), ("circular_aperture_OTF_with_defocus", {"defocus": ZERO}),
                     ("detector_OTF_with_aggregation", {"n": ONE}), ("detector_OTF_with_aggregation", {"n": num(3)}),
                     ("tdi_OTF", {"n_tdi": ONE, "phases_n": num(4)})]:
        def one(fn=fn, over=over):
            S = c.session()
            same(c, OF + fn, SP + fn, "value graph at a branch boundary equals the documented model", S, None, over)
        c.group(fn + str(sorted(over)), one)

    def filt():
        same(c, OF + "filter_OTF", SP + "filter_OTF", "digital filter response equals the kernel's transform at the angular frequency",
             alts=[("filter-grid", SP + "filter_OTF_as_shipped")], count=10)
    c.group("filter_OTF", filt)


# ------------------------------------------------------------------ C01
UV = [f for f in COMPONENTS if f != "tdi_OTF"]


def zero_grid(S, t):
    """t with the frequency grids u, v set to zero everywhere"""
    mp = {}
    for n in ("u", "v", "u_or_v", "uu", "vv"):
        g = sym(n, (("ax", "row"), ("ax", "col")), "real")
        mp[g] = B.bc(ZERO, g.axes)
    return B.subst(t, mp)


def at_freq(t, **vals):
    mp = {}
    for n, x in vals.items():
        g = sym(n, (("ax", "row"), ("ax", "col")), "real")
        mp[g] = x if x.axes else B.bc(x, g.axes)
    return B.subst(t, mp)


def grid(n):
    return sym(n, (("ax", "row"), ("ax", "col")), "real")


def unit_kernel_rows(S):
    """one-row filter kernel: no digital filtering"""
    S.dom_extra[("Sensor", "filter_kernel")] = ("real", (("n", 1), ("ax", "kc")))


def system(c, S):
    a = args(S, OF + "common_OTFs")
    return c.call(S, OF + "common_OTFs", *a), dict(zip(names(OF + "common_OTFs"), a))


FIELDS = ["ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF"]
ANNULUS = ("at zero frequency the documented annular form is (1 + eta^2 - 2 eta^2 + 0)/(1 - eta^2) = 1, since "
           "(1+eta^2)/(2 eta) > 1 leaves the crossing term undefined and hence 0")


@prop("C01")
def c01(c):
    one_ = "value graph at zero frequency is 1"
    for fn in COMPONENTS:
        def one(fn=fn):
            S = c.session()
            o = c.call(S, OF + fn, *args(S, OF + fn))
            t = zero_grid(S, o.term())
            lem = ()
            if fn == "circular_aperture_OTF":
                lem = [(ANNULUS, o.term(), c.call(S, SP + fn, *args(S, OF + fn)).term())]
            c.eq(fn + "(0,0)", t, B.bc(ONE, t.axes), OF + fn, one_, domain(S, fn), lemma=lem)
        c.group(fn, one)
    # the parameter choices that switch branches
    for fn, over in [("circular_aperture_OTF", {"eta": ZERO}), ("circular_aperture_OTF_with_defocus", {"defocus": ZERO}),
                     ("detector_OTF_with_aggregation", {"n": ONE}), ("detector_OTF_with_aggregation", {"n": num(4)}),
                     ("tdi_OTF", {"n_tdi": num(2), "phases_n": num(3)})]:
        def one(fn=fn, over=over):
            S = c.session()
            o = c.call(S, OF + fn, *args(S, OF + fn, **over))
            t = zero_grid(S, o.term())
            c.eq(fn + "(0,0) " + ",".join(over), t, B.bc(ONE, t.axes), OF + fn, one_)
        c.group(fn, one)

    def poly():
        S = c.session()
        o = c.call(S, OF + "polychromatic_turbulence_OTF", *args(S, OF + "polychromatic_turbulence_OTF"))
        t = zero_grid(S, o.term("[0]"))
        c.eq("polychromatic_turbulence_OTF(0,0)", t, B.bc(ONE, t.axes), OF + "polychromatic_turbulence_OTF", one_, count=10)
    c.group("poly", poly)

    def wbw():
        S = c.session()
        a = args(S, OF + "weighted_by_wavelength")
        k = S.sym("level", "real")
        o = c.call(S, "spec_clients.weighted_constant", a[0], a[1], k)
        c.eq("weighted_by_wavelength of a constant", o.term(), k, OF + "weighted_by_wavelength", "normalised weights leave a constant unchanged")
    c.group("weighted", wbw)

    def syst():
        S = c.session()
        unit_kernel_rows(S)
        o, a = system(c, S)
        eta = S.get(a["sensor"], "eta")
        for f in FIELDS + ["system_OTF"]:
            t = zero_grid(S, o.term("." + f))
            lem = ()
            if f == "ap_OTF":
                sp = c.call(S, SP + "aperture_average", grid("uu"), grid("vv"), a["mtf_wavelengths"], a["mtf_weights"], S.get(a["sensor"], "D"), eta)
                lem = [(ANNULUS, o.term(".ap_OTF"), sp.term())]
            if f == "system_OTF":
                p = ONE
                for g in FIELDS:
                    p = B.mul(p, o.term("." + g))
                lem = [("product of components of unit response", o.term("." + f), p)]
            c.eq("common_OTFs.%s(0,0)" % f, t, B.bc(ONE, t.axes), OF + "common_OTFs", one_, lt(S.term(eta), ONE), count=8, lemma=lem)
    c.group("system", syst)


# ------------------------------------------------------------------ C02
@prop("C02")
def c02(c):
    u, v = grid("u"), grid("v")
    ev = "value graph is invariant under sign change of one frequency axis"
    for fn in UV:
        def one(fn=fn):
            S = c.session()
            t = c.call(S, OF + fn, *args(S, OF + fn)).term()
            for ax, mp in (("u", {u: B.neg(u)}), ("v", {v: B.neg(v)})):
                c.eq("%s(%s)=%s(-%s)" % (fn, ax, fn, ax), B.subst(t, mp), t, OF + fn, ev, domain(S, fn))
        c.group(fn, one)

    def poly():
        S = c.session()
        t = c.call(S, OF + "polychromatic_turbulence_OTF", *args(S, OF + "polychromatic_turbulence_OTF")).term("[0]")
        for ax, mp in (("u", {u: B.neg(u)}), ("v", {v: B.neg(v)})):
            c.eq("polychromatic(%s)" % ax, B.subst(t, mp), t, OF + "polychromatic_turbulence_OTF", ev, count=8)
    c.group("poly", poly)

    def tdi():
        S = c.session()
        t = c.call(S, OF + "tdi_OTF", *args(S, OF + "tdi_OTF")).term()
        g = grid("u_or_v")
        c.eq("tdi_OTF(-u)=conj tdi_OTF(u)", B.subst(t, {g: B.neg(g)}), B.fn("conj", t), OF + "tdi_OTF", "value graph at -u is the conjugate of the graph at u")
        c.sites += 1
    c.group("tdi", tdi)

    def syst():
        S = c.session()
        unit_kernel_rows(S)
        o, _ = system(c, S)
        uu, vv = grid("uu"), grid("vv")
        for f in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "system_OTF"):
            t = o.term("." + f)
            for ax, mp in (("u", {uu: B.neg(uu)}), ("v", {vv: B.neg(vv)})):
                c.eq("common_OTFs.%s even in %s" % (f, ax), B.subst(t, mp), t, OF + "common_OTFs", ev, count=6)
    c.group("system", syst)


# ------------------------------------------------------------------ C03
AXES = {
    "cte_OTF": [("p_x", "p_y"), ("cte_n_x", "cte_n_y")],
    "defocus_OTF": [("w_x", "w_y")],
    "detector_OTF": [("w_x", "w_y")],
    "detector_OTF_with_aggregation": [("w_x", "w_y"), ("p_x", "p_y")],
    "drift_OTF": [("a_x", "a_y")],
    "gaussian_OTF": [("blur_size_x", "blur_size_y")],
    "jitter_OTF": [("s_x", "s_y")],
    "wavefront_OTF": [("L_x", "L_y")],
    "circular_aperture_OTF": [], "circular_aperture_OTF_with_defocus": [], "diffusion_OTF": [], "turbulence_OTF": [],
    "wavefront_OTF_2": [], "wind_speed_turbulence_OTF": [],
}


def swap(t, pairs):
    """simultaneous exchange of leaves"""
    mp1, mp2 = {}, {}
    for a, b in pairs:
        ta = sym("@" + a.data[0], a.axes, a.data[1])
        mp1[a] = ta
        mp1[b] = a
        mp2[ta] = b
    return B.subst(B.subst(t, mp1), mp2)


@prop("C03")
def c03(c):
    u, v = grid("u"), grid("v")
    for fn, prs in AXES.items():
        def one(fn=fn, prs=prs):
            S = c.session()
            k = kinds(OF + fn)
            t = c.call(S, OF + fn, *args(S, OF + fn)).term()
            pairs = [(u, v)] + [(sym(a, (), k[a]), sym(b, (), k[b])) for a, b in prs]
            c.eq("%s axes exchanged" % fn, swap(t, pairs), t, OF + fn, "exchanging the axes with their parameters leaves the graph unchanged", domain(S, fn))
            for a, b in prs:
                for p, g in ((a, u), (b, v)):
                    q = sym(p, (), k[p])
                    z = B.subst(t, {g: B.bc(ZERO, g.axes)})
                    c.eq("%s: %s acts through %s only" % (fn, p, g.data[0]), B.subst(z, {q: sym(p + "'", (), k[p])}), z, OF + fn,
                         "with the matching frequency at zero the parameter has no influence")
        c.group(fn, one)

    def syst():
        S = c.session()
        unit_kernel_rows(S)
        t, _ = system(c, S)
        uu, vv = grid("uu"), grid("vv")
        sy = lambda n, k="pos": sym("sensor." + n, (), k)
        prs = [(uu, vv)] + [(sy(a, k), sy(b, k)) for a, b, k in [
            ("p_x", "p_y", "pos"), ("w_x", "w_y", "pos"), ("s_x", "s_y", "nonneg"), ("da_x", "da_y", "nonneg"), ("L_x", "L_y", "pos")]]
        for f in ("ap_OTF", "turb_OTF", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "system_OTF"):
            x = t.term("." + f)
            c.eq("common_OTFs.%s axes exchanged" % f, swap(x, prs), x, OF + "common_OTFs",
                 "exchanging the axes with their parameters leaves the graph unchanged", count=6)
    c.group("system", syst)

    for which in ("niirs", "niirs5"):
        def geo(which=which):
            S = c.session()
            o = c.call(S, MF + which, *args(S, MF + which))
            sl = o.term(".slant_range")
            for ax in "xy":
                p = sym("sensor.p_" + ax, (), "pos")
                f = sym("sensor.f", (), "pos")
                c.eq("%s.ifov_%s" % (which, ax), o.term(".ifov_" + ax), B.div(p, f), MF + which, "angle per pixel follows this axis' pitch")
                if which == "niirs" or ax == "x":
                    c.eq("%s.gsd_%s" % (which, ax), o.term(".gsd_" + ax), B.mul(B.div(p, f), sl), MF + which, "ground sample distance follows this axis' pitch")
        c.group(which, geo)

    for fn in ("giqe5_RER", "giqe_edge_terms"):
        def edge(fn=fn):
            S = c.session()
            S2 = args(S, MF + fn)
            o = c.call(S, MF + fn, *S2)
            ix, iy = sym("ifov_x", (), "pos"), sym("ifov_y", (), "pos")
            if fn == "giqe5_RER":
                for i, (mine, other) in enumerate(((ix, iy), (iy, ix))):
                    t = o.term("[%d]" % i)
                    c.eq("giqe5_RER[%d] ignores the other axis' pixel angle" % i, B.subst(t, {other: sym("other'", (), "pos")}), t, MF + fn,
                         "a directional edge response depends on its own pixel angle only", count=10)
        c.group(fn, edge)


# ------------------------------------------------------------------ C04
BOUNDED = {
    "circular_aperture_OTF": "normalised autocorrelation of a non-negative pupil lies in [0,1]",
    "cte_OTF": "exponential of a non-positive number",
    "defocus_OTF": "exponential of a non-positive number",
    "detector_OTF": "product of two sinc",
    "detector_OTF_with_aggregation": "mean of cosines times sinc",
    "diffusion_OTF": "the diffusion length at frequency rho is at most the one at zero, and the numerator increases with it",
    "drift_OTF": "product of two sinc",
    "gaussian_OTF": "exponential of a non-positive number",
    "jitter_OTF": "exponential of a non-positive number",
    "tdi_OTF": "sinc times a mean of unit phasors",
    "turbulence_OTF": "inside the cutoff lambda*rho <= D the exponent is non-positive",
    "wind_speed_turbulence_OTF": "convex mean of two bounded responses inside the cutoff",
    "wavefront_OTF": "exponential of a non-positive number",
    "wavefront_OTF_2": "inside the cutoff 1-4(x-1/2)^2 >= 0",
}


def rho():
    u, v = grid("u"), grid("v")
    return B.fn("sqrt", B.add(B.mul(u, u), B.mul(v, v)))


def inside(fn):
    """inside the optical cutoff"""
    s = lambda n: sym(n, (), "pos")
    if fn in ("turbulence_OTF", "wind_speed_turbulence_OTF", "circular_aperture_OTF"):
        return B.cmp("<=", B.mul(s("lambda0"), rho()), s("D"))
    if fn == "wavefront_OTF_2":
        return B.and_(B.cmp("<=", rho(), s("cutoff")), B.cmp("<=", sym("w_rms", (), "nonneg"), num("0.18")))
    return None


def masked(cond, t, other):
    """t where cond holds"""
    return t if cond is None else B.ite(cond, t, other)


@prop("C04")
def c04(c):
    for fn, why in BOUNDED.items():
        def one(fn=fn, why=why):
            S = c.session()
            a = args(S, OF + fn)
            t = c.call(S, OF + fn, *a).term()
            s = c.call(S, SP + fn, *a).term()
            w = inside(fn)
            b = B.fn("abs", masked(w, t, B.bc(ZERO, t.axes)))
            rule = "magnitude of the value graph is at most 1"
            if w is None and magnitude_at_most_one(t):
                c.fact("|%s|<=1" % fn, True, OF + fn, rule + "; from the normal form")
            else:
                c.le("|%s|<=1" % fn, b, B.bc(ONE, t.axes), OF + fn, rule, domain(S, fn), lemma=[(why, t, s)])
        c.group(fn, one)

    def cutoff():
        for fn, over in (("circular_aperture_OTF", {}), ("circular_aperture_OTF", {"eta": ZERO})):
            S = c.session()
            a = args(S, OF + fn, **over)
            t = c.call(S, OF + fn, *a).term()
            s = c.call(S, SP + fn, *a).term()
            z = B.bc(ZERO, t.axes)
            c.eq("%s beyond cutoff %s" % (fn, sorted(over)), masked(inside(fn), z, t), z, OF + fn, "beyond the cutoff the value graph is 0",
                 domain(S, fn), lemma=[("arccos of a number above one is undefined and replaced by 0; beyond (1+eta)/2 the crossing term is switched off", t, s)])
    c.group("cutoff", cutoff)


# ------------------------------------------------------------------ C05
ZERO_STRENGTH = [
    ("jitter_OTF", {"s_x": ZERO, "s_y": ZERO}, None), ("drift_OTF", {"a_x": ZERO, "a_y": ZERO}, None), ("wavefront_OTF", {"pv": ZERO}, None),
    ("wavefront_OTF_2", {"w_rms": ZERO}, None), ("defocus_OTF", {"w_x": ZERO, "w_y": ZERO}, None), ("gaussian_OTF", {"blur_size_x": ZERO, "blur_size_y": ZERO}, None),
    ("cte_OTF", {"cte_n_x": ZERO, "cte_n_y": ZERO}, None), ("cte_OTF", {"cte_eff": ONE}, None),
    ("detector_OTF_with_aggregation", {"n": ONE}, "detector_OTF"),
    ("circular_aperture_OTF_with_defocus", {"defocus": ZERO}, None),
]
# parameter -> +1: more of it is more blur, -1: less
MONOTONE = {
    "jitter_OTF": {"s_x": 1, "s_y": 1}, "gaussian_OTF": {"blur_size_x": 1, "blur_size_y": 1}, "defocus_OTF": {"w_x": 1, "w_y": 1},
    "wavefront_OTF": {"pv": 1, "L_x": -1, "L_y": -1}, "cte_OTF": {"cte_n_x": 1, "cte_n_y": 1, "cte_eff": -1, "phases_n": 1},
    "wavefront_OTF_2": {"w_rms": 1}, "turbulence_OTF": {"r0": -1}, "diffusion_OTF": {"al0": 1},
}


@prop("C05")
def c05(c):
    for fn, over, base in ZERO_STRENGTH:
        def one(fn=fn, over=over, base=base):
            S = c.session()
            if fn == "gaussian_OTF":    # in the limit: zero in the normal form
                t = nf.canon(c.call(S, OF + fn, *args(S, OF + fn)).term())
                t = B.subst(t, {sym(n, (), "pos"): x for n, x in over.items()})
            else:
                a = args(S, OF + fn, **over)
                t = c.call(S, OF + fn, *a).term()
            if base:
                s = c.call(S, OF + base, *args(S, OF + base)).term()
            elif fn == "circular_aperture_OTF_with_defocus":
                s = c.call(S, SP + fn, *a).term()
            else:
                s = B.bc(ONE, t.axes)
            c.eq("%s without blur (%s)" % (fn, ",".join(sorted(over))), t, s, OF + fn, "at zero strength the value graph is the identity")
        c.group(fn, one)
    for fn, ps in MONOTONE.items():
        for p, sg in ps.items():
            def one(fn=fn, p=p, sg=sg):
                S = c.session()
                k = kinds(OF + fn)[p]
                a = args(S, OF + fn)
                t = c.call(S, OF + fn, *a).term()
                s = c.call(S, SP + fn, *a).term()
                x = sym(p, (), k)
                if p == "cte_eff":      # 1-q against 1-q*r, both in [0,1]
                    q, r = sym("q", (), "unit"), sym("r", (), "unit")
                    lo, hi = B.sub(ONE, q), B.sub(ONE, B.mul(q, r))
                else:
                    lo, hi = x, B.add(x, sym("d", (), "posint" if k == "posint" else "nonneg"))
                tl, th = B.subst(t, {x: lo}), B.subst(t, {x: hi})
                more, less = (th, tl) if sg > 0 else (tl, th)
                rule = "value graph is monotone in the blur strength"
                w = inside(fn)
                nm = "%s never rises with %s" % (fn, p if sg > 0 else "less " + p)
                if w is not None:
                    w = B.subst(w, {x: hi})
                    more, less = B.ite(w, more, B.bc(ZERO, t.axes)), B.ite(w, less, B.bc(ZERO, t.axes))
                elif at_most(more, less):
                    return c.fact(nm, True, OF + fn, rule + "; sign of the exponent's difference")
                c.le(nm, more, less, OF + fn, rule, lemma=[("the documented form is monotone in this parameter inside the cutoff", t, s)])
            c.group(fn, one)


# ------------------------------------------------------------------ C07
@prop("C07")
def c07(c):
    fields = FIELDS + ["system_OTF", "r0_band"]
    rule = "the field's value graph equals the documented composition"

    def full(tag, prep):
        S = c.session()
        prep(S)
        o, a = system(c, S)
        s = c.call(S, SP + "common_OTFs", *list(a.values()))
        for i, f in enumerate(fields):
            c.eq("%s%s" % (f, tag), o.term("." + f), s.term("[%d]" % i), OF + "common_OTFs", rule, count=4 if "filter" in tag else 8)
        p = ONE
        for f in FIELDS:
            p = B.mul(p, o.term("." + f))
        c.eq("system_OTF = product of the reported components%s" % tag, o.term(".system_OTF"), p, OF + "common_OTFs",
             "the product of exactly the seven reported fields", count=4)
        returns(c, o, s, OF + "common_OTFs")

    c.group("general kernel", full, " (filter kernel)", lambda S: None)
    c.group("one-row kernel", full, " (one-row kernel)", unit_kernel_rows)

    def noturb():
        S = c.session()
        unit_kernel_rows(S)
        o, a = system(c, S)
        k = sym("scenario.cn2_at_1m", (), "nonneg")
        for f in ("turb_OTF",):
            t = B.subst(o.term("." + f), {k: ZERO})
            c.eq("turb_OTF without turbulence", t, B.bc(ONE, t.axes), OF + "common_OTFs", "no turbulence contributes exactly 1")
        t = o.term(".filter_OTF")
        c.eq("filter_OTF with a one-row kernel", t, B.bc(ONE, t.axes), OF + "common_OTFs", "a one-row kernel contributes exactly 1")
    c.group("inactive components", noturb)


# ------------------------------------------------------------------ C08
@prop("C08")
def c08(c):
    fn = OF + "weighted_by_wavelength"

    def general():
        S = c.session()
        same(c, fn, SP + "weighted_by_wavelength", "sum of weight times value over all wavelengths, divided by the weight sum", S)
    c.group("general", general)

    def sizes():
        for n in (1,):
            S = c.session()
            ax = (("n", n),)
            w, wt = S.sym("wavelengths", "pos", ax), S.sym("weights", "pos", ax)
            f = S.func("my_function")
            o = c.call(S, fn, w, wt, f)
            s = c.call(S, SP + "weighted_by_wavelength", w, wt, f)
            c.eq("%d wavelength(s)" % n, o.term(), s.term(), fn, "every band used once with its own weight")
    c.group("sizes", sizes)

    def scale():
        S = c.session()
        a = args(S, fn)
        t = c.call(S, fn, *a).term()
        w = S.term(a[1])
        k = sym("k", (), "pos")
        c.eq("scaling the weights", B.subst(t, {w: B.mul(k, w)}), t, fn, "invariant under a common factor on the weights")
        t2 = c.call(S, "spec_clients.weighted_scaled", a[0], a[1], a[2], k).term()
        c.eq("linear in the function", t2, B.mul(k, t), fn, "linear in the weighted function")
        kk = S.sym("level", "real")
        t3 = c.call(S, "spec_clients.weighted_constant", a[0], a[1], kk).term()
        c.eq("constant function", t3, kk, fn, "a constant is its own average")
    c.group("laws", scale)

    def grids():
        S = c.session()
        a = args(S, fn)
        g = S.grid("image", "real")
        o = c.call(S, "spec_clients.weighted_grid", a[0], a[1], g)
        s = c.call(S, "spec_clients.weighted_grid_spec", a[0], a[1], g)
        c.eq("array-valued function", o.term(), s.term(), fn, "the average is taken pointwise")
    c.group("array", grids)


# ------------------------------------------------------------------ C09
def bell(ev, sh):
    w = mpf("0.1") + mpf("0.15") * rnd(ev.seed, "bell")
    out = np.empty(sh, dtype=object)
    for i, j in np.ndindex(*sh):
        x, y = (mpf(i) - sh[0] // 2) / sh[0], (mpf(j) - sh[1] // 2) / sh[1]
        out[i, j] = mpmath.exp(-(x * x + y * y) / (2 * w * w))
    return out


@prop("C09")
def c09(c):
    r = "value graph equals the documented kernel construction"

    def psf(tag, r_, c_):
        if r_ == c_:
            r_, c_ = ("r", r_), ("c", c_)
        S = c.session()
        otf = S.sym("otf", "unit", (r_, c_))
        df, dx = S.sym("df", "pos"), S.sym("dx_out", "pos")
        o = c.call(S, OF + "otf_to_psf", otf, df, dx)
        s = c.call(S, SP + "otf_to_psf", otf, df, dx)
        # output sizes on both sides of the crop's first window
        R = dict(RANGES, df=(0.2, 0.35), dx_out=(0.1, 0.5))
        if c.eq("otf_to_psf (%s)" % tag, o.term(), s.term(), OF + "otf_to_psf", r, count=6, ranges=R) == UNDECIDED:
            # smooth transfer functions, whose kernels lie almost wholly inside the crop
            c.eq("otf_to_psf (%s, smooth)" % tag, o.term(), s.term(), OF + "otf_to_psf", r, count=6, ranges=dict(R, otf=bell))
        returns(c, o, s, OF + "otf_to_psf")
        t = o.term()
        c.eq("kernel sum (%s)" % tag, B.total(t), ONE, OF + "otf_to_psf", "the kernel's entries sum to one", count=4,
             lemma=[("division by its own sum", t, s.term())])
    row, col = ("ax", "row"), ("ax", "col")
    c.group("any size", psf, "any size", row, col)
    c.group("square", psf, "square", row, row)
    c.group("small", psf, "8x8", ("n", 8), ("n", 8))
    c.group("odd", psf, "15x15", ("n", 15), ("n", 15))
    c.group("tall", psf, "26x12", ("n", 26), ("n", 12))
    c.group("large", psf, "24x24", ("n", 24), ("n", 24))
    c.group("wide", psf, "12x31", ("n", 12), ("n", 31))

    def app():
        S = c.session()
        same(c, OF + "resample_2D", SP + "resample_2D", "sizes scale by input over output sampling, axis order kept", count=6)
    c.group("resample", app)

    def img():
        S = c.session()
        same(c, OF + "apply_otf_to_image", SP + "apply_otf_to_image", "filter at the reference sampling, then resample image and kernel alike",
             S, paths=("[0]", "[1]"), count=3)
    c.group("apply", img)

    def anykernel():
        """the same with the kernel itself left open: any unit-sum array"""
        S = c.session()
        fn = OF + "apply_otf_to_image"
        if S.summarise_psf(OF + "otf_to_psf"):
            a = args(S, fn)
            o, s = c.call(S, fn, *a), c.call(S, SP + "apply_otf_to_image", *a)
            for p in ("[0]", "[1]"):
                t = o.term(p)
                if any(x.op == "psfof" for x in subterms(t)):
                    c.eq("apply_otf_to_image%s, any kernel" % p, t, s.term(p), fn,
                         "whatever kernel is derived: filter with it, then resample image and kernel alike", None, RANGES, count=12)
    c.group("apply, any kernel", anykernel)


# ------------------------------------------------------------------ C10
@prop("C10")
def c10(c):
    fn = OF + "slice_otf"

    def gen():
        same(c, fn, SP + "slice_otf", "values along the ray from zero frequency in the requested direction", count=8)
    c.group("general", gen)

    def cx():
        S = c.session()
        same(c, fn, SP + "slice_otf", "complex transfer functions are sliced alike", S, over={"otf": S.sym("otf", "cx", (("ax", "row"), ("ax", "col")))}, count=6)
    c.group("complex", cx)
    for nm, ang in (("0", ZERO), ("pi/2", B.div(mk("pi", ()), num(2))), ("pi", mk("pi", ())), ("-pi/2", B.div(mk("pi", ()), num(-2)))):
        def one(nm=nm, ang=ang):
            S = c.session()
            same(c, fn, SP + "slice_otf", "along the axis at this angle", S, over={"ang": ang}, count=6)
        c.group("angle " + nm, one)


# ------------------------------------------------------------------ C11
@prop("C11")
def c11(c):
    r = "value graph equals the documented turbulence model"
    for fn in ("turbulence_OTF", "wind_speed_turbulence_OTF", "coherence_diameter", "hufnagel_valley_turbulence_profile"):
        c.group(fn, lambda fn=fn: same(c, OF + fn, SP + fn, r, count=16))

    def poly():
        same(c, OF + "polychromatic_turbulence_OTF", SP + "polychromatic_turbulence_OTF", r, paths=("[0]", "[1]"), count=4)
    c.group("polychromatic", poly)

    def path():
        same(c, GE + "altitude_along_slant_path", SP + "altitude_along_slant_path", "altitude at each point of the path from the target up",
             paths=("[0]", "[1]"), count=6)
    c.group("path", path)

    def scaling():
        S = c.session()
        a = args(S, OF + "coherence_diameter")
        t = c.call(S, OF + "coherence_diameter", *a).term()
        lam, k = sym("lambda0", (), "pos"), sym("k", (), "pos")
        c.eq("coherence diameter ~ wavelength^(6/5)", B.subst(t, {lam: B.mul(k, lam)}), B.mul(t, B.pow_(k, num("1.2"))), OF + "coherence_diameter",
             "scales as wavelength to the 6/5")
    c.group("scaling", scaling)
