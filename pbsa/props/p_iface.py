"""Obligations on optional dependencies, warnings and rejections, completeness
of results, plots, constants and the use of every parameter."""
import ast
from fractions import Fraction

from .. import build as B
from .. import harness as H
from .. import nf
from ..api import GE, METRICS, MF, NO, OF, RANGES, REFI, RF, SCEN, SENSOR, SF, SIG, UT, arg, args, kinds, names
from ..interp import Anchor, CondV, ObjV, Ref, UNBOUND
from ..rint import _axterms
from ..obs import PROVED, UNDECIDED, VIOLATED, prop, satisfiable
from ..terms import FALSE, NONE, ONE, TRUE, Term, ZERO, const_int, mk, num, show, subterms, sym
from .p_eff import entries, explore, flat, parameters, perform, short, site, sources

AVAILABLE = sym("opencv_available", (), "bool")
EXTRAS = ("pybsm[graphics]", "pybsm[headless]")


# ---------------------------------------------------------------- C31
IMAGE_OPS = (OF + "otf_to_psf", OF + "apply_otf_to_image", OF + "resample_2D", SF + "simulate_image")


def guarded(tree):
    """module-level imports of cv2: (line, inside a try that catches the failure)"""
    out = []

    def catches(t):
        for h in t.handlers:
            names_ = ["Exception"] if h.type is None else [ast.unparse(x) for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if {"ImportError", "Exception", "BaseException"} & set(names_):
                return True
        return False

    def conditional(test):
        return any(isinstance(x, (ast.Name, ast.Attribute, ast.Call)) for x in ast.walk(test))

    def walk(body, safe):
        for s in body:
            if isinstance(s, ast.Import):
                if any(a.name.split(".")[0] == "cv2" for a in s.names):
                    out.append((s.lineno, safe))
            elif isinstance(s, ast.ImportFrom):
                if s.level == 0 and (s.module or "").split(".")[0] == "cv2":
                    out.append((s.lineno, safe))
            elif isinstance(s, ast.Try):
                walk(s.body, safe or (True if catches(s) else False))
                for h in s.handlers:
                    walk(h.body, safe)
                walk(s.orelse, safe)
                walk(s.finalbody, safe)
            elif isinstance(s, ast.If):
                # an import under a test of its own: guarded if the test is
                # about availability, which is not decided here
                walk(s.body, safe or (None if conditional(s.test) else False))
                walk(s.orelse, safe or (None if conditional(s.test) else False))
            elif isinstance(s, (ast.With, ast.ClassDef)):
                walk(s.body, safe or (None if isinstance(s, ast.With) else False))
    walk(tree.body, False)
    return out


@prop("C31")
def c31(c):
    rule = "a module imports OpenCV only where an installation that is missing or cannot be loaded is caught"
    n = 0
    for path, tree in sources():
        for line, safe in guarded(tree):
            n += 1
            c.fact("%s imports cv2" % path, safe, "%s:%d" % (path, line), rule, "unguarded import" if safe is False else None)
    c.fact("module imports", True, "src/pybsm", rule, "%d imports of cv2 at module level" % n)

    def one(fn):
        S, p, o = explore(c, fn)
        rule = "OpenCV is touched only where it is installed"
        uses = [e for e in o.effects if e.kind == "uses-cv2"]
        op = fn in IMAGE_OPS
        unk = [e for e in o.effects if e.kind in ("unknown-call", "unsupported")]
        if not uses:
            c.fact(short(fn) + ": use", True if not unk or not op else None, fn, rule, "no use of OpenCV on any path")
        for e in uses[:3]:
            hit = B.subst(e.cond, {AVAILABLE: FALSE})
            c.never(short(fn) + ": use without OpenCV", hit, site(e), rule, detail="%s is reached when OpenCV is absent" % e.what)
        imp = [e for e in o.effects if e.kind == "raise" and str(e.what).split(".")[-1] in ("ImportError", "ModuleNotFoundError")]
        rule = "without OpenCV every image operation raises an import error naming the install extras"
        if op:
            if not imp:
                c.fact(short(fn) + ": import error", False if not unk else None, fn, rule, "no import error is raised when OpenCV is absent")
                return
            rest = [B.not_(e.cond) for e in imp]
            c.never(short(fn) + ": import error", B.subst(B.and_(*rest), {AVAILABLE: FALSE}), fn, rule, detail="without OpenCV a path raises no import error")
            for e in imp:
                c.never(short(fn) + ": error although installed", B.subst(e.cond, {AVAILABLE: TRUE}), site(e), "the import error is raised only without OpenCV",
                        detail="the import error is raised although OpenCV is installed")
                text = " ".join(str(x.data) for t in (e.data or ()) if isinstance(t, Term) for x in subterms(t) if x.op == "str")
                known = all(isinstance(t, Term) and not t.unk for t in e.data or ())
                miss = [x for x in EXTRAS if x not in text]
                c.fact(short(fn) + ": message", False if miss and known else None if miss else True, site(e), rule, "message %r" % text)
        else:
            rule = "functions other than the image operations do not depend on OpenCV"
            for e in imp:
                c.never(short(fn) + ": independent", B.subst(e.cond, {AVAILABLE: FALSE}), site(e), rule, detail="an import error is raised when OpenCV is absent")
            for e in uses[:1]:
                c.never(short(fn) + ": independent", B.and_(e.cond, TRUE), site(e), rule, detail="%s is used" % e.what)
            dep = [path for path, t in flat(S, o) if AVAILABLE in set(subterms(t))]
            if dep:
                t = dict(flat(S, o))[dep[0]]
                c.eq(short(fn) + ": same result", B.subst(t, {AVAILABLE: FALSE}), B.subst(t, {AVAILABLE: TRUE}), fn, rule, count=8)
            elif not imp and not uses:
                c.fact(short(fn) + ": independent", True, fn, rule)
    for fn, _ in entries():
        c.group(short(fn), one, fn)


# ---------------------------------------------------------------- C32
# function -> spectral inputs whose emptiness its documentation announces
SPECTRAL = {
    RF + "at_focal_plane_irradiance": ("L",), RF + "blackbody_radiance": ("lambda0",), RF + "cold_shield_self_emission": ("wavelengths",),
    RF + "cold_stop_self_emission": ("wavelengths",), RF + "focal_plane_integrated_irradiance": ("L", "lambda0"),
    RF + "optics_self_emission": ("wavelengths",), RF + "photon_detection_rate": ("E", "wavelengths", "qe"),
    RF + "signal_rate": ("wavelengths", "target_radiance", "optical_transmission", "other_irradiance"),
}


OTHER_WARNINGS = ("Warning RuntimeWarning DeprecationWarning PendingDeprecationWarning FutureWarning SyntaxWarning ImportWarning UnicodeWarning BytesWarning "
                  "ResourceWarning EncodingWarning").split()
OTHER_ERRORS = ("Exception BaseException RuntimeError TypeError KeyError IndexError LookupError AssertionError ArithmeticError ZeroDivisionError AttributeError "
                "OSError NotImplementedError NameError Warning UserWarning").split()


def empties(c, fn):
    rule = "a user warning exactly when a spectral input is empty"
    inputs = SPECTRAL[fn]
    arrays = [n for n, k in kinds(fn).items() if k in ("wave", "wave2", "lam", "lampos", "lamunit")]

    def verdict(lab, cond, k, o):
        """the warning condition as a function of one length"""
        n = sym("samples", (), "nonnegint")
        warns = [e for e in o.effects if e.kind == "warn"]
        L = B.dim(k, 0)
        for e in warns:
            if str(e.what) in OTHER_WARNINGS and B.subst(e.cond, {L: ZERO}) is not FALSE:
                c.fact(lab + ": kind", False if B.subst(e.cond, {L: ZERO}) is TRUE else None, site(e), "the warning is a user warning", "category %s" % e.what)
        at = lambda m: B.subst(cond, {L: num(m)})
        where = site(warns[0]) if warns else fn
        if at(0) is FALSE:
            return c.fact(lab, False, where, rule, "no warning for an empty input")
        full = [m for m in (1, 2, 3, 50) if at(m) is TRUE]
        if full:
            return c.fact(lab, False, where, rule, "a warning for an input of %d samples" % full[0])
        same = nf.equal(B.ite(cond, ONE, ZERO), B.ite(B.cmp("==", L, ZERO), ONE, ZERO)) is True
        if same or at(0) is TRUE and all(at(m) is FALSE for m in (1, 2, 3, 50)) and all(x.op in ("len", "lt", "le", "eq", "not", "and", "or", "num", "max", "min", "add", "mul") or x.op == L.op for x in subterms(cond)):
            return c.fact(lab, True, where, rule)
        return c.fact(lab, None, where, rule, show(cond)[:200])

    # all spectra share one length
    S = c.session()
    p = [(n, arg(S, n, k)) for n, k in kinds(fn).items()]
    o = c.call(S, fn, *[v for _, v in p])
    cond = B.or_(*[e.cond for e in o.effects if e.kind == "warn"]) if any(e.kind == "warn" for e in o.effects) else FALSE
    verdict(short(fn) + ": all spectra", cond, S.term(dict(p)[inputs[0]]), o)
    # one spectrum empty, the others of one sample
    if len(inputs) > 1:
        for x in inputs:
            S = c.session()
            vs = []
            for n, k in kinds(fn).items():
                if n in arrays and n != x:
                    vs.append(S.sym(n, {"wave": "wave", "wave2": "wave", "lam": "nonneg", "lampos": "pos", "lamunit": "unit"}[k], (("n", 1),)))
                else:
                    vs.append(arg(S, n, k))
                    if n == x:
                        it = S.term(vs[-1])
            o = c.call(S, fn, *vs)
            cond = B.or_(*[e.cond for e in o.effects if e.kind == "warn"]) if any(e.kind == "warn" for e in o.effects) else FALSE
            verdict(short(fn) + ": " + x, cond, it, o)


@prop("C32")
def c32(c):
    for fn in SPECTRAL:
        c.group(short(fn), empties, c, fn)

    def calibration():
        rule = "pixel values without reflectance values raise ValueError before an image exists"
        S = c.session()
        img, pix = S.grid("img", "nonneg", "ir", "ic"), S.vec("pix_values", "incr", "cal")
        o = c.call(S, REFI, img, S.sym("gsd", "pos"), pix)
        bad = [e for e in o.effects if e.kind == "raise"]
        c.never("RefImage without reflectances", o.alive, bad[0].file and site(bad[0]) if bad else REFI, rule, detail="an object is created from pixel values alone")
        c.fact("RefImage: kind of error", all(str(e.what).endswith("ValueError") for e in bad) if bad else None, site(bad[0]) if bad else REFI, rule, [e.what for e in bad])
        S = c.session()
        o = c.call(S, REFI, S.grid("img", "nonneg", "ir", "ic"), S.sym("gsd", "pos"), S.vec("pix_values", "incr", "cal"), S.vec("refl_values", "unit", "cal"))
        c.never("RefImage with both", B.not_(o.alive), REFI, "a complete calibration is accepted", detail="a valid calibration is rejected")
        S = c.session()
        o = c.call(S, REFI, S.grid("img", "nonneg", "ir", "ic"), S.sym("gsd", "pos"))
        c.never("RefImage with neither", B.not_(o.alive), REFI, "an image without calibration is accepted", detail="an image without calibration is rejected")
    c.group("RefImage", calibration)

    def grid():
        fn = SF + "simulate_image"
        rule = "simulation raises ValueError unless the frequency grid increases"
        S = c.session()
        S.modular([OF + "common_OTFs", OF + "apply_otf_to_image"], raw=True)
        S.dom_extra[("Sensor", "D")] = ("real", ())
        o = c.call(S, fn, *args(S, fn))
        bad = [e for e in o.effects if e.kind == "raise" and str(e.what).endswith("ValueError")]
        D = sym("sensor.D", (), "real")
        hit = B.or_(*[e.cond for e in bad]) if bad else FALSE
        avail = {AVAILABLE: TRUE}
        where = site(bad[0]) if bad else fn
        # without an increasing grid: aperture (hence cutoff) not positive
        c.never("non-increasing grid", B.subst(B.and_(o.alive, B.cmp("<=", D, ZERO)), avail), where, rule, ranges={**RANGES, "sensor.D": (-1, 1)},
                detail="a grid that does not increase is accepted")
        wrong = [e for e in o.effects if e.kind == "raise" and str(e.what) in OTHER_ERRORS]
        for e in wrong:
            c.never("kind of error", B.subst(B.and_(e.cond, B.cmp("<=", D, ZERO)), avail), site(e), rule, ranges={**RANGES, "sensor.D": (-1, 1)},
                    detail="%s instead of ValueError" % e.what)
        c.never("increasing grid", B.subst(B.and_(hit, B.cmp("<", ZERO, D)), avail), where, rule, ranges={**RANGES, "sensor.D": (-1, 1)},
                detail="an increasing grid is rejected")
    c.group("simulate_image grid", grid)


# ---------------------------------------------------------------- C33
FIELDS = {
    "niirs": ("sensor scenario slant_range atm tgt_radiance bkg_radiance radiance_wavelengths snr mtf_wavelengths mtf_weights cutoff_frequency uu vv df "
              "otf ifov_x ifov_y gsd_x gsd_y gsd_gm rer_gm eho_gm ng niirs elev_angle niirs_4 gsd_gp").split(),
    "niirs5": ("sensor scenario slant_range atm tgt_radiance bkg_radiance radiance_wavelengths snr mtf_wavelengths mtf_weights cutoff_frequency uu vv df "
               "otf ifov_x ifov_y gsd_x niirs elev_angle rer rer_0 rer_90 gsd_w").split(),
}
SNR_FIELDS = ("opt_trans qe other_irradiance tgt_n_rate tgt_FPA_irradiance weights tgt_n bkg_n_rate bkg_FPA_irradiance bkg_n scale_factor int_time "
              "well_fraction contrast_signal signal_noise dark_current_noise quantization_noise self_emission_noise total_noise snr").split()
OTF_FIELDS = "ap_OTF turb_OTF r0_band det_OTF jit_OTF drft_OTF wav_OTF filter_OTF system_OTF".split()
ERRORS = ("unbound", "missing-attr", "maybe-missing-attr", "name-error", "type-error")


def absent(v):
    """condition under which the value does not exist"""
    if v is UNBOUND or v is NONE:
        return TRUE
    if isinstance(v, Term) and v.op == "missing":
        return TRUE
    if isinstance(v, CondV):
        return B.or_(B.and_(v.c, absent(v.a)), B.and_(B.not_(v.c), absent(v.b)))
    if isinstance(v, Term) and v.op == "ite":
        return B.or_(B.and_(v.args[0], absent(v.args[1])), B.and_(B.not_(v.args[0]), absent(v.args[2])))
    return FALSE


def complete(c, lab, S, o, path, fields, where):
    rule = "every documented field is set on every path to a normal return"
    for f in fields:
        try:
            v = o.val(path)
        except Exception:
            c.add("%s%s" % (lab, path), UNDECIDED, where, rule, "no such value")
            return
        if not isinstance(v, ObjV):
            g = absent(v)
            c.add("%s%s" % (lab, path), UNDECIDED, where, rule, "not a single object") if g is not TRUE else c.fact(lab + path, False, where, rule, "absent")
            return
        d = o.st.heap.get(v.loc)
        if not isinstance(d, dict):
            c.add("%s%s" % (lab, path), UNDECIDED, where, rule, "opaque object")
            return
        n0 = len(S.I.effects)
        st = o.st.copy()
        try:
            x = S.I.getattr(v, f, st) if f in d or v.cls is None or f not in d else UNBOUND
        except Exception:
            x = None
        late = [e for e in S.I.effects[n0:] if e.kind in ("missing-attr", "maybe-missing-attr")]
        del S.I.effects[n0:]
        gone = absent(x) if x is not None else None
        if f not in d and (late or gone is TRUE):
            gone = TRUE
        elif late:
            gone = B.or_(gone if gone is not None else FALSE, *[e.cond for e in late])
        if gone is None:
            c.add("%s%s.%s" % (lab, path, f), UNDECIDED, where, rule, "not readable")
        elif f not in d and any(e.kind in ("unknown-call", "unknown-store", "unsupported") for e in o.effects):
            c.add("%s%s.%s" % (lab, path, f), UNDECIDED, where, rule, "not seen to be set, but not everything was interpreted")
        else:
            c.never("%s%s.%s" % (lab, path, f), B.and_(o.alive, gone), where, rule, detail="%s is not set" % f)


@prop("C33")
def c33(c):
    def one(fn):
        S, p, o = explore(c, fn)
        rule = "no path reads a value before it is computed"
        errs = [e for e in o.effects if e.kind in ERRORS]
        for e in errs:
            c.never("%s: %s %s" % (short(fn), e.kind, str(e.what)[:60]), e.cond, site(e), rule, detail="%s: %s" % (e.kind, e.what))
        if not errs:
            c.fact(short(fn) + ": reads", True, fn, rule)
        if fn in (REFI + ".show",) or fn in (SENSOR, SCEN, REFI, METRICS):
            return
        c.never(short(fn) + ": value", B.and_(o.alive, absent(o.v)), fn, "every path to a normal return gives a value", detail="returns nothing")
        if fn == RF + "photon_detector_SNR":
            complete(c, short(fn), S, o, "", SNR_FIELDS, fn)
        elif fn == OF + "common_OTFs":
            complete(c, short(fn), S, o, "", OTF_FIELDS, fn)
        elif fn in (MF + "niirs", MF + "niirs5"):
            complete(c, short(fn), S, o, "", FIELDS[fn.split(".")[-1]], fn)
            complete(c, short(fn), S, o, ".snr", SNR_FIELDS + ["path_noise", "scene_noise"], fn)
            complete(c, short(fn), S, o, ".otf", OTF_FIELDS, fn)
    for fn, _ in entries():
        c.group(short(fn), one, fn)


# ---------------------------------------------------------------- C34
CURVES = (("aperture", "ap_OTF"), ("turb", "turb_OTF"), ("detector", "det_OTF"), ("jitter", "jit_OTF"), ("drift", "drft_OTF"),
          ("wavefront", "wav_OTF"), ("processing", "filter_OTF"), ("system", "system_OTF"))
BARS = (("total", "total_noise"), ("scene", "scene_noise"), ("path", "path_noise"), ("emission", "self_emission_noise"), ("dark", "dark_current_noise"),
        ("quant", "quantization_noise"), ("read", None))


def text(x):
    if isinstance(x, str):
        return x
    return x.data if isinstance(x, Term) and x.op == "str" else None


def items(x):
    """elements of a plotted sequence"""
    if isinstance(x, (tuple, list)):
        return list(x)
    if isinstance(x, Term):
        e = B.elements(x)
        if e is not None:
            return list(e)
    return None


def curves(effects):
    """(x, y, label, effect) of every curve in drawing order, None if not readable"""
    out = []
    for e in effects:
        if e.kind != "plot" or e.what not in ("plot", "semilogy", "semilogx", "loglog"):
            continue
        a, kw = e.data
        q = list(a)
        while q:
            if text(q[0]) is not None:
                return None
            if len(q) > 1 and text(q[1]) is None:
                x, y = q[0], q[1]
                q = q[2:]
            else:
                x, y = None, q[0]
                q = q[1:]
            if q and text(q[0]) is not None:
                q = q[1:]
            if not isinstance(y, Term):
                return None
            out.append((x, y, text(kw.get("label")), e))
    return out


def legend(effects, cs):
    """labels in legend order"""
    ls = [e for e in effects if e.kind == "plot" and e.what == "legend"]
    if not ls:
        return None
    a, kw = ls[-1].data
    lab = kw.get("labels", a[0] if len(a) == 1 else a[1] if len(a) > 1 else None)
    if lab is None:
        return [l for _, _, l, _ in cs] if all(l is not None for _, _, l, _ in cs) else None
    its = items(lab)
    return [text(x) for x in its] if its is not None and all(text(x) is not None for x in its) else None


def choices(x):
    """(condition, text) of a label that depends on a condition"""
    if isinstance(x, CondV):
        x = [(x.c, x.a), (B.not_(x.c), x.b)]
    elif isinstance(x, Term) and x.op == "ite":
        x = [(x.args[0], x.args[1]), (B.not_(x.args[0]), x.args[2])]
    else:
        return [(TRUE, text(x))]
    return [(B.and_(k, k2), t) for k, y in x for k2, t in choices(y)]


def labelled(effects):
    """legend entries that name different curves under different conditions"""
    ls = [e for e in effects if e.kind == "plot" and e.what == "legend"]
    if not ls:
        return []
    a, kw = ls[-1].data
    out = []
    for x in items(kw.get("labels", a[0] if len(a) == 1 else a[1] if len(a) > 1 else None)) or []:
        cs = choices(x)
        if len(cs) > 1 and all(t is not None for _, t in cs):
            ks = {tuple(k for k, _ in CURVES if k in t.lower()) for q, t in cs if satisfiable(q, 60, RANGES, None, 1) is not None}
            if len(ks) > 1:
                out.append(sorted({t for _, t in cs}))
    return out


def plotted(c, mod):
    """the transfer-function plot of a symbolic metrics result"""
    S = c.session()
    if mod:
        S.modular([OF + "slice_otf"])
    m = S.obj(METRICS, "metrics")
    # ifov is the detector pitch over the focal length in every result (C28)
    se = S.get(m, "sensor")
    for k in "xy":
        S.st.heap[m.loc] = {**S.st.heap[m.loc], "ifov_" + k: B.div(S.term(S.get(se, "p_" + k)), S.term(S.get(se, "f")))}
    ang = S.sym("orientation_angle", "angle")
    return S, m, se, ang, c.call(S, MF + "plot_common_MTFs", m, ang)


def transfer_plot(c):
    fn = MF + "plot_common_MTFs"
    worlds = [plotted(c, True), plotted(c, False)]
    views = []
    for S, m, se, ang, o in worlds:
        cs = curves(o.effects)
        views.append((cs, legend(o.effects, cs or [])))
    cs, ls = views[0]
    rule = "curves and legend entries correspond one to one"
    odd = labelled(worlds[0][4].effects) if cs and ls is None else []
    if odd:
        c.fact("transfer functions: legend", False, fn, rule, "the entry of one curve changes: %s" % odd)
        return
    if not cs or ls is None or any(e.cond is not TRUE for *_, e in cs):
        c.fact("transfer functions: legend", False if not cs and not any(e.kind in ("unknown-call", "unsupported") for e in worlds[0][4].effects) else None, fn, rule, "curves or legend not readable")
        return
    c.fact("transfer functions: legend", len(cs) == len(ls), site(cs[-1][3]), rule, "%d curves, %d legend entries" % (len(cs), len(ls)))
    if len(cs) != len(ls):
        return
    for key, field in CURVES:
        at = [i for i, l in enumerate(ls) if key in l.lower()]
        lab = "transfer functions: " + key
        rule = "the curve under a label is the magnitude of that component along the orientation angle, over its spatial frequency in cycles/mm"
        if len(at) != 1:
            c.add(lab, UNDECIDED, fn, rule, "label not found once")
            continue
        i = at[0]
        done = []
        for (S, m, se, ang, o), (cv, _) in zip(worlds, views):
            sl = S.look(OF + "slice_otf")
            S0 = S.st
            S.st = o.st.copy()
            try:
                y = B.fn("abs", S.term(S.call(sl, S.get(S.get(m, "otf"), field), ang)))
                uu, vv = S.term(S.get(m, "uu")), S.term(S.get(m, "vv"))
                rho = B.sqrt(B.add(B.mul(uu, uu), B.mul(vv, vv)))
                x = S.term(S.call(sl, S.I.ref(S.st, B.mul(B.mul(num(Fraction(1, 1000)), B.div(ONE, S.term(S.get(se, "f")))), rho)), ang))
            finally:
                S.st = S0
            done.append((y, x, cv[i]))
        for tag, k, in (("", 0), (": frequency axis", 1)):
            spec, code = done[0][k], done[0][2][1 - k]
            if isinstance(code, Term) and not code.unk and nf.equal(code, spec) is True:
                c.add(lab + tag, PROVED, site(done[0][2][3]), rule)
                continue
            spec, code = done[1][k], done[1][2][1 - k]
            if not isinstance(code, Term):
                c.add(lab + tag, UNDECIDED, fn, rule, "no data")
                continue
            c.eq(lab + tag, code, spec, site(done[1][2][3]), rule, count=6)
    S, m, se, ang, o = worlds[0]
    rule = "the Nyquist mark is at half the sampling frequency in cycles/mm"
    ny = B.div(num(Fraction(1, 2000)), S.term(S.get(se, "p_x")))
    marks = []
    for e in o.effects:
        if e.kind == "plot" and e.what in ("annotate", "axvline", "vlines", "arrow", "text"):
            a, kw = e.data
            x = kw.get("xy", a[1] if len(a) > 1 else None) if e.what == "annotate" else kw.get("x", a[0] if a else None)
            if e.what == "annotate":
                xs = items(x)
                x = xs[0] if xs else None
            marks.append((x, e))
    if not marks:
        c.fact("transfer functions: Nyquist mark", None if any(e.kind in ("unknown-call", "unsupported") for e in o.effects) else False, fn, rule, "no mark is drawn")
    else:
        x, e = marks[0]
        good = [1 for x, e in marks if isinstance(x, Term) and not x.unk and nf.equal(x, ny) is True]
        if good:
            c.add("transfer functions: Nyquist mark", PROVED, site(e), rule)
        elif isinstance(x, Term) and len(marks) == 1:
            c.eq("transfer functions: Nyquist mark", x, ny, site(e), rule)
        else:
            c.add("transfer functions: Nyquist mark", UNDECIDED, site(e), rule, "several marks")


def noise_plot(c):
    fn = MF + "plot_noise_terms"
    S = c.session()
    m = S.obj(METRICS, "metrics")
    mx = S.sym("max_val", "real")
    o = c.call(S, fn, m, mx)
    pl = [e for e in o.effects if e.kind == "plot"]
    bars = [e for e in pl if e.what in ("bar", "barh")]
    rule = "every bar stands over the label of its noise term"
    if len(bars) != 1:
        c.fact("noise terms: bars", None, fn, rule, "%d bar plots" % len(bars))
        return
    a, kw = bars[0].data
    xs, hs = items(kw.get("x", a[0] if a else None)), items(kw.get("height", a[1] if len(a) > 1 else None))
    ticks, labels = xs, kw.get("tick_label")
    for e in pl:
        b, k = e.data
        if e.what == "set_xticks":
            ticks = items(k.get("ticks", b[0] if b else None))
            labels = k.get("labels", b[1] if len(b) > 1 else labels)
        elif e.what == "xticks":
            if b or k:
                ticks = items(k.get("ticks", b[0] if b else None)) or ticks
                labels = k.get("labels", b[1] if len(b) > 1 else labels)
        elif e.what == "set_xticklabels":
            labels = k.get("labels", b[0] if b else labels)
    if xs is not None and xs and all(text(x) is not None for x in xs):
        names_, pos = xs, xs
    else:
        names_, pos = items(labels), ticks
    names_ = [text(x) for x in names_] if names_ is not None else None
    if not xs or not hs or names_ is None or None in names_ or pos is None:
        c.fact("noise terms: labels", None, fn, rule, "bars or labels not readable")
        return
    c.fact("noise terms: labels", len(xs) == len(hs) == len(names_) == len(pos), site(bars[0]), rule, "%d positions, %d bars, %d labels" % (len(xs), len(hs), len(names_)))
    for key, field in BARS:
        at = [i for i, l in enumerate(names_) if key in l.lower()]
        if len(at) != 1 or at[0] >= len(pos):
            c.add("noise terms: " + key, UNDECIDED, fn, rule, "label not found once")
            continue
        where = [j for j, x in enumerate(xs) if x is pos[at[0]] or isinstance(x, Term) and isinstance(pos[at[0]], Term) and nf.equal(x, pos[at[0]]) is True]
        if len(where) != 1 or where[0] >= len(hs):
            c.fact("noise terms: " + key, None, fn, rule, "no bar at the label's position")
            continue
        spec = S.term(S.get(S.get(m, "snr"), field)) if field else S.term(S.get(S.get(m, "sensor"), "read_noise"))
        c.eq("noise terms: " + key, hs[where[0]], spec, site(bars[0]), rule, count=10)
    rule = "a positive maximum limits the vertical axis, otherwise it is free"
    lim = [e for e in pl if e.what in ("ylim", "set_ylim")]
    if len(lim) == 1:
        b, k = lim[0].data
        hi = k.get("top", k.get("ymax", b[1] if len(b) > 1 else (items(b[0]) or [None])[-1] if b else None))
        c.eq("noise terms: limit used", B.ite(lim[0].cond, ONE, ZERO), B.ite(B.cmp("<", ZERO, mx), ONE, ZERO), site(lim[0]), rule)
        if isinstance(hi, Term):
            c.eq("noise terms: limit", B.ite(lim[0].cond, hi, ZERO), B.ite(B.cmp("<", ZERO, mx), mx, ZERO), site(lim[0]), rule)
    else:
        c.fact("noise terms: limit", False if not lim and not any(e.kind in ("unknown-call", "unsupported") for e in o.effects) else None, fn, rule, "%d limits set" % len(lim))


def plot_errors(c):
    rule = "the plot completes for the result of any metrics computation"
    for metric in ("niirs", "niirs5"):
        S = c.session()
        o1 = c.call(S, MF + metric, *args(S, MF + metric))
        for fn, extra in (("plot_common_MTFs", S.sym("orientation_angle", "angle")), ("plot_noise_terms", S.sym("max_val", "real"))):
            o = c.call(S, MF + fn, o1.v, extra, base=o1.st)
            errs = [e for e in o.effects if e.kind in ERRORS + ("raise",)]
            for e in errs[:4]:
                c.never("%s of %s: %s %s" % (fn, metric, e.kind, str(e.what)[:50]), B.and_(o1.alive, e.cond), site(e), rule, detail="%s: %s" % (e.kind, e.what))
            if not errs:
                c.fact("%s of %s" % (fn, metric), True, MF + fn, rule)
            for e in o.effects:
                # a field read but never set
                if e.kind == "plot":
                    for t in (x for x in e.data[0] if isinstance(x, Term)):
                        if any(y.op == "missing" for y in subterms(t)):
                            c.fact("%s of %s: data" % (fn, metric), False, site(e), rule, "a plotted value does not exist")


@prop("C34")
def c34(c):
    c.group("transfer functions", transfer_plot, c)
    c.group("noise terms", noise_plot, c)
    c.group("completion", plot_errors, c)


# ---------------------------------------------------------------- C35
ACCEPTED = {"hc": ("Planck's constant (J s)", 6.62607015e-34), "cc": ("speed of light (m/s)", 299792458.0), "kc": ("Boltzmann's constant (J/K)", 1.380649e-23),
            "qc": ("electron charge (C)", 1.602176634e-19)}
EARTH = {"r_earth": ("earth radius (m)", 6378137.0)}
WHERE = {"hc": (OF, RF), "cc": (OF, RF), "kc": (OF, RF), "qc": (OF, RF), "r_earth": (OF,)}


def constant_uses(path, tree):
    """floating point literals of a source file"""
    for x in ast.walk(tree):
        if isinstance(x, ast.Constant) and isinstance(x.value, float) and x.value:
            yield x.lineno, x.value


@prop("C35")
def c35(c):
    S = c.session()
    rule = "module constants have the accepted SI value"
    found = {}
    for k, (what, v) in {**ACCEPTED, **EARTH}.items():
        tol = 1e-5 if k in ACCEPTED else 1e-3
        for path, tree in sources():
            mod = path[len("src/"):-len(".py")].replace("/", ".").replace(".__init__", "")
            names_ = {t.id for s in tree.body for t in ast.walk(s) if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(t, ast.Name) and isinstance(t.ctx, ast.Store)}
            for n in names_ & ({k} | ({"R_E", "RE", "EARTH_RADIUS", "earth_radius"} if k == "r_earth" else set())):
                try:
                    t = S.term(S.look(mod + "." + n))
                    x = float(t.data) if t.op == "num" else None
                except Anchor:
                    raise
                except Exception:
                    x = None
                found.setdefault(k, []).append((mod + "." + n, x))
                c.fact("%s.%s" % (mod, n), None if x is None else abs(x / v - 1) < tol, path, rule, "%s is %s, accepted %s" % (what, x, v))
    for k, xs in found.items():
        vs = {x for _, x in xs}
        c.fact("%s agrees" % k, None if None in vs else len(vs) == 1, xs[0][0], "one value in every module", xs)
    # what the functions compute with
    rule = "the functions compute with the accepted constants"
    val = lambda t, **at: number(c, t, at)
    probes = [
        ("electron charge", OF + "dark_current_from_density", dict(jd="1e-5", w_x="1e-5", w_y="1e-5"), 1e-5 * 1e-10 / 1.602176634e-19, 1e-5),
        ("earth radius", GE + "curved_earth_slant_range", dict(h_target="0", h_sensor="0", ground_range="100000"), 2 * 6378137.0 * 0.00783925536, None),
    ]
    for lab, fn, at, want, tol in probes:
        if tol is None:
            continue
        S = c.session()
        o = c.call(S, fn, *[B.num(at[n]) if hasattr(B, "num") else num(Fraction(at[n])) for n in names(fn)])
        t = o.term()
        x = float(t.data) if t.op == "num" else None
        c.fact("%s in %s" % (lab, short(fn)), None if x is None else abs(x / want - 1) < tol, fn, rule, "%s, expected %s" % (x, want))
    rule = "no literal close to a physical constant differs from it"
    n = 0
    for path, tree in sources():
        for line, x in constant_uses(path, tree):
            n += 1
            for k, (what, v) in ACCEPTED.items():
                if 1e-5 <= abs(x / v - 1) < 3e-2:
                    c.fact("%s: literal %s" % (path, x), False, "%s:%d" % (path, line), rule, "%s is %s" % (what, v))
            v = EARTH["r_earth"][1]
            if 1e-3 <= abs(x / v - 1) < 3e-2:
                c.fact("%s: literal %s" % (path, x), False, "%s:%d" % (path, line), rule, "earth radius is %s" % v)
    c.fact("literals", True, "src/pybsm", rule, "%d literals" % n)


def number(c, t, at):
    return None


# ---------------------------------------------------------------- C36
UNUSED = {(OF + "defocus_OTF", "D")}
RADIOMETRY = ("D f w_x w_y eta opt_trans_wavelengths optics_transmission qe_wavelengths qe cold_filter_transmission cold_filter_temperature "
              "cold_filter_emissivity cold_shield_temperature optics_temperature optics_emissivity other_irradiance dark_current n_tdi max_n").split()
BLUR = "D f w_x w_y p_x eta s_x s_y da_x da_y n_tdi pv pv_wavelength L_x L_y filter_kernel".split()
SNR = "int_time max_well_fill read_noise bit_depth other_noise".split()
PATH = "altitude aircraft_speed ha_wind_speed cn2_at_1m".split()
REACH = {
    (RF + "photon_detector_SNR", "sensor"): RADIOMETRY + SNR,
    (RF + "reflectance_to_photoelectrons", "sensor"): RADIOMETRY,
    (OF + "common_OTFs", "sensor"): BLUR,
    (OF + "common_OTFs", "scenario"): PATH,
    (MF + "niirs", "sensor"): RADIOMETRY + SNR + BLUR + ["p_y", "frame_stacks"],
    (MF + "niirs", "scenario"): PATH + ["ground_range", "ihaze"],
    (MF + "niirs5", "sensor"): [x for x in RADIOMETRY + SNR + BLUR if x != "filter_kernel"] + ["p_y", "frame_stacks"],
    (MF + "niirs5", "scenario"): PATH + ["ground_range", "ihaze"],
    (SF + "simulate_image", "sensor"): RADIOMETRY + BLUR + ["int_time", "read_noise", "bit_depth", "p_y"],
    (SF + "simulate_image", "scenario"): PATH + ["ground_range", "ihaze"],
    (SF + "simulate_image", "ref_img"): "img gsd pix_values refl_values".split(),
    (MF + "plot_common_MTFs", "metrics"): (),
    (MF + "plot_noise_terms", "metrics"): (),
}


def results(S, o):
    """values of a call that a parameter may reach: result fields, drawn data, written files"""
    out = [(p, t) for p, t in flat(S, o) if not p.startswith((".sensor", ".scenario")) and not p.endswith(".name")]
    for e in o.effects:
        if e.kind == "plot":
            st = list(e.data[0]) + [v for v in e.data[1].values()]
            while st:
                x = st.pop()
                if isinstance(x, Term):
                    out.append(("plot", x))
                elif isinstance(x, (tuple, list)):
                    st += list(x)
                elif isinstance(x, dict):
                    st += list(x.values())
            out.append(("plot", e.cond))
        elif e.kind == "raise":
            out.append(("raise", e.cond))
    return out


def leaves(ts):
    """leaves of the terms, those that select or size their axes included"""
    out, seen, todo = set(), set(), list(ts)
    while todo:
        x = todo.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "sym":
            out.add(x.data[0])
        todo += list(x.args) + _axterms(x)
    return out


def reach(c, fn):
    S, p, o = explore(c, fn)
    vals = results(S, o)
    raw = leaves(t for _, t in vals)
    unk = any(t.unk for _, t in vals)
    canon, limit = set(), None
    for size, path, t in sorted(((sum(1 for _ in subterms(t)), path, t) for path, t in vals), key=lambda x: x[:2]):
        if t.unk or limit is not None and size >= limit:
            canon |= leaves([t])
            continue
        try:
            canon |= leaves([nf.canon(t)])
        except (nf.TooBig, RecursionError):
            canon |= leaves([t])
            limit = size
    for n, k in kinds(fn).items():
        if k in ("sensor", "scenario", "refimage", "metrics"):
            want = REACH[(fn, n)]
            for a in want:
                leaf = "%s.%s" % (n, a)
                c.fact("%s: %s" % (short(fn), leaf), None if unk and leaf not in canon else leaf in canon, fn, "the setting reaches the result", "%s does not occur in any result" % leaf if leaf not in canon else None)
            if not want:
                continue
            for leaf in sorted(x for x in raw if x.startswith(n + ".") and x[len(n) + 1:] not in want and not x.endswith((".name", "._atm"))):
                foreign(c, fn, leaf, vals)
            continue
        want = [n]
        if k == "pair":
            want = [n + "_lo", n + "_hi"]
        if k == "fn" or (fn, n) in UNUSED:
            continue
        for leaf in want:
            c.fact("%s: %s" % (short(fn), leaf), None if unk and leaf not in canon else leaf in canon, fn, "the parameter influences the result", "%s does not occur in any result" % leaf if leaf not in canon else None)


def foreign(c, fn, leaf, vals):
    """a setting the documentation does not tie to the function must not change its result"""
    rule = "no setting outside the documented ones changes the result"
    for path, t in vals:
        ss = {x for x in subterms(t) if x.op == "sym" and x.data[0] == leaf}
        if not ss:
            continue
        mp = {x: mk("sym", (), (leaf + "'", x.data[1]), x.axes) for x in ss}
        v = c.eq("%s: %s in %s" % (short(fn), leaf, path), t, B.subst(t, mp), fn, rule, count=10)
        if v != PROVED:
            return


@prop("C36")
def c36(c):
    for fn in SIG:
        c.group(short(fn), reach, c, fn)

    def constructors():
        for k in (SENSOR, SCEN, REFI, METRICS):
            S, p, o = explore(c, k)
            got = leaves(t for _, t in flat(S, o))
            for n, v in p:
                c.fact("%s: %s" % (short(k), n), n in got, k, "the setting is kept", n)
    c.group("constructors", constructors)

    def conditions(fn, interp):
        """the atmosphere of a run is the one of the scenario, whichever way it is looked up"""
        S = c.session(atm=True)
        o = c.call(S, fn, *args(S, fn, interp=TRUE if interp else FALSE))
        t = o.term(".atm")
        got = leaves([t])
        for a in ("altitude", "ground_range", "ihaze"):
            leaf = "scenario." + a
            c.fact("%s(interp=%s): %s" % (short(fn), interp, leaf), True if leaf in got else None if t.unk else False, fn,
                   "the setting reaches the atmosphere looked up", "%s does not occur in the atmosphere" % leaf if leaf not in got else None)
    for fn in (MF + "niirs", MF + "niirs5"):
        for interp in (True, False):
            c.group("%s interp=%s" % (short(fn), interp), conditions, fn, interp)
