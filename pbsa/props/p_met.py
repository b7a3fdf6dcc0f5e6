"""Obligations on metrics and geometry."""
from .. import build as B
from .. import nf
from mpmath import mpf

from ..api import GE, MF, METRICS, OF, RANGES, args, kinds, names
from ..rint import rnd
from ..obs import PROVED, UNDECIDED, VIOLATED, prop
from ..terms import FALSE, ONE, TRUE, ZERO, mk, num, sym, symbols
from .p_otf import returns, same

SP = "spec_met."


def s(n, k="pos"):
    return sym(n, (), k)


# ------------------------------------------------------------------ C27
@prop("C27")
def c27(c):
    r = "value graph equals the published equation"
    c.group("giqe3", lambda: same(c, MF + "giqe3", SP + "giqe3", r))
    c.group("giqe4", lambda: same(c, MF + "giqe4", SP + "giqe4", r, paths=("[0]", "[1]")))
    c.group("giqe5", lambda: same(c, MF + "giqe5", SP + "giqe5", r, paths=("[0]", "[1]", "[2]")))

    def boundary():
        for x in ("0.9", "0.8999", "0.9001"):
            S = c.session()
            same(c, MF + "giqe4", SP + "giqe4", "published branch threshold 0.9", S, over={"rer": num(x)}, paths=("[0]",))
    c.group("threshold", boundary)

    def mono(fn, path, up, down, why, assume=None):
        S = c.session()
        a = args(S, MF + fn)
        t = c.call(S, MF + fn, *a).term(path)
        q = c.call(S, SP + fn, *a).term(path)
        k = kinds(MF + fn)
        for p, sg in [(p, 1) for p in up] + [(p, -1) for p in down]:
            x, d = sym(p, (), k[p]), sym("d", (), "nonneg")
            hi = B.subst(t, {x: B.add(x, d)})
            lo, up_ = (t, hi) if sg > 0 else (hi, t)
            rule = "value graph is monotone in this argument"
            as_ = assume(x, d) if assume else None
            c.le("%s never falls with %s %s" % (fn, "more" if sg > 0 else "less", p), lo, up_, MF + fn, rule, assume=as_,
                 lemma=[(why, t, q)])
    rer1 = lambda *_: B.and_(B.cmp("<=", s("rer_1"), ONE), B.cmp("<=", s("rer_2"), ONE))

    def same_branch(x, d):
        lim = num("0.9")
        if x.data[0] != "rer":
            return None
        return B.or_(B.cmp("<", B.add(x, d), lim), B.cmp("<=", lim, x))
    c.group("giqe3 monotone", mono, "giqe3", "", ("snr", "rer"), ("gsd",), "sum of increasing logarithms and -NG/SNR")
    c.group("giqe4 monotone", mono, "giqe4", "[0]", ("snr", "rer"), ("gsd",), "sum of increasing logarithms and -0.344 NG/SNR, coefficients fixed within a branch", same_branch)
    c.group("giqe5 monotone", mono, "giqe5", "[0]", ("snr",), ("gsd",), "for edge response at most 1 the SNR-dependent factor multiplies a non-positive logarithm", rer1)


# ------------------------------------------------------------------ C28
DRIVER = ["sensor.name", "slant_range", "atm", "tgt_radiance", "bkg_radiance", "radiance_wavelengths", "mtf_wavelengths", "mtf_weights",
          "cutoff_frequency", "uu", "vv", "df", "ifov_x", "ifov_y", "gsd_x", "elev_angle"]
SNRF = ["opt_trans", "qe", "other_irradiance", "tgt_n_rate", "tgt_n", "bkg_n", "int_time", "contrast_signal", "total_noise", "snr", "weights"]
OTFF = ["ap_OTF", "turb_OTF", "r0_band", "det_OTF", "jit_OTF", "drft_OTF", "wav_OTF", "filter_OTF", "system_OTF"]
OWN = {"niirs": ["gsd_y", "gsd_gm", "rer_gm", "eho_gm", "ng", "niirs", "niirs_4", "gsd_gp"], "niirs5": ["rer_0", "rer_90", "niirs", "gsd_w", "rer"]}
SCENE = ["target_reflectance", "background_reflectance", "target_temperature", "background_temperature"]


def drive(c, S, fn, **over):
    a = args(S, MF + fn, **over)
    return c.call(S, MF + fn, *a), c.call(S, SP + fn, *a), a


PARTS = ["pybsm.otf.functional.common_OTFs", "pybsm.radiance.functional.photon_detector_SNR", "pybsm.radiance.functional.giqe_radiance",
         "pybsm.radiance.functional.signal_rate", "pybsm.radiance.functional.photon_detection_rate", MF + "giqe_edge_terms", MF + "giqe5_RER"]


@prop("C28")
def c28(c):
    r = "the reported field's value graph equals the documented derivation"
    late = []
    for fn in ("niirs", "niirs5"):
        def pairs(S, fn):
            o, q, a = drive(c, S, fn)
            for f in DRIVER + OWN[fn]:
                yield "%s.%s" % (fn, f), o.term("." + f), q.term("." + f), r
            for f in SNRF:
                yield "%s.snr.%s" % (fn, f), o.term(".snr." + f), q.term(".snr." + f), r
            for f in OTFF:
                yield "%s.otf.%s" % (fn, f), o.term(".otf." + f), q.term(".otf." + f), r
            for f in ("path_noise", "scene_noise"):
                yield "%s.snr.%s" % (fn, f), o.term(".snr." + f), q.term("." + f), r
            for f in SCENE:
                yield "%s.scenario.%s" % (fn, f), o.term(".scenario." + f), q.term("." + f), \
                    "the spectral class switches reflectances and temperatures of target and background"
            for f in ("altitude", "ground_range", "ihaze", "aircraft_speed", "ha_wind_speed", "cn2_at_1m", "name"):
                yield "%s.scenario.%s" % (fn, f), o.term(".scenario." + f), S.term(S.get(a[1], f)), "the given scenario is reported"
            a = args(S, MF + fn)
            o = c.call(S, MF + fn, *a[:2])
            q = c.call(S, SP + fn, *a[:2])
            yield "%s default interpolation" % fn, o.term(".atm"), q.term(".atm"), "exact database condition by default"

        def one(fn=fn):
            # first with the components opaque: equal arguments, equal results
            S = c.session()
            S.modular(PARTS)
            open_ = set()
            for name, x, y, rule in pairs(S, fn):
                if not x.unk and not y.unk and nf.equal(x, y) is True:
                    c.sites += 1
                    c.add(name, PROVED, MF + fn, rule)
                else:
                    open_.add(name)
            if open_:
                # what is left is decided on the components' own graphs
                bad = 0
                for name, x, y, rule in pairs(c.session(), fn):
                    if name in open_:
                        if bad >= 2:
                            c.add(name, UNDECIDED, MF + fn, rule, "not separated further: the function already violates the property")
                        elif c.eq(name, x, y, MF + fn, rule, count=14) == VIOLATED:
                            bad += 1
            S = c.session()
            o, q, a = drive(c, S, fn)
            returns(c, o, q, MF + fn)
        c.group(fn, one)

    def radi():
        S = c.session()
        same(c, "pybsm.radiance.functional.giqe_radiance", "spec_rad.giqe_radiance", "spectral class selects target and background reflectance and temperature",
             S, paths=("[0]", "[1]"))
        for e in (ZERO, ONE):
            S = c.session()
            same(c, "pybsm.radiance.functional.giqe_radiance", "spec_rad.giqe_radiance", "spectral class selects target and background reflectance and temperature",
                 S, over={"is_emissive": e}, paths=("[0]", "[1]"))
    c.group("giqe_radiance", radi)


# ------------------------------------------------------------------ C29
def falling(ev, sh):
    """an MTF slice: 1 at zero frequency, falling"""
    out, v = [], mpf(1)
    for i in range(sh[0]):
        out.append(v)
        v = v * mpf(0.2 + 0.7 * rnd(ev.seed, "falling", i))
    return out


FALLING = dict(RANGES, mtf_slice=falling, snr=(1, 60))

# frequencies at which the sampled overshoot range covers rise and fall of the edge
EDGE = dict(RANGES, mtf_slice=falling, ifov=("1e-5", "1.2e-5"), df=(9000, 22000))


@prop("C29")
def c29(c):
    r = "value graph equals the documented edge or resolution model"
    for fn in ("edge_response", "relative_edge_response"):
        c.group(fn, lambda fn=fn: same(c, MF + fn, SP + fn, r, count=12))
    c.group("edge_height_overshoot", lambda: same(c, MF + "edge_height_overshoot", SP + "edge_height_overshoot", r, count=120, ranges=EDGE))
    c.group("ground_resolved_distance", lambda: same(c, MF + "ground_resolved_distance", SP + "ground_resolved_distance", r, count=24, ranges=FALLING))
    c.group("giqe5_RER", lambda: same(c, MF + "giqe5_RER", SP + "giqe5_RER", r, paths=("[0]", "[1]"), count=5))
    c.group("giqe_edge_terms", lambda: same(c, MF + "giqe_edge_terms", SP + "giqe_edge_terms", r, paths=("[0]", "[1]"), count=5))

    def laws():
        S = c.session()
        fn = MF + "edge_response"
        t = c.call(S, fn, *args(S, fn)).term()
        x = sym("pixel_pos", (), "real")
        c.eq("edge_response(0) = 1/2", B.subst(t, {x: ZERO}), num("0.5"), fn, "one half at the edge")
        c.eq("edge_response(x) + edge_response(-x) = 1", B.add(t, B.subst(t, {x: B.neg(x)})), ONE, fn, "values at opposite offsets sum to one")
        fn = MF + "ground_resolved_distance"
        t = c.call(S, fn, *args(S, fn)).term()
        foot = B.mul(B.mul(num(2), s("ifov")), s("slant_range"))
        q = c.call(S, SP + "ground_resolved_distance", *args(S, fn)).term()
        c.le("never finer than two pixels", foot, t, fn, "at least twice the pixel footprint", lemma=[("maximum with the two-pixel footprint", t, q)], ranges=FALLING)
    c.group("laws", laws)


# ------------------------------------------------------------------ C30
@prop("C30")
def c30(c):
    r = "value graph equals the law-of-cosines relation"
    for fn in ("ground_sample_distance", "nadir_angle", "curved_earth_slant_range"):
        c.group(fn, lambda fn=fn: same(c, GE + fn, "spec_geo." + fn, r))
    c.group("path", lambda: same(c, GE + "altitude_along_slant_path", "spec_geo.altitude_along_slant_path", r, paths=("[0]", "[1]"), count=5))

    def laws():
        S = c.session()
        fn = GE + "curved_earth_slant_range"
        t = c.call(S, fn, *args(S, fn)).term()
        ht, hs, g = sym("h_target", (), "nonneg"), sym("h_sensor", (), "nonneg"), sym("ground_range", (), "nonneg")
        tmp = sym("@", (), "nonneg")
        sw = B.subst(B.subst(B.subst(t, {ht: tmp}), {hs: ht}), {tmp: hs})
        c.eq("slant range symmetric", sw, t, fn, "unchanged by exchanging the heights")
        c.eq("slant range at zero ground range", B.subst(t, {g: ZERO}), B.fn("abs", B.sub(hs, ht)), fn, "reduces to the height difference")
        S = c.session()
        fn = GE + "altitude_along_slant_path"
        a = args(S, fn)
        o = c.call(S, fn, *a)
        z, h = o.term("[0]"), o.term("[1]")
        last = B.sub(B.dim(h, 0), ONE)
        law = [("the law of cosines closes the triangle at both ends", h, c.call(S, "spec_geo.altitude_along_slant_path", *a).term("[1]"))]
        c.eq("path starts at zero", B.idx(z, ZERO, z.axes[0]), ZERO, fn, "distance starts at zero")
        c.eq("path ends at the slant range", B.idx(z, B.sub(B.dim(z, 0), ONE), z.axes[0]), s("slant_range"), fn, "distance ends at the slant range")
        c.eq("altitude starts at the target", B.idx(h, ZERO, h.axes[0]), sym("h_target", (), "nonneg"), fn, "target height at the target end", lemma=law)
        c.eq("altitude ends at the sensor", B.idx(h, last, h.axes[0]), sym("h_sensor", (), "pos"), fn, "sensor height at the sensor end", lemma=law)
    c.group("laws", laws)
