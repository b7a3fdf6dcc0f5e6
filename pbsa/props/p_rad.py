"""Obligations on radiometry, signal and noise."""
from .. import build as B
from .. import nf
from ..api import MF, NO, OF, RF, SENSOR, args, kinds, names
from ..obs import prop
from ..terms import ONE, TRUE, ZERO, mk, num, sym, symbols
from .p_otf import returns, same

SP = "spec_rad."
SINGLE = [
    "at_focal_plane_irradiance", "blackbody_radiance", "cold_shield_self_emission", "cold_stop_self_emission", "optics_self_emission",
    "focal_plane_integrated_irradiance", "photon_detection_rate", "total_radiance", "resample_by_wavelength",
]


@prop("C12")
def c12(c):
    for fn in SINGLE:
        c.group(fn, lambda fn=fn: same(c, RF + fn, SP + fn, "value graph equals the documented physical equation"))
    c.group("signal_rate", lambda: same(c, RF + "signal_rate", SP + "signal_rate", "value graph equals the documented physical equation",
                                        paths=("[0]", "[1]", "[2]")))

    def scalars():      # scalar wavelength, sensor-wide stray light as a scalar
        S = c.session()
        same(c, RF + "signal_rate", SP + "signal_rate", "a scalar stray irradiance is spread over the band", S,
             over={"other_irradiance": S.sym("other_irradiance", "nonneg")}, paths=("[0]",))
    c.group("scalar", scalars)


# ------------------------------------------------------------------ C13
SNR = RF + "photon_detector_SNR"
NOISES = ["signal_noise", "dark_current_noise", "quantization_noise", "self_emission_noise", "total_noise"]
SHARED = NOISES + ["scale_factor", "int_time", "well_fraction", "opt_trans", "qe", "other_irradiance"]
PAIRS = [("tgt_n_rate", "bkg_n_rate"), ("tgt_FPA_irradiance", "bkg_FPA_irradiance"), ("tgt_n", "bkg_n")]


def run_snr(c, S, swap=False, equal=False):
    a = args(S, SNR)
    b = list(a)
    if swap:
        b[2], b[3] = a[3], a[2]
    if equal:
        b[3] = a[2]
    return c.call(S, SNR, *b), dict(zip(names(SNR), a))


@prop("C13")
def c13(c):
    S = c.session()
    o, a = run_snr(c, S)
    w, _ = run_snr(c, S, swap=True)
    e, _ = run_snr(c, S, equal=True)

    def swapped():
        for f in ("contrast_signal", "snr"):
            c.eq(f + " negated by the exchange", w.term("." + f), B.neg(o.term("." + f)), SNR, "exchanging target and background negates contrast and SNR")
            c.eq(f + " of equal radiances", e.term("." + f), ZERO, SNR, "equal radiances have no contrast")
        for f in SHARED:
            c.eq(f + " unchanged by the exchange", w.term("." + f), o.term("." + f), SNR, "exchanging target and background leaves the term unchanged")
        for t, b in PAIRS:
            c.eq("%s/%s exchanged" % (t, b), w.term("." + t), o.term("." + b), SNR, "both scenes get the same treatment")
            c.eq("%s/%s exchanged" % (b, t), w.term("." + b), o.term("." + t), SNR, "both scenes get the same treatment")
    c.group("exchange", swapped)

    def inputs():
        s = c.call(S, SP + "snr_inputs", *a.values())
        for i, f in enumerate(["opt_trans", "qe", "other_irradiance", "tgt_n_rate", "tgt_FPA_irradiance", "weights", "bkg_n_rate", "bkg_FPA_irradiance"]):
            c.eq(f, o.term("." + f), s.term("[%d]" % i), SNR, "optics, stray light, detector and dark current of this sensor, each once", count=10)
        returns(c, o, s, SNR)
    c.group("inputs", inputs)


# ------------------------------------------------------------------ C14
@prop("C14")
def c14(c):
    S = c.session()

    def budget():
        o, a = run_snr(c, S)
        s = c.call(S, SP + "noises", a["sensor"], a["radiance_wavelengths"], *[o.val("." + f) for f in ("tgt_n", "bkg_n", "int_time", "other_irradiance", "qe")], base=o.st)
        for i, f in enumerate(["signal_noise", "dark_current_noise", "quantization_noise", "self_emission_noise", "total_noise", "contrast_signal", "snr"]):
            c.eq(f, o.term("." + f), s.term("[%d]" % i), SNR, "noise budget in terms of the reported quantities", count=10)
        c.eq("snr = contrast / total", B.mul(o.term(".snr"), o.term(".total_noise")), o.term(".contrast_signal"), SNR, "SNR is contrast over total noise", count=10)
    c.group("budget", budget)
    c.group("quantization_noise", lambda: same(c, NO + "quantization_noise", SP + "quantization_noise", "full well over the code range and sqrt(12)"))

    def gain():
        S = c.session()
        a = args(S, NO + "noise_gain")
        o = c.call(S, NO + "noise_gain", *a)
        k = S.term(a[0])
        c.eq("noise_gain", o.term(), B.fn("sqrt", B.total(B.mul(k, k))), NO + "noise_gain", "root-sum-square of the kernel")
        # acceptance: the sum is 1 -> accepted, clearly not 1 -> rejected
        tot = B.total(k)
        rej = B.or_(*o.raised) if o.raised else mk("false", ())
        bad = [e for e in o.effects if e.kind == "raise" and e.what not in ("ValueError",)]
        c.fact("rejection is a ValueError", not bad, NO + "noise_gain", "kernels not summing to one are rejected with a value error", [e.what for e in bad])
        for d in ("0", "1e-10", "-1e-10"):
            c.never("unit-sum kernel accepted (off by %s)" % d, with_sum(rej, tot, B.add(ONE, num(d))), NO + "noise_gain",
                    "kernels summing to one up to rounding are accepted", detail="a unit-sum kernel is rejected")
        for d in ("0.01", "-0.01", "-1", "-2", "1", "9"):
            c.never("kernel summing to 1%+g rejected" % float(d), B.not_(with_sum(rej, tot, B.add(ONE, num(d)))), NO + "noise_gain",
                    "kernels not summing to one are rejected", detail="a kernel that does not sum to one is accepted")
    c.group("gain", gain)


def with_sum(cond, tot, val):
    """cond with the kernel's sum fixed"""
    return B.subst(cond, {tot: val})


# ------------------------------------------------------------------ C15
@prop("C15")
def c15(c):
    S = c.session()

    def fill():
        o, a = run_snr(c, S)
        s = c.call(S, SP + "fill", a["sensor"], o.val(".tgt_n_rate"), o.val(".bkg_n_rate"), base=o.st)
        for i, f in enumerate(["scale_factor", "tgt_n", "bkg_n", "int_time", "well_fraction"]):
            c.eq(f, o.term("." + f), s.term("[%d]" % i), SNR, "one common factor brings the brighter signal to the limit", count=12)
        sf = o.term(".scale_factor")
        c.le("scale_factor <= 1", sf, ONE, SNR, "the factor never exceeds one", count=12, lemma=[("limit over signal, only when the signal exceeds the limit", sf, s.term("[0]"))])
        se = a["sensor"]
        lim = B.mul(S.term(S.get(se, "max_well_fill")), S.term(S.get(se, "max_n")))
        for f in ("tgt_n", "bkg_n"):
            c.le(f + " <= permitted fill", o.term("." + f), lim, SNR, "charge never exceeds the permitted fill", count=12,
                 lemma=[("scaled by limit over the brighter signal", o.term("." + f), s.term("[%d]" % (1 if f == "tgt_n" else 2)))])
    c.group("fill", fill)

    def well():
        # a zero signal is never scaled: the specification's quotient is only used above the limit
        fn = RF + "check_well_fill"
        n, m = S.sym("total_photoelectrons", "pos"), S.sym("max_fill", "pos")
        o = c.call(S, fn, n, m)
        s = c.call(S, SP + "check_well_fill", n, m)
        c.eq("check_well_fill", o.term(), s.term(), fn, "the factor is the smaller of one and limit over signal")
        z = c.call(S, fn, ZERO, m)
        c.eq("check_well_fill(0)", z.term(), ONE, fn, "an empty well is not scaled")
        returns(c, o, s, fn)
    c.group("check_well_fill", well)


# ------------------------------------------------------------------ C16
@prop("C16")
def c16(c):
    fn = RF + "reflectance_to_photoelectrons"

    def table():
        S = c.session()
        o, s = same(c, fn, SP + "reflectance_to_photoelectrons", "reflectance table through the shared sensor model", S, paths=("[0]", "[1]", "[2]"), count=4)
        m = sym("sensor.max_n", (), "pos")
        pe = o.term("[1]")
        c.le("table never exceeds the full well", pe, B.bc(m, pe.axes), fn, "no entry exceeds the full well", count=4,
             lemma=[("scaled so that the brightest entry is the full well", pe, s.term("[1]"))])
    c.group("table", table)

    def default():
        S = c.session()
        a = args(S, fn)
        o = c.call(S, fn, *a[:3])
        s = c.call(S, SP + "reflectance_to_photoelectrons", *a[:3])
        c.eq("default target temperature", o.term("[1]"), s.term("[1]"), fn, "300 K when no temperature is given", count=3)
    c.group("default", default)
