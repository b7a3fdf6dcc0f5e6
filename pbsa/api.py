"""The public functions of the repository with the domains of their documented
parameters, in documented order.  Names and domains come from the docstrings."""
import numpy as np
from mpmath import mpf

from .interp import Anchor
from .rint import hsh, rnd

OF = "pybsm.otf.functional."
RF = "pybsm.radiance.functional."
MF = "pybsm.metrics.functional."
GE = "pybsm.geospatial."
SF = "pybsm.simulation.functional."
NO = "pybsm.noise."
UT = "pybsm.utils."
SENSOR = "pybsm.simulation.sensor.Sensor"
SCEN = "pybsm.simulation.scenario.Scenario"
REFI = "pybsm.simulation.ref_image.RefImage"
METRICS = "pybsm.metrics.metrics.Metrics"

# name -> "param:kind ..."; kinds: scalar domains of rint, g = frequency grid,
# ker = kernel, img = image, lam/<dom> = per-wavelength array, fn = function
SIG = {
    OF + "circular_aperture_OTF": "u:g v:g lambda0:pos D:pos eta:unit",
    OF + "circular_aperture_OTF_with_defocus": "u:g v:g wavelength:pos D:pos f:pos defocus:real",
    OF + "cte_OTF": "u:g v:g p_x:pos p_y:pos cte_n_x:nonneg cte_n_y:nonneg phases_n:posint cte_eff:unit f:pos",
    OF + "defocus_OTF": "u:g v:g D:pos w_x:nonneg w_y:nonneg",
    OF + "detector_OTF": "u:g v:g w_x:pos w_y:pos f:pos",
    OF + "detector_OTF_with_aggregation": "u:g v:g w_x:pos w_y:pos p_x:pos p_y:pos f:pos n:posint",
    OF + "diffusion_OTF": "u:g v:g alpha:pos ald:pos al0:pos f:pos",
    OF + "drift_OTF": "u:g v:g a_x:nonneg a_y:nonneg",
    OF + "filter_OTF": "u:g v:g kernel:ker ifov:pos",
    OF + "gaussian_OTF": "u:g v:g blur_size_x:pos blur_size_y:pos",
    OF + "jitter_OTF": "u:g v:g s_x:nonneg s_y:nonneg",
    OF + "polychromatic_turbulence_OTF": "u:g v:g wavelengths:wave weights:lampos altitude:pos slant_range:pos D:pos ha_wind_speed:nonneg cn2_at_1m:pos int_time:pos aircraft_speed:nonneg",
    OF + "tdi_OTF": "u_or_v:g w:pos n_tdi:posint phases_n:posint beta:pos f:pos",
    OF + "turbulence_OTF": "u:g v:g lambda0:pos D:pos r0:pos alpha:unit",
    OF + "wavefront_OTF": "u:g v:g lambda0:pos pv:nonneg L_x:pos L_y:pos",
    OF + "wavefront_OTF_2": "u:g v:g cutoff:pos w_rms:nonneg",
    OF + "wind_speed_turbulence_OTF": "u:g v:g lambda0:pos D:pos r0:pos t_d:pos vel:nonneg",
    OF + "otf_to_psf": "otf:otf df:pos dx_out:pos",
    OF + "weighted_by_wavelength": "wavelengths:lampos weights:lampos my_function:fn",
    OF + "coherence_diameter": "lambda0:pos z_path:zpath cn2:zpos",
    OF + "hufnagel_valley_turbulence_profile": "h:z v:nonneg cn2_at_1m:nonneg",
    OF + "object_domain_defocus_radii": "D:pos R:pos R0:pos",
    OF + "dark_current_from_density": "jd:nonneg w_x:pos w_y:pos",
    OF + "image_domain_defocus_radii": "D:pos dz:nonneg f:pos",
    OF + "slice_otf": "otf:otf ang:angle",
    OF + "apply_otf_to_image": "ref_img:img ref_gsd:pos ref_range:pos otf:otf df:pos ifov:pos",
    OF + "common_OTFs": "sensor:sensor scenario:scenario uu:g vv:g mtf_wavelengths:wave mtf_weights:lampos slant_range:pos int_time:pos",
    OF + "resample_2D": "img_in:img dx_in:pos dx_out:pos",
    RF + "at_focal_plane_irradiance": "D:pos f:pos L:lam",
    RF + "blackbody_radiance": "lambda0:wave T:pos",
    RF + "check_well_fill": "total_photoelectrons:nonneg max_fill:pos",
    RF + "cold_shield_self_emission": "wavelengths:wave cold_shield_temperature:pos D:pos f:pos",
    RF + "cold_stop_self_emission": "wavelengths:wave cold_filter_temperature:pos cold_filter_emissivity:unit D:pos f:pos",
    RF + "focal_plane_integrated_irradiance": "L:lam L_s:nonneg t_opt:unit e_opt:unit lambda0:wave d_lambda:pos optics_temperature:pos D:pos f:pos",
    RF + "optics_self_emission": "wavelengths:wave optics_temperature:pos optics_emissivity:unit cold_filter_transmission:unit D:pos f:pos",
    RF + "photon_detection_rate": "E:lam w_x:pos w_y:pos wavelengths:wave qe:lamunit",
    RF + "photon_detector_SNR": "sensor:sensor radiance_wavelengths:wave target_radiance:lam background_radiance:lam",
    RF + "reflectance_to_photoelectrons": "atm:atm sensor:sensor int_time:pos target_temp:pos",
    RF + "signal_rate": "wavelengths:wave target_radiance:lam optical_transmission:lamunit D:pos f:pos w_x:pos w_y:pos qe:lamunit other_irradiance:lam dark_current:nonneg",
    RF + "total_radiance": "atm:atm reflectance:unit temperature:pos",
    RF + "giqe_radiance": "atm:atm is_emissive:nonnegint",
    RF + "resample_by_wavelength": "wavelengths:wave values:lam new_wavelengths:wave2",
    GE + "altitude_along_slant_path": "h_target:nonneg h_sensor:pos slant_range:pos",
    GE + "ground_sample_distance": "ifov:pos slant_range:pos",
    GE + "nadir_angle": "h_target:nonneg h_sensor:pos slant_range:pos",
    GE + "curved_earth_slant_range": "h_target:nonneg h_sensor:nonneg ground_range:nonneg",
    NO + "noise_gain": "kernel:ker",
    NO + "quantization_noise": "pe_range:pos bit_depth:pos",
    MF + "giqe3": "rer:pos gsd:pos eho:pos ng:pos snr:pos",
    MF + "giqe4": "rer:pos gsd:pos eho:pos ng:pos snr:pos elev_angle:elev",
    MF + "giqe5": "rer_1:pos rer_2:pos gsd:pos snr:pos elev_angle:elev",
    MF + "giqe5_RER": "mtf:otf df:pos ifov_x:pos ifov_y:pos",
    MF + "giqe_edge_terms": "mtf:otf df:pos ifov_x:pos ifov_y:pos",
    MF + "ground_resolved_distance": "mtf_slice:slice df:pos snr:pos ifov:pos slant_range:pos",
    MF + "niirs": "sensor:sensor scenario:scenario interp:bool",
    MF + "niirs5": "sensor:sensor scenario:scenario interp:bool",
    MF + "relative_edge_response": "mtf_slice:slice df:pos ifov:pos",
    MF + "edge_height_overshoot": "mtf_slice:slice df:pos ifov:pos",
    MF + "edge_response": "pixel_pos:real mtf_slice:slice df:pos ifov:pos",
    MF + "plot_common_MTFs": "metrics:metrics orientation_angle:angle",
    MF + "plot_noise_terms": "metrics:metrics max_val:nonneg",
    SF + "instantaneous_FOV": "w:pos f:pos",
    SF + "wiener_filter": "otf:otf noise_to_signal_power_spectrum:pos",
    SF + "img_to_reflectance": "img:img pix_values:cal refl_values:calunit",
    SF + "simulate_image": "ref_img:refimage sensor:sensor scenario:scenario",
    SF + "stretch_contrast_convert_8bit": "img:img perc:pair",
    UT + "load_database_atmosphere_no_interp": "altitude:pos ground_range:nonneg ihaze:int",
    UT + "load_database_atmosphere": "altitude:pos ground_range:nonneg ihaze:int",
}


def arg(S, name, kind):
    if kind == "g":
        return S.grid(name)
    if kind == "ker":
        return S.grid(name, "real", "kr", "kc")
    if kind == "img":
        return S.grid(name, "nonneg", "ir", "ic")
    if kind == "otf":
        return S.grid(name, "unit", "row", "col")
    if kind == "otfcx":
        return S.grid(name, "cx", "row", "col")
    if kind == "wave":
        return S.vec(name, "wave", "lam")
    if kind == "wave2":
        return S.vec(name, "wave", "nw")
    if kind == "lam":
        return S.vec(name, "nonneg", "lam")
    if kind == "lampos":
        return S.vec(name, "pos", "lam")
    if kind == "lamunit":
        return S.vec(name, "unit", "lam")
    if kind == "zpath":
        return S.vec(name, "incr", "z")
    if kind == "zpos":
        return S.vec(name, "pos", "z")
    if kind == "z":
        return S.vec(name, "nonneg", "z")
    if kind == "slice":
        return S.vec(name, "unit", "sl")
    if kind == "cal":
        return S.vec(name, "incr", "cal")
    if kind == "calunit":
        return S.vec(name, "unit", "cal")
    if kind == "atm":
        return S.sym(name, "pos", (("ax", "aw"), ("n", 6)))
    if kind == "fn":
        return S.func(name)
    if kind == "sensor":
        return S.obj(SENSOR, name)
    if kind == "scenario":
        return S.obj(SCEN, name)
    if kind == "refimage":
        return S.obj(REFI, name)
    if kind == "metrics":
        return S.obj(METRICS, name)
    if kind == "pair":
        return S.I.mklist(S.st, [S.sym(name + "_lo", "unit"), S.sym(name + "_hi", "unit")], "param:" + name)
    if kind == "elev":
        return S.sym(name, "pos")
    return S.sym(name, kind)


# Scales used only when looking for a separating interpretation, so that it is
# found inside the physical domain: visible or mid-wave band, database
# wavelengths inside and outside it, detector-sized areas, terrestrial geometry.
AW = ("3.2e-7", "4.6e-7", "5.2e-7", "5.9e-7", "6.4e-7", "1.1e-6", "3.4e-6", "3.9e-6", "4.2e-6", "4.45e-6", "5.5e-6")


def visible(ev):
    return hsh(ev.seed, "band") % 2 == 0


def band(name, lo, hi, elo, ehi):
    def f(ev, sh):
        (a, b), (c, d) = (lo, elo) if visible(ev) else (hi, ehi)
        n = sh[0]
        if hsh(ev.seed, name, "snap") % 3 == 0:
            # band edges that are database wavelengths
            a, b, c, d = ("4.6e-7",) * 2 + ("6.4e-7",) * 2 if visible(ev) else ("3.4e-6",) * 2 + ("4.45e-6",) * 2
        first, last = mpf(a) + (mpf(b) - mpf(a)) * rnd(ev.seed, name, "a"), mpf(c) + (mpf(d) - mpf(c)) * rnd(ev.seed, name, "b")
        if n == 1:
            return [first]
        mid = sorted(first + (last - first) * rnd(ev.seed, name, i) for i in range(n - 2))
        return [first] + mid + [last]
    return f


def table(name):
    def f(ev, sh):
        out = np.empty(sh, dtype=object)
        for i in range(sh[0]):
            for j in range(sh[1]):
                out[i, j] = mpf("0.1") + 2 * rnd(ev.seed, name, i, j)
        if sh[0] == len(AW):
            for i, w in enumerate(AW):
                out[i, 0] = mpf(w)
        else:
            for i in range(sh[0]):
                out[i, 0] = (mpf(AW[1 + i % 4]) if visible(ev) else mpf(AW[6 + i % 4]))
        return out
    return f


def inband(name):
    """mostly inside the sensor's band, now and then around it"""
    def f(ev, sh):
        n = sh[0]
        if visible(ev):
            lo, hi = mpf("4.4e-7"), mpf("6.6e-7")
        else:
            lo, hi = mpf("3.2e-6"), mpf("4.6e-6")
        if hsh(ev.seed, name, "wide") % 3 == 0:
            lo, hi = lo * mpf("0.7"), hi * mpf("1.5")
        return sorted(lo + (hi - lo) * rnd(ev.seed, name, i) for i in range(n))
    return f


def decades(name, lo, hi):
    return lambda ev: mpf(10) ** (mpf(lo) + (hi - lo) * rnd(ev.seed, name))


T_RANGE = (200, 400)
RANGES = {
    "elev_angle": (0.05, 1.55), "altitude": (100, 5000), "scenario.altitude": (100, 5000), "slant_range": (6000, 60000), "h_target": (0, 90),
    "h_sensor": (100, 5000), "scenario.ground_range": (0, 9000), "@aw": AW, "atm": table("atm"), "sensor.w_x": (3e-6, 3e-5), "sensor.w_y": (3e-6, 3e-5),
    "sensor.p_x": (3e-6, 3e-5), "sensor.p_y": (3e-6, 3e-5), "sensor.max_n": decades("sensor.max_n", -1, 6),
    "sensor.bit_depth": (1, 12), "bit_depth": (1, 12), "target_temp": T_RANGE, "scenario.target_temperature": T_RANGE,
    "scenario.background_temperature": T_RANGE, "sensor.cold_shield_temperature": T_RANGE, "sensor.optics_temperature": T_RANGE,
    "sensor.cold_filter_temperature": T_RANGE,
}
RANGES["radiance_wavelengths"] = inband("rw")
RANGES["sensor.opt_trans_wavelengths"] = band("otw", ("3.5e-7", "4.5e-7"), ("2.9e-6", "3.3e-6"), ("6.5e-7", "9e-7"), ("4.5e-6", "5e-6"))
RANGES["sensor.qe_wavelengths"] = band("qew", ("3.4e-7", "5.9e-7"), ("2.6e-6", "3.5e-6"), ("6.2e-7", "9e-7"), ("4.3e-6", "6e-6"))


def args(S, qual, **over):
    """symbolic arguments for a documented signature; over: name -> value"""
    f = S.look(qual)
    out = []
    for p in SIG[qual].split():
        n, k = p.split(":")
        out.append(over[n] if n in over else arg(S, n, k))
    return out


def names(qual):
    return [p.split(":")[0] for p in SIG[qual].split()]


def kinds(qual):
    return dict(p.split(":") for p in SIG[qual].split())


# Magnitudes met in practice, tried when the scales above separate nothing:
# thresholds stated in physical units lie among these.
def _between(lo, hi, name, log=False):
    def f(ev, sh=None):
        def one(*ix):
            r = rnd(ev.seed, "typical", name, *ix)
            return mpf(10) ** (mpf(lo) + (mpf(hi) - mpf(lo)) * r) if log else mpf(lo) + (mpf(hi) - mpf(lo)) * r
        if sh is None:
            return one()
        out = np.empty(sh, dtype=object)
        for ix in np.ndindex(*sh):
            out[ix] = one(ix)
        if out.ndim == 1:
            out[:] = sorted(out)
        return out
    return f


def _grid(name, other):
    g = _between(-8e4, 8e4, name)
    return lambda ev, sh=None: other(ev) if sh is None else g(ev, sh)


TYPICAL = {"u": _grid("u", _between(1, 30, "u")), "v": _grid("v", _between(5, 40, "v")), "uu": _grid("uu", None), "vv": _grid("vv", None)}
for _names, _lo, _hi, _log in (
        ("lambda0 wavelength wavelengths mtf_wavelengths sensor.pv_wavelength pv_wavelength", 4e-7, 9e-7, False),
        ("D sensor.D L_x L_y sensor.L_x sensor.L_y", 0.02, 0.4, False), ("f sensor.f", 0.1, 4, False), ("eta sensor.eta", 0, 0.5, False),
        ("p_x p_y w_x w_y sensor.p_x sensor.p_y sensor.w_x sensor.w_y", 3e-6, 2e-5, False),
        ("a_x a_y s_x s_y sensor.s_x sensor.s_y blur_size_x blur_size_y", -6, -4.5, True), ("sensor.da_x sensor.da_y", -5, -3, True),
        ("altitude scenario.altitude h_sensor", 100, 24000, False), ("slant_range", 24500, 60000, False), ("h_target", 0, 90, False),
        ("scenario.ground_range ground_range", 0, 60000, False), ("h", 0, 25000, False), ("ha_wind_speed scenario.ha_wind_speed", 5, 40, False),
        ("cn2_at_1m scenario.cn2_at_1m", -16, -13, True), ("int_time sensor.int_time", -4, -1.3, True),
        ("aircraft_speed scenario.aircraft_speed vel", 0, 120, False), ("r0", 0.02, 1, False), ("t_d", -4, -1.3, True),
        ("ifov ifov_x ifov_y", -6, -4, True), ("snr", 1, 200, False), ("gsd", 0.05, 3, False), ("rer rer_1 rer_2", 0.1, 1, False),
        ("eho", 0.9, 1.6, False), ("ng", 1, 20, False), ("sensor.dark_current dark_current", -1, 5, True), ("sensor.read_noise sensor.other_noise", 0, 100, False),
        ("sensor.max_n", 3.5, 6, True), ("sensor.bit_depth bit_depth", 6, 16, False), ("sensor.cold_filter_emissivity sensor.optics_emissivity", 0, 0.3, False),
        ("sensor.cold_filter_transmission sensor.qe sensor.optics_transmission qe", 0.3, 1, False)):
    for _n in _names.split():
        TYPICAL[_n] = _between(_lo, _hi, _n, _log)
