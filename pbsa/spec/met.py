"""Documented image-quality metrics (analysed, never executed)."""
import copy

import numpy as np

from pybsm import geospatial as GEO
from pybsm import noise as NOISE
from pybsm import utils as UTILS
from pybsm.metrics import functional as MET
from pybsm.otf import functional as OTFS
from pybsm.radiance import functional as RAD

INCH = 0.0254


# -- published equations -----------------------------------------------------
def giqe3(rer, gsd, eho, ng, snr):
    return 11.81 + 3.32 * np.log10(rer / (gsd / INCH)) - 1.48 * eho - ng / snr


def giqe4(rer, gsd, eho, ng, snr, elev_angle):
    gsd_gp = gsd / np.sqrt(np.sin(elev_angle))
    if rer < 0.9:
        n = 10.251 - 3.16 * np.log10(gsd_gp / INCH) + 2.817 * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr
    else:
        n = 10.251 - 3.32 * np.log10(gsd_gp / INCH) + 1.559 * np.log10(rer) - 0.656 * eho - 0.344 * ng / snr
    return n, gsd_gp


def giqe5(rer_1, rer_2, gsd, snr, elev_angle):
    gsd_w = gsd / np.sin(elev_angle) ** 0.25
    rer = (max(rer_1, rer_2) * min(rer_1, rer_2) ** 2) ** (1 / 3)
    x = np.log10(rer)
    return 9.57 - 3.32 * np.log10(gsd_w / INCH) + 3.32 * (1 - np.exp(-1.9 / snr)) * x - 2 * x ** 4 - 1.8 / snr, gsd_w, rer


# -- edges and resolution ----------------------------------------------------
def edge_response(pixel_pos, mtf_slice, df, ifov):
    # 1/2 + 1/pi * integral of slice * sin(2 pi w x)/w; the tiny offset keeps
    # the integrand defined at zero frequency
    w = np.arange(mtf_slice.size) * df + 1e-6
    return 0.5 + np.trapz(mtf_slice * np.sin(2 * np.pi * w * (pixel_pos * ifov)) / w, w) / np.pi


def relative_edge_response(mtf_slice, df, ifov):
    return MET.edge_response(0.5, mtf_slice, df, ifov) - MET.edge_response(-0.5, mtf_slice, df, ifov)


def edge_height_overshoot(mtf_slice, df, ifov):
    r = []
    for k in range(9):
        r.append(MET.edge_response(1 + k / 4, mtf_slice, df, ifov))
    rising = True
    for k in range(8):
        if r[k + 1] <= r[k]:
            rising = False
    if rising:
        return r[1]
    return max(r)


def giqe5_RER(mtf, df, ifov_x, ifov_y):
    h = OTFS.slice_otf(mtf, 0)
    v = OTFS.slice_otf(mtf, np.pi / 2)
    return MET.relative_edge_response(h, df, ifov_x), MET.relative_edge_response(v, df, ifov_y)


def giqe_edge_terms(mtf, df, ifov_x, ifov_y):
    h = OTFS.slice_otf(mtf, 0)
    v = OTFS.slice_otf(mtf, np.pi / 2)
    rer = np.sqrt(MET.relative_edge_response(h, df, ifov_x) * MET.relative_edge_response(v, df, ifov_y))
    eho = np.sqrt(MET.edge_height_overshoot(h, df, ifov_x) * MET.edge_height_overshoot(v, df, ifov_y))
    return rer, eho


def ground_resolved_distance(mtf_slice, df, snr, ifov, slant_range):
    # where the slice falls to 3/SNR (kept away from zero), or two pixels
    w = np.arange(mtf_slice.size) * df
    u_r = np.interp(3 / snr, mtf_slice[::-1], w[::-1]) + 1e-12
    return max(slant_range / u_r, 2 * ifov * slant_range)


# -- drivers -----------------------------------------------------------------
class Result:
    def __init__(self):
        pass


def driver(sensor, scenario, interp):
    r = Result()
    r.sensor = sensor
    r.slant_range = GEO.curved_earth_slant_range(h_target=0.0, h_sensor=scenario.altitude, ground_range=scenario.ground_range)
    if interp:
        full = UTILS.load_database_atmosphere(scenario.altitude, scenario.ground_range, scenario.ihaze)
    else:
        full = UTILS.load_database_atmosphere_no_interp(scenario.altitude, scenario.ground_range, scenario.ihaze)
    lo = sensor.opt_trans_wavelengths[0]
    hi = sensor.opt_trans_wavelengths[-1]
    r.atm = full[(full[:, 0] >= lo) & (full[:, 0] <= hi), :]
    emissive = lo >= 2.9e-6
    r.tgt_radiance, r.bkg_radiance = RAD.giqe_radiance(r.atm, emissive)
    if emissive:
        r.target_reflectance = 0.0
        r.background_reflectance = 0.0
        r.target_temperature = 282.0
        r.background_temperature = 280.0
    else:
        r.target_reflectance = 0.15
        r.background_reflectance = 0.07
        r.target_temperature = scenario.target_temperature
        r.background_temperature = scenario.background_temperature
    w = r.atm[:, 0]
    r.radiance_wavelengths = w
    snr = RAD.photon_detector_SNR(sensor=sensor, radiance_wavelengths=w, target_radiance=r.tgt_radiance, background_radiance=r.bkg_radiance)
    r.snr = snr
    # noise of the light that came through the optics
    exposure = snr.int_time * sensor.n_tdi
    tgt = np.sqrt(np.trapz(RAD.photon_detection_rate(snr.tgt_FPA_irradiance - snr.other_irradiance, sensor.w_x, sensor.w_y, w, snr.qe), w) * exposure)
    bkg = np.sqrt(np.trapz(RAD.photon_detection_rate(snr.bkg_FPA_irradiance - snr.other_irradiance, sensor.w_x, sensor.w_y, w, snr.qe), w) * exposure)
    rate, _, _ = RAD.signal_rate(
        w, r.atm[:, 2] + r.atm[:, 4], snr.opt_trans, sensor.D, sensor.f, sensor.w_x, sensor.w_y, snr.qe, np.zeros(1), 0.0)
    r.path_noise = np.sqrt(rate * exposure)
    r.scene_noise = np.sqrt(max(tgt, bkg) ** 2 - r.path_noise ** 2)
    used = snr.weights > 0
    r.mtf_wavelengths = w[used]
    r.mtf_weights = snr.weights[used]
    r.cutoff_frequency = sensor.D / np.min(r.mtf_wavelengths)
    # 101 x 101 grid out to the cutoff: horizontal frequency grows with the
    # column, vertical frequency falls with the row
    step = 2 * r.cutoff_frequency / 100
    axis = np.linspace(-1.0, 1.0, 101) * r.cutoff_frequency
    r.uu, r.vv = np.meshgrid(axis, -axis)
    r.df = step
    r.ifov_x = sensor.p_x / sensor.f
    r.ifov_y = sensor.p_y / sensor.f
    r.gsd_x = r.ifov_x * r.slant_range
    r.gsd_y = r.ifov_y * r.slant_range
    r.elev_angle = np.pi / 2 - GEO.nadir_angle(h_target=0.0, h_sensor=scenario.altitude, slant_range=r.slant_range)
    r.eff_snr = np.sqrt(sensor.frame_stacks) * snr.snr
    return r


def responses(sensor, scenario, r):
    return OTFS.common_OTFs(
        sensor=sensor, scenario=scenario, uu=r.uu, vv=r.vv, mtf_wavelengths=r.mtf_wavelengths, mtf_weights=r.mtf_weights,
        slant_range=r.slant_range, int_time=r.snr.int_time)


def niirs(sensor, scenario, interp=False):
    r = driver(sensor, scenario, interp)
    r.otf = responses(sensor, scenario, r)
    r.gsd_gm = np.sqrt(r.gsd_x * r.gsd_y)
    r.rer_gm, r.eho_gm = MET.giqe_edge_terms(np.abs(r.otf.system_OTF), r.df, r.ifov_x, r.ifov_y)
    r.ng = NOISE.noise_gain(sensor.filter_kernel)
    r.niirs = MET.giqe3(rer=r.rer_gm, gsd=r.gsd_gm, eho=r.eho_gm, ng=r.ng, snr=r.eff_snr)
    r.niirs_4, r.gsd_gp = MET.giqe4(rer=r.rer_gm, gsd=r.gsd_gm, eho=r.eho_gm, ng=r.ng, snr=r.eff_snr, elev_angle=r.elev_angle)
    return r


def niirs5(sensor, scenario, interp=False):
    r = driver(sensor, scenario, interp)
    # without image enhancement
    plain = copy.copy(sensor)
    plain.filter_kernel = np.array([1])
    r.otf = responses(plain, scenario, r)
    r.rer_0, r.rer_90 = MET.giqe5_RER(np.abs(r.otf.system_OTF), r.df, r.ifov_x, r.ifov_y)
    r.niirs, r.gsd_w, r.rer = MET.giqe5(rer_1=r.rer_0, rer_2=r.rer_90, gsd=r.gsd_x, snr=r.eff_snr, elev_angle=r.elev_angle)
    return r
