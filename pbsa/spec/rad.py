"""Documented radiometry (analysed, never executed)."""
import numpy as np

from pybsm import noise as NOISE
from pybsm.radiance import functional as RAD

H = 6.62607004e-34
C = 299792458.0
K = 1.38064852e-23


# -- single quantities -------------------------------------------------------
def at_focal_plane_irradiance(D, f, L):
    return np.pi * L / (1 + 4 * (f / D) ** 2)


def blackbody_radiance(lambda0, T):
    return 2 * H * C ** 2 / lambda0 ** 5 / (np.exp(H * C / (lambda0 * K * T)) - 1)


def check_well_fill(total_photoelectrons, max_fill):
    if total_photoelectrons > max_fill:
        return max_fill / total_photoelectrons
    return 1.0


def cold_shield_self_emission(wavelengths, cold_shield_temperature, D, f):
    # everything of the hemisphere but the cone of the optics
    return np.pi * blackbody_radiance(wavelengths, cold_shield_temperature) * (1 - 1 / (1 + 4 * (f / D) ** 2))


def cold_stop_self_emission(wavelengths, cold_filter_temperature, cold_filter_emissivity, D, f):
    return np.pi / (1 + 4 * (f / D) ** 2) * cold_filter_emissivity * blackbody_radiance(wavelengths, cold_filter_temperature)


def optics_self_emission(wavelengths, optics_temperature, optics_emissivity, cold_filter_transmission, D, f):
    return (
        np.pi / (1 + 4 * (f / D) ** 2) * cold_filter_transmission * optics_emissivity * blackbody_radiance(wavelengths, optics_temperature)
    )


def focal_plane_integrated_irradiance(L, L_s, t_opt, e_opt, lambda0, d_lambda, optics_temperature, D, f):
    total = t_opt * L + e_opt * d_lambda * blackbody_radiance(lambda0, optics_temperature) + L_s
    return np.pi / (1 + 4 * (f / D) ** 2) * total


def photon_detection_rate(E, w_x, w_y, wavelengths, qe):
    return E * (w_x * w_y) * qe / (H * C / wavelengths)


def signal_rate(wavelengths, target_radiance, optical_transmission, D, f, w_x, w_y, qe, other_irradiance, dark_current):
    E = optical_transmission * RAD.at_focal_plane_irradiance(D=D, f=f, L=target_radiance) + other_irradiance
    dN = RAD.photon_detection_rate(E=E, w_x=w_x, w_y=w_y, wavelengths=wavelengths, qe=qe)
    return np.trapz(dN, wavelengths) + dark_current, E, dN


def total_radiance(atm, reflectance, temperature):
    # columns: wavelength, transmission, path emission, surface emission,
    # path scatter, surface reflection for the database's own reflectance 0.15
    own = (1 - reflectance) * RAD.blackbody_radiance(lambda0=atm[:, 0], T=temperature)
    return atm[:, 2] + own * atm[:, 1] + atm[:, 4] + reflectance / 0.15 * atm[:, 5]


def giqe_radiance(atm, is_emissive):
    if is_emissive:
        return RAD.total_radiance(atm, 0.0, 282.0), RAD.total_radiance(atm, 0.0, 280.0)
    return RAD.total_radiance(atm, 0.15, 282.0), RAD.total_radiance(atm, 0.07, 280.0)


def resample_by_wavelength(wavelengths, values, new_wavelengths):
    return np.interp(new_wavelengths, wavelengths, values, left=0.0, right=0.0)


def noise_gain(kernel):
    if abs(np.sum(kernel) - 1) > 1e-8 + 1e-5:
        raise ValueError("Kernel does not sum to 1")
    return np.sqrt(np.sum(kernel ** 2))


def quantization_noise(pe_range, bit_depth):
    return pe_range / (2 ** bit_depth - 1) / np.sqrt(12)


# -- the detector model shared by target, background and reflectance table ---
def stray(sensor, wavelengths):
    return (
        RAD.cold_shield_self_emission(wavelengths=wavelengths, cold_shield_temperature=sensor.cold_shield_temperature, D=sensor.D, f=sensor.f)
        + RAD.optics_self_emission(
            wavelengths=wavelengths, optics_temperature=sensor.optics_temperature, optics_emissivity=sensor.optics_emissivity,
            cold_filter_transmission=sensor.cold_filter_transmission, D=sensor.D, f=sensor.f)
        + RAD.cold_stop_self_emission(
            wavelengths=wavelengths, cold_filter_temperature=sensor.cold_filter_temperature, cold_filter_emissivity=sensor.cold_filter_emissivity,
            D=sensor.D, f=sensor.f)
        + sensor.other_irradiance
    )


def transmission(sensor, wavelengths):
    return (
        sensor.cold_filter_transmission * (1 - sensor.eta ** 2)
        * RAD.resample_by_wavelength(wavelengths=sensor.opt_trans_wavelengths, values=sensor.optics_transmission, new_wavelengths=wavelengths)
    )


def efficiency(sensor, wavelengths):
    return RAD.resample_by_wavelength(wavelengths=sensor.qe_wavelengths, values=sensor.qe, new_wavelengths=wavelengths)


def detected(sensor, wavelengths, radiance):
    return RAD.signal_rate(
        wavelengths=wavelengths, target_radiance=radiance, optical_transmission=transmission(sensor, wavelengths), D=sensor.D, f=sensor.f,
        w_x=sensor.w_x, w_y=sensor.w_y, qe=efficiency(sensor, wavelengths), other_irradiance=stray(sensor, wavelengths),
        dark_current=sensor.dark_current)


def snr_inputs(sensor, radiance_wavelengths, target_radiance, background_radiance):
    t = detected(sensor, radiance_wavelengths, target_radiance)
    b = detected(sensor, radiance_wavelengths, background_radiance)
    return (
        transmission(sensor, radiance_wavelengths), efficiency(sensor, radiance_wavelengths), stray(sensor, radiance_wavelengths),
        t[0], t[1], t[2], b[0], b[1],
    )


# well-fill relations between fields of a result
def fill(sensor, tgt_n_rate, bkg_n_rate):
    exposure = sensor.int_time * sensor.n_tdi
    full = exposure * max(tgt_n_rate, bkg_n_rate)
    limit = sensor.max_well_fill * sensor.max_n
    if full > limit:
        s = limit / full
    else:
        s = 1.0
    t = s * exposure * tgt_n_rate
    b = s * exposure * bkg_n_rate
    return s, t, b, s * sensor.int_time, max(t, b) / sensor.max_n


# noise relations between fields of a result
def noises(sensor, radiance_wavelengths, tgt_n, bkg_n, int_time, other_irradiance, qe):
    signal = np.sqrt(max(tgt_n, bkg_n))
    dark = np.sqrt(sensor.dark_current * int_time * sensor.n_tdi)
    quant = NOISE.quantization_noise(pe_range=sensor.max_n, bit_depth=sensor.bit_depth)
    rate = RAD.photon_detection_rate(E=other_irradiance, w_x=sensor.w_x, w_y=sensor.w_y, wavelengths=radiance_wavelengths, qe=qe)
    emission = np.sqrt(np.trapz(rate, radiance_wavelengths) * int_time * sensor.n_tdi)
    total = np.sqrt(max(tgt_n, bkg_n) + quant ** 2 + sensor.read_noise ** 2 + np.sum(sensor.other_noise ** 2))
    return signal, dark, quant, emission, total, tgt_n - bkg_n, (tgt_n - bkg_n) / total


def reflectance_to_photoelectrons(atm, sensor, int_time, target_temp=300):
    ref = np.linspace(0.0, 1.0, 100)
    pe = np.zeros(ref.shape)
    lo = sensor.opt_trans_wavelengths[0]
    hi = sensor.opt_trans_wavelengths[-1]
    band = atm[(atm[:, 0] >= lo) & (atm[:, 0] <= hi), :]
    wavelengths = band[:, 0]
    for i in range(100):
        rate, _, dn = detected(sensor, wavelengths, RAD.total_radiance(atm=band, reflectance=ref[i], temperature=target_temp))
        pe[i] = rate * int_time * sensor.n_tdi
    top = np.max(pe)
    if top > sensor.max_n:
        pe = pe * (sensor.max_n / top)
    pe = np.minimum(pe, sensor.max_n)
    return ref, pe, np.vstack([wavelengths, dn / np.max(dn)])
