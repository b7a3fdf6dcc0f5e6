"""Documented image simulation (analysed, never executed)."""
import numpy as np
from scipy import interpolate

from pybsm import noise
from pybsm import otf as otf_
from pybsm import radiance


def instantaneous_FOV(w, f):
    return w / f


def wiener_filter(otf, noise_to_signal_power_spectrum):
    return np.conj(otf) / (np.abs(otf) ** 2 + noise_to_signal_power_spectrum)


def img_to_reflectance(img, pix_values, refl_values):
    calibration = interpolate.interp1d(pix_values, refl_values, fill_value="extrapolate", assume_sorted=False)
    return np.clip(calibration(img), 0.0, 1.0)


def simulate_image(ref_img, sensor, scenario):
    # reflectance to photoelectrons at the sensor's exposure
    reflectance, electrons, spectrum = radiance.reflectance_to_photoelectrons(scenario.atm, sensor, sensor.int_time)
    true_img = interpolate.interp1d(reflectance, electrons)(img_to_reflectance(ref_img.img, ref_img.pix_values, ref_img.refl_values))
    # blur by the system transfer function, weighted with the detected in-band spectrum
    slant_range = (scenario.altitude ** 2 + scenario.ground_range ** 2) ** 0.5
    detected = spectrum[1] > 0
    waves = spectrum[0][detected]
    weights = spectrum[1][detected]
    cutoff = sensor.D / np.min(waves)
    u = np.linspace(-cutoff, cutoff, 1501)
    v = np.linspace(cutoff, -cutoff, 1501)
    uu, vv = np.meshgrid(u, v)
    system = otf_.functional.common_OTFs(sensor, scenario, uu, vv, waves, weights, slant_range, sensor.int_time).system_OTF
    df = ((u[1] - u[0]) + (v[0] - v[1])) / 2
    ifov = (sensor.p_x + sensor.p_y) / (2 * sensor.f)
    blur_img = otf_.functional.apply_otf_to_image(true_img, ref_img.gsd, slant_range, system, df, ifov)[0]
    # photon noise, then quantisation and read noise
    photons = np.random.poisson(blur_img)
    sigma = (noise.quantization_noise(sensor.max_n, sensor.bit_depth) ** 2 + sensor.read_noise ** 2) ** 0.5
    return true_img, blur_img, np.random.normal(photons, sigma)


def stretch_contrast_convert_8bit(img, perc):
    x = img.astype(float)
    lo = np.percentile(x, perc[0])
    hi = np.percentile(x, perc[1])
    return np.round(np.clip(255 * (x - lo) / (hi - lo), 0, 255)).astype(np.uint8)


def stretch_default(img):
    return stretch_contrast_convert_8bit(img, [0.1, 99.9])


# ---- constructed objects: value of every attribute, by constructor argument
def sensor_attributes(name, D, f, p_x, opt_trans_wavelengths, eta=0, p_y=None, w_x=None, w_y=None, int_time=1, dark_current=0,
                      other_irradiance=0, read_noise=0, max_n=100000000, max_well_fill=1, bit_depth=100, n_tdi=1,
                      cold_shield_temperature=70, optics_temperature=270, optics_emissivity=0, cold_filter_transmission=1,
                      cold_filter_temperature=70, cold_filter_emissivity=0, s_x=0, s_y=0, da_x=0, da_y=0, pv=0,
                      pv_wavelength=0.633e-6):
    out = dict(
        name=name, D=D, f=f, p_x=p_x, opt_trans_wavelengths=opt_trans_wavelengths, eta=eta, int_time=int_time,
        dark_current=dark_current, other_irradiance=other_irradiance, read_noise=read_noise, max_n=max_n,
        max_well_fill=max_well_fill, bit_depth=bit_depth, n_tdi=n_tdi, cold_shield_temperature=cold_shield_temperature,
        optics_temperature=optics_temperature, optics_emissivity=optics_emissivity,
        cold_filter_transmission=cold_filter_transmission, cold_filter_temperature=cold_filter_temperature,
        cold_filter_emissivity=cold_filter_emissivity, s_x=s_x, s_y=s_y, da_x=da_x, da_y=da_y, pv=pv, pv_wavelength=pv_wavelength)
    # pitch and fill factor agree in the two directions unless given
    out["p_y"] = p_x if p_y is None else p_y
    out["w_x"] = p_x if w_x is None else w_x
    out["w_y"] = out["p_y"] * (out["w_x"] / p_x) if w_y is None else w_y
    # perfect transmission and conversion over the given band
    out["optics_transmission"] = np.ones(opt_trans_wavelengths.shape[0])
    out["qe_wavelengths"] = opt_trans_wavelengths
    out["qe"] = np.ones(opt_trans_wavelengths.shape[0])
    out["L_x"] = D
    out["L_y"] = D
    out["other_noise"] = np.array([0])
    out["filter_kernel"] = np.array([1])
    out["frame_stacks"] = 1
    return out


def scenario_attributes(name, ihaze, altitude, ground_range, aircraft_speed=0, target_reflectance=0.15, target_temperature=295,
                        background_reflectance=0.07, background_temperature=293, ha_wind_speed=21, cn2_at_1m=1.7e-14, interp=False):
    return dict(
        name=name, ihaze=ihaze, altitude=altitude, ground_range=ground_range, aircraft_speed=aircraft_speed,
        target_reflectance=target_reflectance, target_temperature=target_temperature, background_reflectance=background_reflectance,
        background_temperature=background_temperature, ha_wind_speed=ha_wind_speed, cn2_at_1m=cn2_at_1m)


def image_attributes(img, gsd, pix_values=None, refl_values=None, name="ref_image"):
    out = dict(img=img, gsd=gsd, name=name, pix_values=pix_values, refl_values=refl_values)
    if pix_values is None:
        out["pix_values"] = np.array([np.percentile(img, 0.2), np.percentile(img, 99.8)])
        out["refl_values"] = np.array([0.05, 0.95])
    return out


def capture_sensor(name, gsd, altitude):
    """detectors whose footprint straight down is the image's sample distance"""
    band = np.array([380e-9, 700e-9])
    pitch = 20e-6
    f = pitch * altitude / gsd
    pixel_angle = 2 * np.arctan(pitch / (2 * f))
    return sensor_attributes(name, 4 * 540e-9 / pixel_angle, f, pitch, band)


def capture_scenario(name, altitude):
    return scenario_attributes(name, 1, altitude, 0, aircraft_speed=0, ha_wind_speed=0, cn2_at_1m=0)
