"""Documented closed-form models of the optical transfer functions.

These functions are never executed: the analyser builds their value graphs and
compares them with the graphs of the repository's functions."""
import cv2
import numpy as np
from scipy import interpolate
from scipy.special import jn

from pybsm.otf import functional as OTFS

Q_ELECTRON = 1.60217662e-19


def circular_aperture_OTF(u, v, lambda0, D, eta):
    # Goodman: annular pupil = autocorrelation of an outer disc minus an inner
    # disc, normalised by the open area
    x = np.hypot(u, v) * lambda0 / D
    disc = np.nan_to_num(2 / np.pi * (np.arccos(x) - x * np.sqrt(1 - x ** 2)))
    if eta <= 0.0:
        return disc
    y = x / eta
    inner = np.nan_to_num(2 * eta ** 2 / np.pi * (np.arccos(y) - y * np.sqrt(1 - y ** 2)))
    contained = -2 * eta ** 2 * (x < (1 - eta) / 2)
    phi = np.arccos((1 + eta ** 2 - 4 * x ** 2) / (2 * eta))
    crossing = (
        2 * eta * np.sin(phi) / np.pi
        + (1 + eta ** 2) * phi / np.pi
        - 2 * (1 - eta ** 2) / np.pi * np.arctan((1 + eta) * np.tan(phi / 2) / (1 - eta))
        - 2 * eta ** 2
    )
    crossing = np.nan_to_num(crossing) * (x <= (1 + eta) / 2)
    return (disc + inner + contained + crossing) / (1 - eta ** 2)


def circular_aperture_OTF_with_defocus(u, v, wavelength, D, f, defocus):
    # Hopkins 1955 series for the defocused circular pupil
    rho = np.sqrt(u ** 2 + v ** 2)
    s = 2 * rho * wavelength / D
    beta = np.arccos(s / 2)
    if defocus == 0:
        return np.nan_to_num((2 * beta - np.sin(2 * beta)) / np.pi)
    w20 = defocus / (2 * (1 + 4 * (f / D) ** 2))
    a = 4 * np.pi * w20 * s / wavelength
    even = beta * jn(1, a)
    even = even + np.sin(2 * beta) / 2 * (jn(1, a) - jn(3, a))
    even = even - np.sin(4 * beta) / 4 * (jn(3, a) - jn(5, a))
    even = even + np.sin(6 * beta) / 6 * (jn(5, a) - jn(7, a))
    odd = np.sin(beta) * (jn(0, a) - jn(2, a))
    odd = odd - np.sin(3 * beta) / 3 * (jn(2, a) - jn(4, a))
    odd = odd + np.sin(5 * beta) / 5 * (jn(4, a) - jn(6, a))
    odd = odd - np.sin(7 * beta) / 7 * (jn(6, a) - jn(8, a))
    H = 4 / (np.pi * a) * (np.cos(a * s / 2) * even - np.sin(a * s / 2) * odd)
    return np.nan_to_num(np.where(rho == 0, 1.0, H))


def cte_OTF(u, v, p_x, p_y, cte_n_x, cte_n_y, phases_n, cte_eff, f):
    loss = phases_n * (1 - cte_eff)
    return np.exp(-loss * (cte_n_x * (1 - np.cos(2 * np.pi * p_x * u / f)) + cte_n_y * (1 - np.cos(2 * np.pi * p_y * v / f))))


def defocus_OTF(u, v, D, w_x, w_y):
    return np.exp(-(np.pi ** 2) / 4 * ((w_x * u) ** 2 + (w_y * v) ** 2))


def detector_OTF(u, v, w_x, w_y, f):
    return np.sinc(w_x * u / f) * np.sinc(w_y * v / f)


def detector_OTF_with_aggregation(u, v, w_x, w_y, p_x, p_y, f, n=1):
    au = 0
    av = 0
    for i in range(n):
        shift = i - (n - 1) / 2
        au = au + np.cos(2 * np.pi * p_x * u / f * shift) / n
        av = av + np.cos(2 * np.pi * p_y * v / f * shift) / n
    return au * av * detector_OTF(u, v, w_x, w_y, f)


def diffusion_OTF(u, v, alpha, ald, al0, f):
    rho = np.sqrt(u ** 2 + v ** 2)
    length = 1 / np.sqrt(1 / al0 ** 2 + (2 * np.pi * rho / f) ** 2)
    return (1 - np.exp(-alpha * ald) / (1 + alpha * length)) / (1 - np.exp(-alpha * ald) / (1 + alpha * al0))


def drift_OTF(u, v, a_x, a_y):
    return np.sinc(a_x * u) * np.sinc(a_y * v)


def filter_OTF_as_shipped(u, v, kernel, ifov):
    # magnitude of the 100x100 discrete transform of the kernel on a symmetric
    # grid out to the Nyquist frequency, periodic beyond it
    n = 100
    mag = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))
    nyq = 0.5 / ifov
    gu, gv = np.meshgrid(np.linspace(-nyq, nyq, n), np.linspace(nyq, -nyq, n))
    wu = (u + nyq) % (2 * nyq) - nyq
    wv = (v + nyq) % (2 * nyq) - nyq
    return interpolate.griddata((gu.reshape(-1), gv.reshape(-1)), mag.reshape(-1), (wu, wv), method="linear", fill_value=0)


def filter_OTF(u, v, kernel, ifov):
    # the samples of a 100 point transform lie at k/100 cycles per pixel
    n = 100
    mag = np.abs(np.fft.fftshift(np.fft.fft2(kernel, [n, n])))
    nyq = 0.5 / ifov
    k = (np.arange(n) - n / 2) / n / ifov
    gu, gv = np.meshgrid(k, -k)
    wu = (u + nyq) % (2 * nyq) - nyq
    wv = (v + nyq) % (2 * nyq) - nyq
    return interpolate.griddata((gu.reshape(-1), gv.reshape(-1)), mag.reshape(-1), (wu, wv), method="linear", fill_value=0)


def gaussian_OTF(u, v, blur_size_x, blur_size_y):
    return np.exp(-np.pi * ((u * blur_size_x) ** 2 + (v * blur_size_y) ** 2))


def jitter_OTF(u, v, s_x, s_y):
    return np.exp(-2 * np.pi ** 2 * ((s_x * u) ** 2 + (s_y * v) ** 2))


def tdi_OTF(u_or_v, w, n_tdi, phases_n, beta, f):
    xx = w * u_or_v / (f * beta)
    total = 0
    for i in range(n_tdi * phases_n):
        total = total + np.exp(-2j * np.pi * xx * (beta - 1) * i)
    return np.sinc(xx) * total / (n_tdi * phases_n)


def turbulence_OTF(u, v, lambda0, D, r0, alpha):
    rho = np.sqrt(u ** 2 + v ** 2)
    return np.exp(-3.44 * (lambda0 * rho / r0) ** (5 / 3) * (1 - alpha * (lambda0 * rho / D) ** (1 / 3)))


def wind_speed_turbulence_OTF(u, v, lambda0, D, r0, t_d, vel):
    w = np.exp(-vel * t_d / r0)
    short = turbulence_OTF(u, v, lambda0, D, r0, 0.5)
    long = turbulence_OTF(u, v, lambda0, D, r0, 0.0)
    return w * short + (1 - w) * long


def wavefront_OTF(u, v, lambda0, pv, L_x, L_y):
    corr = np.exp(-(lambda0 ** 2) * ((u / L_x) ** 2 + (v / L_y) ** 2))
    return np.exp(-pv * (1 - corr))


def wavefront_OTF_2(u, v, cutoff, w_rms):
    x = np.sqrt(u ** 2 + v ** 2) / cutoff
    return 1 - (w_rms / 0.18) ** 2 * (1 - 4 * (x - 0.5) ** 2)


def object_domain_defocus_radii(D, R, R0):
    return 0.62 * D * (1 / R - 1 / R0)


def image_domain_defocus_radii(D, dz, f):
    return 0.62 * D * dz / f ** 2


def dark_current_from_density(jd, w_x, w_y):
    return jd * w_x * w_y / Q_ELECTRON


def coherence_diameter(lambda0, z_path, cn2):
    # spherical wave; weights 0 at the near end of the path, 1 at the far end
    integral = np.trapz(cn2 * (z_path / np.max(z_path)) ** (5 / 3), z_path)
    return (0.423 * (2 * np.pi / lambda0) ** 2 * integral) ** (-3 / 5)


def hufnagel_valley_turbulence_profile(h, v, cn2_at_1m):
    return 5.94e-53 * (v / 27) ** 2 * h ** 10 * np.exp(-h / 1000) + 2.7e-16 * np.exp(-h / 1500) + cn2_at_1m * np.exp(-h / 100)


def altitude_along_slant_path(h_target, h_sensor, slant_range):
    r_earth = 6378164.0
    a = r_earth + h_sensor
    c = r_earth + h_target
    cos_nadir = (a ** 2 + slant_range ** 2 - c ** 2) / (2 * a * slant_range)
    z = np.linspace(0.0, slant_range, 10000)
    # z is measured from the sensor; altitude is listed from the target up
    h = np.sqrt(a ** 2 + z ** 2 - 2 * a * z * cos_nadir) - r_earth
    return z, h[::-1]


def weighted_by_wavelength(wavelengths, weights, my_function):
    total = 0
    for i in range(wavelengths.shape[0]):
        total = total + weights[i] * my_function(wavelengths[i])
    return total / np.sum(weights)


def polychromatic_turbulence_OTF(
    u, v, wavelengths, weights, altitude, slant_range, D, ha_wind_speed, cn2_at_1m, int_time, aircraft_speed
):
    z, h = altitude_along_slant_path(0.0, altitude, slant_range)
    cn2 = hufnagel_valley_turbulence_profile(h, ha_wind_speed, cn2_at_1m)
    r0_1um = coherence_diameter(1.0e-6, z, cn2)
    band = 0
    turb = 0
    for i in range(wavelengths.shape[0]):
        r0 = r0_1um * wavelengths[i] ** 1.2 * 1.0e-6 ** (-1.2)
        band = band + weights[i] * r0
        turb = turb + weights[i] * wind_speed_turbulence_OTF(u, v, wavelengths[i], D, r0, int_time, aircraft_speed)
    return turb / np.sum(weights), band / np.sum(weights)


def otf_to_psf(otf, df, dx_out):
    # zero frequency at the array centre in both domains
    psf = np.real(np.fft.fftshift(np.fft.ifft2(np.fft.ifftshift(otf))))
    rows = max(1, int(otf.shape[0] * (1 / (otf.shape[0] * df)) / dx_out))
    cols = max(1, int(otf.shape[1] * (1 / (otf.shape[1] * df)) / dx_out))
    psf = cv2.resize(psf, (cols, rows)).astype(np.float64)
    psf = psf / np.sum(psf)
    best = psf
    for k in np.arange(10, min(otf.shape[0], otf.shape[1]), 5):
        r0 = max(0, int(np.floor(rows / 2 - k / 2)))
        r1 = int(np.ceil(rows / 2 + k / 2))
        c0 = max(0, int(np.floor(cols / 2 - k / 2)))
        c1 = int(np.ceil(cols / 2 + k / 2))
        best = psf[r0:r1, c0:c1]
        if np.sum(best) > 0.95:
            break
    return best / np.sum(best)


def resample_2D(img_in, dx_in, dx_out):
    rows = int(np.round(img_in.shape[0] * dx_in / dx_out))
    cols = int(np.round(img_in.shape[1] * dx_in / dx_out))
    return cv2.resize(img_in, (cols, rows))


def slice_otf(otf, ang):
    # ray from the centre; +u along increasing column, +v along decreasing row
    rows, cols = otf.shape
    u = np.linspace(-1.0, 1.0, cols)
    v = np.linspace(-1.0, 1.0, rows)
    r = np.arange(0.0, 1.0, 2.0 / (cols - 1))
    f = interpolate.RegularGridInterpolator((v, u), otf[::-1, :], bounds_error=False, fill_value=None)
    return f((r * np.sin(ang), r * np.cos(ang)))


def aperture_average(u, v, wavelengths, weights, D, eta):
    return weighted_by_wavelength(wavelengths, weights, lambda w: circular_aperture_OTF(u, v, w, D, eta))


# -- composition: the components are the repository's own (C06 and C11 decide
# them), only their assembly is specified here
def common_OTFs(sensor, scenario, uu, vv, mtf_wavelengths, mtf_weights, slant_range, int_time):
    ap = OTFS.weighted_by_wavelength(
        mtf_wavelengths, mtf_weights, lambda w: OTFS.circular_aperture_OTF(u=uu, v=vv, lambda0=w, D=sensor.D, eta=sensor.eta))
    exposure = int_time * sensor.n_tdi
    if scenario.cn2_at_1m > 0:
        turb, r0_band = OTFS.polychromatic_turbulence_OTF(
            u=uu, v=vv, wavelengths=mtf_wavelengths, weights=mtf_weights, altitude=scenario.altitude, slant_range=slant_range, D=sensor.D,
            ha_wind_speed=scenario.ha_wind_speed, cn2_at_1m=scenario.cn2_at_1m, int_time=exposure, aircraft_speed=scenario.aircraft_speed)
    else:
        turb = np.ones(uu.shape)
        r0_band = 1.0e6 * np.ones(uu.shape)
    det = OTFS.detector_OTF(u=uu, v=vv, w_x=sensor.w_x, w_y=sensor.w_y, f=sensor.f)
    jit = OTFS.jitter_OTF(u=uu, v=vv, s_x=sensor.s_x, s_y=sensor.s_y)
    drft = OTFS.drift_OTF(u=uu, v=vv, a_x=sensor.da_x * exposure, a_y=sensor.da_y * exposure)
    wav = OTFS.weighted_by_wavelength(
        mtf_wavelengths, mtf_weights,
        lambda w: OTFS.wavefront_OTF(u=uu, v=vv, lambda0=w, pv=sensor.pv * (sensor.pv_wavelength / w) ** 2, L_x=sensor.L_x, L_y=sensor.L_y))
    if sensor.filter_kernel.shape[0] > 1:
        filt = OTFS.filter_OTF(u=uu, v=vv, kernel=sensor.filter_kernel, ifov=sensor.p_x / sensor.f)
    else:
        filt = np.ones(uu.shape)
    return ap, turb, det, jit, drft, wav, filt, ap * turb * det * jit * drft * wav * filt, r0_band


def apply_otf_to_image(ref_img, ref_gsd, ref_range, otf, df, ifov):
    sample = 2 * np.arctan(ref_gsd / 2 / ref_range)
    psf = OTFS.otf_to_psf(otf=otf, df=df, dx_out=sample)
    blurred = cv2.filter2D(ref_img, -1, psf)
    step = ref_gsd / ref_range
    return OTFS.resample_2D(img_in=blurred, dx_in=step, dx_out=ifov), OTFS.resample_2D(img_in=psf, dx_in=step, dx_out=ifov)
