"""Client programs over the repository's interface (analysed, never run)."""
import numpy as np

from pybsm.otf import functional as OTFS


def weighted_constant(wavelengths, weights, level):
    return OTFS.weighted_by_wavelength(wavelengths, weights, lambda w: level)


def weighted_scaled(wavelengths, weights, my_function, k):
    return OTFS.weighted_by_wavelength(wavelengths, weights, lambda w: k * my_function(w))


def weighted_grid(wavelengths, weights, image):
    return OTFS.weighted_by_wavelength(wavelengths, weights, lambda w: np.exp(-w * image ** 2))


def weighted_grid_spec(wavelengths, weights, image):
    total = 0
    for i in range(wavelengths.shape[0]):
        total = total + weights[i] * np.exp(-wavelengths[i] * image ** 2)
    return total / np.sum(weights)
