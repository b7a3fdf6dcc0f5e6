"""Documented viewing geometry (analysed, never executed)."""
import numpy as np

R = 6378164.0


def ground_sample_distance(ifov, slant_range):
    return ifov * slant_range


def nadir_angle(h_target, h_sensor, slant_range):
    # angle at the sensor, opposite the target's radius
    return np.arccos(((R + h_sensor) ** 2 + slant_range ** 2 - (R + h_target) ** 2) / (2 * (R + h_sensor) * slant_range))


def curved_earth_slant_range(h_target, h_sensor, ground_range):
    return np.sqrt(
        (R + h_target) ** 2 + (R + h_sensor) ** 2 - 2 * (R + h_target) * (R + h_sensor) * np.cos(ground_range / R))


def altitude_along_slant_path(h_target, h_sensor, slant_range):
    cos_nadir = ((R + h_sensor) ** 2 + slant_range ** 2 - (R + h_target) ** 2) / (2 * (R + h_sensor) * slant_range)
    z = np.linspace(0.0, slant_range, 10000)
    h = np.sqrt((R + h_sensor) ** 2 + z ** 2 - 2 * (R + h_sensor) * z * cos_nadir) - R
    return z, h[::-1]
