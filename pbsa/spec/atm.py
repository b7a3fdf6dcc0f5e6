"""Documented atmosphere database access (analysed, never executed)."""
import numpy as np

from pybsm import utils


def entry_file(altitude, ground_range, ihaze):
    """file of the database entry whose condition equals the request"""
    table = np.genfromtxt(utils.dir_path + "/atms/fileDecoder.csv", delimiter=",", skip_header=1)
    matching = table[(table[:, 3] == ihaze) & (table[:, 1] == altitude / 1000) & (table[:, 2] == ground_range / 1000)]
    return utils.dir_path + "/atms/" + str(int(matching[0, 0])) + ".bin"


def entry_columns(path):
    """wavelength, transmission and four radiances in SI units"""
    data = np.fromfile(path, dtype=np.float32)
    wavelength = 1e-6 * np.linspace(0.3, 14.0, 1371)
    return (wavelength, data[0:1371], 1e10 * data[1371:2742], 1e10 * data[2742:4113], 1e10 * data[4113:5484], 1e10 * data[5484:6855])


def load_database_atmosphere_no_interp(altitude, ground_range, ihaze):
    return entry_columns(entry_file(altitude, ground_range, ihaze))


# the stored grid, up to the highest altitude served by interpolation
ALTITUDES = np.array([2, 32.5, 75, 150, 225, 500, 1000, 2000, 3000, 4000, 5000, 6000, 7000, 8000, 9000, 10000, 11000, 12000,
                      14000, 16000, 18000, 20000])
RANGES = np.array([0, 100, 500] + [1000.0 * i for i in range(1, 21)] + [2000.0 * i for i in range(11, 41)]
                  + [5000.0 * i for i in range(17, 61)])


def between(nodes, x, value):
    """linear interpolation between the nodes around x, exact at a node"""
    below = nodes[nodes <= x][-1]
    above = nodes[nodes >= x][0]
    if below == above:
        return value(below)
    t = (x - below) / (above - below)
    return (1 - t) * value(below) + t * value(above)


def load_database_atmosphere(altitude, ground_range, ihaze):
    return between(RANGES, ground_range, lambda r: between(
        ALTITUDES, altitude, lambda a: utils.load_database_atmosphere_no_interp(a, r, ihaze)))
