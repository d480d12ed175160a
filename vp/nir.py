"""Common set-up of the 3.x micrometre reflectance monitors."""
import numpy as np

from vp import data, ref

#: platform, instrument, band names with their centre, thermal band
PLATFORMS = [("Meteosat-9", "seviri", "IR3.9", 3.9), ("EOS-Aqua", "modis", "20", 3.75), ("Suomi-NPP", "viirs", "M12", 3.7),
             ("Himawari-8", "ahi", "ch7", 3.88), ("NOAA-18", "avhrr/3", "ch3b", 3.74), ("GOES-16", "abi", "ch7", 3.89),
             ("NOAA-20", "viirs", "I4", 3.74), ("FY-4A", "agri", "ch7", 3.72), ("Meteosat-12", "fci", "IR3.8_HR", 3.8)]


def setup(rng, scratch, which=None, ndet=1, width=None, n=None, kind=None):
    """Write a response file for one NIR instrument; returns (platform, instrument, band, dets)."""
    plat, instr, band, centre = PLATFORMS[int(rng.integers(len(PLATFORMS))) if which is None else which]
    centre = min(centre, 3.8)
    width = width or float(rng.uniform(0.1, 0.5))
    dets = data.make_band(rng, centre, width, ndet=ndet, n=n or int(rng.integers(12, 120)), kind=kind)
    other = data.make_band(rng, 10.8, 1.0, ndet=1)
    data.write_rsr(scratch / "rsr" / data.rsr_name(plat, instr), {band: dets, "other": other},
                   platform_name=plat, sensor=instr)
    return plat, instr, band, dets


def scene(rng, shape, dtype=np.float64, specials=True, sunz_max=110.0):
    """Return sun zenith angles and Tbs of a scene with day, twilight, night and bad pixels."""
    n = int(np.prod(shape))
    sunz = rng.uniform(0, sunz_max, n)
    tb11 = rng.uniform(200, 310, n)
    tb39 = tb11 + rng.uniform(-5, 60, n)
    if specials:
        for arr, pool in ((sunz, [0.0, 84.999, 85.0, 85.001, 88.0, 90.0, -0.5, -20.0, np.nan, 120.0, 70.0]),
                          (tb39, [np.nan, 150.0, 359.95, 360.0, 400.0, 100.0, 273.15]),
                          (tb11, [np.nan, 150.0, 359.95, 361.0, 90.0, 273.15])):
            k = int(rng.integers(0, max(2, n // 3) + 1))
            for i in rng.integers(0, n, k):
                arr[i] = pool[rng.integers(len(pool))]
    return tuple(x.reshape(shape).astype(dtype) for x in (sunz, tb39, tb11))


def table(det, res=0.1):
    """Exact Tb-radiance table of a band (150 to 360 K)."""
    tb = np.arange(150.0, 360.0, res)
    rad = ref.band_radiance(det["wavelength"] * 1e-6, det["response"], tb)
    return tb, np.asarray(rad, dtype=np.float64)


def lookup(tb, tab, res=0.1):
    """Table value at the step at or below tb; also the neighbour when tb sits on a step boundary."""
    grid, rad = tab
    tb = np.asarray(tb, dtype=np.float64)
    pos = np.nan_to_num((tb - grid[0]) / res)
    lo = np.clip(np.floor(pos - 1e-3), 0, len(rad) - 1).astype(int)
    hi = np.clip(np.floor(pos + 1e-3), 0, len(rad) - 1).astype(int)
    bad = np.isnan(tb)
    return np.where(bad, np.nan, rad[lo]), np.where(bad, np.nan, rad[hi])
