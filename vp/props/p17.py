"""P17: bounds, relaxation and high-zenith reduction of the Rayleigh correction."""
import dask.array as da
import numpy as np

from pyspectral.rayleigh import Rayleigh
from vp import data, ref
from vp.core import Suite
from vp.props.p16 import angles, expected, random_lut
from vp.sched import random_chunks

SUITE = Suite(
    "P17", "exploration",
    "A case uses a random table (in a third of the cases with values beyond 0-100 %), bands inside, at and outside the "
    "table range and red-band reflectances at and around 20 and 100 %, or random high-zenith reductions, and checks "
    "bounds, relaxation factor and zeros pixel by pixel; distinct by (table, band, options).",
    needs=["bounded_pixels", "clipped_pixels", "out_of_range", "relaxed_pixels", "unrelaxed_pixels", "fully_relaxed",
           "zenith_reduced", "zenith_untouched", "range_ends", "missing_red"])


def _red(rng, shape, dtype="f8"):
    n = int(np.prod(shape))
    red = rng.uniform(-5, 130, n)
    for i in rng.integers(0, n, int(rng.integers(0, n + 1))):
        red[i] = rng.choice([20.0, 100.0, 0.0, 60.0, np.nextafter(20.0, 0), np.nextafter(20.0, 30), np.nextafter(100.0, 0), 101.0,
                             1e4, -3.0, 19.0, 21.0])
    if rng.integers(2):
        red[rng.integers(n)] = np.nan
    return red.reshape(shape).astype(dtype)


@SUITE.case(quick=480, thorough=8000)
def relaxation(mon, rng, scratch):
    """Bounds and relaxation, with in-memory and lazy input."""
    data.use_config(scratch)
    lut = random_lut(rng)
    wild = bool(rng.integers(3) == 0)
    if wild:
        lut["reflectance"] = lut["reflectance"] * 4 - 1
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
    bands = {"in": data.make_band(rng, float(rng.uniform(0.45, 0.75)), 0.04), "nir": data.make_band(rng, 0.86, 0.03),
             "uv": data.make_band(rng, 0.36, 0.03), "ir": data.make_band(rng, 10.8, 1.0)}
    data.write_rsr(scratch / "rsr" / data.rsr_name("Newsat-1", "newinstr"), bands, platform_name="Newsat-1")
    ray = Rayleigh("Newsat-1", "newinstr")
    shape = [(int(rng.integers(1, 9)), int(rng.integers(1, 9))), (int(rng.integers(1, 30)),)][rng.integers(2)]
    if rng.integers(60) == 0:
        shape = data.large_shape(rng, None, 20000)
    sunz, satz, azi = (data.layout(rng, a) for a in angles(rng, shape, lut))
    red = data.layout(rng, _red(rng, shape))
    w = bands["in"]["det-1"]["wavelength"]
    wvl = float(ref.central(w, bands["in"]["det-1"]["response"], 1.0 / w.astype(np.longdouble) ** 4)) * 1000
    raw = expected(lut, wvl, sunz, satz, azi)
    mon.ctx(shape=shape, wild=wild, wvl=wvl)

    def call(*a):
        if rng.integers(4) == 0:
            a = tuple(x if not isinstance(x, np.ndarray) else da.from_array(x, chunks=random_chunks(rng, x.shape)) for x in a)
        res = ray.get_reflectance(*a)
        return np.asarray(res)

    plain = call(sunz, satz, azi, "in")
    mon.check(np.all((plain >= 0) & (plain <= 100)), "reflectance is between 0 and 100 %", got=plain)
    mon.close(plain, np.clip(raw, 0, 100), "reflectance, bounded", rtol=2e-6, atol=3e-5 * np.abs(lut["reflectance"]).max())
    mon.ev("bounded_pixels", plain.size)
    mon.ev("clipped_pixels", int(np.sum((raw < 0) | (raw > 100))))
    relaxed = call(sunz, satz, azi, "in", red)
    miss = np.isnan(red)
    mon.check(np.array_equal(np.isnan(relaxed), miss), "missing exactly where the red band is", got=relaxed, red=red)
    mon.ev("missing_red", int(miss.sum()))
    mon.check(np.all(((relaxed >= 0) & (relaxed <= 100)) | miss), "relaxed reflectance is between 0 and 100 %", got=relaxed)
    factor = np.where(red < 20, 1.0, np.clip(1 - (red - 20) / 80, 0, 1))
    if not wild:
        mon.close(relaxed, plain * factor, "relaxed linearly over bright scenes", rtol=1e-6, atol=1e-9, red=red)
    mon.close(relaxed[red < 20], plain[red < 20], "unchanged where the red band is below 20 %", rtol=1e-9)
    if not wild:
        mon.check(np.all(relaxed[red >= 100] == 0), "no correction at and beyond 100 %", got=relaxed[red >= 100])
        mon.check(np.all((relaxed <= plain * (1 + 1e-9) + 1e-12) | miss), "never larger than without the red band")
    mon.ev("unrelaxed_pixels", int(np.sum(red < 20)))
    mon.ev("relaxed_pixels", int(np.sum((red >= 20) & (red < 100))))
    mon.ev("fully_relaxed", int(np.sum(red >= 100)))
    # outside the table range: zeros of the same shape
    lo, hi = lut["wavelengths"][0] / 1000, lut["wavelengths"][-1] / 1000
    for band in ("nir", "uv", "ir", 0.39, 0.9, 3.7, float(lo), float(hi), float(np.nextafter(hi, 9)), 0.4, 0.8):
        for r in ((), (red,)):
            got = call(sunz, satz, azi, band, *r)
            mon.check(got.shape == shape and np.all((got == 0) | (np.isnan(got) & miss & bool(r))), "zero outside the range of the table", band=band, got=got,
                      red=bool(r))
            mon.ev("out_of_range")
            if band in (0.4, 0.8):
                mon.ev("range_ends")
    inside = float(rng.choice([0.4 + 1e-6, 0.8 - 1e-6]))
    got = call(sunz, satz, azi, inside)
    mon.close(got, np.clip(expected(lut, inside * 1000, sunz, satz, azi), 0, 100), "just inside the range is interpolated",
              rtol=2e-6, atol=3e-5 * np.abs(lut["reflectance"]).max(), band=inside)
    return (wild, shape, wvl)


@SUITE.case(quick=600, thorough=12000)
def highzenith(mon, rng, scratch):
    """Reduction at high zenith angles."""
    shape = [(int(rng.integers(1, 9)), int(rng.integers(1, 9))), (int(rng.integers(1, 30)),)][rng.integers(2)]
    thr = float(rng.choice([70.0, 60.0, 75.5, 0.0, 88.0]))
    mx = float(thr + rng.choice([2.0, 15.0, 20.0, 30.0]))
    strength = float(rng.choice([0.0, 0.3, 0.6, 1.0, 1.5, rng.uniform(0, 1)]))
    zen = rng.uniform(-5, 120, shape)
    for i in rng.integers(0, zen.size, int(rng.integers(0, zen.size + 1))):
        zen.flat[i] = rng.choice([thr, mx, np.nextafter(thr, 0), np.nextafter(thr, 99), (thr + mx) / 2, 90.0, 0.0])
    ray = rng.uniform(0, 80, shape)
    z0, r0 = zen.copy(), ray.copy()
    args = (zen, ray, thr, mx, strength)
    if rng.integers(3) == 0:
        args = (da.from_array(zen, chunks=random_chunks(rng, shape)),) + args[1:]
        args = (args[0], da.from_array(ray, chunks=random_chunks(rng, shape))) + args[2:]
    mon.ctx(thr=thr, mx=mx, strength=strength)
    obj = Rayleigh.reduce_rayleigh_highzenith
    got = np.asarray(obj(*args))
    factor = np.where(zen < thr, 1.0, np.clip(1 - strength * (zen - thr) / (mx - thr), 0, 1))
    mon.close(got, ray * factor, "linear reduction above the threshold angle", rtol=1e-9, atol=1e-12)
    mon.check(np.array_equal(got[zen < thr], ray[zen < thr]), "unchanged below the threshold angle")
    mon.close(got[zen == mx], ray[zen == mx] * max(0.0, 1 - strength), "(1 - strength) at the maximum angle", rtol=1e-9, atol=1e-12)
    mon.check(np.all(got >= 0) and np.all(got <= ray * (1 + 1e-15)), "never increased, never negative", got=got)
    mon.same(zen, z0, "input untouched")
    mon.same(ray, r0, "input untouched")
    mon.ev("zenith_reduced", int(np.sum(zen >= thr)))
    mon.ev("zenith_untouched", int(np.sum(zen < thr)))
    return (thr, mx, strength, shape)
