"""P26: the precision of the image data is the precision of the result."""
import dask.array as da
import numpy as np
import xarray as xr

from pyspectral.blackbody import blackbody_rad2temp, blackbody_wn_rad2temp
from pyspectral.near_infrared_reflectance import Calculator
from pyspectral.radiance_tb_conversion import RadTbConverter, radiance2tb
from pyspectral.rayleigh import Rayleigh
from vp import data, nir, ref
from vp.core import Suite
from vp.sched import SCHEDULERS, random_chunks, scheduler

SUITE = Suite(
    "P26", "exploration",
    "A case calls one operation with image data in single and in double precision - in memory, chunked or labelled, with the "
    "auxiliary inputs (wavelengths, flux, sun zenith angles, tables, responses) in every other precision - and observes the declared "
    "type, the type of every computed block and the values; distinct by (operation, types, shape, carrier).",
    needs=["single_results", "double_results", "declared_and_computed", "blocks_observed", "values_compared", "other_precision",
           "out_of_range", "labelled"],
    assumptions=["Values are compared where the double-precision operation is well conditioned: Tbs in the middle of a table step, "
                 "zenith angles up to 75 degrees, denominators of the reflectance well above zero.",
                 "Precision classes are float32 and float64."])

TYPES = [np.float32, np.float64]


def _scalar(rng, value):
    """A scalar of some type."""
    return [float, np.float64, np.float32, lambda v: np.array(v), lambda v: np.array(v, dtype=np.float32)][rng.integers(5)](value)


def _carry(mon, rng, arr, labelled=False):
    """In memory, chunked or labelled."""
    kind = str(rng.choice(["numpy", "dask", "dask"] + (["xarray", "xdask"] if labelled else [])))
    if kind == "numpy":
        return arr, kind
    if kind == "xarray":
        mon.ev("labelled")
        return xr.DataArray(arr), kind
    lazy = da.from_array(arr, chunks=random_chunks(rng, arr.shape))
    if kind == "xdask":
        mon.ev("labelled")
        return xr.DataArray(lazy), kind
    return lazy, kind


def _observe(mon, rng, res, dtype, what):
    """Declared and computed types; returns the values."""
    mon.check(res.dtype == np.dtype(dtype), what, declared=str(res.dtype), want=np.dtype(dtype).name)
    if isinstance(res, xr.DataArray):
        res = res.data
    if isinstance(res, da.Array):
        mon.check(res._meta.dtype == res.dtype, "declared types agree", meta=str(res._meta.dtype), declared=str(res.dtype))
        with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
            blocks = [b for b in np.ravel(np.array(res.to_delayed(), dtype=object))]
            first = blocks[int(rng.integers(len(blocks)))].compute()
            got = res.compute()
        mon.check(first.dtype == np.dtype(dtype), "computed blocks have the declared type", got=str(first.dtype), want=np.dtype(dtype).name)
        mon.ev("blocks_observed")
        mon.ev("declared_and_computed")
    else:
        got = np.asarray(res)
    mon.check(got.dtype == np.dtype(dtype), what + " (computed)", got=str(got.dtype), want=np.dtype(dtype).name)
    mon.ev("single_results" if dtype == np.float32 else "double_results")
    return got


def _shape(rng):
    return [(int(rng.integers(1, 9)),), (int(rng.integers(1, 7)), int(rng.integers(1, 7))), (1, 1),
            (2, int(rng.integers(1, 4)), int(rng.integers(1, 4)))][rng.integers(4)]


@SUITE.case(quick=400, thorough=16000)
def inverse_planck(mon, rng, scratch):
    """Radiance to temperature."""
    which = str(rng.choice(["wl", "wn", "r2tb", "wl_kw", "wn_kw"]))
    wave = float(rng.uniform(3e-6, 14e-6))
    shape = _shape(rng)
    temp = rng.uniform(190, 340, shape)
    per_pixel = bool(rng.integers(4) == 0)
    wav = wave * rng.uniform(0.9, 1.1, shape) if per_pixel else wave
    if which.startswith("wn"):
        # radiances in single precision would underflow nowhere here (> 1e-12)
        rad = np.asarray(ref.C2 / np.asarray(wav)**3 / np.expm1(ref.C1 / (wav * temp)), dtype=np.float64)
        arg = 1 / wav
    else:
        rad = np.asarray(ref.C2 / np.asarray(wav)**5 / np.expm1(ref.C1 / (wav * temp)), dtype=np.float64)
        arg = wav
    mon.ctx(which=which, shape=shape, per_pixel=per_pixel)
    if per_pixel:
        arg = np.asarray(arg).astype(TYPES[rng.integers(2)])
    else:
        arg = _scalar(rng, arg)
    mon.ev("other_precision")
    out = {}
    rad32 = rad.astype(np.float32)
    for dtype in TYPES:
        # the same numbers in both precisions
        inp, kind = _carry(mon, rng, rad32.astype(dtype), labelled=len(shape) == 2 and not per_pixel)
        func = {"wl": lambda r: blackbody_rad2temp(arg, r), "wn": lambda r: blackbody_wn_rad2temp(arg, r),
                "r2tb": lambda r: radiance2tb(r, arg), "wl_kw": lambda r: blackbody_rad2temp(wavelength=arg, radiance=r),
                "wn_kw": lambda r: blackbody_wn_rad2temp(wavenumber=arg, radiance=r)}[which]
        mon.ctx(kind=kind)
        out[dtype] = _observe(mon, rng, func(inp), dtype, "temperatures have the precision of the radiances")
    mon.close(out[np.float32], out[np.float64].astype(np.float64), "single-precision temperatures agree with double", rtol=3e-5)
    inv = ref.inv_wn if which.startswith("wn") else ref.inv_wl
    mon.close(out[np.float64], inv(np.asarray(arg).astype(np.float64), rad32), "double-precision temperatures", rtol=1e-11)
    mon.ev("values_compared")
    # scalar radiances of a numpy type
    for dtype in TYPES:
        one = dtype(rad.flat[0])
        w1 = arg.flat[0] if per_pixel else arg
        got = blackbody_wn_rad2temp(w1, one) if which.startswith("wn") else blackbody_rad2temp(w1, one)
        mon.check(np.asarray(got).dtype == np.dtype(dtype), "a scalar keeps its precision", got=str(np.asarray(got).dtype))
    return (which, shape, per_pixel, str(np.asarray(arg).dtype))


def _mid(rng, shape, lo, hi):
    """Tbs in the middle of the 0.1 K steps, the same number in both precisions."""
    return (np.floor(rng.uniform(lo, hi, shape) * 10) / 10 + 0.05).astype(np.float32)


@SUITE.case(quick=160, thorough=6000)
def table(mon, rng, scratch):
    """Table-based radiance."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, n=15)
    conv = RadTbConverter(plat, instr, band)
    conv.make_tb2rad_lut(scratch / "tab.npz")
    lut = conv.read_tb2rad_lut(str(scratch / "tab.npz"))
    lut = {k: np.asarray(lut[k]) for k in ("tb", "radiance")}
    if rng.integers(2):
        lut["radiance"] = lut["radiance"].astype(np.float32)
    mon.ev("other_precision")
    shape = _shape(rng)
    tb = _mid(rng, shape, 160, 350)
    tb.flat[0] = [np.nan, 100.0, 500.0, tb.flat[0]][rng.integers(4)]
    out = {}
    for dtype in TYPES:
        inp, kind = _carry(mon, rng, tb.astype(dtype))
        if tb.size == 1 and kind == "numpy":
            inp, kind = np.repeat(inp, 2, axis=0), "numpy"
        mon.ctx(kind=kind, shape=shape)
        out[dtype] = _observe(mon, rng, conv.tb2radiance(inp, lut=lut)["radiance"], dtype, "radiances have the precision of the Tbs")
        out[dtype] = np.ravel(out[dtype])[:tb.size]
    mon.close(out[np.float32], out[np.float64], "single-precision radiances agree with double", rtol=2e-7)
    mon.ev("values_compared")
    mon.check(lut["radiance"].dtype in (np.float32, np.float64), "table kept")
    return (plat, shape, str(lut["radiance"].dtype))


@SUITE.case(quick=220, thorough=8000)
def nir_reflectance(mon, rng, scratch):
    """3.x reflectance and emissive part."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, n=15)
    shape = [(int(rng.integers(1, 7)), int(rng.integers(2, 7))), (int(rng.integers(2, 9)),)][rng.integers(2)]
    tb11 = _mid(rng, shape, 230, 290)
    tb39 = _mid(rng, shape, 280, 330)
    sunz = rng.uniform(0, 70, shape).astype(np.float32)
    tb39.flat[0] = [np.nan, tb39.flat[0]][rng.integers(2)]
    co2 = (tb11 - np.float32(15)) if rng.integers(2) else None
    flux = None if rng.integers(2) else _scalar(rng, 2.25)
    if flux is not None and isinstance(flux, np.ndarray):
        flux = flux[()]
    limit = [85.0, None, np.float32(88.0)][rng.integers(3)]
    kw = {} if limit == 85.0 and rng.integers(2) else {"masking_limit": limit}
    calc = Calculator(plat, instr, band, solar_flux=flux, **kw)
    mon.ctx(co2=co2 is not None, flux=str(type(flux)), limit=limit, shape=shape)
    out = {}
    for dtype in TYPES:
        zt, ct = TYPES[rng.integers(2)], TYPES[rng.integers(2)]
        mon.ev("other_precision", int(zt != dtype))
        lazy = bool(rng.integers(2))

        def put(arr):
            return da.from_array(arr, chunks=random_chunks(rng, arr.shape)) if lazy else arr
        extra = {} if co2 is None else {"tb_ir_co2": put(co2.astype(ct))}
        res = calc.reflectance_from_tbs(put(sunz.astype(zt)), put(tb39.astype(dtype)), put(tb11.astype(dtype)), **extra)
        mon.ctx(lazy=lazy, sunz=zt.__name__, co2_type=ct.__name__)
        out[dtype] = _observe(mon, rng, res, dtype, "reflectances have the precision of the Tbs")
        for tb in (False, True):
            em = calc.emissive_part_3x(tb=tb)
            out[dtype, tb] = _observe(mon, rng, em, dtype, "the emissive part has the precision of the Tbs")
    s, d = out[np.float32], out[np.float64]
    mon.check(np.array_equal(np.isnan(s), np.isnan(d)), "the same pixels are missing in both precisions")
    # |error| of (a-b)/(c-b) in single precision; c-b is bounded below by the sun at 70 degrees over a 290 K surface
    mon.close(s, d, "single-precision reflectances agree with double", rtol=1e-4, atol=2e-5)
    mon.close(out[np.float32, True], out[np.float64, True], "single-precision emissive temperatures agree with double", rtol=1e-4)
    mon.ev("values_compared")
    return (plat, shape, co2 is not None, str(type(flux)), str(limit))


@SUITE.case(quick=220, thorough=8000)
def rayleigh(mon, rng, scratch):
    """Rayleigh reflectance."""
    data.use_config(scratch)
    lut = data.rayleigh_lut(rng)
    lt = str(rng.choice(["f4", "f8"]))
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5",
                            {k: v.astype(lt) for k, v in lut.items()})
    dets = data.make_band(rng, 0.64, 0.05)
    data.write_rsr(scratch / "rsr" / "rsr_abi_GOES-16.h5", {"ch2": dets}, platform_name="GOES-16", sensor="abi",
                   dtype=str(rng.choice(["f4", "f8"])))
    ray = Rayleigh("GOES-16", "abi")
    band = [lambda: "ch2", lambda: 0.55, lambda: np.float64(0.55), lambda: np.float32(0.55), lambda: 0.91][rng.integers(5)]()
    shape = (int(rng.integers(1, 7)), int(rng.integers(1, 7)))
    sunz = rng.uniform(0, 75, shape).astype(np.float32)
    satz = rng.uniform(0, 70, shape).astype(np.float32)
    azi = rng.uniform(0, 180, shape).astype(np.float32)
    red = rng.uniform(0, 110, shape).astype(np.float32) if rng.integers(2) else None
    outside = not isinstance(band, str) and band > 0.8
    mon.ctx(band=str(band), lut=lt, red=red is not None, shape=shape)
    out = {}
    for dtype in TYPES:
        # the red band is the image data, else the angles are
        at = TYPES[rng.integers(2)] if red is not None else dtype
        mon.ev("other_precision", int(at != dtype))
        lazy = bool(rng.integers(2))

        def put(arr):
            return da.from_array(arr, chunks=random_chunks(rng, arr.shape)) if lazy else arr
        res = ray.get_reflectance(put(sunz.astype(at)), put(satz.astype(at)), put(azi.astype(at)), band,
                                  *([put(red.astype(dtype))] if red is not None else []))
        mon.ctx(lazy=lazy, angles=at.__name__)
        out[dtype] = _observe(mon, rng, res, dtype, "the reflectance has the precision of the image data")
    mon.close(out[np.float32], out[np.float64], "single-precision reflectance agrees with double", rtol=1e-4, atol=2e-3)
    mon.ev("values_compared")
    mon.ev("out_of_range", int(outside))
    return (str(band), lt, shape, red is not None)
