"""P21: infrared limb correction."""
import dask.array as da
import numpy as np

from pyspectral.atm_correction_ir import AtmosphericalCorrection, viewzen_corr
from vp import data, ref
from vp.core import Suite
from vp.sched import random_chunks

SUITE = Suite(
    "P21", "exploration",
    "A case corrects a random 2-D image (plain, masked, lazy; single or double precision) with angles at, around and beyond 0 "
    "and 90 degrees and compares every pixel with the formula; distinct by (shape, container, seed values).",
    needs=["nadir", "off_nadir", "beyond", "negative", "nan_angle", "nan_tb", "masked", "masked_angle", "lazy", "untouched", "single",
           "refusals"],
    assumptions=["Images are two-dimensional floating-point arrays (as documented) of temperatures above 100 K or missing."])


def angles(rng, shape, dtype):
    """View zenith angles, many at the limits."""
    zen = rng.uniform(0, 90, shape).astype(dtype)
    n = zen.size
    pool = np.r_[data.near(rng, 0.0, 4, dtype), data.near(rng, 90.0, 4, dtype), 0.0, -0.0, 90.0, 70.0, 91.0, 180.0, -10.0, np.nan,
                 np.inf, -np.inf, 1e-300, 89.999].astype(dtype)
    pick = rng.random(n) < rng.choice([0.0, 0.3, 0.7])
    zen.flat[pick] = rng.choice(pool, int(pick.sum()))
    return zen


@SUITE.case(quick=2700, thorough=40000)
def image(mon, rng, scratch):
    """One image in every container."""
    shape = [(int(rng.integers(1, 12)), int(rng.integers(1, 12))), (1, int(rng.integers(1, 60))), (0, 3)][
        int(rng.choice([0, 0, 0, 1, 1, 1, 2], p=[.2, .2, .2, .13, .13, .13, .01]))]
    if rng.integers(60) == 0:
        shape = data.large_shape(rng, 2)
    tdt, zdt = [np.float64, np.float32][int(rng.integers(4) == 0)], [np.float64, np.float32][int(rng.integers(4) == 0)]
    tb = rng.uniform(float(rng.choice([100, 175])), 340, shape).astype(tdt)
    tb[rng.random(shape) < rng.choice([0.0, 0.15])] = np.nan
    tb[rng.random(shape) < rng.choice([0.0, 0.0, 0.1])] = 0.0
    zen = angles(rng, shape, zdt)
    tb, zen = data.layout(rng, tb), data.layout(rng, zen)
    want = ref.limb(tb, zen)
    # NaN stays NaN whatever the angle
    rtol = 1e-12 if tdt == zdt == np.float64 else 5e-6
    tb0, zen0 = tb.copy(), zen.copy()
    corr = AtmosphericalCorrection("EOS-Terra", "modis")
    mon.ctx(shape=shape, tdt=str(tdt), zdt=str(zdt))
    with np.errstate(all="ignore"):
        got = corr.get_correction(zen, "ch31", tb)
    mon.check(isinstance(got, np.ndarray) and got.dtype == tb.dtype, "in-memory image gives an in-memory image of the same type",
              got=type(got), dtype=getattr(got, "dtype", None))
    mon.close(got, want, "limb correction formula", rtol=rtol, atol=rtol * 50)
    mon.same(tb, tb0, "the method leaves the image untouched")
    mon.same(zen, zen0, "the method leaves the angles untouched")
    mon.check(got is not tb and not np.shares_memory(got, tb), "the result does not share the caller's memory")
    mon.ev("untouched")
    unchanged = ~((zen >= 0) & (zen < 90))
    mon.same(got[unchanged], tb[unchanged], "unchanged where the angle is negative, 90 or more, or missing")
    ok = np.isfinite(tb)
    mon.ev("nadir", int(np.sum(ok & (zen == 0))))
    mon.ev("off_nadir", int(np.sum(ok & (zen > 0) & (zen < 90))))
    mon.ev("beyond", int(np.sum(ok & (zen >= 90))))
    mon.ev("negative", int(np.sum(ok & (zen < 0))))
    mon.ev("nan_angle", int(np.sum(np.isnan(zen))))
    mon.ev("nan_tb", int(np.sum(~ok)))
    mon.ev("single", int(tdt == np.float32))

    # the in-place function
    work = tb.copy()
    with np.errstate(all="ignore"):
        res = viewzen_corr(work, zen)
    mon.same(res, got, "function and method agree")
    mon.same(work, got, "the function changes its argument in place")
    mon.same(zen, zen0, "the function leaves the angles untouched")

    # masked temperatures
    mask = rng.random(shape) < rng.choice([0.0, 0.3, 1.0])
    full_mask = mask if rng.integers(4) else False
    mtb = np.ma.masked_array(tb.copy(), full_mask)
    mtb0 = mtb.copy()
    with np.errstate(all="ignore"):
        mgot = corr.get_correction(np.ma.masked_array(zen, False) if rng.integers(2) else zen, "ch31", mtb)
    marr = np.ma.getmaskarray(mtb0)
    mon.check(np.ma.isMaskedArray(mgot), "a masked image stays one")
    mon.check(np.all(np.ma.getmaskarray(mgot)[marr]), "masked temperatures stay masked", got=np.ma.getmaskarray(mgot), want=marr)
    # (numpy masks NaN results of a masked computation: missing as well)
    mon.close(np.ma.filled(mgot, np.nan)[~marr], want[~marr], "masked image: limb correction formula", rtol=rtol, atol=rtol * 50)
    mon.same(mtb.data, mtb0.data, "the method leaves the masked image untouched")
    mon.same(np.ma.getmaskarray(mtb), marr, "the method leaves the mask untouched")
    mon.ev("masked", int(marr.sum()))

    # masked angles: nothing is known, nothing is corrected
    zmask = rng.random(shape) < 0.3
    with np.errstate(all="ignore"):
        zgot = corr.get_correction(np.ma.masked_array(zen, zmask), "ch31", tb if rng.integers(2) else np.ma.masked_array(tb))
    mon.close(np.ma.filled(zgot, np.nan), np.where(zmask, tb, want), "unchanged where the angle is masked", rtol=rtol, atol=rtol * 50)
    mon.ev("masked_angle", int(zmask.sum()))

    # lazy, in any mix
    if rng.integers(3) == 0 and tb.size:
        ltb = da.from_array(tb, chunks=random_chunks(rng, shape))
        lzen = da.from_array(zen, chunks=random_chunks(rng, shape))
        which = int(rng.integers(3))
        a, b = [(ltb, lzen), (ltb, zen), (tb, lzen)][which]
        lres = corr.get_correction(b, "ch31", a)
        mon.check(hasattr(lres, "compute"), "lazy input gives a lazy result")
        if tdt == zdt:
            mon.check(lres.dtype == tdt, "a lazy image gives a lazy image of the same type", got=lres.dtype)
        with np.errstate(all="ignore"):
            mon.close(lres.compute(scheduler="synchronous"), want, "lazy image: limb correction formula", rtol=rtol, atol=rtol * 50, which=which)
        mon.same(tb, tb0, "lazy evaluation leaves the image untouched")
        mon.ev("lazy")
    return (shape, str(tdt), str(zdt), float(np.nansum(tb)))


@SUITE.case(quick=72, thorough=72)
def arguments(mon, rng, scratch):
    """Unsupported options are refused, the band and platform do not matter."""
    mon.raises(AttributeError, "an atmosphere type is refused", AtmosphericalCorrection, "Suomi-NPP", "viirs",
               atmosphere=str(rng.choice(["us-standard", "tropical", "anything"])))
    tb = rng.uniform(200, 300, (4, 5))
    zen = angles(rng, (4, 5), np.float64)
    want = ref.limb(tb, zen)
    for plat, instr, band in (("Suomi-NPP", "viirs", "M16"), ("EOS-Aqua", "modis", "31"), ("Nosat", "none", None), ("x", "y", 11.0)):
        got = AtmosphericalCorrection(plat, instr).get_correction(zen, band, tb)
        mon.close(got, want, "limb correction whatever the band", rtol=1e-12)
        got = AtmosphericalCorrection(plat, instr, atmosphere=None).get_correction(zen, band, tb)
        mon.close(got, want, "limb correction whatever the band", rtol=1e-12)
    return (mon.index,)
