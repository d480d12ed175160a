"""P14: near-infrared reflectance."""

import dask.array as da
import numpy as np

from pyspectral.near_infrared_reflectance import Calculator
from vp import data, nir, ref
from vp.core import Suite
from vp.sched import SCHEDULERS, random_chunks, scheduler

SUITE = Suite(
    "P14", "exploration",
    "A case creates a calculator for a random platform, band, detector, solar flux, sun-zenith threshold and masking "
    "limit and makes several reflectance calls with scenes of day, twilight, night, missing and extreme pixels, in "
    "random containers, with and without the CO2 channel, comparing every pixel and its mask with the formula evaluated "
    "from extended-precision tables; distinct by (platform, detector, options, call kinds).",
    needs=["pixels", "large_calls", "valid_pixels", "masked_sun", "masked_nan", "masked_denominator", "co2_calls", "plain_calls",
           "masked_arrays", "scalars", "lazy_calls", "given_flux", "computed_flux", "second_detector", "given_tables",
           "exact_radiances"],
    assumptions=["A temperature within rounding of a table step may use either neighbouring table value, and a pixel "
                 "within rounding of a limit may fall on either side."])

SPEC = ref.solar_spectrum()
EPS = 0.005


def expected(det, flux, thr, limit, sunz, tb39, tb11, co2=None, tab=None):
    """Return list of acceptable (reflectance, denominator) alternatives per pixel and the sure/possible masks."""
    tab = tab or nir.table(det)
    integ = float(ref.trapz(det["response"], det["wavelength"] * 1e-6))
    alts = []
    mu0 = np.cos(np.deg2rad(np.clip(sunz, 0, thr)))
    solar = flux * mu0 / np.pi
    corr = 1.0 if co2 is None else (tb11 - 0.25 * (tb11 - co2)) ** 4 / tb11 ** 4
    for l39 in nir.lookup(tb39, tab):
        for l11 in nir.lookup(tb11, tab):
            therm = l11 * integ * corr
            with np.errstate(all="ignore"):
                alts.append(((l39 * integ - therm) / (solar - therm), solar - therm))
    return alts


def verdict(mon, got, alts, limit, sunz, tb39, single, **what):
    """Compare a reflectance field with the alternatives."""
    got = np.asarray(got, dtype="f8")
    mon.check(got.shape == np.broadcast(sunz, tb39).shape, "shape of the reflectance", got=got.shape, want=tb39.shape, **what)
    sunz = np.broadcast_to(sunz, got.shape)
    ok = np.zeros(got.shape, dtype=bool)
    rel, tiny = (2e-3, 2e-5) if single else (1e-8, 1e-10)
    for r, den in alts:
        with np.errstate(invalid="ignore"):
            sun = np.zeros(got.shape, dtype=bool) if limit is None else (sunz < 0) | (sunz > limit)
            bad = sun | np.isnan(tb39) | np.isnan(r) | (den < EPS)
            border = np.abs(den - EPS) < tiny * 10
            near = np.abs(got - r) <= rel * np.maximum(np.abs(r), tiny / np.maximum(np.abs(den), EPS))
            near |= np.abs(got - r) <= rel * 1e-2 / np.maximum(np.abs(den), EPS)
        ok |= np.where(bad, np.isnan(got), near) | (border & (np.isnan(got) | near))
    r, den = alts[0]
    with np.errstate(invalid="ignore"):
        sun = np.zeros(got.shape, dtype=bool) if limit is None else (sunz < 0) | (sunz > limit)
        mon.ev("masked_sun", int(sun.sum()))
        mon.ev("masked_denominator", int(np.sum(den < EPS)))
    mon.ev("masked_nan", int(np.sum(np.isnan(tb39) | np.isnan(r))))
    mon.ev("valid_pixels", int(np.sum(~np.isnan(got))))
    mon.ev("pixels", got.size)
    if not np.all(ok):
        idx = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.shape else ()
        mon.check(False, "reflectance (or its absence) of a pixel", got=got[idx], want=[float(a[0][idx]) for a in alts],
                  denom=float(den[idx]), sunz=float(sunz[idx]), tb39=float(np.asarray(tb39)[idx]), n_bad=int(np.sum(~ok)),
                  index=str(idx), **what)
    mon.check(True, "reflectance (or its absence) of a pixel")


def _containers(rng, mon, kind, arrs):
    """Wrap (sunz, tb39, tb11[, co2]) and return what the call gets and the values it must see."""
    vals = [a.astype("f8") for a in arrs]
    if kind == "array":
        return [data.layout(rng, a) for a in arrs], vals
    if kind == "masked":
        out = []
        for i, a in enumerate(arrs):
            if i in (1, 2) or rng.integers(2):
                m = rng.integers(0, 4, a.shape) == 0
                raw = a.copy()
                raw[m] = rng.choice([-999.0, 0.0, 300.0, np.nan])
                out.append(np.ma.masked_array(raw, mask=m))
                vals[i] = np.where(m, np.nan, a.astype("f8"))
            else:
                out.append(a)
        mon.ev("masked_arrays")
        return out, vals
    if kind == "onemasked":
        i = int(rng.integers(1, 3))
        m = rng.integers(0, 3, arrs[i].shape) == 0
        out = list(arrs)
        out[i] = np.ma.masked_array(arrs[i], mask=m)
        vals[i] = np.where(m, np.nan, vals[i])
        mon.ev("masked_arrays")
        return out, vals
    if kind == "lazy":
        ch = random_chunks(rng, arrs[0].shape)
        mon.ev("lazy_calls")
        return [da.from_array(a, chunks=ch if rng.integers(2) else random_chunks(rng, a.shape)) for a in arrs], vals
    if kind == "list":
        return [a.tolist() for a in arrs], vals
    if kind == "int":
        ints = [np.round(np.nan_to_num(a, nan=200.0)).astype(int) for a in arrs]
        return ints, [a.astype("f8") for a in ints]
    raise ValueError(kind)


@SUITE.case(quick=520, thorough=9000)
def reflectance(mon, rng, scratch):
    """Formula and masking, pixel by pixel, over histories of calls."""
    data.use_config(scratch)
    ndet = int(rng.choice([1, 1, 2, 3, 12]))
    plat, instr, band, dets = nir.setup(rng, scratch, ndet=ndet, n=int(rng.integers(12, 60)),
                                        kind=str(rng.choice(["gauss", "ramp", "skewed", "multipeak"])))
    dname = str(rng.choice(list(dets)[-3:] if ndet > 9 else list(dets)))
    det = dets[dname]
    given = None if rng.integers(2) else float(rng.choice([2.0029281634299041, 1.5, 16.0, 0.8, 0.0]))
    thr = float(rng.choice([85.0, 85.0, 80.0, 90.0, 60.0]))
    limit = [85.0, 85.0, 88.0, None, 70.0, 95.0, 0.0, 85, 1][rng.integers(9)]
    kw = {}
    if dname != "det-1" or rng.integers(2):
        kw["detector"] = dname
    if given is not None or rng.integers(2):
        kw["solar_flux"] = given
    if thr != 85.0 or rng.integers(2):
        kw["sunz_threshold"] = thr
    if limit != 85.0 or rng.integers(2):
        kw["masking_limit"] = limit
    sel = band if rng.integers(3) else [float, np.float64, np.float32][rng.integers(3)](dets["det-1"]["central_wavelength"])
    mon.ctx(platform=plat, instrument=instr, band=band, selector=sel, kw=kw)
    calc = Calculator(plat, instr, sel, **kw)
    if dname != "det-1":
        mon.ev("second_detector")
    if given is None:
        want, tol = ref.solar_flux(*SPEC, det["wavelength"], det["response"], 0.0005)
        mon.check(abs(calc.solar_flux - want) <= tol, "solar flux of the band and detector", got=calc.solar_flux, want=want,
                  tol=tol)
        flux = float(calc.solar_flux)
        mon.ev("computed_flux")
    else:
        mon.check(calc.solar_flux == given, "given solar flux", got=calc.solar_flux)
        flux = given
        mon.ev("given_flux")
    tab = nir.table(det)
    kinds = []
    for _ in range(int(rng.integers(1, 5))):
        kind = str(rng.choice(["array", "array", "masked", "onemasked", "lazy", "list", "int", "scalar", "flat", "sunscalar",
                               "f4"]))
        shape = (int(rng.integers(1, 7)), int(rng.integers(1, 9)))
        if kind in ("array", "lazy", "f4") and rng.integers(40) == 0:
            shape = data.large_shape(rng, 2)
            mon.ev("large_calls")
        dt = "f4" if kind == "f4" else "f8"
        if kind in ("flat", "list"):
            shape = (shape[1],)
        sunz, tb39, tb11 = nir.scene(rng, shape, dt)
        use_co2 = bool(rng.integers(2))
        co2 = (tb11 - rng.uniform(0, 40, shape)).astype(dt)
        if use_co2 and rng.integers(3) == 0:
            co2.flat[rng.integers(co2.size)] = np.nan
        arrs = [sunz, tb39, tb11] + ([co2] if use_co2 else [])
        mon.ctx(kind=kind, shape=shape, co2=use_co2, calls=kinds)
        if kind == "scalar":
            args = [float(a.flat[0]) for a in arrs]
            vals = [np.array([x]) for x in args]
            mon.ev("scalars")
        elif kind == "sunscalar":
            s = float(rng.choice([30.0, 84.0, 86.0, 0.0]))
            args = [s] + arrs[1:]
            vals = [np.full(shape, s)] + [a.astype("f8") for a in arrs[1:]]
            mon.ev("scalars")
        elif kind in ("flat", "f4"):
            args, vals = list(arrs), [a.astype("f8") for a in arrs]
        else:
            args, vals = _containers(rng, mon, kind, arrs)
        if use_co2:
            res = calc.reflectance_from_tbs(args[0], args[1], args[2], tb_ir_co2=args[3])
            mon.ev("co2_calls")
        else:
            res = calc.reflectance_from_tbs(*args) if rng.integers(2) else \
                calc.reflectance_from_tbs(*args, tb_ir_co2=None)
            mon.ev("plain_calls")
        if kind in ("masked", "onemasked"):
            mon.check(np.ma.isMaskedArray(res), "masked input gives a masked reflectance", got=type(res))
            mask = np.ma.getmaskarray(res)
            raw = np.ma.filled(res.astype("f8"), np.nan)
            mon.check(not np.any(np.isnan(np.asarray(res.data)[~mask])), "missing pixels of masked input are masked")
            got = raw
        elif kind == "lazy":
            with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
                got = res.compute()
        else:
            mon.check(isinstance(res, np.ndarray) and not np.ma.isMaskedArray(res),
                      "plain input gives a plain reflectance", got=type(res))
            got = res
        alts = expected(det, flux, thr, limit, *vals[:3], co2=vals[3] if use_co2 else None, tab=tab)
        verdict(mon, got, alts, limit, vals[0], vals[1], dt == "f4", kind=kind, co2=use_co2)
        kinds.append((kind, use_co2))
    return (plat, dname, repr(given), thr, limit, tuple(kinds))


@SUITE.case(quick=160, thorough=2000)
def limits(mon, rng, scratch):
    """Pixels at, just below and just above the limits; pixels do not influence each other."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, n=30, kind="gauss")
    det = dets["det-1"]
    limit = float(rng.choice([85.0, 88.0, 70.5, 80.0]))
    thr = float(rng.choice([85.0, 75.0]))
    flux = float(rng.choice([2.0, 16.0]))
    calc = Calculator(plat, instr, band, solar_flux=flux, masking_limit=limit, sunz_threshold=thr)
    sunz = np.concatenate([data.near(rng, limit, 12), data.near(rng, 0.0, 8), data.near(rng, thr, 8), [-1e-12, -0.0, 90.0, 180.0]])
    n = sunz.size
    tb39 = rng.uniform(270, 330, n)
    tb11 = rng.uniform(220, 290, n)
    got = calc.reflectance_from_tbs(sunz, tb39, tb11)
    alts = expected(det, flux, thr, limit, sunz, tb39, tb11)
    verdict(mon, got, alts, limit, sunz, tb39, False)
    miss = (sunz < 0) | (sunz > limit)
    mon.check(np.all(np.isnan(got[miss])), "beyond the limits is missing, however close", sunz=sunz[miss][np.isfinite(got[miss])])
    mon.check(np.all(np.isfinite(got[~miss & (alts[0][1] > 0.01)])), "at the limits is not missing")
    # permuted, and each on its own
    perm = rng.permutation(n)
    got2 = calc.reflectance_from_tbs(sunz[perm], tb39[perm], tb11[perm])
    mon.close(got2, got[perm], "a pixel does not depend on its position or neighbours", rtol=1e-12)
    i = int(rng.integers(n))
    got3 = calc.reflectance_from_tbs(sunz[i:i + 1], tb39[i:i + 1], tb11[i:i + 1])
    mon.close(got3[0], got[i], "a pixel on its own", rtol=1e-12)
    return (plat, limit, thr, flux, float(tb39[0]))


@SUITE.case(quick=120, thorough=2000)
def given_table(mon, rng, scratch):
    """A table given with the call, none at all, and the calculator's own again."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, n=20, kind="gauss")
    det = dets["det-1"]
    flux = float(rng.choice([2.0, 16.0]))
    calc = Calculator(plat, instr, band, solar_flux=flux)
    n = int(rng.integers(1, 12))
    sunz, tb39, tb11 = nir.scene(rng, (n,))
    own = nir.table(det)
    hist = []
    for _ in range(int(rng.integers(3, 7))):
        how = str(rng.choice(["own", "none", "given"]))
        hist.append(how)
        mon.ctx(history=hist, platform=plat)
        if how == "own":
            got, tab = calc.reflectance_from_tbs(sunz, tb39, tb11), own
        elif how == "given":
            fac = float(rng.uniform(0.7, 1.3))
            tab = (own[0], own[1] * fac)
            if rng.integers(2):
                k0 = int(rng.choice([300, 500, 720]))      # a table which starts elsewhere
                tab = (150.0 + k0 / 10 + 0.1 * np.arange(own[0].size - k0), tab[1][k0:])
            lut = {"tb": tab[0].copy(), "radiance": tab[1].copy()}
            got = calc.reflectance_from_tbs(sunz, tb39, tb11, lut=lut)
            mon.ev("given_tables")
        else:
            got, tab = calc.reflectance_from_tbs(sunz, tb39, tb11, lut=None), None
            mon.ev("exact_radiances")
        if tab is not None:
            verdict(mon, got, expected(det, flux, 85.0, 85.0, sunz, tb39, tb11, tab=tab), 85.0, sunz, tb39, False, how=how)
            continue
        integ = float(ref.trapz(det["response"], det["wavelength"] * 1e-6))
        l39, l11 = (np.asarray(ref.band_radiance(det["wavelength"] * 1e-6, det["response"], t), "f8") * integ
                    for t in (tb39, tb11))
        solar = flux * np.cos(np.deg2rad(np.clip(sunz, 0, 85.0))) / np.pi
        with np.errstate(all="ignore"):
            alts = [((l39 - l11) / (solar - l11), solar - l11)]
        verdict(mon, got, alts, 85.0, sunz, tb39, False, how=how)
    return (plat, tuple(hist), flux, float(tb39[0]))


@SUITE.case(quick=120, thorough=1000)
def refused(mon, rng, scratch):
    """What cannot be computed is refused."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, n=15)
    calc = Calculator(plat, instr, band, solar_flux=2.0)
    mon.raises(ValueError, "images of different shape are refused", calc.reflectance_from_tbs, np.full((3, 4), 20.0),
               np.full((3, 4), 300.0), np.full((4, 3), 290.0))
    mon.raises(ValueError, "images of different size are refused", calc.reflectance_from_tbs, np.full(4, 20.0),
               np.full(4, 300.0), np.full(5, 290.0))
    for one, two in (((1, 4), (4,)), ((4, 1), (4,)), ((4,), (1, 4)), ((2, 2), (4,)), ((1,), (4,)), ((3, 4), (4,))):
        mon.ctx(shapes=(one, two))
        mon.raises(ValueError, "images of different shape are refused also where they broadcast", calc.reflectance_from_tbs,
                   np.full(one, 20.0), np.full(one, 300.0), np.full(two, 290.0))
    mon.raises(NotImplementedError, "a thermal band is refused", Calculator, plat, instr, "other")
    mon.raises(Exception, "an unknown band is refused", Calculator, plat, instr, "nothing")
    for bad in (3.4, 4.0, 10.8, 0.6):
        mon.raises(Exception, "a wavelength outside 3.5-3.95 micrometre is refused", Calculator, plat, instr, bad)
    mon.raises(AttributeError, "an unknown CO2 correction is refused", calc.derive_rad39_corr, np.array([280.]),
               np.array([260.]), method="other")
    return plat
