"""P03: chunked, lazy evaluation is transparent."""
import dask
import dask.array as da
import numpy as np
import xarray as xr

from pyspectral.atm_correction_ir import AtmosphericalCorrection, viewzen_corr
from pyspectral.blackbody import blackbody, blackbody_rad2temp, blackbody_wn, blackbody_wn_rad2temp
from pyspectral.near_infrared_reflectance import Calculator
from pyspectral.radiance_tb_conversion import RadTbConverter, radiance2tb
from pyspectral.rayleigh import Rayleigh
from vp import data, nir
from vp.core import Suite
from vp.props import p16
from vp.sched import SCHEDULERS, ComputedEarly, Touch, lazy, no_compute, random_chunks, scheduler

SUITE = Suite(
    "P03", "exploration",
    "A case evaluates one operation on in-memory input and on the same input in a random chunk layout (each "
    "argument in its own layout in half of the cases), building the graph under a scheduler that refuses to compute "
    "and over blocks that report being touched, then computing with a synchronous, threaded or order-shuffling "
    "scheduler, also several results of the same input in one graph; distinct by (operation, layouts, scheduler, dtype).",
    needs=["large_arrays", "three_dimensions", "graphs_built_untouched", "blocks_touched_at_compute", "dask_tasks_observed", "xarray_calls", "wave_arrays", "computed_together"],
    assumptions=["Blockwise and whole-array evaluation may differ by the last-bit behaviour of vectorised "
                 "transcendental functions: relative tolerance 1e-12 (1e-5 in single precision)."])


def _shape(rng, mon=None):
    if rng.integers(25) == 0:
        if mon is not None:
            mon.ev("large_arrays")
        return data.large_shape(rng, 2, 70000)
    return (int(rng.integers(1, 9)), int(rng.integers(1, 11)))


def _lazy_args(rng, arrs, same):
    touch = Touch()
    base = random_chunks(rng, arrs[0].shape)
    layouts, out = [], []
    for arr in arrs:
        ch = base if same else random_chunks(rng, arr.shape)
        layouts.append(ch)
        out.append(lazy(arr, ch, touch))
    return out, layouts, touch


def _evaluate(mon, rng, name, func, arrs, want, rtol, atol=0.0, same=None, unpack=lambda r: r):
    """Build lazily under observation, compute under a scheduler, compare."""
    same = bool(rng.integers(2)) if same is None else same
    args, layouts, touch = _lazy_args(rng, arrs, same)
    mon.ctx(operation=name, layouts=layouts)
    early = None
    try:
        with no_compute():
            res = unpack(func(*args))
    except ComputedEarly as err:
        early = err
    mon.check(early is None, f"{name}: building on lazy input computes nothing")
    mon.check(touch.count == 0, f"{name}: building on lazy input touches no data", touched=touch.count)
    mon.check(isinstance(res, da.Array), f"{name}: lazy input gives a lazy result", got=type(res))
    mon.ev("graphs_built_untouched")
    mon.check(res.shape == want.shape, f"{name}: shape of the lazy result", got=res.shape, want=want.shape)
    mon.check(res.dtype == want.dtype, f"{name}: declared type of the lazy result", got=res.dtype, want=want.dtype)
    kind = str(rng.choice(SCHEDULERS))
    with scheduler(kind, int(rng.integers(1 << 30)), mon):
        got = res.compute()
    mon.ev("blocks_touched_at_compute", touch.count)
    mon.check(touch.count > 0, f"{name}: the data are used when computed")
    mon.check(isinstance(got, np.ndarray), f"{name}: computed type", got=type(got))
    mon.close(got, want, f"{name}: values are those of the in-memory evaluation", rtol=rtol, atol=atol)
    if want.size > 1:
        part = res[:, -1:] if res.ndim == 2 else res[-1:]
        with scheduler("sync", 0, mon):
            gp = part.compute()
        mon.close(gp, want[:, -1:] if want.ndim == 2 else want[-1:], f"{name}: a computed part is that part",
                  rtol=rtol, atol=atol)
    mon.seen("layouts", layouts)
    return (name, repr(layouts), kind, str(want.dtype))


@SUITE.case(quick=220, thorough=6000)
def inverse_planck(mon, rng, scratch):
    """Radiance to temperature."""
    dt = rng.choice(["f8", "f4"])
    shape = _shape(rng, mon) if rng.integers(3) else (int(rng.integers(1, 20)),)
    if rng.integers(6) == 0:
        shape = (int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 6)))
        mon.ev("three_dimensions")
    t = rng.uniform(190, 340, shape)
    which = str(rng.choice(["wl", "wn", "r2tb"]))
    wave = float(rng.uniform(3e-6, 14e-6))
    if which == "wn":
        rad = blackbody_wn(1 / wave, t).reshape(shape)
        func = lambda r: blackbody_wn_rad2temp(1 / wave, r)  # noqa: E731
    else:
        rad = blackbody(wave, t).reshape(shape)
        func = (lambda r: blackbody_rad2temp(wave, r)) if which == "wl" else (lambda r: radiance2tb(r, wave))
    rad = rad.astype(dt)
    for val in (np.nan, -1.0, 0.0):
        if rng.integers(2):
            rad.flat[rng.integers(rad.size)] = val
    if rng.integers(3) == 0:
        # one wavelength per pixel, per column or per row
        waves = wave * rng.uniform(0.8, 1.2, shape)
        pick = int(rng.integers(3))
        if len(shape) > 1 and pick:
            waves = waves[..., :1] if pick == 1 else waves[(0,) * (len(shape) - 1)]
        mon.ev("wave_arrays")
        func = {"wl": lambda r: blackbody_rad2temp(waves, r), "wn": lambda r: blackbody_wn_rad2temp(1 / waves, r),
                "r2tb": lambda r: radiance2tb(r, waves)}[which]
    want = func(rad)
    mon.check(isinstance(want, np.ndarray), "in-memory radiance gives an in-memory temperature")
    return _evaluate(mon, rng, which, func, [rad], want, 1e-5 if dt == "f4" else 1e-12)


@SUITE.case(quick=120, thorough=3000)
def labelled(mon, rng, scratch):
    """Labelled radiances keep their labels, lazily."""
    shape = _shape(rng)
    which = str(rng.choice(["wl", "wn", "r2tb"]))
    wave = float(rng.uniform(3e-6, 14e-6))
    t = rng.uniform(190, 340, shape)
    rad = (blackbody_wn(1 / wave, t) if which == "wn" else blackbody(wave, t)).reshape(shape)
    func = {"wl": lambda r: blackbody_rad2temp(wave, r), "wn": lambda r: blackbody_wn_rad2temp(1 / wave, r),
            "r2tb": lambda r: radiance2tb(r, wave)}[which]
    want = func(rad)
    coords = {"y": np.arange(shape[0]) * 3.0, "x": np.arange(shape[1])[::-1] * 2.0,
              "lon": (("y", "x"), rng.uniform(0, 10, shape))}
    attrs = {"units": "W", "nested": {"a": [1, 2]}, "n": 4}
    touch = Touch()
    chunked = bool(rng.integers(4))
    payload = lazy(rad, random_chunks(rng, shape), touch) if chunked else rad
    arr = xr.DataArray(payload, dims=("y", "x"), coords=coords, attrs=attrs, name="rad")
    mon.ctx(which=which, chunked=chunked)
    early = None
    try:
        with no_compute():
            res = func(arr)
    except ComputedEarly as err:
        early = err
    mon.check(early is None and touch.count == 0, "labelled lazy radiance is not computed")
    mon.check(isinstance(res, xr.DataArray), "labelled radiance gives labelled temperature", got=type(res))
    mon.check(res.dims == ("y", "x") and set(res.coords) == {"y", "x", "lon"}, "dimensions and coordinates are kept",
              got=(res.dims, list(res.coords)))
    for key in ("y", "x", "lon"):
        mon.close(res[key].values, arr[key].values, "coordinate values are kept")
    mon.check(dict(res.attrs) == attrs and res.name == "rad", "name and attributes are kept", got=(res.name, dict(res.attrs)))
    mon.check(isinstance(res.data, da.Array) == chunked, "lazy labelled data stay lazy, in-memory ones in memory",
              got=type(res.data))
    with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
        got = res.values
    mon.close(got, want, "labelled values", rtol=1e-12)
    with scheduler("sync", 0):
        mon.close(arr.values, rad, "the labelled input is unchanged")
    mon.check(dict(arr.attrs) == attrs and arr.name == "rad", "the labelled input's labels are unchanged")
    mon.ev("xarray_calls")
    return (which, chunked, shape, wave)


@SUITE.case(quick=120, thorough=3000)
def table_radiance(mon, rng, scratch):
    """Table based Tb to radiance."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch)
    conv = RadTbConverter(plat, instr, band, tb_resolution=float(rng.choice([0.1, 0.5])))
    conv.make_tb2rad_lut(scratch / "tab.npz")
    lut = conv.read_tb2rad_lut(str(scratch / "tab.npz"))
    dt = rng.choice(["f8", "f4"])
    shape = _shape(rng, mon)
    if np.prod(shape) == 1:
        shape = (2, 3)      # the radiance of a single in-memory Tb is a number
    _, tb, _ = nir.scene(rng, shape, dt)
    want = conv.tb2radiance(tb, lut=lut)["radiance"]
    mon.check(isinstance(want, np.ndarray), "in-memory Tb gives in-memory radiance")
    return _evaluate(mon, rng, "table", lambda a: conv.tb2radiance(a, lut=lut), [tb], want, 0.0,
                     unpack=lambda r: r["radiance"])


@SUITE.case(quick=180, thorough=4000)
def nir_reflectance(mon, rng, scratch):
    """3.x reflectance and emissive part."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, n=15)
    dt = rng.choice(["f8", "f4"])
    shape = _shape(rng, mon)
    if rng.integers(8) == 0:
        shape = shape[:1] if rng.integers(2) else (2,) + shape
        mon.ev("three_dimensions", int(len(shape) == 3))
    sunz, tb39, tb11 = nir.scene(rng, shape, dt)
    co2 = bool(rng.integers(2))
    flux = None if rng.integers(2) else 2.0029281634299041
    limit = [85.0, None, 88.0, 70.0][rng.integers(4)]
    calc = Calculator(plat, instr, band, solar_flux=flux, masking_limit=limit)
    arrs = [sunz, tb39, tb11] + ([tb11 - 15] if co2 else [])

    def run(*a):
        return calc.reflectance_from_tbs(*a[:3], **({"tb_ir_co2": a[3]} if co2 else {}))

    want = run(*arrs)
    mon.check(isinstance(want, np.ndarray), "in-memory Tbs give an in-memory reflectance", got=type(want))
    wrad = np.asarray(calc.emissive_part_3x(tb=False))
    wtb = np.asarray(calc.emissive_part_3x(tb=True))
    rtol = 2e-3 if dt == "f4" else 1e-9
    # near-zero denominators amplify single-precision rounding
    key = _evaluate(mon, rng, "reflectance", run, arrs, want, rtol, atol=2e-4 if dt == "f4" else 1e-12)
    for tb, wantem in ((False, wrad), (True, wtb)):
        args, layouts, touch = _lazy_args(rng, arrs, False)
        early = None
        try:
            with no_compute():
                run(*args)
                res = calc.emissive_part_3x(tb=tb)
        except ComputedEarly as err:
            early = err
        mon.check(early is None and touch.count == 0, "emissive part of lazy input computes nothing", tb=tb)
        mon.check(isinstance(res, da.Array), "emissive part of lazy input is lazy", got=type(res))
        with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
            got = res.compute()
        mon.close(got, wantem, "emissive part: values are those of the in-memory evaluation", rtol=rtol,
                  atol=2e-4 if dt == "f4" else 1e-12, tb=tb, layouts=layouts)
    # one lazy image is enough to stay lazy
    touch = Touch()
    mixed = [sunz, lazy(tb39, random_chunks(rng, shape), touch), tb11] if rng.integers(2) else \
        [sunz, tb39, lazy(tb11, random_chunks(rng, shape), touch)]
    mixed += arrs[3:]
    with no_compute():
        res = run(*mixed)
    mon.check(isinstance(res, da.Array) and touch.count == 0, "one lazy image keeps the reflectance lazy")
    with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
        mon.close(res.compute(), want, "mixed lazy and in-memory images", rtol=rtol, atol=2e-4 if dt == "f4" else 1e-12)
    return key


@SUITE.case(quick=220, thorough=5000)
def rayleigh(mon, rng, scratch):
    """Rayleigh reflectance with and without red band, in and out of range."""
    data.use_config(scratch)
    lut = data.rayleigh_lut(rng)
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
    ray = Rayleigh("Nowhere-1", "noinstr")
    dt = rng.choice(["f8", "f4"])
    shape = _shape(rng, mon)
    sunz, satz, azi = p16.angles(rng, shape, lut, dtype=dt)
    red = rng.uniform(-5, 130, shape).astype(dt)
    for val in (np.nan, 20.0, 100.0):
        if rng.integers(2):
            red.flat[rng.integers(red.size)] = val
    wvl = float(rng.choice([0.45, 0.5, 0.6431, 0.77, 0.3, 0.9]))
    arrs = [sunz, satz, azi] + ([red] if rng.integers(2) else [])

    def run(*a):
        return ray.get_reflectance(a[0], a[1], a[2], wvl, a[3] if len(a) > 3 else None)

    want = run(*arrs)
    mon.check(isinstance(want, np.ndarray), "in-memory angles give an in-memory reflectance", got=type(want))
    key = None
    if 0.4 < wvl < 0.8:
        rtol, atol = (1e-4, 1e-3) if dt == "f4" else (1e-10, 1e-11)
        key = _evaluate(mon, rng, "rayleigh", run, arrs, want, rtol, atol)
    else:
        args, layouts, touch = _lazy_args(rng, arrs, False)
        with no_compute():
            res = run(*args)
        mon.check(isinstance(res, da.Array) and touch.count == 0, "out-of-range band stays lazy", got=type(res))
        with scheduler("sync", 0, mon):
            mon.close(res.compute(), want, "out-of-range band, lazy")
    if rng.integers(2) and 0.4 < wvl < 0.8:
        # lazy sun zenith with some in-memory companions
        mixed = [lazy(sunz, random_chunks(rng, shape))] + [
            lazy(a, random_chunks(rng, shape)) if rng.integers(2) else a for a in arrs[1:]]
        with no_compute():
            res = run(*mixed)
        mon.check(isinstance(res, da.Array), "lazy sun zenith angles keep the reflectance lazy")
        with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
            mon.close(res.compute(), want, "mixed lazy and in-memory angles", rtol=1e-4 if dt == "f4" else 1e-10,
                      atol=1e-3 if dt == "f4" else 1e-11)
    # high zenith reduction
    zen = rng.uniform(60, 95, shape)
    rred = rng.uniform(0, 40, shape)
    w2 = Rayleigh.reduce_rayleigh_highzenith(zen, rred, 70., 90., 0.6)
    _evaluate(mon, rng, "highzenith", lambda z, r: Rayleigh.reduce_rayleigh_highzenith(z, r, 70., 90., 0.6),
              [zen, rred], w2, 1e-12)
    return key or ("rayleigh", wvl, shape)


@SUITE.case(quick=180, thorough=4000)
def limb(mon, rng, scratch):
    """Infrared limb correction."""
    dt = "f8"
    shape = _shape(rng, mon)
    zen = rng.uniform(-5, 95, shape).astype(dt)
    zen.flat[rng.integers(zen.size)] = 0.0
    if rng.integers(2):
        zen.flat[rng.integers(zen.size)] = rng.choice([90.0, np.nan])
    tb = rng.uniform(190, 310, shape).astype(dt)
    corr = AtmosphericalCorrection("EOS-Terra", "modis")
    want = corr.get_correction(zen, "ch31", tb)
    func = (lambda t, z: corr.get_correction(z, "ch31", t)) if rng.integers(2) else viewzen_corr
    key = _evaluate(mon, rng, "limb", func, [tb, zen], want, 1e-12)
    mixed = (lazy(tb, random_chunks(rng, shape)), zen) if rng.integers(2) else (tb, lazy(zen, random_chunks(rng, shape)))
    with no_compute():
        res = func(*mixed)
    mon.check(isinstance(res, da.Array), "lazy data or lazy angles keep the correction lazy", got=type(res))
    with scheduler("threads", 0, mon):
        mon.close(res.compute(), want, "mixed lazy and in-memory limb correction", rtol=1e-12)
    return key


def _pairs(rng, scratch, mon):
    """Two evaluations of the same input which differ in one parameter: (name, [functions], arrays, rtol, atol)."""
    kind = str(rng.choice(["wave", "wavearrays", "tables", "converters", "flux", "co2", "bands", "luts", "red", "highzenith", "limb"]))
    shape = (int(rng.integers(2, 7)), int(rng.integers(2, 8)))
    if kind in ("wave", "wavearrays"):
        waves = [float(x) for x in rng.uniform(3e-6, 14e-6, 2)]
        if kind == "wavearrays":
            waves = [w * rng.uniform(0.9, 1.1, shape) for w in waves]
        rad = np.asarray(blackbody(8e-6, rng.uniform(190, 340, shape))).reshape(shape)
        form = int(rng.integers(4))
        funcs = [[lambda r, w=w: blackbody_rad2temp(w, r), lambda r, w=w: blackbody_wn_rad2temp(1 / w, r),
                  lambda r, w=w: radiance2tb(r, w)][form % 3] for w in waves]
        if form == 3:
            funcs = [lambda r: blackbody_rad2temp(waves[0], r), lambda r: blackbody_wn_rad2temp(1 / waves[0], r)]
        return kind, funcs, [rad], 1e-12, 0.0
    if kind in ("tables", "converters", "flux", "co2"):
        plat, instr, band, dets = nir.setup(rng, scratch, n=15, ndet=2)
        sunz, tb39, tb11 = nir.scene(rng, shape)
        if kind in ("tables", "converters"):
            convs = [RadTbConverter(plat, instr, band, detector=d) for d in ("det-1", "det-2")]
            luts = []
            for i, conv in enumerate(convs):
                conv.make_tb2rad_lut(scratch / f"tab{i}.npz")
                luts.append({k: np.array(v) for k, v in conv.read_tb2rad_lut(str(scratch / f"tab{i}.npz")).items()})
            luts[1]["radiance"] = luts[1]["radiance"] * 1.25
            use = convs if kind == "converters" else convs[:1] * 2
            return kind, [lambda t, c=c, lut=lut: c.tb2radiance(t, lut=lut)["radiance"] for c, lut in zip(use, luts)], [tb39], 0.0, 0.0
        if kind == "flux":
            calcs = [Calculator(plat, instr, band, solar_flux=f) for f in (2.0, 7.0)]
            return kind, [lambda *a, c=c: c.reflectance_from_tbs(*a) for c in calcs], [sunz, tb39, tb11], 1e-9, 1e-12
        calc = Calculator(plat, instr, band, solar_flux=2.0)
        return kind, [lambda *a: calc.reflectance_from_tbs(*a[:3]), lambda *a: calc.reflectance_from_tbs(*a[:3], tb_ir_co2=a[3])], \
            [sunz, tb39, tb11, tb11 - 15], 1e-9, 1e-12
    if kind in ("bands", "luts", "red"):
        names = ["marine_clean_aerosol", "desert_aerosol"]
        rays = []
        for name in names:
            lut = data.rayleigh_lut(rng)
            data.write_rayleigh_lut(scratch / f"rayleigh/{name}/rayleigh_lut_us-standard.h5", lut)
            rays.append(Rayleigh("Nowhere-1", "noinstr", aerosol_type=name))
        arrs = list(p16.angles(rng, shape, lut)) + [rng.uniform(10, 110, shape)]
        if kind == "bands":
            funcs = [lambda *a, w=w: rays[0].get_reflectance(*a[:3], w) for w in (0.45, 0.6431)]
        elif kind == "luts":
            funcs = [lambda *a, r=r: r.get_reflectance(*a[:3], 0.5) for r in rays]
        else:
            funcs = [lambda *a: rays[0].get_reflectance(*a[:3], 0.5), lambda *a: rays[0].get_reflectance(*a[:3], 0.5, a[3])]
        return kind, funcs, arrs, 1e-10, 1e-11
    if kind == "highzenith":
        sets = [(70., 90., 0.6), [(60., 90., 0.6), (70., 95., 0.6), (70., 90., 0.3)][rng.integers(3)]]
        return kind, [lambda z, r, p=p: Rayleigh.reduce_rayleigh_highzenith(z, r, *p) for p in sets], \
            [rng.uniform(50, 95, shape), rng.uniform(0, 40, shape)], 1e-12, 0.0
    corr = AtmosphericalCorrection("EOS-Terra", "modis")
    return kind, [lambda z, t: corr.get_correction(z, "ch31", t), lambda z, t: corr.get_correction(z * 0.5, "ch31", t)], \
        [rng.uniform(0, 95, shape), rng.uniform(190, 310, shape)], 1e-12, 0.0


@SUITE.case(quick=320, thorough=6000)
def together(mon, rng, scratch):
    """Results of the same lazy input with different parameters, computed in one graph."""
    data.use_config(scratch)
    kind, funcs, arrs, rtol, atol = _pairs(rng, scratch, mon)
    mon.ctx(kind=kind)
    want = [np.asarray(f(*arrs)) for f in funcs]
    ch = random_chunks(rng, arrs[0].shape)
    args = [da.from_array(a, chunks=ch) for a in arrs]
    with no_compute():
        lazies = [f(*args) for f in funcs]
        if rng.integers(2):
            lazies.append(funcs[0](*args))
            want.append(want[0])
    how = str(rng.choice(["compute", "expression", "stack", "persist"]))
    with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
        if how == "compute":
            got = dask.compute(*lazies)
        elif how == "expression":
            diff = (lazies[0] - lazies[1]).compute()
            mon.close(np.isnan(diff), np.isnan(want[0] - want[1]), "missing pixels of an expression of two lazy results", kind=kind)
            scale = np.nan_to_num(np.abs(want[0]) + np.abs(want[1]))
            ok = np.nan_to_num(np.abs(diff - (want[0] - want[1]))) <= (rtol + 4e-16) * scale + 2 * atol
            mon.check(np.all(ok), "an expression of two lazy results", kind=kind, got=diff, want=want[0] - want[1])
            got = dask.compute(*lazies)
        elif how == "stack":
            got = list(da.stack(lazies).compute())
        else:
            got = [x.compute() for x in dask.persist(*lazies)]
    for g, w in zip(got, want):
        mon.close(g, w, "each of several lazy results computed together has its own values", rtol=rtol, atol=atol, kind=kind, how=how)
    mon.ev("computed_together")
    return ("together", kind, how, repr(ch))
