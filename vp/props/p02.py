"""P02: the inverse Planck functions."""
import dask.array as da
import numpy as np

from pyspectral.blackbody import blackbody_rad2temp, blackbody_wn_rad2temp
from pyspectral.radiance_tb_conversion import radiance2tb
from vp import data, ref
from vp.core import Suite
from vp.sched import random_chunks

SUITE = Suite(
    "P02", "exploration",
    "A case draws a wave position, temperatures and a container kind/precision/call style, produces the radiance "
    "with the extended-precision law and asks the code to recover the temperature; distinct by (function, "
    "container, dtype, call style, shape, values).",
    needs=["recovered", "large_calls", "nan_or_negative", "keyword_calls", "integer_radiances", "per_element_waves"],
    assumptions=["Single precision is exercised where wavelength**5 times radiance does not underflow "
                 "(3-20 micrometre, 100-400 K and alike)."])

FUNCS = {"wl": blackbody_rad2temp, "wn": blackbody_wn_rad2temp, "r2tb": None}


def _call(rng, mon, which, wave, rad):
    style = rng.choice(["pos", "kw", "mixed", "kwrev"])
    mon.ctx(call=f"{which}/{style}")
    if style != "pos":
        mon.ev("keyword_calls")
    if which == "r2tb":
        return {"pos": lambda: radiance2tb(rad, wave), "kw": lambda: radiance2tb(rad=rad, wavelength=wave),
                "mixed": lambda: radiance2tb(rad, wavelength=wave),
                "kwrev": lambda: radiance2tb(wavelength=wave, rad=rad)}[style]()
    name = "wavelength" if which == "wl" else "wavenumber"
    f = FUNCS[which]
    return {"pos": lambda: f(wave, rad), "kw": lambda: f(**{name: wave, "radiance": rad}),
            "mixed": lambda: f(wave, radiance=rad), "kwrev": lambda: f(radiance=rad, **{name: wave})}[style]()


@SUITE.case(quick=2700, thorough=60000)
def recover(mon, rng, scratch):
    """Round trip from the extended-precision law."""
    which = str(rng.choice(list(FUNCS)))
    wn = which == "wn"
    kind = str(rng.choice(["float", "np64", "np32", "list", "tuple", "f8", "f4", "f8_2d", "f4_2d", "f8_0d", "dask8",
                           "dask4"]))
    single = kind in ("np32", "f4", "f4_2d", "dask4")
    if single:
        w = float(rng.uniform(3e-6, 16e-6))
        lo = 180 if w < 6e-6 else 100
        tfun = lambda n: rng.uniform(lo, 400, n)  # noqa: E731
    else:
        w = float(np.exp(rng.uniform(np.log(0.4e-6), np.log(90e-6))))
        tfun = lambda n: np.exp(rng.uniform(np.log(60 if w > 2e-6 else 250), np.log(5000), n))  # noqa: E731
    shape = {"float": (), "np64": (), "np32": (), "f8_0d": (), "list": (4,), "tuple": (3,)}.get(kind)
    if shape is None:
        shape = (int(rng.integers(1, 5)), int(rng.integers(1, 7))) if kind.endswith("2d") or rng.integers(2) else (
            int(rng.integers(1, 30)),)
    t = tfun(int(np.prod(shape)) or 1).reshape(shape)
    wave = 1 / w if wn else w
    rad = (ref.planck_wn if wn else ref.planck_wl)(wave, t)[:, 0].astype(np.float64).reshape(shape)
    if single:
        rad = rad.astype(np.float32)
    arg = {"float": lambda: float(rad), "np64": lambda: np.float64(rad), "np32": lambda: np.float32(rad),
           "list": lambda: [float(x) for x in rad], "tuple": lambda: tuple(float(x) for x in rad)}.get(
               kind, lambda: rad)()
    if kind.startswith("dask"):
        arg = da.from_array(rad, chunks=random_chunks(rng, rad.shape))
    if kind in ("f8", "f4", "f8_2d", "f4_2d"):
        arg = data.layout(rng, rad)
    wave_kind = rng.choice(["float", "np64", "np32"]) if not single else rng.choice(["float", "np64"])
    if wave_kind == "np32" and not single:
        wave_arg = np.float32(wave)
        # the radiance belongs to the wavelength really passed
        wave = float(wave_arg)
        rad64 = (ref.planck_wn if wn else ref.planck_wl)(wave, t)[:, 0].astype(np.float64).reshape(shape)
        rad = rad64
        arg = {"float": lambda: float(rad), "np64": lambda: np.float64(rad), "list": lambda: [float(x) for x in rad],
               "tuple": lambda: tuple(float(x) for x in rad)}.get(kind, lambda: rad)()
        if kind.startswith("dask"):
            arg = da.from_array(rad, chunks=random_chunks(rng, rad.shape))
    else:
        wave_arg = float(wave) if wave_kind == "float" else np.float64(wave)
    mon.ctx(which=which, kind=kind, wave=wave, temps=t, wave_kind=wave_kind)
    got = _call(rng, mon, which, wave_arg, arg)
    if kind.startswith("dask"):
        mon.check(hasattr(got, "compute"), "lazy radiance gives a lazy temperature", got=type(got))
        got = got.compute(scheduler="sync")
    got = np.asarray(got)
    mon.check(got.shape == tuple(shape), "the temperature has the radiance's shape", got=got.shape, want=shape)
    eps = 1.2e-7 if single else 2.3e-16
    x = np.asarray(ref.x_wl(1 / wave if wn else wave, t), dtype=float).reshape(shape)
    # the radiance itself was rounded (eps), wavelength**5 in the working precision (5 eps)
    tol = eps * (8 + 16 / x)
    mon.check(np.all(np.abs(got - t) <= tol * t), "the temperature is recovered to the precision of the radiance",
              got=got, want=t, worst=float(np.max(np.abs(got - t) / (tol * t))))
    mon.ev("recovered", int(t.size))
    return (which, kind, str(wave_kind), shape, float(np.ravel(t)[0]), w)


@SUITE.case(quick=72, thorough=600)
def large(mon, rng, scratch):
    """Images of many pixels, in memory and chunked, with missing ones."""
    which = str(rng.choice(list(FUNCS)))
    wn = which == "wn"
    single = bool(rng.integers(2))
    shape = data.large_shape(rng)
    n = int(np.prod(shape))
    per_pixel = bool(rng.integers(3) == 0)
    w = rng.uniform(3e-6, 15e-6, shape) if per_pixel else float(rng.uniform(3e-6, 15e-6))
    t = rng.uniform(190, 340, shape)
    rad = np.asarray((ref.C2 / np.asarray(w)**(3 if wn else 5)) / np.expm1(ref.C1 / (np.asarray(w) * t)), dtype=float)
    bad = rng.random(shape) < rng.choice([0.0, 0.01])
    rad = np.where(bad, np.nan if rng.integers(2) else -rad, rad).astype("f4" if single else "f8")
    wave = 1 / np.asarray(w) if wn else np.asarray(w)
    wave = wave if per_pixel else float(wave)
    lazy = bool(rng.integers(2))
    arg = da.from_array(rad, chunks=random_chunks(rng, shape)) if lazy else data.layout(rng, rad)
    mon.ctx(which=which, shape=shape, lazy=lazy, single=single, per_pixel=per_pixel)
    got = np.asarray(_call(rng, mon, which, wave, arg))
    mon.check(got.shape == shape, "the temperature has the radiance's shape", got=got.shape, want=shape)
    mon.check(np.array_equal(np.isnan(got), bad), "NaN exactly where the radiance is NaN or negative", n=int(bad.sum()))
    x = np.asarray(ref.C1, float) / (np.asarray(w) * t)
    tol = (1.2e-7 if single else 2.3e-16) * (8 + 16 / x)
    mon.check(np.all((np.abs(got - t) <= tol * t) | bad), "the temperature is recovered to the precision of the radiance",
              where=str(np.unravel_index(int(np.argmax(np.where(bad, 0, np.abs(got - t) / tol))), shape)))
    mon.ev("recovered", n)
    mon.ev("large_calls")
    return (which, shape, lazy, single, per_pixel)


@SUITE.case(quick=600, thorough=10000)
def integers_and_per_element(mon, rng, scratch):
    """Integer radiances; one wavelength per radiance."""
    which = str(rng.choice(list(FUNCS)))
    wn = which == "wn"
    if rng.integers(2):
        if wn:
            wave = float(rng.uniform(500e2, 2800e2))
            vals = rng.integers(1, 50, int(rng.integers(1, 8)))
        else:
            wave = float(rng.uniform(3e-6, 15e-6))
            vals = rng.integers(100, 20_000_000, int(rng.integers(1, 8)))
        kind = rng.choice(["list", "scalar", "i8", "i4"])
        arg = {"list": lambda: [int(v) for v in vals], "scalar": lambda: int(vals[0]),
               "i8": lambda: vals.astype("i8"), "i4": lambda: vals.astype("i4")}[str(kind)]()
        mon.ctx(which=which, wave=wave, rad=arg)
        want = (ref.inv_wn if wn else ref.inv_wl)(wave, np.asarray(arg, dtype=np.float64)).astype(float)
        got = np.asarray(_call(rng, mon, which, wave, arg))
        mon.close(got, want, "integer radiances are converted as numbers", rtol=1e-12)
        mon.ev("integer_radiances")
        return (which, str(kind), wave)
    shape = (int(rng.integers(1, 12)),) if rng.integers(2) else (3, int(rng.integers(1, 5)))
    w = rng.uniform(3e-6, 15e-6, shape)
    t = rng.uniform(180, 350, shape)
    single = bool(rng.integers(2))
    compact = None
    if len(shape) == 2 and rng.integers(2):
        # one wavelength per column or per row
        compact = (slice(0, 1), slice(None)) if rng.integers(2) else (slice(None), slice(0, 1))
        w = np.broadcast_to(w[compact], shape)
        mon.ev("broadcast_waves")
    if wn:
        waves = 1 / w
        rad = np.array([ref.planck_wn(a, b)[0, 0] for a, b in zip(waves.ravel(), t.ravel())], dtype=float)
    else:
        waves = w
        rad = np.array([ref.planck_wl(a, b)[0, 0] for a, b in zip(waves.ravel(), t.ravel())], dtype=float)
    rad = rad.reshape(shape)
    arg = rad.astype(np.float32) if single else rad
    lazy = bool(rng.integers(2))
    if lazy:
        arg = da.from_array(arg, chunks=random_chunks(rng, shape))
    mon.ctx(which=which, waves=waves, temps=t, lazy=lazy, single=single)
    if compact is not None:
        waves = np.ascontiguousarray(waves[compact])
        if waves.shape[0] == 1 and rng.integers(2):
            waves = waves[0]
    got = np.asarray(_call(rng, mon, which, waves, arg))
    x = np.asarray(ref.C1 / (w.astype(ref.LD) * t), dtype=float)
    eps = 1.2e-7 if single else 2.3e-16
    mon.check(got.shape == shape and np.all(np.abs(got - t) <= eps * (8 + 16 / x) * t),
              "each element is inverted with its own wavelength", got=got, want=t)
    mon.ev("per_element_waves", got.size)
    mon.ev("recovered", got.size)
    return (which, shape, single, lazy, float(w.ravel()[0]))


@SUITE.case(quick=600, thorough=10000)
def nan_negative_monotone(mon, rng, scratch):
    """NaN and negative radiances give NaN next to valid ones; order is kept."""
    which = str(rng.choice(list(FUNCS)))
    wn = which == "wn"
    w = float(rng.uniform(3e-6, 15e-6))
    wave = 1 / w if wn else w
    t = np.sort(rng.uniform(180, 350, int(rng.integers(3, 20))))
    t = t[np.r_[True, np.diff(t) > 1e-2]]
    rad = (ref.planck_wn if wn else ref.planck_wl)(wave, t)[:, 0].astype(float)
    single = bool(rng.integers(2))
    rad = rad.astype(np.float32) if single else rad
    got = np.asarray(_call(rng, mon, which, wave, rad))
    mon.check(np.all(np.diff(got) > 0), "the temperature grows with the radiance", temps=t, got=got)
    bad = rad.copy()
    which_bad = rng.choice(3, len(bad))
    bad[which_bad == 1] = np.nan
    bad[which_bad == 2] *= -1
    lazy = bool(rng.integers(2))
    arg = da.from_array(bad, chunks=random_chunks(rng, bad.shape)) if lazy else bad
    mon.ctx(wave=wave, rad=bad, lazy=lazy)
    res = np.asarray(_call(rng, mon, which, wave, arg))
    mon.check(np.all(np.isnan(res[which_bad > 0])), "NaN or negative radiance gives NaN", got=res)
    mon.close(res[which_bad == 0], got[which_bad == 0], "valid radiances are not disturbed by invalid ones",
              rtol=1e-6 if single else 1e-13)
    mon.ev("nan_or_negative", int((which_bad > 0).sum()))
    for scalar in (float("nan"), -float(rad[-1]), np.float32(-rad[-1]), np.float64("nan")):
        one = _call(rng, mon, which, wave, scalar)
        mon.check(np.ndim(one) == 0 and np.isnan(one), "scalar NaN or negative radiance gives NaN", arg=scalar, got=one)
    return (which, single, lazy, len(t), w)
