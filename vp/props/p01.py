"""P01: the forward Planck functions."""
import dask.array as da
import numpy as np

from pyspectral.blackbody import blackbody, blackbody_wn, planck
from vp import data, ref
from vp.core import Suite
from vp.sched import random_chunks

SUITE = Suite(
    "P01", "exploration",
    "A case draws wave positions (0.2-100 micrometre, at times up to 0.3 m), temperatures (1-6000 K with zero, sub-threshold, NaN "
    "entries) in one of several container kinds and precisions and compares every value with an extended-"
    "precision evaluation of Planck's law; distinct by (space, container, dtypes, shapes, special entries).",
    needs=["values_compared", "large_calls", "nan_rows", "wn_values", "lazy_calls", "look_alikes"],
    assumptions=["Constants are CODATA 2010 (those stated in the module).",
                 "Tolerance: rounding error bound of the straightforward formula in the working precision."])


def _tol(x, eps):
    x = np.asarray(x, dtype=np.float64)
    with np.errstate(all="ignore"):
        return 8 * eps * (x + 1 / x + 8)


def _compare(mon, got, wave, temps, wn, eps32, what):
    """Compare a radiance matrix with the law."""
    got = np.asarray(got)
    wave = np.atleast_1d(np.asarray(wave))
    t = np.atleast_1d(np.asarray(temps, dtype=np.float64)).ravel()
    mon.check(got.shape == (t.size, wave.size), what + ": one row per temperature, one column per wave",
              got=got.shape, want=(t.size, wave.size))
    w64 = wave.astype(np.float64)
    want = ref.planck_wn(w64, t) if wn else ref.planck_wl(w64, t)
    x = ref.x_wl(1 / w64.astype(ref.LD) if wn else w64, t)
    missing = ~(np.abs(t) > 1e-6)
    eps = 1.2e-7 if eps32 else 2.3e-16
    xmax = 80.0 if eps32 else 690.0
    g = got.astype(np.float64)
    mon.check(np.all(np.isnan(g[missing])), what + ": zero or NaN temperature gives NaN", temps=t, got=g[missing])
    mon.ev("nan_rows", int(missing.sum()))
    mon.check(not np.any(np.isnan(g[~missing])), what + ": a valid temperature gives a number", temps=t, got=g)
    w = want[~missing]
    gg = g[~missing]
    xx = np.asarray(x[~missing], dtype=np.float64)
    tol = _tol(xx, eps)
    with np.errstate(all="ignore"):
        rel = np.abs(gg - w) / w
    ok = (xx < xmax) & (tol < 0.5)
    mon.check(np.all(rel[ok] <= tol[ok]), what + ": value of Planck's law", temps=t, wave=w64,
              worst=float(np.max((rel / tol)[ok])) if ok.any() else 0, got=gg[ok][:5],
              want=np.asarray(w[ok][:5], dtype=float))
    high = xx >= xmax
    bound = np.maximum(2 * np.asarray(w, dtype=np.float64), 1e-15 if eps32 else 1e-270)
    mon.check(np.all((gg[high] >= 0) & (gg[high] <= bound[high])), what + ": vanishing radiance", got=gg[high][:5])
    mon.ev("values_compared", int(ok.sum()))
    if wn:
        mon.ev("wn_values", int(ok.sum()))
    return got


def _waves(rng, n):
    # up to microwaves every now and then
    w = np.exp(rng.uniform(np.log(0.2e-6), np.log(rng.choice([100e-6, 100e-6, 100e-6, 0.3])), n))
    return w


def _temps(rng, n, specials):
    kind = rng.integers(4)
    if kind == 0:
        t = rng.uniform(150, 360, n)
    elif kind == 1:
        t = np.exp(rng.uniform(np.log(1), np.log(6000), n))
    elif kind == 2:
        t = rng.uniform(180, 340, n).round(1)
    else:
        t = np.sort(rng.uniform(100, 400, n))
    if specials and n:
        pool = [0.0, -0.0, np.nan, 4e-7, -4e-7, 3e-6, 1e-5]
        for _ in range(int(rng.integers(1, 4))):
            t[rng.integers(n)] = pool[rng.integers(len(pool))]
    return t


@SUITE.case(quick=2700, thorough=60000)
def law(mon, rng, scratch):
    """Array temperatures against the law, wave scalar/array/list."""
    wn = bool(rng.integers(2))
    specials = bool(rng.integers(2))
    tdt = rng.choice(["f8", "f4", "i4"])
    shape = [(int(rng.integers(1, 30)),), (int(rng.integers(1, 6)), int(rng.integers(1, 6))), (1,), (2, 2, 3)][
        rng.integers(4)]
    n = int(np.prod(shape))
    t = _temps(rng, n, specials and tdt != "i4").reshape(shape)
    t = t.astype(tdt)
    if tdt == "i4" and specials:
        t.flat[0] = 0
    t = data.layout(rng, t)
    wkind = rng.choice(["float", "npscalar", "array", "array32", "list", "tuple", "array1"])
    nw = 1 if wkind in ("float", "npscalar", "array1") else int(rng.choice([rng.integers(2, 25), rng.integers(25, 400)], p=[.9, .1]))
    w = _waves(rng, nw)
    if wn:
        w = 1 / w
    wave = {"float": lambda: float(w[0]), "npscalar": lambda: w[0], "array": lambda: data.layout(rng, w), "array1": lambda: w,
            "array32": lambda: w.astype(np.float32), "list": lambda: [float(x) for x in w],
            "tuple": lambda: tuple(float(x) for x in w)}[wkind]()
    mon.ctx(wn=wn, temps=t, wave=wave)
    func = blackbody_wn if wn else blackbody
    direct = bool(rng.integers(2))
    got = planck(wave, t, wavelength=not wn) if direct else func(wave, t)
    mon.check(isinstance(got, np.ndarray), "array temperatures give an array", got=type(got))
    eps32 = tdt == "f4" or wkind == "array32"
    with np.errstate(all="ignore"):
        _compare(mon, got, wave, t, wn, eps32, "planck")
    if not eps32:
        # rows do not depend on each other
        i = int(rng.integers(n))
        one = np.asarray(func(wave, np.array([t.ravel()[i]])))
        mon.close(got[i:i + 1], one, "a row does not depend on the other temperatures", rtol=1e-13)
        mon.ev("row_isolation")
    return (wn, wkind, str(tdt), shape, nw, bool(specials), int(t.ravel()[0] * 1000) if np.isfinite(t.ravel()[0]) else 0)


@SUITE.case(quick=72, thorough=600)
def large(mon, rng, scratch):
    """Images of many pixels, fine spectra: the size of a call does not matter."""
    wn = bool(rng.integers(2))
    shape = data.large_shape(rng)
    n = int(np.prod(shape))
    t = _temps(rng, n, bool(rng.integers(2))).reshape(shape)
    nw = int(min(max(1, 1_500_000 // n), rng.choice([1, 2, 30, 700])))
    w = _waves(rng, nw)
    w = 1 / w if wn else w
    mon.ctx(wn=wn, shape=shape, nw=nw)
    got = np.asarray((blackbody_wn if wn else blackbody)(w if nw > 1 or rng.integers(2) else float(w[0]), t))
    mon.check(got.shape == (n, nw), "planck: one row per temperature, one column per wave", got=got.shape, want=(n, nw))
    # every row observed for presence, a sample (with the ends and the special entries) for its value
    tt = t.ravel()
    miss = ~(np.abs(tt) > 1e-6)
    mon.check(np.array_equal(np.isnan(got).any(axis=1), miss) and np.array_equal(np.isnan(got).all(axis=1), miss),
              "planck: NaN exactly for missing temperatures")
    with np.errstate(all="ignore"):
        double = np.asarray(ref.C1 / (np.where(miss, np.nan, tt)[:, None] * (1 / w if wn else w)[None, :]), dtype=float)
        fast = np.asarray(ref.C2, float) * (w**3 if wn else w**-5.0) / np.expm1(double)
        ok = (double < 600) & ~miss[:, None]
        rel = np.abs(got - fast) / fast
        tol = _tol(double, 2.3e-16) * 2
        mon.check(np.all(rel[ok] <= tol[ok]), "planck: value of Planck's law", n=int(ok.sum()),
                  where=int(np.argmax(np.where(ok, rel / tol, 0))))
    pick = np.unique(np.r_[0, n - 1, rng.integers(0, n, 20), np.flatnonzero(miss)[:3]])
    with np.errstate(all="ignore"):
        _compare(mon, got[pick], w, tt[pick], wn, False, "planck")
    mon.ev("values_compared", int(ok.sum()))
    mon.ev("large_calls")
    return (wn, shape, nw)


@SUITE.case(quick=750, thorough=15000)
def lazy_and_sequences(mon, rng, scratch):
    """Scalar, list, tuple and dask temperatures."""
    wn = bool(rng.integers(2))
    kind = rng.choice(["float", "int", "list", "tuple", "dask", "dask2", "npscalar"])
    n = 1 if kind in ("float", "int", "npscalar") else int(rng.integers(1, 20))
    t = _temps(rng, n, bool(rng.integers(2)) and kind != "int")
    if kind == "dask2":
        t = t.reshape(1, -1)
    w = _waves(rng, int(rng.integers(1, 8)))
    w = 1 / w if wn else w
    wave = float(w[0]) if rng.integers(2) else w
    arg = {"float": lambda: float(t[0]), "int": lambda: int(max(t[0], 5)), "npscalar": lambda: t[0],
           "list": lambda: [float(x) for x in t],
           "tuple": lambda: tuple(float(x) for x in t), "dask": lambda: da.from_array(t, chunks=random_chunks(rng, t.shape)),
           "dask2": lambda: da.from_array(t, chunks=random_chunks(rng, t.shape))}[kind]()
    if kind == "int":
        t = np.array([float(arg)])
    mon.ctx(wn=wn, kind=kind, temps=t, wave=wave)
    got = (blackbody_wn if wn else blackbody)(wave, arg)
    if kind.startswith("dask"):
        mon.check(hasattr(got, "compute"), "lazy temperatures give a lazy radiance", got=type(got))
        mon.ev("lazy_calls")
    with np.errstate(all="ignore"):
        got = np.asarray(got)
        _compare(mon, got.reshape(t.size, -1), wave, t, wn, False, "planck")
    return (wn, kind, t.shape, np.size(wave), float(t.ravel()[0]))


@SUITE.case(quick=450, thorough=8000)
def monotonic_and_change_of_variable(mon, rng, scratch):
    """Strict growth with temperature; both wave spaces agree."""
    w = _waves(rng, int(rng.integers(1, 12)))
    t = np.unique(np.r_[rng.uniform(150, 360, 20), rng.uniform(400, 6000, 5)])
    t = t[np.r_[True, np.diff(t) > 1e-4]]
    b = np.asarray(blackbody(w, t))
    bn = np.asarray(blackbody_wn(1 / w, t))
    good = b[:-1] > 1e-200
    mon.check(np.all(np.diff(b, axis=0)[good] > 0), "radiance grows strictly with temperature", wave=w, temps=t)
    good = bn[:-1] > 1e-200
    mon.check(np.all(np.diff(bn, axis=0)[good] > 0), "radiance (wavenumber) grows strictly with temperature")
    x = np.asarray(ref.x_wl(w, t), dtype=float)
    ok = x < 600
    a, c = (b * w**2)[ok], bn[ok]
    mon.check(np.all(np.abs(a - c) <= (1e-14 * (x[ok] + 1 / x[ok] + 10)) * c),
              "wavelength and wavenumber forms agree through the change of variable", wave=w, temps=t)
    mon.ev("monotone_pairs", int(good.sum()))
    return (w.size, t.size, float(t[0]), float(w[0]))


@SUITE.case(quick=360, thorough=4000)
def look_alikes(mon, rng, scratch):
    """Calls whose arguments resemble those of earlier calls (ends, length, object) get their own answer."""
    w = np.sort(_waves(rng, int(rng.integers(3, 20))))
    t = rng.uniform(180, 330, int(rng.integers(1, 6)))
    buf, tbuf = w.copy(), t.copy()
    hist = []
    for _ in range(int(rng.integers(3, 8))):
        op = str(rng.choice(["interior", "inplace", "space", "precision", "temps", "list"]))
        wn = bool(rng.integers(2))
        hist.append((op, wn))
        if op == "interior":
            buf = np.r_[w[0], np.sort(rng.uniform(w[0], w[-1], w.size - 2)), w[-1]]
        elif op == "inplace":
            buf[1:-1] = np.sort(rng.uniform(w[0], w[-1], w.size - 2))
        elif op == "temps":
            tbuf[:] = rng.permutation(tbuf) + rng.uniform(0, 5)
        wave = 1 / buf if wn else buf
        if op == "inplace":
            wave = buf
            wave[:] = 1 / wave if wn else wave
        arg = wave.astype(np.float32) if op == "precision" else [float(x) for x in wave] if op == "list" else wave
        mon.ctx(history=hist)
        got = (blackbody_wn if wn else blackbody)(arg, tbuf)
        with np.errstate(all="ignore"):
            _compare(mon, got, arg, tbuf, wn, op == "precision", "planck")
        if op == "inplace" and wn:
            buf[:] = 1 / buf
        mon.ev("look_alikes")
    return tuple(hist) + (float(w[0]),)
