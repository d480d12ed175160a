"""P08: band statistics."""
import numpy as np

from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.utils import (
    get_bounds_integrated_energy,
    get_central_wave,
    get_fullwidth_halfmax,
    get_wave_range,
    sort_data,
)
from vp import data, ref
from vp.core import Suite

SUITE = Suite(
    "P08", "exploration",
    "A case draws response curves of random shape, length, spacing, scale and precision (also curves on a dyadic grid "
    "whose samples hit the thresholds exactly) and compares every statistic with its definition; distinct by curve.",
    needs=["central", "weighted", "integrals", "wavenumber_integrals", "fwhm", "energy", "ranges", "sorted",
           "duplicates", "threshold_hits", "fwhm_refused", "long_curves", "negative_responses", "unnormalised"],
    assumptions=["Band widths are checked for ascending abscissae, the order the statistics are defined for."])


def _curve(rng, **kw):
    centre = float(10 ** rng.uniform(-0.4, 1.2))
    return data.curve(rng, centre, centre * float(rng.uniform(0.02, 0.5)), n=int(rng.choice([2, 3, 5, 12, 60, 300, 60, 12] * 4 + [1025, 4096, 5000])), **kw)


@SUITE.case(quick=2000, thorough=20000)
def central(mon, rng, scratch):
    """Central wavelength/wavenumber, with and without extra weight."""
    dtype = [np.float64, np.float32][rng.integers(2)]
    wvl, resp = _curve(rng, dtype=dtype, descending=bool(rng.integers(4) == 0))
    resp = resp * dtype(10 ** rng.uniform(-3, 3))
    if rng.integers(3) == 0:
        # measured: slightly negative in places
        resp = (resp - resp.max() * rng.uniform(0, 0.015, resp.size)).astype(dtype)
        mon.ev("negative_responses", int(np.sum(resp < 0)))
    scale = dtype(rng.choice([1.0, 1e-6, 1e3, 1e4]))
    wvl = wvl * scale
    tol = 1e-12 if dtype == np.float64 else 2e-5
    if resp.min() < 0:
        # cancellation
        tol *= 20 * float(abs(ref.trapz(np.abs(resp), wvl)) / max(abs(ref.trapz(resp, wvl)), 1e-30))
    wvl, resp = data.layout(rng, wvl), data.layout(rng, resp)
    w0, r0 = wvl.copy(), resp.copy()
    mon.ev("long_curves", int(wvl.size > 1000))
    mon.close(get_central_wave(wvl, resp), float(ref.central(wvl, resp)), "central wave is the response weighted mean",
              rtol=tol)
    mon.ev("central")
    kind = int(rng.integers(4))
    weight = [1.0 / wvl.astype("f8") ** 4, rng.uniform(0.1, 2, wvl.size), 2.5, np.linspace(0, 1, wvl.size) + 0.01][kind]
    want = ref.central(wvl, resp, weight)
    mon.close(get_central_wave(wvl, resp, weight=weight), float(want), "extra weight multiplies the response", rtol=tol)
    mon.close(get_central_wave(wvl, resp, weight), float(want), "extra weight, positional", rtol=tol)
    mon.ev("weighted")
    val = float(get_central_wave(wvl, resp))
    mon.check(r0.min() < 0 or w0.min() * (1 - 1e-5) <= val <= w0.max() * (1 + 1e-5), "central wave lies within the band", got=val)
    mon.same(wvl, w0, "input untouched")
    mon.same(resp, r0, "input untouched")
    return (dtype.__name__, float(w0[0]), w0.size, kind)


@SUITE.case(quick=800, thorough=5000)
def integral(mon, rng, scratch):
    """Integral of the response per detector, in both spaces."""
    data.use_config(scratch)
    bands = {}
    for i in range(int(rng.integers(1, 4))):
        dets = {}
        for k in range(int(rng.choice([1, 2, 5]))):
            wvl, resp = _curve(rng, descending=bool(rng.integers(6) == 0))
            resp = resp * float(rng.choice([rng.uniform(0.1, 1), 100.0, 1.0]))
            if rng.integers(4) == 0:
                resp = resp - resp.max() * rng.uniform(0, 0.02, resp.size)
                mon.ev("negative_responses", int(np.sum(resp < 0)))
            dets[f"det-{k + 1}"] = {"wavelength": wvl, "response": resp, "central_wavelength": 1.0}
        bands[f"ch{i + 1}"] = dets
    dtype = str(rng.choice(["f4", "f8"]))
    data.write_rsr(scratch / "f.h5", bands, dtype=dtype)
    obj = RelativeSpectralResponse(filename=scratch / "f.h5")
    tol = 1e-11 if dtype == "f8" else 2e-5
    for space in ("wavelength", "wavenumber"):
        for bname in (str(x) for x in rng.permutation(list(bands))):
            got = obj.integral(bname)
            mon.check(set(got) == set(bands[bname]), "one integral per detector", got=list(got))
            for dname, det in bands[bname].items():
                # the area under the stored samples
                wvl = det["wavelength"].astype(dtype).astype("f8")
                resp = det["response"].astype(dtype).astype("f8")
                if space == "wavelength":
                    want, span = ref.trapz(resp, wvl), np.sum(np.abs(np.diff(wvl)) * np.abs(resp[1:]))
                else:
                    wnum = 1e4 / wvl[::-1]
                    want, span = ref.trapz(resp[::-1], wnum), np.sum(np.abs(np.diff(wnum)) * np.abs(resp[1:]))
                step = float(np.min(np.abs(np.diff(wvl))) / np.max(wvl))
                lim = tol * max(1, 1e-2 / step)
                mon.close(got[dname], float(want), "integral is the area under the curve", rtol=lim, atol=lim * float(span),
                          space=space, band=bname, det=dname, dtype=dtype)
                mon.ev("integrals" if space == "wavelength" else "wavenumber_integrals")
        if space == "wavelength":
            obj.convert()
    return [[float(d["wavelength"][0]) for d in dets.values()] for dets in bands.values()] + [dtype]


@SUITE.case(quick=2000, thorough=20000)
def fwhm(mon, rng, scratch):
    """Full width at half maximum."""
    mode = int(rng.integers(3))
    if mode == 0:
        wvl, resp = _curve(rng, dtype=[np.float64, np.float32][rng.integers(2)])
        resp = resp * resp.dtype.type(rng.choice([1.0, 0.37, 12.0, 1e-3, 250.0]))
        if rng.integers(3) == 0:
            resp = (resp - resp.max() * rng.uniform(0, 0.02, resp.size)).astype(resp.dtype)
    else:
        # levels which hit half of the maximum exactly
        n = int(rng.integers(2, 30))
        top = float(rng.choice([1.0, 0.5, 0.25, 8.0, 100.0]))
        levels = np.array([0, 0.125, 0.25, 0.5 - 2**-20, 0.5, 0.5 + 2**-20, 0.75, 1.0]) * top
        resp = rng.choice(levels, n)
        resp[rng.integers(n)] = top
        wvl = np.cumsum(rng.integers(1, 9, n)) / 16.0
        mon.ev("threshold_hits", int(np.sum(resp == top / 2)))
    if mode == 2 and rng.integers(2):
        resp = np.where(resp == resp.max(), resp, resp * 0.1)
        keep = int(np.argmax(resp))
        resp[:keep] *= 0.3
        resp[keep + 1:] *= 0.3
    resp, wvl = data.layout(rng, resp), data.layout(rng, wvl)
    lim = np.max(resp) / 2
    idx = [i for i in range(len(resp)) if resp[i] >= lim]
    mon.ctx(resp=resp, wvl=wvl)
    if len(idx) < 2:
        mon.raises(ValueError, "no width from less than two samples", get_fullwidth_halfmax, resp, wvl)
        mon.ev("fwhm_refused")
    else:
        mon.close(get_fullwidth_halfmax(resp, wvl), wvl[idx[-1]] - wvl[idx[0]],
                  "band width is the span at or above half of the maximum", rtol=1e-12)
        mon.ev("fwhm")
    return (mode, len(resp), float(wvl[0]), float(resp[0]))


@SUITE.case(quick=2000, thorough=20000)
def energy(mon, rng, scratch):
    """Bounds of the integrated energy."""
    if rng.integers(2):
        wvl, resp = _curve(rng)
        if len(resp) < 3:
            resp = np.array([0.1, 1.0, 0.4])
            wvl = np.array([1.0, 1.5, 2.0])
        lims = [1, 5, 0.5, 10.0, 25, 49]
        if len(resp) > 8 and rng.integers(3) == 0:
            # noise around zero in the wings; the energy still grows to its largest value
            resp = np.array(resp, dtype=float)
            wing = len(resp) // 4
            resp[:wing] = rng.uniform(-0.02, 0.02, wing) * resp.max()
            resp[-wing:] = np.abs(resp[-wing:])
            mon.ev("energy_noise")
        lims = [lims[i] for i in rng.choice(6, 3, replace=False)]
        exact = False
    else:
        # cumulated energy hits dyadic percentages exactly: sum = 2**k
        n = int(2 ** rng.integers(2, 7))
        resp = np.full(n, 1.0 * 2.0 ** rng.integers(-4, 5))
        wvl = np.cumsum(rng.integers(1, 9, n)) / 16.0
        lims = [100.0 / n * k for k in rng.integers(1, max(2, n // 2), 3)]
        exact = True
    resp, wvl = data.layout(rng, resp), data.layout(rng, wvl)
    for lim in lims:
        cum = np.cumsum(resp.astype(np.longdouble))
        cum = cum / cum.max() * 100
        slack = 0 if exact else 1e-9
        firsts = {int(np.argmax(cum >= lim - s)) for s in (-slack, slack)}
        def last(s):
            ok = np.where(cum <= 100 - lim + s)[0]
            return int(ok[-1]) if len(ok) else None
        lasts = {last(s) for s in (-slack, slack)}
        if None in lasts:
            continue
        lo, hi = get_bounds_integrated_energy(resp, wvl, lim)
        mon.check(any(lo == wvl[i] for i in firsts), "lower energy bound is the first sample reaching the threshold",
                  lim=lim, got=lo, want=[wvl[i] for i in firsts], resp=resp, wvl=wvl)
        mon.check(any(hi == wvl[i] for i in lasts), "upper energy bound is the last sample not above 100 % - threshold",
                  lim=lim, got=hi, want=[wvl[i] for i in lasts], resp=resp, wvl=wvl)
        mon.ev("energy")
        if exact:
            mon.ev("threshold_hits")
    if rng.integers(2):
        cum = np.cumsum(resp.astype(np.longdouble))
        cum = cum / cum[-1] * 100
        if np.all(np.abs(cum - 1) > 1e-6) and np.all(np.abs(cum - 99) > 1e-6) and cum[0] <= 99:
            lo, hi = get_bounds_integrated_energy(resp, wvl)
            mon.check(lo == wvl[np.argmax(cum >= 1)] and hi == wvl[np.where(cum <= 99)[0][-1]],
                      "the default threshold is one percent")
    return (exact, len(resp), tuple(float(x) for x in lims), float(wvl[0]))


@SUITE.case(quick=1500, thorough=10000)
def wave_range(mon, rng, scratch):
    """Wavelength range above a threshold."""
    wvl, resp = _curve(rng)
    if rng.integers(2):
        levels = np.array([0, 0.125, 0.25, 0.5, 0.75, 1.0])
        resp = rng.choice(levels, len(wvl))
        resp[rng.integers(len(wvl))] = 1.0
        thr = float(rng.choice([0.125, 0.25, 0.5, 0.75]))
        mon.ev("threshold_hits", int(np.sum(resp == thr)))
    else:
        thr = float(rng.choice([0.15, 0.15, 0.01, 0.5, 0.9]))
    # responses need not be normalised
    peak = float(rng.choice([1.0, 1.0, 0.5, 0.25, 2.0, 64.0]))
    resp = resp * peak
    if rng.integers(3) == 0:
        resp = resp - (resp < 0.01) * rng.uniform(0, 0.01, resp.size)
        mon.ev("negative_responses", int(np.sum(resp < 0)))
    mon.ev("unnormalised", int(peak != 1))
    ok = [i for i in range(len(resp)) if resp[i] > thr]
    if not ok or float(ref.trapz(resp, wvl)) <= 0:
        return None
    wvl, resp = data.layout(rng, wvl), data.layout(rng, resp)
    chan = {"wavelength": wvl, "response": resp, "central_wavelength": 1.0}
    if thr == 0.15 and rng.integers(2):
        got = get_wave_range(chan)
    else:
        got = get_wave_range(chan, thr)
    mon.check(len(got) == 3, "range gives minimum, centre and maximum")
    mon.check(got[0] == wvl[ok[0]] and got[2] == wvl[ok[-1]], "range is the first and last sample above the threshold",
              got=got, want=(wvl[ok[0]], wvl[ok[-1]]), thr=thr, resp=resp, wvl=wvl)
    mon.close(got[1], float(ref.central(wvl, resp)), "centre of the range", rtol=1e-11)
    mon.ev("ranges")
    return (thr, len(wvl), float(wvl[0]))


@SUITE.case(quick=2500, thorough=20000)
def sorting(mon, rng, scratch):
    """sort_data."""
    n = int(rng.choice([1, 2, 3, 8, 50, 400] * 5 + [1025, 3000, 4097, 20000]))
    dtype = [np.float64, np.float32][rng.integers(2)]
    mode = int(rng.integers(4))
    if mode == 0:
        x = rng.uniform(0.3, 15, n)
    elif mode == 1:
        x = rng.integers(0, max(2, n // 2), n) / 8.0 + 0.5
    elif mode == 2:
        x = np.sort(rng.uniform(0.3, 15, n))[::-1].copy()
    else:
        base = rng.uniform(0.3, 15, max(1, n // 3))
        x = rng.choice(base, n)
        x = np.where(rng.integers(0, 3, n) == 0, np.nextafter(x, 99.), x)
    x = x.astype(dtype)
    y = rng.permutation(n).astype(dtype) / dtype(n) + dtype(1)
    x, y = data.layout(rng, x), data.layout(rng, y)
    x0, y0 = x.copy(), y.copy()
    gx, gy = sort_data(x, y)
    mon.ctx(mode=mode, n=n)
    mon.check(gx.shape == gy.shape, "as many responses as abscissae", gx=gx.shape, gy=gy.shape)
    mon.check(np.all(np.diff(gx) > 0), "abscissae strictly increasing", got=gx)
    mon.same(gx, np.unique(x0), "all distinct abscissae are kept, and no other")
    pairs = set(zip(x0.tolist(), y0.tolist()))
    mon.check(all(p in pairs for p in zip(gx.tolist(), gy.tolist())), "each abscissa keeps a response it had")
    mon.same(x, x0, "input untouched")
    mon.same(y, y0, "input untouched")
    mon.ev("sorted")
    mon.ev("duplicates", n - len(gx))
    return (mode, n, dtype.__name__, float(x0[0]))
