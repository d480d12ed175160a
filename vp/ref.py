"""Independent reference computations (extended precision where it matters).

Nothing here imports pyspectral.
"""
import numpy as np

LD = np.longdouble
H = LD("6.62606957e-34")
K = LD("1.3806488e-23")
C = LD("2.99792458e8")
C1 = H * C / K          # hc/k
C2 = 2 * H * C * C      # 2hc^2


def planck_wl(wavelength, temp):
    """Spectral radiance at wavelength(s) [m] and temperature(s) [K]: rows=temperatures."""
    w = np.atleast_1d(np.asarray(wavelength)).astype(LD)[np.newaxis, :]
    t = np.atleast_1d(np.asarray(temp)).astype(LD).reshape(-1, 1)
    with np.errstate(all="ignore"):
        return C2 / w**5 / np.expm1(C1 / (w * t))


def planck_wn(wavenumber, temp):
    """Spectral radiance at wavenumber(s) [m-1]."""
    w = np.atleast_1d(np.asarray(wavenumber)).astype(LD)[np.newaxis, :]
    t = np.atleast_1d(np.asarray(temp)).astype(LD).reshape(-1, 1)
    with np.errstate(all="ignore"):
        return C2 * w**3 / np.expm1(C1 * w / t)


def x_wl(wavelength, temp):
    """hc/(lambda k T)."""
    w = np.atleast_1d(np.asarray(wavelength)).astype(LD)[np.newaxis, :]
    t = np.atleast_1d(np.asarray(temp)).astype(LD).reshape(-1, 1)
    with np.errstate(all="ignore"):
        return C1 / (w * t)


def inv_wl(wavelength, rad):
    """Temperature from spectral radiance."""
    w = np.asarray(wavelength).astype(LD)
    r = np.asarray(rad).astype(LD)
    with np.errstate(all="ignore"):
        return C1 / (w * np.log1p(C2 / (r * w**5)))


def inv_wn(wavenumber, rad):
    """Temperature from spectral radiance (per wavenumber)."""
    w = np.asarray(wavenumber).astype(LD)
    r = np.asarray(rad).astype(LD)
    with np.errstate(all="ignore"):
        return C1 * w / np.log1p(C2 * w**3 / r)


def trapz(y, x):
    """Trapezoidal integral over the last axis, in extended precision."""
    y = np.asarray(y).astype(LD)
    x = np.asarray(x).astype(LD)
    return np.sum((y[..., 1:] + y[..., :-1]) * 0.5 * (x[1:] - x[:-1]), axis=-1)


def central(wav, resp, weight=1.0):
    """Response weighted mean."""
    wav = np.asarray(wav).astype(LD)
    resp = np.asarray(resp).astype(LD) * weight
    return trapz(resp * wav, wav) / trapz(resp, wav)


def band_radiance(wave_si, resp, tbs, normalized=True, wavenumber=False):
    """Planck's law integrated over the response."""
    func = planck_wn if wavenumber else planck_wl
    b = func(wave_si, tbs) * np.asarray(resp).astype(LD)
    res = trapz(b, wave_si)
    return res / trapz(resp, wave_si) if normalized else res


def multilinear(coords, table, points):
    """Multilinear interpolation on a regular grid given by its coordinate vectors.

    coords: list of 1-d increasing vectors, table: len(coords)-dimensional,
    points: list of arrays (flat), all within the coordinate ranges
    (the outermost cell is extended linearly otherwise).
    """
    idx, frac = [], []
    for cvec, pnt in zip(coords, points):
        cvec = np.asarray(cvec, dtype=np.float64)
        pnt = np.asarray(pnt, dtype=np.float64)
        i = np.clip(np.searchsorted(cvec, pnt, side="right") - 1, 0, len(cvec) - 2)
        idx.append(i)
        frac.append((pnt - cvec[i]) / (cvec[i + 1] - cvec[i]))
    res = np.zeros(np.shape(points[0]), dtype=np.float64)
    n = len(coords)
    for corner in range(2**n):
        w = np.ones_like(res)
        sel = []
        for d in range(n):
            hi = (corner >> d) & 1
            w = w * (frac[d] if hi else 1 - frac[d])
            sel.append(idx[d] + hi)
        res += w * np.asarray(table, dtype=np.float64)[tuple(sel)]
    return res


def limb(tb, zen):
    """DWD limb correction."""
    tb = np.asarray(tb, dtype=np.float64)
    zen = np.asarray(zen, dtype=np.float64)
    with np.errstate(all="ignore"):
        nadir = tb + 10.85 ** ((tb - 210.0) / 110.0) - 1.0
        off = tb + ((tb - 170.0) / 125.0) ** 4 * (7.2 ** (zen / 70.0) - 1.0)
        return np.where(zen == 0, nadir, np.where((zen > 0) & (zen < 90), off, tb))


def solar_flux(spec_wave, spec_irr, wave, resp, dlambda, normalized=False):
    """In-band solar flux (or irradiance): (fine-grid value, discretisation error allowance).

    Smooth (cubic, not-a-knot) interpolation of spectrum and response, integrated
    on a fine grid; the allowance is what a grid of the given step may differ.
    """
    from scipy.interpolate import CubicSpline
    wave = np.asarray(wave, dtype=np.float64)
    resp = np.asarray(resp, dtype=np.float64)
    margin = 40
    lo = max(0, np.searchsorted(spec_wave, wave[0]) - margin)
    hi = min(len(spec_wave), np.searchsorted(spec_wave, wave[-1]) + margin)
    sun = CubicSpline(spec_wave[lo:hi], spec_irr[lo:hi])
    rsp = CubicSpline(wave, resp) if len(wave) > 3 else None
    if rsp is None:
        pol = np.polyfit(wave - wave[0], resp, len(wave) - 1)
        def rsp(x):
            return np.polyval(pol, x - wave[0])

    def integrate(n):
        x = np.linspace(wave[0], wave[-1], n)
        r = rsp(x)
        val = float(trapz(sun(x) * r, x))
        return val / float(trapz(r, x)) if normalized else val

    n = int(round((wave[-1] - wave[0]) / dlambda)) + 1
    coarse = integrate(max(n, 2))
    fine = integrate(max(20 * n, 4001))
    return fine, 2.5 * abs(coarse - fine) + 2e-7 * abs(fine)


def solar_spectrum():
    """ASTM E-490: wavelength (micrometre) and irradiance (W/m2/micrometre); our own copy, not the package's file."""
    import os
    arr = np.loadtxt(os.path.join(os.path.dirname(__file__), "e490.txt"))
    return arr[:, 0], arr[:, 1]
