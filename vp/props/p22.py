"""P22: solar flux and irradiance."""
import os

import numpy as np

from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.solar import SolarIrradianceSpectrum
from pyspectral.utils import convert2wavenumber
from vp import data, ref
from vp.core import Suite

SUITE = Suite(
    "P22", "exploration",
    "A case draws a response (or a multi-detector band, from memory or from file) within 0.3 to 4.5 micrometre and "
    "compares flux, irradiance, scaling laws, detector choice, wave-space agreement and independence of earlier calls "
    "with a fine-grid integration of the tabulated spectrum; distinct by curve and options.",
    needs=["fluxes", "irradiances", "detectors", "wavenumber_agreement", "histories", "scaled_units", "custom_spectrum", "scaled_wavenumbers",
           "tables_compared", "spectra_rewritten"],
    assumptions=["vp/e490.txt is the ASTM E-490 table (its integral is checked against 1366.1 W/m2); the package's "
                 "table is compared with it."])

SPEC = ref.solar_spectrum()


def _band(rng, n=None, leak=False):
    centre = float(np.exp(rng.uniform(np.log(0.4), np.log(4.2))))
    wvl, resp = data.curve(rng, centre, centre * float(rng.uniform(0.02, 0.15)), n=n or int(rng.integers(8, 120)),
                           kind=str(rng.choice(["gauss", "ramp", "skewed", "multipeak", "gauss"])))
    if leak and rng.integers(6) == 0:
        # a leak far from the band, where the sun is brighter
        wvl = np.linspace(0.36, wvl[-1], 3000)
        resp = np.exp(-((wvl - centre) / (0.03 * centre)) ** 2) + float(rng.choice([9e-4, 5e-4, 5e-3]))
    return wvl, resp


def _check(mon, got, wvl, resp, dlambda, normalized, what, **kw):
    want, tol = ref.solar_flux(*SPEC, wvl, resp, dlambda, normalized)
    mon.check(abs(float(got) - want) <= tol, what, got=float(got), want=want, tol=tol, n=len(wvl), first=wvl[0], last=wvl[-1],
              dlambda=dlambda, **kw)


@SUITE.case(quick=520, thorough=8000)
def flux(mon, rng, scratch):
    """Flux and irradiance, scaling laws."""
    dl = float(rng.choice([0.0005, 0.001, 0.0005, 0.002]))
    spec = SolarIrradianceSpectrum(dlambda=dl)
    wvl, resp = _band(rng, leak=True)
    kind = int(rng.integers(3))
    if kind == 0:
        arg = {"wavelength": data.layout(rng, wvl), "response": data.layout(rng, resp)}
        opts = {}
    else:
        other = _band(rng)
        ndet = int(rng.choice([2, 3, 3, 5, 10, 11, 16, 21]))
        pick = 1 if kind == 2 else int(rng.integers(2, ndet + 1))
        # the order of the keys is not the order of the numbers
        arg = {f"det-{d}": {"wavelength": data.layout(rng, wvl if d == pick else other[0]),
                            "response": data.layout(rng, resp if d == pick else other[1] * (0.3 + 0.1 * d))}
               for d in rng.permutation(np.arange(1, ndet + 1))}
        opts = {"detector": [pick, str(pick)][rng.integers(2)]}
        if kind == 2:
            opts = [{}, {"detector": 1}][rng.integers(2)]
        mon.ev("detectors")
    mon.ctx(kind=kind, opts=opts)
    fl = spec.inband_solarflux(arg, **opts)
    ir = spec.inband_solarirradiance(arg, **opts)
    _check(mon, fl, wvl, resp, dl, False, "flux is the integral of irradiance times response")
    _check(mon, ir, wvl, resp, dl, True, "irradiance is the flux over the response integral")
    if kind:
        for bad in (0, len(arg) + 1, "0", -1):
            mon.raises(Exception, "a detector that is not there is refused",
                       spec.inband_solarflux if rng.integers(2) else spec.inband_solarirradiance, arg, detector=bad)
    mon.ev("fluxes")
    mon.ev("irradiances")
    # scaling of the response
    k = float(rng.choice([0.5, 2.0, 1e-3, 37.0]))
    scaled = {"wavelength": wvl.copy(), "response": resp * k}
    mon.close(spec.inband_solarflux(scaled), fl * k, "flux is proportional to the response", rtol=1e-9)
    mon.close(spec.inband_solarirradiance(scaled), ir, "irradiance does not depend on the response's scale", rtol=1e-9)
    # wavelengths in another unit
    unit = float(rng.choice([1e-3, 1e6]))
    other = {"wavelength": wvl / unit, "response": resp.copy()}
    mon.close(spec.inband_solarflux(other, scale=unit), fl, "scale of the wavelengths", rtol=1e-6)
    mon.close(spec.inband_solarirradiance(other, unit), ir, "scale of the wavelengths", rtol=1e-6)
    mon.ev("scaled_units")
    return (kind, dl, float(wvl[0]), wvl.size)


@SUITE.case(quick=240, thorough=3000)
def spaces(mon, rng, scratch):
    """Wavelength and wavenumber space agree."""
    # fine steps in both spaces
    wvl, resp = _band(rng, n=int(rng.integers(40, 150)))
    # a smooth part of the spectrum, for the spaces interpolate differently
    centre = float(rng.uniform(1.2, 3.9))
    wvl, resp = data.curve(rng, centre, centre * float(rng.uniform(0.04, 0.12)), n=int(rng.integers(40, 150)), kind="gauss",
                           uneven=bool(rng.integers(2)))
    bands = {"b": {"det-1": {"wavelength": wvl, "response": resp}}}
    for det in range(2, int(rng.integers(2, 5))):
        x = (wvl - wvl.mean()) / np.ptp(wvl) * 2
        bands["b"][f"det-{det}"] = {"wavelength": wvl + [0, 0.01][rng.integers(2)],
                                    "response": np.exp(-((x - rng.uniform(-0.3, 0.3)) * 2) ** 2) * float(rng.uniform(0.3, 1))}
    det = int(rng.integers(1, len(bands["b"]) + 1))
    wvl, resp = bands["b"][f"det-{det}"]["wavelength"], bands["b"][f"det-{det}"]["response"]
    opts = {"detector": det} if det > 1 or rng.integers(2) else {}
    mon.ctx(detector=det, detectors=len(bands["b"]))
    mon.ev("detectors", int(det > 1))
    wn, _ = convert2wavenumber(bands)
    swl = SolarIrradianceSpectrum(dlambda=0.0005)
    swn = SolarIrradianceSpectrum(dlambda=float(rng.choice([0.5, 1.0])), wavespace="wavenumber")
    mon.check(swl.units["flux"] == "W/m^2" and swn.units["flux"] == "mW/m^2", "unit of the flux",
              got=(swl.units, swn.units))
    fl = swl.inband_solarflux(bands["b"], **opts)
    fn = swn.inband_solarflux(wn["b"], **opts)
    mon.close(fn * 1e-3, fl, "flux agrees between wavelength and wavenumber space", rtol=2e-3, centre=centre)
    # irradiance: W/m2/um -> mW/m2/cm-1
    ir = swl.inband_solarirradiance(bands["b"], **opts)
    inr = swn.inband_solarirradiance(wn["b"], **opts)
    iw = float(ref.trapz(wn["b"][f"det-{det}"]["response"], wn["b"][f"det-{det}"]["wavenumber"]))
    il = float(ref.trapz(resp, wvl))
    mon.close(inr * iw * 1e-3, ir * il, "irradiance agrees between the spaces", rtol=4e-3)
    mon.close(inr, fn / iw, "irradiance is the flux over the response integral in wavenumber space", rtol=2e-3)
    mon.ev("wavenumber_agreement")
    # one detector on its own, wavenumbers in another unit
    one = wn["b"][f"det-{det}"]
    mon.close(swn.inband_solarflux({"wavenumber": one["wavenumber"], "response": one["response"]}), fn,
              "flux of a detector given on its own", rtol=1e-9)
    unit = float(rng.choice([0.01, 1e-3, 100.]))
    scaled = {f"det-{det}": {"wavenumber": data.layout(rng, one["wavenumber"] / unit),
                             "response": data.layout(rng, one["response"])}}
    if rng.integers(2):
        scaled = scaled[f"det-{det}"]
    mon.close(swn.inband_solarflux(scaled, unit, **opts), fn, "scale of the wavenumbers", rtol=1e-6)
    mon.close(swn.inband_solarirradiance(scaled, scale=unit, **opts), inr, "scale of the wavenumbers", rtol=1e-6)
    mon.ev("scaled_wavenumbers")
    return (centre, wvl.size, det)


@SUITE.case(quick=240, thorough=3000)
def history(mon, rng, scratch):
    """No result depends on which bands were processed before on the same object."""
    dl = float(rng.choice([0.0005, 0.001, 0.005]))
    space = str(rng.choice(["wavelength", "wavenumber"]))
    kw = {"dlambda": dl if space == "wavelength" else float(rng.choice([1.0, 2.0]))}
    if rng.integers(4) == 0:
        kw = {}
    if space == "wavenumber":
        kw["wavespace"] = space
    bands = []
    for _ in range(4):
        wvl, resp = _band(rng)
        b = {"x": {"det-1": {"wavelength": wvl, "response": resp}, "det-2": {"wavelength": wvl + 0.01,
                                                                           "response": resp * 0.7}}}
        if space == "wavenumber":
            b, _ = convert2wavenumber(b)
        bands.append(b["x"])
    fresh = {}
    for i, b in enumerate(bands):
        for det in (1, 2):
            for kind in ("flux", "irr"):
                s = SolarIrradianceSpectrum(**kw)
                fresh[i, det, kind] = (s.inband_solarflux if kind == "flux" else s.inband_solarirradiance)(b, detector=det)
    spec = SolarIrradianceSpectrum(**kw)
    const = spec.solar_constant()
    order = []
    for _ in range(12):
        i, det, kind = int(rng.integers(4)), int(rng.integers(1, 3)), str(rng.choice(["flux", "irr"]))
        order.append((i, det, kind))
        act = rng.integers(6)
        if act == 0:
            spec.interpolate(ival_wavelength=(0.5, 0.9) if space == "wavelength" else (5000., 6000.))
        elif act == 1:
            mon.same(np.asarray(spec.solar_constant()), np.asarray(const), "solar constant does not depend on history")
        got = (spec.inband_solarflux if kind == "flux" else spec.inband_solarirradiance)(bands[i], detector=det)
        mon.same(np.asarray(got), np.asarray(fresh[i, det, kind]), "no result depends on bands processed before",
                 order=order)
        mon.ev("histories")
    return (space, tuple(kw.items()), tuple(order))


@SUITE.case(quick=48, thorough=200)
def constant(mon, rng, scratch):
    """Solar constant, custom spectra, files."""
    want = float(ref.trapz(SPEC[1], SPEC[0]))
    mon.close(SolarIrradianceSpectrum().solar_constant(), want, "solar constant is the integral of the spectrum", rtol=1e-9)
    mon.check(abs(want - 1366.1) < 1.0, "the tabulated spectrum is the standard one", got=want)
    std = SolarIrradianceSpectrum()
    if std.wavelength is not None:
        mon.close(std.wavelength, SPEC[0], "wavelengths of the standard spectrum", rtol=1e-9)
        mon.close(std.irradiance, SPEC[1], "irradiances of the standard spectrum", rtol=1e-9)
        mon.ev("tables_compared")
    wn = 1e4 / SPEC[0][::-1]
    irr = SPEC[1][::-1] * SPEC[0][::-1] ** 2 * 0.1
    got = SolarIrradianceSpectrum(wavespace="wavenumber").solar_constant()
    mon.close(got, float(ref.trapz(irr, wn)), "solar constant in wavenumber space, in mW", rtol=1e-9)
    mon.close(got * 1e-3, want, "solar constant agrees between the spaces", rtol=5e-3)
    # an own spectrum
    x = np.cumsum(rng.uniform(0.001, 0.004, 900)) + 0.3
    y = 1000 * np.exp(-x) + 200 * np.sin(3 * x) ** 2 + 50
    path = scratch / "spec.dat"
    np.savetxt(path, np.c_[x, y], header="own spectrum", fmt="%.12g")
    xr, yr = np.loadtxt(path, unpack=True)
    spec = SolarIrradianceSpectrum([path, str(path)][rng.integers(2)], dlambda=0.0005)
    mon.close(spec.solar_constant(), float(ref.trapz(yr, xr)), "solar constant of an own spectrum", rtol=1e-9)
    wvl, resp = data.curve(rng, 1.2, 0.2, n=40, kind="gauss")
    got = spec.inband_solarflux({"wavelength": wvl, "response": resp})
    want, tol = ref.solar_flux(xr, yr, wvl, resp, 0.0005)
    mon.check(abs(got - want) <= tol, "flux of an own spectrum", got=got, want=want, tol=tol)
    # the file is rewritten (as long as before, or not), or another one has the same name elsewhere
    elsewhere = scratch / "other" / path.name
    elsewhere.parent.mkdir(exist_ok=True)
    for k, target in enumerate((path, elsewhere, path)):
        x2, y2 = (xr, yr * float(rng.choice([0.5, 0.25]))) if k < 2 else (xr[::2], yr[::2] + 7.0)
        stat = path.stat()
        np.savetxt(target, np.c_[x2, y2], header="own spectrum", fmt="%.12g")
        if rng.integers(2):
            os.utime(target, ns=(stat.st_atime_ns, stat.st_mtime_ns))
        x2, y2 = np.loadtxt(target, unpack=True)
        now = SolarIrradianceSpectrum([target, str(target)][rng.integers(2)], dlambda=0.0005)
        mon.close(now.solar_constant(), float(ref.trapz(y2, x2)), "solar constant of a rewritten spectrum", rtol=1e-9)
        got = now.inband_solarflux({"wavelength": wvl, "response": resp})
        want, tol = ref.solar_flux(x2, y2, wvl, resp, 0.0005)
        mon.check(abs(got - want) <= tol, "flux of a rewritten spectrum", got=got, want=want, tol=tol)
        mon.ev("spectra_rewritten")
    mon.close(spec.solar_constant(), float(ref.trapz(yr, xr)), "an object keeps the spectrum it has read", rtol=1e-9)
    mon.ev("custom_spectrum")
    # responses from a file
    data.use_config(scratch)
    bands = {"ch1": data.make_band(rng, 0.65, 0.05, ndet=2, kind="gauss", n=40),
             "ch2": data.make_band(rng, 3.7, 0.3, ndet=1, kind="gauss", n=40)}
    data.write_rsr(scratch / "f.h5", bands)
    rsr = RelativeSpectralResponse(filename=scratch / "f.h5")
    spec = SolarIrradianceSpectrum(dlambda=0.0005)
    for name, det in (("ch1", 1), ("ch2", 1), ("ch1", 2)):
        d = bands[name][f"det-{det}"]
        _check(mon, spec.inband_solarflux(rsr.rsr[name], detector=det), d["wavelength"], d["response"], 0.0005, False,
               "flux of a response from file", band=name, det=det)
        mon.ev("fluxes")
    return float(x[0])
