"""P10: band radiances by direct use of the response, and back."""
import numpy as np

from pyspectral.radiance_tb_conversion import RadTbConverter
from vp import data, ref
from vp.core import Suite
from vp.tables import BANDNAMES

SUITE = Suite(
    "P10", "exploration",
    "A case writes a response file with several bands and detectors, creates converters by name, alias and wavelength in "
    "one of the two wave spaces and compares radiances of scalar/sequence/array temperatures (with bad values among "
    "them), units and inverse with extended-precision integration; distinct by (instrument, band, detector, space, curve).",
    needs=["radiances", "wavenumber", "wavelength", "unnormalised", "aliases", "by_wavelength", "second_detector",
           "inverses", "narrow_round_trips", "refusals", "look_alikes", "near_misses"])

#: platform, instrument: bands of the alias table used
PLATFORMS = [("Meteosat-9", "seviri"), ("EOS-Aqua", "modis"), ("Suomi-NPP", "viirs"), ("Himawari-8", "ahi"),
             ("NOAA-18", "avhrr/3"), ("GOES-16", "abi"), ("FY-4A", "agri"), ("Meteosat-12", "fci"), ("Other-1", "other")]
UNITS = {("wavelength", True): "W/m^2 sr^-1 m^-1", ("wavelength", False): "W/m^2 sr^-1",
         ("wavenumber", True): "W/m^2 sr^-1 (m^-1)^-1", ("wavenumber", False): "W/m^2 sr^-1"}


def _rad(conv, *args, **kw):
    res = conv.tb2radiance(*args, **kw)
    return res, np.asarray(res["radiance"], dtype="f8")


def _setup(rng, scratch, narrow):
    plat, instr = PLATFORMS[rng.integers(len(PLATFORMS))]
    table = BANDNAMES.get(instr, BANDNAMES["generic"])
    std = sorted(set(table.values()))
    names = [str(x) for x in rng.choice(std, min(3, len(std)), replace=False)]
    bands = {}
    for i, name in enumerate(names):
        centre = float(rng.uniform(3.4, 4.2) + i * rng.uniform(3, 4.5))
        if rng.integers(4) == 0:
            centre = float(round(centre)) + float(rng.uniform(-0.02, 0.02))      # selected by an integer
        width = centre * (float(rng.uniform(0.001, 0.004)) if narrow else float(rng.uniform(0.01, 0.2)))
        bands[name] = data.make_band(rng, centre, width, ndet=int(rng.choice([1, 1, 2, 2, 3, 11])),
                                     n=int(rng.choice([3, 12, 40, 150])), descending=bool(rng.integers(6) == 0))
    how = int(rng.integers(6))
    for dets in bands.values() if how < 3 else ():
        for d in dets.values():
            rsp = d["response"]
            if how == 1:
                rsp = np.where(rsp < 0.05 * np.max(rsp), -0.004 * np.max(rsp), rsp)      # noise around zero
            rsp = rsp * [100., 1., 3e-3][how]                                             # percent, or small
            d["response"] = rsp
            d["central_wavelength"] = float(ref.central(d["wavelength"], rsp))
    dtype = str(rng.choice(["f8", "f8", "f4"]))
    data.write_rsr(scratch / "rsr" / data.rsr_name(plat, instr), bands, platform_name=plat, sensor=instr, dtype=dtype,
                   scale=float(rng.choice([1e-6, 1e-9])))
    return plat, instr, table, bands, dtype


def _temps(rng):
    n = int(rng.choice([1, 2, 7, 40, 1025], p=[.24, .24, .24, .24, .04]))
    t = rng.uniform(160, 350, n)
    return t


@SUITE.case(quick=960, thorough=12000)
def radiance(mon, rng, scratch):
    """Radiances against extended-precision integration."""
    data.use_config(scratch)
    narrow = bool(rng.integers(3) == 0)
    plat, instr, table, bands, dtype = _setup(rng, scratch, narrow)
    name = str(rng.choice(list(bands)))
    det = str(rng.choice(list(bands[name])))
    space = str(rng.choice(["wavelength", "wavenumber"]))
    kw = {"detector": det, "wavespace": space}
    if det == "det-1" and rng.integers(2):
        kw.pop("detector")
    if space == "wavelength" and rng.integers(2):
        kw.pop("wavespace")
    mon.ctx(platform=plat, instrument=instr, band=name, kw=kw, dtype=dtype)
    conv = RadTbConverter(plat, instr, name, **kw)
    mon.ev(space)
    if det != "det-1":
        mon.ev("second_detector")
    d = bands[name][det]
    wvl = (d["wavelength"]).astype("f8")
    resp = d["response"].astype(dtype).astype("f8")
    tol = 2e-9 if dtype == "f8" else 2e-5
    if space == "wavelength":
        wave, cen = wvl * 1e-6, d["central_wavelength"] * 1e-6
    else:
        wave = 1e6 / wvl[::-1]
        resp = resp[::-1]
        cen = float(ref.central(wave, resp))
    if dtype == "f4":
        # cancellation in the trapezoids over single-precision abscissae
        tol *= max(1.0, 0.1 * float(np.max(wvl) / np.min(np.abs(np.diff(wvl)))) * 1e-1)
    temps = _temps(rng)
    for normalized in (True, False):
        want = np.asarray(ref.band_radiance(wave, resp, temps, normalized, space == "wavenumber"), "f8")
        form = int(rng.integers(4))
        arg = [temps, list(map(float, temps)), tuple(map(float, temps)), data.layout(rng, temps)][form]
        if len(temps) == 1 and rng.integers(2):
            arg = float(temps[0])
        if normalized and rng.integers(2):
            res, got = _rad(conv, arg)
        else:
            res, got = _rad(conv, arg, normalized=[bool, np.bool_, int][rng.integers(3)](normalized))
            mon.ev("radiances")
        if not normalized:
            mon.ev("unnormalised")
        mon.check(got.size == want.size, "one radiance per temperature", got=got.shape, want=want.shape)
        mon.close(got.ravel(), want, "band radiance is the response weighted integral of Planck's law", rtol=tol,
                  normalized=normalized, space=space)
        mon.check(res["unit"] == UNITS[(space, normalized)] and res["scale"] == 1.0, "unit of the radiance",
                  got=(res["unit"], res["scale"]), normalized=normalized, space=space)
    mon.ev("radiances")
    # temperatures in one call do not influence each other
    mixed = np.r_[temps, np.nan, temps[::-1], 0.0, temps[:1]]
    _, got = _rad(conv, mixed)
    _, base = _rad(conv, temps)
    n = len(temps)
    mon.close(got[:n], base, "a bad temperature does not influence the others", rtol=1e-13)
    mon.close(got[n + 1:2 * n + 1], base[::-1], "order of temperatures is kept", rtol=1e-13)
    mon.check(np.isnan(got[n]), "NaN temperature gives NaN", got=got[n])
    # monotone
    ts = np.sort(rng.uniform(160, 350, 30))
    _, got = _rad(conv, ts)
    mon.check(np.all(np.diff(got) > 0), "radiance increases with temperature", got=got)
    # inverse with the central wavelength / wavenumber
    _, rad = _rad(conv, temps)
    back = np.asarray(conv.radiance2tb(rad), "f8")
    want = np.asarray((ref.inv_wn if space == "wavenumber" else ref.inv_wl)(cen, rad), "f8")
    mon.close(back, want, "inverse uses the central wavelength/wavenumber of band and detector",
              rtol=1e-9 if dtype == "f8" else 1e-5)
    mon.ev("inverses")
    if narrow and dtype == "f8":
        mon.check(np.all(np.abs(back - temps) < 0.1), "temperature recovered for a narrow band",
                  error=float(np.max(np.abs(back - temps))))
        mon.ev("narrow_round_trips")
    # equivalent selections
    aliases = [a for a, s in table.items() if s == name and a not in bands]
    other = []
    if aliases:
        other.append(str(rng.choice(aliases)))
        mon.ev("aliases")
    c1 = bands[name]["det-1"]["central_wavelength"]
    others = [abs(b["det-1"]["central_wavelength"] - c1) for k, b in bands.items() if k != name]
    if not others or min(others) > 0.5:
        # a stored name which is itself an alias of another band cannot be found by wavelength
        if table.get(name, name) == name:
            other.append(c1 + float(rng.uniform(-0.09, 0.09)))
            mon.ev("by_wavelength")
            form = int(rng.integers(4))
            if form == 1:
                other[-1] = np.float64(other[-1])
            elif form == 2:
                other[-1] = np.float32(other[-1])
            if abs(c1 - round(c1)) < 0.09 and rng.integers(2):
                other.append([int, np.int64][rng.integers(2)](round(c1)))
    for sel in other:
        conv2 = RadTbConverter(plat, instr, sel, **kw)
        _, got2 = _rad(conv2, temps)
        mon.same(got2, base, "selecting the band by name, alias or wavelength is equivalent", selector=sel)
        mon.same(np.asarray(conv2.radiance2tb(rad)), np.asarray(conv.radiance2tb(rad)),
                 "equivalent selections invert equally", selector=sel)
    return (plat, name, det, space, dtype, narrow, float(wvl[0]))


@SUITE.case(quick=180, thorough=1500)
def refused(mon, rng, scratch):
    """What cannot be answered is refused."""
    data.use_config(scratch)
    plat, instr, table, bands, dtype = _setup(rng, scratch, False)
    name = str(rng.choice(list(bands)))
    mon.raises(AttributeError, "unknown wave space", RadTbConverter, plat, instr, name, wavespace="frequency")
    space = str(rng.choice(["wavelength", "wavenumber"]))
    mon.raises(Exception, "unknown band", RadTbConverter, plat, instr, "no such band", wavespace=space)
    mon.raises(Exception, "wavelength of no band", RadTbConverter, plat, instr, 0.55, wavespace=space)
    centres = np.array([b["det-1"]["central_wavelength"] for b in bands.values()])
    for off in (0.101, -0.101, 0.15, -0.19, 0.3, -0.7, 1.1):
        near = float(rng.choice(centres)) + off
        if np.min(np.abs(centres - near)) > 0.1005:
            mon.raises(Exception, "wavelength near, but of no band", RadTbConverter, plat, instr, near, wavespace=space)
            mon.ev("near_misses")
    mon.raises(Exception, "unknown detector", RadTbConverter, plat, instr, name, detector="det-77", wavespace=space)
    mon.raises(FileNotFoundError, "no response file", RadTbConverter, "Nosat-1", "noinstr", name)
    return (plat, name, space)


@SUITE.case(quick=180, thorough=2000)
def look_alikes(mon, rng, scratch):
    """Response files which differ only in the interior of a curve, one after the other."""
    data.use_config(scratch)
    n = int(rng.integers(4, 30))
    centre = float(rng.uniform(3.5, 12))
    base = np.sort(rng.uniform(centre * 0.95, centre * 1.05, n))
    resp = rng.uniform(0.1, 1.0, n)
    space = str(rng.choice(["wavelength", "wavenumber"]))
    temps = rng.uniform(200, 320, 4)
    hist = []
    for rnd in range(int(rng.integers(2, 5))):
        wvl, rsp = base.copy(), resp.copy()
        what = str(rng.choice(["same", "wave", "response", "swap"])) if rnd else "same"
        if what == "wave":
            wvl[1:-1] = np.sort(rng.uniform(base[0], base[-1], n - 2))
        elif what == "response":
            rsp[1:-1] = rng.uniform(0.1, 1.0, n - 2)
        elif what == "swap":
            rsp[1:-1] = rsp[1:-1][::-1]        # same ends, sum, maximum and length
        hist.append(what)
        plat = str(rng.choice(["Other-1", "Other-2"]))
        det = {"det-1": {"wavelength": wvl, "response": rsp, "central_wavelength": float(centre)}}
        data.write_rsr(scratch / "rsr" / data.rsr_name(plat, "other"), {"ch4": det}, platform_name=plat, sensor="other", dtype="f8")
        mon.ctx(history=hist, space=space)
        conv = RadTbConverter(plat, "other", "ch4", wavespace=space)
        wave, r = (wvl * 1e-6, rsp) if space == "wavelength" else (1e6 / wvl[::-1], rsp[::-1])
        for normalized in (True, False):
            want = np.asarray(ref.band_radiance(wave, r, temps, normalized, space == "wavenumber"), "f8")
            _, got = _rad(conv, temps, normalized=normalized)
            mon.close(got, want, "band radiance of the response now in the file", rtol=2e-8)
        mon.ev("look_alikes")
    return (tuple(hist), space, n, centre)


@SUITE.case(quick=240, thorough=3000)
def interleaved(mon, rng, scratch):
    """Several converters used alternately do not influence each other."""
    data.use_config(scratch)
    plat, instr, table, bands, dtype = _setup(rng, scratch, False)
    todo = [(b, d, s) for b in bands for d in bands[b] for s in ("wavelength", "wavenumber")]
    todo = [todo[i] for i in rng.permutation(len(todo))[:5]]
    temps = _temps(rng)
    want = {}
    for b, d, s in todo:
        wvl, resp = bands[b][d]["wavelength"], bands[b][d]["response"].astype(dtype).astype("f8")
        wave = wvl * 1e-6 if s == "wavelength" else 1e6 / wvl[::-1]
        resp = resp if s == "wavelength" else resp[::-1]
        want[b, d, s] = np.asarray(ref.band_radiance(wave, resp, temps, True, s == "wavenumber"), "f8")
    convs = {key: RadTbConverter(plat, instr, key[0], detector=key[1], wavespace=key[2]) for key in todo}
    first = {}
    for rnd in range(3):
        for i in rng.permutation(len(todo)):
            key = todo[i]
            _, got = _rad(convs[key], temps)
            mon.ev("radiances")
            if dtype == "f8":
                mon.close(got, want[key], "each converter gives its own band's radiance", rtol=2e-9, key=key)
            else:
                mon.close(got, want[key], "each converter gives its own band's radiance", rtol=5e-3, key=key)
            if rng.integers(2):
                convs[key].tb2radiance(temps, normalized=False)
                convs[key].radiance2tb(got)
            mon.same(got, first.setdefault(key, got), "repeated conversions are identical", key=key)
    return (plat, tuple(todo))
