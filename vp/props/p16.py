"""P16: Rayleigh/aerosol reflectance is the interpolation of the table."""
import numpy as np

from pyspectral.rayleigh import Rayleigh
from vp import data, ref
from vp.core import Suite
from vp.tables import AEROSOLS, ATMOSPHERES, BANDNAMES

SUITE = Suite(
    "P16", "exploration",
    "A case writes different random tables for several aerosol and atmosphere types and a response file, asks for bands by "
    "name, alias and wavelength (also at table wavelengths) under angles inside, on and beyond the grid, and compares "
    "each pixel with a multilinear interpolation written independently; distinct by (aerosol, atmosphere, band, grid).",
    needs=["pixels", "large_calls", "beyond_table", "nan_angles", "missing_azimuths", "bands_by_name", "bands_by_alias", "wavelengths", "nodes", "tables_chosen", "tables_replaced"],
    assumptions=["Azimuth differences are within 0 to 180 degrees and table angles are evenly spaced, as in the "
                 "distributed tables."])

PLATFORMS = [("Suomi-NPP", "viirs", "viirs"), ("EOS-Aqua", "modis", "modis"), ("Himawari-8", "ahi", "ahi"),
             ("Meteosat-10", "seviri", "seviri"), ("NOAA-19", "avhrr/3", "avhrr3"), ("GOES-16", "abi", "abi"),
             ("Sentinel-3A", "olci", None), ("FY-3D", "mersi-2", None), ("Newsat-1", "newinstr", None)]


def angles(rng, shape, lut, specials=True, dtype="f8", missing_azimuth=False):
    """Random angles, some at or beyond the ends of the table."""
    n = int(np.prod(shape))
    sunz = rng.uniform(0, 89.5, n)
    satz = rng.uniform(0, 85, n)
    azi = rng.uniform(0, 180, n)
    if specials:
        for arr, pool in ((sunz, [0.0, 90.0, 95.0, 120.0, np.nan, -3.0, 60.0, 88.0]),
                          (satz, [0.0, 90.0, 100.0, np.nan, -1.0, 60.0, 75.0]), (azi, [0.0, 180.0, 90.0, 45.0])):
            for i in rng.integers(0, n, int(rng.integers(0, n // 2 + 1))):
                arr[i] = pool[rng.integers(len(pool))]
    if missing_azimuth:
        azi[rng.random(n) < 0.15] = np.nan
    return tuple(a.reshape(shape).astype(dtype) for a in (sunz, satz, azi))


def secant(zen, coord):
    """Secant of the zenith angle within the table."""
    zen = np.nan_to_num(np.asarray(zen, "f8"))
    sec = 1 / np.cos(np.deg2rad(np.clip(zen, 0, 89.9999999)))
    return np.clip(sec, 1.0, coord.max())


def wavelength_slice(lut, wvl):
    """Table at a wavelength (nm)."""
    coord = lut["wavelengths"]
    i = int(np.clip(np.searchsorted(coord, wvl, side="right") - 1, 0, len(coord) - 2))
    f = (wvl - coord[i]) / (coord[i + 1] - coord[i])
    tab = np.asarray(lut["reflectance"], "f8")
    return (1 - f) * tab[i] + f * tab[i + 1]


def expected(lut, wvl, sunz, satz, azi):
    """Reflectance (%) by multilinear interpolation."""
    tab = wavelength_slice(lut, wvl)
    azi = np.asarray(azi, "f8")
    res = 100 * ref.multilinear(
        [lut["sun_zenith_secant"], lut["azimuth_difference"], lut["satellite_zenith_secant"]], tab,
        [secant(sunz, lut["sun_zenith_secant"]), 180 - np.nan_to_num(azi), secant(satz, lut["satellite_zenith_secant"])])
    return np.where(np.isnan(azi), np.nan, res)


def random_lut(rng, shape=None):
    """A table with unevenly spaced wavelengths."""
    lut = data.rayleigh_lut(rng, *(() if shape is None else shape))
    n = len(lut["wavelengths"])
    if rng.integers(2):
        lut["wavelengths"] = np.r_[400.0, np.sort(rng.uniform(410, 790, n - 2)), 800.0]
    if rng.integers(2):
        lut = {k: v.astype("f4") if k == "reflectance" else v for k, v in lut.items()}
    return lut


@SUITE.case(quick=660, thorough=9000)
def interpolation(mon, rng, scratch):
    """Bands and wavelengths against the multilinear interpolation."""
    data.use_config(scratch)
    luts = {}
    aers = [str(x) for x in rng.choice(sorted(AEROSOLS), 2, replace=False)]
    if rng.integers(3) == 0:
        aers[0] = "marine_clean_aerosol"
        aers[1] = aers[1] if aers[1] != aers[0] else "rayleigh_only"
    atms = [str(x) for x in rng.choice(sorted(ATMOSPHERES), 2, replace=False)]
    if rng.integers(3) == 0:
        atms[0] = "us-standard"
        atms[1] = atms[1] if atms[1] != atms[0] else "tropical"
    alike = bool(rng.integers(2))
    shape = rng.integers(3, 9, 4)
    for aer in aers:
        for atm in atms:
            luts[aer, atm] = random_lut(rng, shape if alike else None)
            data.write_rayleigh_lut(scratch / "rayleigh" / aer / f"rayleigh_lut_{atm.replace(' ', '_')}.h5",
                                    luts[aer, atm])
    plat, instr, tabname = PLATFORMS[rng.integers(len(PLATFORMS))]
    table = BANDNAMES.get(instr, BANDNAMES.get(tabname, BANDNAMES["generic"]))
    std = sorted(set(table.values()))
    names = [str(x) for x in rng.choice(std, 3, replace=False)]
    bands = {}
    for i, name in enumerate(names):
        bands[name] = data.make_band(rng, float(rng.uniform(0.45, 0.75)), float(rng.uniform(0.01, 0.08)),
                                     ndet=int(rng.choice([1, 2, 11])), descending=bool(rng.integers(6) == 0))
    data.write_rsr(scratch / "rsr" / data.rsr_name(plat, instr), bands, platform_name=plat, sensor=instr)
    hist = []
    objs = {}
    for _ in range(4):
        aer, atm = aers[rng.integers(2)], atms[rng.integers(2)]
        kw = {"aerosol_type": aer, "atmosphere": atm}
        if aer == "marine_clean_aerosol" and rng.integers(2):
            kw.pop("aerosol_type")
        if atm == "us-standard" and rng.integers(2):
            kw.pop("atmosphere")
        if (aer, atm) in objs and rng.integers(2):
            ray = objs[aer, atm]
        else:
            ray = objs[aer, atm] = Rayleigh(plat, instr, **kw)
        if rng.integers(5) == 0:
            # an update replaces the table
            lut = luts[aer, atm] = random_lut(rng, shape if alike else None)
            path = scratch / "rayleigh" / aer / f"rayleigh_lut_{atm.replace(' ', '_')}.h5"
            with data.keep_times(rng, path):
                data.write_rayleigh_lut(path, lut)
            mon.ev("tables_replaced")
        lut = luts[aer, atm]
        mon.ev("tables_chosen")
        kind = str(rng.choice(["name", "alias", "wavelength", "node"]))
        name = names[rng.integers(3)]
        slack = 0
        if kind == "alias":
            al = [a for a, s in table.items() if s == name and a not in bands]
            if not al:
                kind = "name"
        if kind in ("name", "alias"):
            arg = name if kind == "name" else str(rng.choice(al))
            d = bands[name]["det-1"]
            w = d["wavelength"]
            wvl = float(ref.central(w, d["response"], 1.0 / w.astype(np.longdouble) ** 4)) * 1000
            mon.ev("bands_by_name" if kind == "name" else "bands_by_alias")
        elif kind == "wavelength":
            wvl = float(rng.uniform(401, 799))
            arg = [wvl / 1000, np.float64(wvl / 1000), np.float32(wvl / 1000)][rng.integers(3)]
            wvl = float(arg) * 1000
            # rounding of the wavelength itself
            slack = 200 * wvl * np.finfo(np.asarray(arg).dtype).eps / np.min(np.diff(lut["wavelengths"]))
            mon.ev("wavelengths")
        else:
            wvl = float(lut["wavelengths"][rng.integers(1, len(lut["wavelengths"]) - 1)])
            arg = wvl / 1000
            mon.ev("nodes")
        size = [(int(rng.integers(1, 9)), int(rng.integers(1, 9))), (int(rng.integers(1, 30)),)][rng.integers(2)]
        if rng.integers(40) == 0:
            size = data.large_shape(rng, None, 132000)
            mon.ev("large_calls")
        sunz, satz, azi = (data.layout(rng, a) for a in angles(rng, size, lut, missing_azimuth=rng.integers(3) == 0))
        mon.ctx(platform=plat, instrument=instr, aerosol=aer, atmosphere=atm, band=arg, wvl=wvl, kind=kind)
        got = ray.get_reflectance(sunz, satz, azi, arg)
        want = np.clip(expected(lut, wvl, sunz, satz, azi), 0, 100)
        mon.close(got, want, "reflectance is the multilinear interpolation of the chosen table", rtol=2e-6,
                  atol=(3e-5 + slack) * np.abs(lut["reflectance"]).max(), shape=size)
        mon.ev("pixels", want.size)
        mon.ev("missing_azimuths", int(np.sum(np.isnan(azi))))
        mon.ev("nan_angles", int(np.sum(np.isnan(sunz) | np.isnan(satz))))
        mon.ev("beyond_table", int(np.sum((np.nan_to_num(sunz) >= 88.5) | (np.nan_to_num(satz) >= 80))))
        # each pixel depends on its own angles only
        if want.size > 1:
            perm = rng.permutation(want.size)
            again = ray.get_reflectance(sunz.ravel()[perm], satz.ravel()[perm], azi.ravel()[perm], arg)
            mon.close(again, got.ravel()[perm], "a pixel depends on its own angles only", rtol=1e-12, atol=1e-12)
        hist.append((aer, atm, kind, size))
    return (plat, tuple(hist))


@SUITE.case(quick=180, thorough=1500)
def grid_points(mon, rng, scratch):
    """At the grid points the table values themselves are returned."""
    data.use_config(scratch)
    lut = random_lut(rng)
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
    ray = Rayleigh("Newsat-1", "newinstr")
    iw = int(rng.integers(1, len(lut["wavelengths"]) - 1))
    n = 40
    i = rng.integers(0, len(lut["sun_zenith_secant"]), n)
    j = rng.integers(0, len(lut["azimuth_difference"]), n)
    k = rng.integers(0, len(lut["satellite_zenith_secant"]), n)
    sunz = np.rad2deg(np.arccos(1 / lut["sun_zenith_secant"][i]))
    satz = np.rad2deg(np.arccos(1 / lut["satellite_zenith_secant"][k]))
    azi = 180 - lut["azimuth_difference"][j]
    got = ray.get_reflectance(sunz, satz, azi, lut["wavelengths"][iw] / 1000)
    mon.close(got, 100.0 * lut["reflectance"][iw].astype("f8")[i, j, k], "table values at the grid points", rtol=5e-6, atol=3e-5 * np.abs(lut["reflectance"]).max())
    mon.ev("nodes", n)
    # beyond the table: the last angle of the table
    smax = np.rad2deg(np.arccos(1 / lut["sun_zenith_secant"][-1]))
    vmax = np.rad2deg(np.arccos(1 / lut["satellite_zenith_secant"][-1]))
    w = float(rng.uniform(0.41, 0.79))
    a = rng.uniform(0, 180, 5)
    z = rng.uniform(0, 50, 5)
    base = ray.get_reflectance(np.full(5, smax), z, a, w)
    for beyond in (smax + 0.01, 90.0, 91.0, 150.0):
        mon.close(ray.get_reflectance(np.full(5, beyond), z, a, w), base, "sun beyond the table uses its end", rtol=1e-9)
    base = ray.get_reflectance(z, np.full(5, vmax), a, w)
    for beyond in (vmax + 0.01, 90.0, 95.0):
        mon.close(ray.get_reflectance(z, np.full(5, beyond), a, w), base, "satellite beyond the table uses its end", rtol=1e-9)
    base = ray.get_reflectance(np.zeros(5), z, a, w)
    mon.close(ray.get_reflectance(np.full(5, np.nan), z, a, w), base, "missing sun angle counts as zero", rtol=1e-12)
    base = ray.get_reflectance(z, np.zeros(5), a, w)
    mon.close(ray.get_reflectance(z, np.full(5, np.nan), a, w), base, "missing satellite angle counts as zero", rtol=1e-12)
    mon.ev("beyond_table", 5)
    return (iw, float(w), tuple(lut["reflectance"].shape))


@SUITE.case(quick=90, thorough=300)
def refused(mon, rng, scratch):
    """Missing data are reported."""
    data.use_config(scratch)
    lut = random_lut(rng)
    ray = Rayleigh("Newsat-1", "newinstr")
    a = np.full((2, 3), 30.0)
    mon.raises(FileNotFoundError, "a missing table is reported", ray.get_reflectance, a, a, a, 0.5)
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
    mon.raises(KeyError, "missing responses are reported", ray.get_reflectance, a, a, a, "ch1")
    ray2 = Rayleigh("Newsat-1", "newinstr", atmosphere="tropical")
    mon.raises(FileNotFoundError, "another atmosphere's table does not serve", ray2.get_reflectance, a, a, a, 0.5)
    ray3 = Rayleigh("Newsat-1", "newinstr", aerosol_type="rural_aerosol")
    mon.raises(FileNotFoundError, "another aerosol's table does not serve", ray3.get_reflectance, a, a, a, 0.5)
    bands = {"ch1": data.make_band(rng, 0.55, 0.05)}
    data.write_rsr(scratch / "rsr" / data.rsr_name("Newsat-1", "newinstr"), bands, platform_name="Newsat-1")
    mon.raises(KeyError, "an unknown band is reported", ray.get_reflectance, a, a, a, "ch99")
    mon.raises(ValueError, "an unstated sensor of a platform with several is refused", Rayleigh, "Sentinel-3A", "modis")
    return float(lut["reflectance"].flat[0])
