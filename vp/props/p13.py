"""P13: SEVIRI regression conversion."""
import dask.array as da
import numpy as np

from pyspectral.radiance_tb_conversion import SeviriRadTbConverter
from vp.core import Suite
from vp.ref import C1, C2, LD
from vp.tables import BANDNAMES, SEVIRI

SUITE = Suite(
    "P13", "exploration",
    "Every table band, and every alias of it, for every tabulated satellite is converted both ways for scalar, list-free "
    "array, integer and chunked input against the published formula with frozen coefficients; everything without "
    "coefficients is asked for as well; distinct by (satellite, name, input kind).",
    needs=["conversions", "round_trips", "aliases", "refusals", "chunked", "scalars", "extreme"])

#: name -> canonical band with published coefficients
NAMES = {}
for _name in SEVIRI:
    NAMES[_name] = _name
for _alias, _std in BANDNAMES["seviri"].items():
    if _std in SEVIRI:
        NAMES[_alias] = _std
ALL = sorted((name, sat) for name, std in NAMES.items() for sat, c in SEVIRI[std].items() if c)
VISIBLE = sorted(set(BANDNAMES["seviri"]) | set(BANDNAMES["seviri"].values()))
VISIBLE = [n for n in VISIBLE if n not in NAMES]
OTHER_SATS = ["Meteosat-10", "Meteosat-11", "Meteosat-7", "Meteosat-12", "meteosat-8", "Meteosat-08", "GOES-16", ""]


def _rad(coef, tb):
    vc, a, b = (LD(str(x)) for x in coef)
    vc = vc * 100
    return C2 * vc**3 / (np.exp(C1 * vc / (a * np.asarray(tb).astype(LD) + b)) - 1)


def _tb(coef, rad):
    vc, a, b = (LD(str(x)) for x in coef)
    vc = vc * 100
    return C1 * vc / (a * np.log(C2 * vc**3 / np.asarray(rad).astype(LD) + 1)) - b / a


@SUITE.case(quick=2 * len(ALL), thorough=60 * len(ALL))
def formula(mon, rng, scratch):
    """Both directions."""
    name, sat = ALL[mon.index % len(ALL)]
    coef = SEVIRI[NAMES[name]][sat]
    conv = SeviriRadTbConverter(sat, name)
    mon.ctx(name=name, sat=sat, coef=coef)
    if name not in SEVIRI:
        mon.ev("aliases")
    shape = [(), (7,), (3, 4), (1,)][rng.integers(4)]
    temps = rng.uniform(170, 340, shape)
    if rng.integers(4) == 0:
        temps = rng.uniform(45, 170, shape) if rng.integers(2) else rng.uniform(340, 3000, shape)
        mon.ev("extreme")
    kind = str(rng.choice(["array", "float", "chunked", "int", "f4"]))
    arg = temps
    if kind == "float" or shape == ():
        arg = float(temps.flat[0]) if shape else float(temps)
        temps = np.asarray(arg)
        kind = "float"
        mon.ev("scalars")
    elif kind == "chunked":
        arg = da.from_array(temps, chunks=2)
        mon.ev("chunked")
    elif kind == "int":
        temps = np.round(temps)
        arg = temps.astype(int)
    elif kind == "f4":
        arg = temps.astype("f4")
        temps = arg.astype("f8")
    tol = 2e-4 if kind == "f4" else 1e-11
    res = conv.tb2radiance(arg)
    got = np.asarray(res["radiance"], "f8")
    mon.close(got, np.asarray(_rad(coef, temps), "f8"), "Tb to radiance follows the published formula", rtol=tol)
    mon.check(res["unit"] == "W/m^2 sr^-1 (m^-1)^-1" and res["scale"] == 1.0, "unit", got=res["unit"])
    mon.ev("conversions")
    back = np.asarray(conv.radiance2tb(res["radiance"]), "f8")
    mon.close(back, temps, "exact inverse", rtol=2e-5 if kind == "f4" else 1e-11)
    mon.ev("round_trips")
    rad = np.asarray(_rad(coef, temps), "f8") * rng.uniform(0.8, 1.2)
    arg2 = float(rad) if kind == "float" else (da.from_array(rad, chunks=2) if kind == "chunked" else rad)
    mon.close(np.asarray(conv.radiance2tb(arg2), "f8"), np.asarray(_tb(coef, rad), "f8"),
              "radiance to Tb follows the published formula", rtol=1e-11)
    # other satellites' converters in between change nothing
    other = SeviriRadTbConverter("Meteosat-8" if sat == "Meteosat-9" else "Meteosat-9", name)
    other.tb2radiance(arg)
    other.radiance2tb(arg2)
    mon.same(np.asarray(conv.tb2radiance(arg)["radiance"]), np.asarray(res["radiance"]), "repeated conversion is identical")
    mon.same(np.asarray(conv.tb2radiance(arg, normalized=True, lut=None)["radiance"]), np.asarray(res["radiance"]),
             "explicit defaults are the defaults")
    mon.raises(NotImplementedError, "a look-up table is refused", conv.tb2radiance, arg,
               lut={"tb": np.arange(3.), "radiance": np.arange(3.)})
    mon.raises(NotImplementedError, "a band integrated radiance is refused", conv.tb2radiance, arg,
               normalized=[False, 0, np.False_][rng.integers(3)])
    return (sat, name, kind)


@SUITE.case(quick=180, thorough=600)
def refused(mon, rng, scratch):
    """Nothing is answered with other coefficients."""
    name = str(rng.choice(sorted(NAMES)))
    for sat in OTHER_SATS:
        mon.ctx(sat=sat, name=name)

        def both(name=name, sat=sat):
            conv = SeviriRadTbConverter(sat, name)
            return conv.tb2radiance(280.0)

        def inverse(name=name, sat=sat):
            return SeviriRadTbConverter(sat, name).radiance2tb(1e-4)
        mon.raises(Exception, "a satellite without coefficients is refused", both)
        mon.raises(Exception, "a satellite without coefficients is refused", inverse)
    for bad in rng.choice(VISIBLE + ["", "nothing", "IR", "ir10.8", "IR10.8 ", "ch12"], 6, replace=False):
        bad = str(bad)
        mon.ctx(bad=bad)
        if bad in NAMES:
            continue
        mon.raises(Exception, "a band without coefficients is refused",
                   lambda: SeviriRadTbConverter("Meteosat-9", bad).tb2radiance(280.0))  # noqa: B023
        mon.raises(Exception, "a band without coefficients is refused",
                   lambda: SeviriRadTbConverter("Meteosat-8", bad).radiance2tb(1e-4))  # noqa: B023
    for num in (3.9, 10.8, np.float32(12.0), 11, 8.7):
        mon.raises(AttributeError, "a band given as a number is refused", SeviriRadTbConverter, "Meteosat-9", num)
    return name

