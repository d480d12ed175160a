"""P15: emissive part of the 3.x band."""
import dask.array as da
import numpy as np

from pyspectral.near_infrared_reflectance import Calculator
from vp import data, nir, ref
from vp.core import Suite
from vp.sched import SCHEDULERS, random_chunks, scheduler

SUITE = Suite(
    "P15", "exploration",
    "A case runs a random history of reflectance calls and emissive-part requests (radiance/temperature, repeated, in "
    "any order, on several calculators) and checks each against the latest reflectance of that calculator and "
    "extended-precision band radiances; distinct by history.",
    needs=["emissive_radiance", "emissive_tb", "repeated", "night_pixels", "day_pixels", "missing_pixels",
           "after_new_reflectance", "lazy", "refused"])


def _check(mon, calc, state, tb, det, single, rng):
    """One request against the latest reflectance."""
    res = calc.emissive_part_3x(tb=tb) if not tb or rng.integers(2) else calc.emissive_part_3x()
    if state["lazy"]:
        with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
            got = np.asarray(res, "f8")
    else:
        got = np.asarray(res, "f8")
    refl, tb39, tb11 = state["refl"], state["tb39"], state["tb11"]
    mon.check(got.shape == tb39.shape, "shape of the emissive part", got=got.shape, want=tb39.shape)
    valid = ~np.isnan(refl)
    tab = state["tab"]
    rel = 2e-5 if single else 1e-8
    ok = np.zeros(got.shape, dtype=bool)
    for l39 in nir.lookup(tb39, tab):
        for l11 in nir.lookup(tb11, tab):
            with np.errstate(all="ignore"):
                rad = np.where(valid, (1 - refl) * l11, l39)
                scale = np.where(valid, (1 + np.abs(refl)) * l11, l39)
                if tb:
                    cw = det["central_wavelength"] * 1e-6
                    want = np.asarray(ref.inv_wl(cw, rad), "f8")
                    lo = np.asarray(ref.inv_wl(cw, rad - rel * scale), "f8")
                    hi = np.asarray(ref.inv_wl(cw, rad + rel * scale), "f8")
                    tol = np.maximum(np.abs(hi - want), np.abs(want - lo)) + rel * np.abs(want)
                    tol = np.where(np.isnan(tol), np.inf, tol)    # radiance within rounding of zero
                else:
                    want, tol = rad, rel * scale
                miss = np.isnan(want)
                ok |= np.where(miss, np.isnan(got), np.abs(got - want) <= tol)
                if tb:
                    # negative or zero emission has no temperature
                    ok |= (np.abs(rad) <= rel * scale) | (valid & (rad < 0) & np.isnan(got))
    bad = np.isnan(tb39)
    mon.check(np.all(np.isnan(got[bad])), "missing measurement gives a missing emissive part")
    if not np.all(ok):
        idx = np.unravel_index(int(np.argmin(ok)), ok.shape)
        mon.check(False, "emissive part of a pixel", tb=tb, got=got[idx], refl=float(refl[idx]), tb39=float(tb39[idx]),
                  tb11=float(tb11[idx]), n_bad=int(np.sum(~ok)), want=float(want[idx]))
    mon.check(True, "emissive part of a pixel")
    mon.ev("emissive_tb" if tb else "emissive_radiance")
    mon.ev("day_pixels", int(valid.sum()))
    mon.ev("night_pixels", int(np.sum(~valid & ~bad)))
    mon.ev("missing_pixels", int(bad.sum()))
    return got


@SUITE.case(quick=520, thorough=8000)
def histories(mon, rng, scratch):
    """Random histories on one to three calculators."""
    data.use_config(scratch)
    calcs = []
    which = rng.permutation(len(nir.PLATFORMS))
    for k in range(int(rng.integers(1, 4))):
        ndet = int(rng.choice([1, 1, 2, 2, 11]))
        plat, instr, band, dets = nir.setup(rng, scratch, which=int(which[k]), ndet=ndet, n=int(rng.integers(8, 40)))
        dname = str(rng.choice(list(dets)))
        calc = Calculator(plat, instr, band, detector=dname, solar_flux=float(rng.choice([2.0, 15.0])),
                          masking_limit=[85.0, None][rng.integers(2)])
        calcs.append({"calc": calc, "det": dets[dname], "state": None, "tab": nir.table(dets[dname]), "last": {}})
    hist = []
    single = bool(rng.integers(4) == 0)
    dt = "f4" if single else "f8"
    for step in range(int(rng.integers(4, 12))):
        k = int(rng.integers(len(calcs)))
        item = calcs[k]
        if item["state"] is None or rng.integers(3) == 0:
            shape = [(int(rng.integers(1, 9)),), (3, 5)][rng.integers(2)]
            if rng.integers(60) == 0:
                shape = data.large_shape(rng, 2, 70000)
            sunz, tb39, tb11 = (data.layout(rng, a) for a in nir.scene(rng, shape, dt))
            kind = str(rng.choice(["array", "lazy", "co2", "masked"]))
            args = [sunz, tb39, tb11]
            kw = {}
            if kind == "lazy":
                ch = random_chunks(rng, shape)
                args = [da.from_array(a, chunks=ch) for a in args]
                mon.ev("lazy")
            elif kind == "co2":
                kw = {"tb_ir_co2": tb11 - 12}
            elif kind == "masked":
                m = rng.integers(0, 4, shape) == 0
                args[1] = np.ma.masked_array(tb39, mask=m)
                tb39 = np.where(m, np.nan, tb39)
            res = item["calc"].reflectance_from_tbs(*args, **kw)
            refl = np.asarray(np.ma.filled(res, np.nan) if np.ma.isMaskedArray(res) else res, "f8")
            if item["state"] is not None:
                mon.ev("after_new_reflectance")
            item["state"] = {"refl": refl, "tb39": tb39.astype("f8"), "tb11": tb11.astype("f8"), "lazy": kind == "lazy",
                             "tab": item["tab"]}
            item["last"] = {}
            hist.append((k, kind))
        elif rng.integers(6) == 0:
            # a call refused for its temperatures changes nothing
            st = item["state"]
            shape = tuple(n + 1 for n in st["tb39"].shape)
            sunz, tb39, tb11 = nir.scene(rng, shape, dt)
            if rng.integers(2):
                tb39 = tb39[(slice(1, None),) * len(shape)]
            else:
                tb11 = tb11[(slice(1, None),) * len(shape)]
            mon.raises(ValueError, "temperatures of different shape are refused", item["calc"].reflectance_from_tbs, sunz, tb39, tb11)
            hist.append((k, "refused"))
            mon.ev("refused")
        else:
            tb = bool(rng.integers(2))
            hist.append((k, "tb" if tb else "rad"))
            mon.ctx(history=hist, single=single)
            got = _check(mon, item["calc"], item["state"], tb, item["det"], single, rng)
            if tb in item["last"]:
                mon.same(got, item["last"][tb], "repeated requests give the same result", history=hist)
                mon.ev("repeated")
            item["last"][tb] = got
    return tuple(hist)
