"""P07: conversion of spectral responses from wavelength to wavenumber."""
import copy

import numpy as np

from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.utils import convert2wavenumber
from vp import data, ref
from vp.core import Suite

SUITE = Suite(
    "P07", "exploration",
    "A case converts a random set of bands (one or several detectors, ascending/descending/uneven/tiny curves, single or "
    "double precision, per-name response dictionaries, some detectors already in wavenumber) with the function, or a "
    "file read from disk with the method, and compares every sample; distinct by the shape signature of the set.",
    needs=["samples_compared", "passthrough", "response_dicts", "method_conversions", "second_conversions",
           "multi_detector"])


def _bands(rng, files=False):
    res = {}
    for i in range(int(rng.integers(1, 6))):
        name = f"ch{i + 1}"
        centre = float(rng.uniform(0.4, 14))
        ndet = int(rng.choice([1, 1, 2, 4, 10, 1, 2, 16]))
        dets = {}
        for k in range(ndet):
            n = int(rng.choice([2, 3, 5, 17, 60, 200] * 6 + [1025, 4100]))
            wvl, resp = data.curve(rng, centre * (1 + 0.003 * k), float(rng.uniform(0.02, 0.6)) * centre / 4, n=n,
                                   descending=bool(rng.integers(5) == 0),
                                   dtype=[np.float64, np.float32][rng.integers(2)])
            resp = resp * resp.dtype.type(rng.uniform(0.2, 1))
            dets[f"det-{k + 1}"] = {"wavelength": data.layout(rng, wvl), "response": data.layout(rng, resp),
                                    "central_wavelength": float(centre + 0.01 * k)}
        res[name] = dets
    return res


def _sig(bands):
    return [[(len(d["response"]) if not isinstance(d["response"], dict) else -1,
              "wavenumber" in d) for d in dets.values()] for dets in bands.values()]


def _compare(mon, got, det, resp, what):
    """got: converted detector, det: original wavelengths."""
    wnum = np.asarray(got["wavenumber"], dtype=np.float64)
    wvl = np.asarray(det["wavelength"], dtype=np.float64)
    tol = 1e-12 if det["wavelength"].dtype == np.float64 else 3e-7
    mon.check(wnum.shape == wvl.shape, "same number of samples", got=wnum.shape, want=wvl.shape, **what)
    mon.close(wnum, (1e4 / wvl)[::-1], "wavenumbers are the reciprocals, in reversed order", rtol=tol, **what)
    mon.same(np.asarray(resp), np.asarray(det["response"])[::-1], "each response stays with its sample", **what)
    mon.ev("samples_compared", wvl.size)


@SUITE.case(quick=1280, thorough=16000)
def function(mon, rng, scratch):
    """convert2wavenumber."""
    bands = _bands(rng)
    for dets in bands.values():
        for dname in list(dets):
            kind = rng.integers(8)
            if kind == 0:
                det = dets[dname]
                dets[dname] = {"wavenumber": 1e4 / det["wavelength"][::-1], "response": det["response"][::-1].copy(),
                               "central_wavenumber": 1e4 / det["central_wavelength"]}
                mon.ev("passthrough")
            elif kind == 1:
                r = dets[dname]["response"]
                dets[dname]["response"] = {"a": r, "b": r * 0.5 + 0.1, "c": np.roll(r, 1)}
                mon.ev("response_dicts")
            elif kind == 2 and rng.integers(2):
                # keys in another order
                dets[dname] = {k: dets[dname][k] for k in reversed(list(dets[dname]))}
    mon.ctx(sig=_sig(bands))
    before = copy.deepcopy(bands)
    got, info = convert2wavenumber(bands)
    mon.check(info == {"unit": "cm-1", "si_scale": 100.0} or (info["unit"] == "cm-1" and info["si_scale"] == 100.0),
              "unit and SI scale", got=info)
    mon.check(list(got) == list(bands), "the bands are kept", got=list(got), want=list(bands))
    for bname, dets in before.items():
        mon.check(list(got[bname]) == list(dets), "the detectors are kept", got=list(got[bname]), want=list(dets))
        if len(dets) > 1:
            mon.ev("multi_detector")
        for dname, det in dets.items():
            res = got[bname][dname]
            what = {"band": bname, "det": dname}
            if "wavenumber" in det:
                mon.check(set(res) == set(det), "data already in wavenumber pass through", got=list(res), **what)
                for key, val in det.items():
                    mon.same(np.asarray(res[key]), np.asarray(val), "data already in wavenumber are unchanged", key=key, **what)
                continue
            mon.check("wavelength" not in res, "no wavelengths are left in the result", **what)
            if isinstance(det["response"], dict):
                mon.check(set(res["response"]) == set(det["response"]), "all named responses are kept", **what)
                for key, val in det["response"].items():
                    _compare(mon, res, {"wavelength": det["wavelength"], "response": val}, res["response"][key],
                             {"name": key, **what})
            else:
                _compare(mon, res, det, res["response"], what)
    _unchanged(mon, bands, before)
    # converting the result once more changes nothing
    again, info2 = convert2wavenumber(got)
    for bname in got:
        for dname in got[bname]:
            for key in got[bname][dname]:
                a, b = again[bname][dname][key], got[bname][dname][key]
                if isinstance(a, dict):
                    mon.check(all(np.array_equal(a[k], b[k]) for k in b), "wavenumber data pass through unchanged")
                else:
                    mon.same(np.asarray(a), np.asarray(b), "wavenumber data pass through unchanged")
    mon.check(info2["unit"] == "cm-1" and info2["si_scale"] == 100.0, "unit and SI scale of passed-through data")
    return _sig(bands)


def _unchanged(mon, now, before):
    mon.check(list(now) == list(before), "the input keeps its bands")
    for bname in before:
        mon.check(list(now[bname]) == list(before[bname]), "the input keeps its detectors")
        for dname, det in before[bname].items():
            mon.check(list(now[bname][dname]) == list(det), "the input keeps its entries", band=bname,
                      got=list(now[bname][dname]))
            for key, val in det.items():
                new = now[bname][dname][key]
                if isinstance(val, dict):
                    mon.check(all(np.array_equal(new[k], val[k]) for k in val), "the input is left untouched")
                else:
                    mon.same(np.asarray(new), np.asarray(val), "the input is left untouched", key=key, band=bname)


@SUITE.case(quick=960, thorough=8000)
def method(mon, rng, scratch):
    """RelativeSpectralResponse.convert."""
    data.use_config(scratch)
    bands = _bands(rng)
    dtype = str(rng.choice(["f4", "f8"]))
    data.write_rsr(scratch / "f.h5", bands, dtype=dtype, scale=float(rng.choice([1e-6, 1e-9])),
                   layout=str(rng.choice(["auto", "det"])))
    obj = RelativeSpectralResponse(filename=scratch / "f.h5")
    twin = RelativeSpectralResponse(filename=scratch / "f.h5")
    mon.ctx(sig=_sig(bands), dtype=dtype)
    ints = {}
    for bname in bands:
        if rng.integers(2):
            ints[bname] = obj.integral(bname)
    res = obj.convert()
    mon.check(res is None or res is obj, "the conversion is in place", got=res)
    mon.check(obj.unit == "cm-1" and obj.si_scale == 100.0, "unit and SI scale of the object", got=(obj.unit, obj.si_scale))
    mon.ev("method_conversions")
    for rnd in range(2):
        mon.check(list(obj.rsr) == list(bands), "the bands are kept")
        for bname in bands:
            mon.check(list(obj.rsr[bname]) == list(twin.rsr[bname]), "the detectors are kept", band=bname)
            if len(bands[bname]) > 1:
                mon.ev("multi_detector")
            for dname, det in twin.rsr[bname].items():
                got = obj.rsr[bname][dname]
                what = {"band": bname, "det": dname, "round": rnd}
                mon.check("wavelength" not in got, "the wavelengths are replaced", got=list(got), **what)
                _compare(mon, got, det, got["response"], what)
                wnum = 1e4 / np.asarray(det["wavelength"], dtype="f8")[::-1]
                resp = np.asarray(det["response"], dtype="f8")[::-1]
                mon.close(got["central_wavenumber"], float(ref.central(wnum, resp)),
                          "central wavenumber is the response weighted mean in wavenumber space",
                          rtol=1e-9 if dtype == "f8" else 3e-5, **what)
        if rnd == 0:
            mon.raises(NotImplementedError, "a second conversion is refused", obj.convert)
            mon.check(obj.unit == "cm-1" and obj.si_scale == 100.0, "a refused conversion alters nothing")
            mon.ev("second_conversions")
    for bname in bands:
        intg = obj.integral(bname)
        mon.check(set(intg) == set(bands[bname]), "integral of all detectors after the conversion")
    # the other object, read from the same file, is still in wavelength space
    mon.check(twin.unit == "1e-6 m" and twin.si_scale == 1e-6, "another object is not converted")
    for bname in bands:
        for dname in bands[bname]:
            mon.check("wavelength" in twin.rsr[bname][dname] and "wavenumber" not in twin.rsr[bname][dname],
                      "another object is not converted")
    return (_sig(bands), dtype)
