"""P04: reading the internal HDF5 response files."""
from pathlib import Path

import h5py
import numpy as np

from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.utils import convert2str
from vp import data
from vp.core import Suite

SUITE = Suite(
    "P04", "exploration",
    "A case writes one or two response files with random bands, detectors, storage layout (band-level or detector-"
    "level wavelengths, responses, central wavelengths, or both), precision, byte order, wavelength scale, string "
    "kind and platform description, reads them by file name or by platform and instrument, and compares everything; "
    "distinct by layout signature.",
    needs=["bands_compared", "detector_level", "band_level_fallback", "platform_from_number", "translated_platform",
           "by_name", "by_file", "rewritten_paths", "read_again", "edited_same_size"])

OSCAR = {"eos-2": "EOS-Aqua", "meteosat-11": "Meteosat-11", "meteosat-10": "Meteosat-10", "meteosat-9": "Meteosat-9",
         "meteosat-8": "Meteosat-8"}
WORDS = ["IR3.9", "VIS0.6", "ch1", "1", "20", "M12", "I4", "B8A", "vii-4", "Oa01", "HRV", "ch3b", "WV 6.2", "ch10", "2",
         "PAN", "ÅÄÖ", "a", "b_2"]


def _string(rng, text, kinds=("str", "bytes", "npbytes1", "obj1")):
    kind = str(rng.choice(kinds))
    if kind == "str":
        return text
    if kind == "bytes":
        return np.bytes_(text.encode())
    if kind == "npbytes1":
        return np.array([text.encode()])
    return np.array([text], dtype=h5py.string_dtype())


def _write(rng, path, plan):
    """Write a file to plan; returns nothing."""
    path.parent.mkdir(parents=True, exist_ok=True)
    with h5py.File(path, "w") as h5f:
        h5f.attrs["description"] = _string(rng, plan["description"])
        for key, val in plan["attrs"].items():
            h5f.attrs[key] = val
        names = list(plan["bands"])
        if rng.integers(2):
            h5f.attrs["band_names"] = np.array([n.encode() for n in names])
        else:
            h5f.attrs["band_names"] = np.array(names, dtype=h5py.string_dtype())
        for name in rng.permutation(names):
            name = str(name)
            band = plan["bands"][name]
            grp = h5f.create_group(name)
            if band["n_attr"]:
                grp.attrs["number_of_detectors"] = band["ntype"](len(band["dets"]))
            for key in ("response", "wavelength", "central_wavelength"):
                if key in band["band_level"]:
                    _put(grp, key, band["band_level"][key], band["scale"], band["dtype"])
            for dname, det in band["det_level"].items():
                dgrp = grp.create_group(dname)
                for key, val in det.items():
                    _put(dgrp, key, val, band["scales"][dname], band["dtype"])
        if rng.integers(2):
            h5f.create_group("not_a_band").attrs["central_wavelength"] = 1.0
            h5f["something"] = np.arange(4.0)


def _put(grp, key, val, scale, dtype):
    if key == "central_wavelength":
        grp.attrs[key] = val
    elif key == "response":
        grp.create_dataset(key, data=val.astype(dtype))
    else:
        dset = grp.create_dataset(key, data=(val * 1e-6 / scale).astype(dtype))
        dset.attrs["scale"] = scale
        dset.attrs["unit"] = "m"


def _plan(rng, mon):
    bands = {}
    names = [str(x) for x in rng.choice(WORDS, int(rng.integers(1, 7)), replace=False)]
    if rng.integers(4) == 0:
        # look-alikes
        names += [x for x in (names[0].lower(), names[0].upper(), names[0] + "0", names[-1] + "_", "0" + names[0])
                  if x not in names and rng.integers(2)]
        names = list(dict.fromkeys(names))
    for name in names:
        ndet = int(rng.choice([1, 1, 1, 2, 2, 3, 10, 40]))
        layout = str(rng.choice(["band", "det", "mixed", "shared_wvl", "override"])) if ndet > 1 or rng.integers(2) \
            else "band"
        centre = float(rng.uniform(0.4, 14))
        n = int(rng.integers(2, 40))
        dtype = str(rng.choice(["f4", "f8", ">f4", ">f8"]))
        scale = float(rng.choice([1e-6, 1e-9, 1.0, 1e-3]))
        dets = {}
        for i in range(ndet):
            wvl, resp = data.curve(rng, centre * (1 + 0.01 * i), 0.3, n=n, descending=bool(rng.integers(4) == 0))
            # responses as measured: slightly negative, above one, percents, missing
            resp = [resp * rng.uniform(0.2, 1), resp - 0.01, resp * 100, resp * 1.02,
                    np.where(np.arange(n) == 1, np.nan, resp), resp * 1e-6][rng.choice(6, p=[.5, .1, .1, .1, .1, .1])]
            dets[f"det-{i + 1}"] = {"wavelength": wvl, "response": resp,
                                    "central_wavelength": float(centre + 0.001 * i + rng.uniform(0, 1e-4))}
        common = {"wavelength": data.curve(rng, centre, 0.3, n=n)[0],
                  "response": data.curve(rng, centre, 0.3, n=n)[1] * float(rng.choice([1, 1, 100, 0.3])) -
                  float(rng.choice([0, 0, 0.01])),
                  "central_wavelength": centre}
        band_level, det_level = {}, {}
        if layout == "band":
            band_level = dict(common)
            for d in dets:
                dets[d] = dict(common)
            mon.ev("band_level_fallback")
        elif layout == "det":
            det_level = {d: dict(v) for d, v in dets.items()}
            mon.ev("detector_level")
        elif layout == "override":
            band_level = dict(common)
            det_level = {d: dict(v) for d, v in dets.items()}
            mon.ev("detector_level")
        elif layout == "shared_wvl":
            band_level = {"wavelength": common["wavelength"]}
            for d in dets:
                det_level[d] = {"response": dets[d]["response"], "central_wavelength": dets[d]["central_wavelength"]}
                dets[d]["wavelength"] = common["wavelength"]
            mon.ev("band_level_fallback")
        else:
            band_level = dict(common)
            for d in dets:
                det_level[d] = {}
                for key in ("wavelength", "response", "central_wavelength"):
                    if rng.integers(2):
                        det_level[d][key] = dets[d][key]
                    else:
                        dets[d][key] = common[key]
            mon.ev("band_level_fallback")
        bands[name] = {"dets": dets, "band_level": band_level, "det_level": det_level, "dtype": dtype, "scale": scale,
                       "scales": {d: float(rng.choice([scale, 1e-6, 1e-9])) for d in dets}, "layout": layout,
                       "n_attr": ndet > 1 or bool(rng.integers(2)),
                       "ntype": [int, np.int32, np.uint8, np.int64][rng.integers(4)]}
    return bands


@SUITE.case(quick=1260, thorough=25000)
def read(mon, rng, scratch):
    """Write a file to a random plan and read it."""
    data.use_config(scratch)
    objs = [_file(mon, rng, scratch, k) for k in range(int(rng.integers(1, 3)))]
    # compare after all have been read
    for one in objs:
        _compare(mon, *one)
    sig = [(o[4], [(b["layout"], b["dtype"], len(b["dets"]), b["scale"]) for b in o[1]["bands"].values()]) for o in objs]
    mon.seen("layout_signatures", sig)
    return sig


@SUITE.case(quick=360, thorough=4000)
def history(mon, rng, scratch):
    """What was read, and done with it, before has no influence: the same path is read again and rewritten between."""
    data.use_config(scratch)
    first = _file(mon, rng, scratch, 0)
    _compare(mon, *first)
    path, byname = first[5], first[4] == "byname"
    ops = []
    for _ in range(int(rng.integers(2, 6))):
        op = str(rng.choice(["spoil", "convert", "again", "rewrite", "rewrite", "gone", "edit", "edit"]))
        ops.append(op)
        mon.ctx(ops=ops, byname=byname)
        obj, plan, platform, instrument, kind, path = first
        if op == "spoil":
            for band in obj.rsr.values():
                for det in band.values():
                    det["response"][...] = -1
                    det["central_wavelength"] = 0.1
                    if "wavelength" in det:
                        det["wavelength"] *= 2
            obj.rsr.clear()
            obj.band_names.clear()
        elif op == "convert":
            if "spoil" not in ops:
                obj.convert() if obj.unit == "1e-6 m" else None
        elif op == "gone":
            path.unlink()
            mon.raises(FileNotFoundError, "a file that is gone is not read", _open, platform, path, byname)
            if rng.integers(2):
                first = _file(mon, rng, scratch, 0, path=path, byname=byname, given=platform)
            else:
                _write(rng, path, plan)
        elif op == "edit":
            # values change, the size of the file does not
            size = path.stat().st_size
            with data.keep_times(rng, path), h5py.File(path, "r+") as h5f:
                name = str(rng.choice(list(plan["bands"])))
                band = plan["bands"][name]
                factor = float(rng.choice([0.5, 2.0, 0.25]))

                def change(item, obj):
                    if isinstance(obj, h5py.Dataset) and item.split("/")[-1] == "response":
                        obj[...] = obj[...] * factor
                h5f[name].visititems(change)
                for det in band["dets"].values():
                    det["response"] = det["response"] * factor
                for level in [band["band_level"], *band["det_level"].values()]:
                    if "response" in level:
                        level["response"] = level["response"] * factor
            mon.ev("edited_same_size", int(path.stat().st_size == size))
        elif op == "rewrite":
            first = _file(mon, rng, scratch, 0, path=path, byname=byname, given=platform)
            mon.ev("rewritten_paths")
        obj, plan, platform, instrument, kind, path = first
        obj = _open(platform, path, byname)
        first = (obj, plan, platform, instrument, kind, path)
        _compare(mon, *first)
        mon.ev("read_again")
    mon.seen("read_histories", (byname, ops))
    return byname, ops


def _open(platform, path, byname):
    if byname:
        return RelativeSpectralResponse(platform, "myinstr")
    return RelativeSpectralResponse(filename=path)


def _file(mon, rng, scratch, k, path=None, byname=None, given=None):
    """Write a file and read it."""
    plan = {"bands": _plan(rng, mon), "description": f"Rélative responses {rng.integers(1000)}" + str(rng.choice(["", "", " ", "  two ", "\n", "\tX"])), "attrs": {}}
    kind = str(rng.choice(["name", "number", "oscar", "oscarname", "none", "nosensor"]))
    instrument = str(rng.choice([f"instr{k}", "MODIS", "avhrr-3", "AVHRR/3", "Oli_Tirs", " padded ", "seviri"]))
    if kind == "name":
        platform = f"Platform-{rng.integers(30)}"
        if rng.integers(3) == 0:
            # only the listed spellings are translated
            platform = str(rng.choice(["EOS-2", "METEOSAT-9", "Eos-2", "Meteosat-8", "meteosat-12", "meteosat-1", "meteosat-08", "meteosat-9 ",
                                       "eos-1", "eos-02"]))
        plan["attrs"]["platform_name"] = _string(rng, platform)
        if rng.integers(2):
            plan["attrs"]["platform"] = "other"
            plan["attrs"]["sat_number"] = 3
    elif kind == "number":
        num = int(rng.integers(1, 40))
        sat = str(rng.choice(["metop", "fy", "Some Sat", "eos", "meteosat"]))
        platform = f"{sat}-{num}"
        platform = OSCAR.get(platform, platform)
        plan["attrs"]["platform"] = _string(rng, sat)
        plan["attrs"]["sat_number"] = [int, np.int16, np.int64][rng.integers(3)](num)
        mon.ev("platform_from_number")
    elif kind in ("oscar", "oscarname"):
        key = str(rng.choice(list(OSCAR)))
        platform = OSCAR[key]
        if kind == "oscar":
            plan["attrs"]["platform"] = _string(rng, key.rsplit("-", 1)[0])
            plan["attrs"]["sat_number"] = int(key.rsplit("-", 1)[1])
        else:
            plan["attrs"]["platform_name"] = _string(rng, key)
        mon.ev("translated_platform")
    elif kind == "nosensor":
        platform, instrument = [("Meteosat-10", "seviri"), ("EOS-Terra", "modis"), ("NOAA-20", "viirs"),
                                ("NOAA-19", "avhrr/3"), ("Unknown-7", None)][rng.integers(5)]
        plan["attrs"]["platform_name"] = _string(rng, platform)
    else:
        platform = None
    if kind != "nosensor":
        plan["attrs"]["sensor"] = _string(rng, instrument)
    if byname is None:
        byname = bool(rng.integers(2)) and k == 0
    given_platform = f"Plat-{rng.integers(99)}" if given is None or not byname else given
    fname = f"rsr_myinstr_{given_platform}.h5" if byname else f"file{k}.h5"
    if path is None:
        path = scratch / ("rsr" if byname or rng.integers(2) else "elsewhere") / fname
    with data.keep_times(rng, path):
        _write(rng, path, plan)
    mon.ctx(kind=kind, layouts={b: (v["layout"], v["dtype"], len(v["dets"])) for b, v in plan["bands"].items()})
    if byname:
        obj = RelativeSpectralResponse(given_platform, "myinstr")
        platform, instrument, kind = given_platform, "myinstr", "byname"
        mon.ev("by_name")
    else:
        obj = RelativeSpectralResponse(filename=Path(path) if rng.integers(2) else str(path))
        mon.ev("by_file")
    return obj, plan, platform, instrument, kind, path


def _compare(mon, obj, plan, platform, instrument, kind, path):
    """Compare all that was read with the plan."""
    mon.check(obj.platform_name == platform, "platform name", got=obj.platform_name, want=platform, kind=kind)
    mon.check(obj.instrument == instrument, "instrument name", got=obj.instrument, want=instrument)
    mon.check(obj.description == plan["description"] and isinstance(obj.description, str), "description",
              got=obj.description)
    mon.check(list(obj.band_names) == list(plan["bands"]), "band names in the stored order",
              got=list(obj.band_names), want=list(plan["bands"]))
    mon.check(set(dict.keys(obj.rsr)) == set(plan["bands"]), "exactly the listed bands are read",
              got=list(obj.rsr), want=list(plan["bands"]))
    mon.check(obj.unit == "1e-6 m" and obj.si_scale == 1e-6, "unit of the wavelengths")
    mon.check(str(obj.filename) == str(path), "file name")
    for bname, band in plan["bands"].items():
        dets = band["dets"]
        mon.check(set(obj.rsr[bname]) == set(dets), "exactly the detectors of the band are read",
                  got=list(obj.rsr[bname]), want=list(dets))
        single = band["dtype"].endswith("f4")
        for dname, det in dets.items():
            got = obj.rsr[bname][dname]
            stored = det["response"].astype(band["dtype"]).astype("f8")
            mon.close(np.asarray(got["response"], dtype="f8"), stored, "responses are unchanged", rtol=0,
                      band=bname, det=dname, layout=band["layout"])
            mon.close(got["wavelength"], det["wavelength"], "wavelengths in micrometres",
                      rtol=3e-7 if single else 1e-13, band=bname, det=dname, layout=band["layout"],
                      scale=band["scale"])
            mon.check(float(got["central_wavelength"]) == det["central_wavelength"], "stored central wavelength",
                      got=got["central_wavelength"], want=det["central_wavelength"], layout=band["layout"])
        mon.ev("bands_compared")


@SUITE.case(quick=120, thorough=500)
def strings(mon, rng, scratch):
    """String decoding."""
    text = "".join(rng.choice(list("abcdeåäö-/_ 0123456789ABC"), int(rng.integers(1, 20)))).strip() or "x"
    forms = {"str": text, "bytes": text.encode(), "npbytes": np.bytes_(text.encode()), "npstr": np.str_(text),
             "arr_bytes": np.array([text.encode()]), "arr_str": np.array([text]), "arr0_bytes": np.array(text.encode()),
             "arr_obj": np.array([text], dtype=object), "arr_objb": np.array([text.encode()], dtype=object)}
    for kind, val in forms.items():
        got = convert2str(val)
        mon.check(got == text and isinstance(got, str), "a stored string reads as that string", kind=kind, got=got,
                  want=text)
        mon.ev("strings_decoded")
    for bad in (np.array([1.0]), np.array(["a", "b"]), np.array([1, 2]), np.array([b"a", b"c"])):
        mon.raises(ValueError, "what is not a single string is refused", convert2str, bad)
    return text
