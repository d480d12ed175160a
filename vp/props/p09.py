"""P09: round trip of converted response data."""
import copy

import numpy as np

from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.utils import convert2hdf5
from vp import data, ref
from vp.core import Suite
from vp.tables import INSTRUMENTS

SUITE = Suite(
    "P09", "exploration",
    "A case converts random bands of a random (known or unknown) platform and instrument, given in m, nm or micrometre, "
    "with one or several detectors, into one shared output directory together with other instruments, and reads all of "
    "them back; distinct by (platform, instrument, scale, detectors, bands).",
    needs=["files_written", "bands_compared", "multi_detector", "single_detector", "non_micrometre", "found_by_name", "rows_without_sample"],
    assumptions=["Detectors of a band share their wavelengths, the documented assumption of the converter.",
                 "An instrument name with capitals is not in the tables and its file is read by name of the file only."])

BANDS = ["ch1", "ch2", "ch10", "IR3.9", "VIS0.6", "1", "2", "10", "B8A", "M12", "Oa01", "vii-4", "HRV", "I1", "ch3b"]


def _reader_class(instrument, output_dir, store, asked):
    class Reader:
        def __init__(self, bandname, platform_name):
            asked.append((bandname, platform_name))
            self.bandname = bandname
            self.platform_name = platform_name
            self.instrument = instrument
            self.output_dir = str(output_dir)
            self.rsr = store[bandname]
    return Reader


def _pick(rng):
    if rng.integers(5) == 0:
        return f"NewSat-{rng.integers(50)}", str(rng.choice(["newinstr", "my-instr", "abc/2", "OtherInstr"]))
    plat = str(rng.choice(sorted(INSTRUMENTS)))
    instr = INSTRUMENTS[plat]
    if isinstance(instr, list):
        instr = str(rng.choice(instr))
    return plat, instr


@SUITE.case(quick=780, thorough=10000)
def round_trip(mon, rng, scratch):
    """Convert, possibly several instruments, and read back."""
    data.use_config(scratch)
    jobs, seen = [], set()
    for _ in range(int(rng.integers(1, 4))):
        plat, instr = _pick(rng)
        if (plat, instr.lower().replace("/", "").replace("-", "")) in seen:
            continue
        seen.add((plat, instr.lower().replace("/", "").replace("-", "")))
        names = [str(x) for x in rng.choice(BANDS, int(rng.integers(1, 7)), replace=False)]
        scale = float(rng.choice([1e-6, 1e-6, 1e-9, 1.0, 1e-3]))
        ndet = int(rng.choice([0, 0, 0, 1, 2, 2, 4, 4, 11]))
        dets = [f"det-{i + 1}" for i in range(ndet)] or None
        dtype = [np.float64, np.float32][rng.integers(2)]
        store, truth = {}, {}
        for name in names:
            centre = float(rng.uniform(0.4, 14))
            wvl, resp = data.curve(rng, centre, centre * float(rng.uniform(0.05, 0.3)), n=int(rng.integers(3, 120)),
                                   descending=bool(rng.integers(6) == 0))
            unit = (wvl * (1e-6 / scale)).astype(dtype)
            # rows of the source without a sample, before, within or after the curve
            rows = np.arange(unit.size)
            gaps = int(rng.integers(1, 5)) if rng.integers(3) == 0 else 0
            if gaps:
                rows = np.sort(rng.permutation(unit.size + gaps)[:unit.size])
                mon.ev("rows_without_sample", gaps)

            def spread(arr, fill=np.nan):
                out = np.full(arr.size + gaps, fill, dtype=arr.dtype)
                out[rows] = arr
                return out

            if dets is None:
                resp = resp.astype(dtype)
                store[name] = {"wavelength": spread(unit), "response": spread(resp, rng.choice([np.nan, 0.25, -99.0]))}
                if rng.integers(12) == 0:
                    resp[rng.integers(resp.size)] = np.nan
                    store[name]["response"] = spread(resp, 0.25)
                truth[name] = {"det-1": (wvl, resp)}
                mon.ev("single_detector")
            else:
                store[name], truth[name] = {}, {}
                for k, dname in enumerate(dets):
                    r = (resp * rng.uniform(0.3, 1) + 0.01 * k * np.linspace(0, 1, resp.size)).astype(dtype)
                    store[name][dname] = {"wavelength": spread(unit), "response": spread(r, rng.choice([np.nan, 0.25, -99.0]))}
                    if rng.integers(12) == 0:
                        r[rng.integers(r.size)] = np.nan        # a sample without response
                        store[name][dname]["response"] = spread(r, 0.25)
                    truth[name][dname] = (wvl, r)
                mon.ev("multi_detector")
        orig = copy.deepcopy(store)
        asked = []
        cls = _reader_class(instr, scratch / "rsr", store, asked)
        mon.ctx(platform=plat, instrument=instr, scale=scale, ndet=ndet, bands=names)
        before = data.snapshot_tree(scratch / "rsr")
        arg = list(names) if rng.integers(2) else tuple(names)
        if scale == 1e-6 and rng.integers(2):
            convert2hdf5(cls, plat, arg, detectors=dets)
        elif rng.integers(2):
            convert2hdf5(cls, plat, arg, scale, dets)
        else:
            convert2hdf5(cls, plat, arg, scale=scale, detectors=dets)
        if scale != 1e-6:
            mon.ev("non_micrometre")
        mon.ev("files_written")
        after = data.snapshot_tree(scratch / "rsr")
        mon.check(len(after) == len(before) + 1 and all(after.get(k) == v for k, v in before.items()),
                  "one file is written and no other is changed", new=sorted(set(after) - set(before)))
        mon.check(sorted(asked) == sorted((n, plat) for n in names), "each band is read once, for the platform",
                  got=asked)
        for name, val in store.items():
            mon.check(all(v["response"].tobytes() == o["response"].tobytes() and v["wavelength"].tobytes() == o["wavelength"].tobytes()
                          for v, o in zip(*([x] if dets is None else list(x.values()) for x in (val, orig[name])))),
                      "source data untouched", band=name)
        newfile = scratch / "rsr" / sorted(set(after) - set(before))[0]
        jobs.append((plat, instr, names, truth, newfile))
    for plat, instr, names, truth, newfile in jobs:
        mon.ctx(platform=plat, instrument=instr, bands=names)
        spell = [instr, instr.upper(), instr.replace("/", "-"), instr.replace("/", "").replace("-", "")][rng.integers(4)]
        mon.ctx(spelling=spell)
        objs = []
        if instr == instr.lower():
            by_name = RelativeSpectralResponse(plat, spell)
            mon.check(str(by_name.filename) == str(newfile), "the reader finds the file from platform and instrument",
                      got=str(by_name.filename), want=str(newfile))
            mon.ev("found_by_name")
            objs.append(by_name)
        by_file = RelativeSpectralResponse(filename=newfile)
        mon.check(by_file.platform_name == plat, "platform", got=by_file.platform_name, want=plat)
        mon.check(by_file.instrument == instr, "instrument", got=by_file.instrument, want=instr)
        for obj in (*objs, by_file):
            mon.check(list(obj.band_names) == names, "bands", got=list(obj.band_names))
            mon.check(set(dict.keys(obj.rsr)) == set(names), "bands with data", got=list(obj.rsr))
            for name, dets in truth.items():
                got = dict.__getitem__(obj.rsr, name)
                mon.check(list(got) == list(dets), "detectors", got=list(got), want=list(dets), band=name)
                for dname, (wvl, resp) in dets.items():
                    gwvl, gresp = np.asarray(got[dname]["wavelength"], "f8"), np.asarray(got[dname]["response"], "f8")
                    mon.check(gwvl.shape == gresp.shape, "as many wavelengths as responses", got=(gwvl.shape, gresp.shape))
                    has = ~np.isnan(gwvl)          # rows without a wavelength are no samples
                    mon.close(gwvl[has], wvl, "wavelengths in micrometres", rtol=3e-7, band=name, det=dname)
                    mon.close(gresp[has], resp.astype("f8"), "responses", rtol=1e-7, band=name, det=dname)
                    if np.isnan(resp).any():
                        continue
                    mon.close(got[dname]["central_wavelength"], float(ref.central(wvl, resp)), "central wavelength",
                              rtol=3e-5, band=name, det=dname)
                mon.ev("bands_compared")
    return [(j[0], j[1], tuple(j[2])) for j in jobs]
