"""P25: agency response files convert to the same curves they contain."""
import builtins
import inspect
import io
import logging
import os
import runpy
import shutil
import sys
from pathlib import Path

import h5py
import numpy as np

from pyspectral.raw_reader import InstrumentRSR
from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.utils import convert2hdf5
from vp import agency, data, ref
from vp.core import Suite

SUITE = Suite(
    "P25", "exploration",
    "A case writes the original files of one instrument (text, CSV, Excel or netCDF, in the agency's layout, with random "
    "samples, notations, headers, orders of columns/sheets/detectors, repeated and unordered wavelengths, samples without data), "
    "runs the conversion script as a user does (or its class for the platforms not listed in the script), and compares every band and "
    "detector of the converted file, read with h5py and with the package's reader, with the numbers written; or it takes away one "
    "source file; or it converts the MODIS and SEVIRI originals shipped with the package; distinct by (script, platform, values).",
    needs=["scripts_run", "classes_run", "bands_compared", "detectors_compared", "unordered", "repeated", "missing_source", "shipped_modis",
           "shipped_seviri", "read_back", "renamed", "xls", "cut_samples", "old_tables", "split_files"],
    assumptions=["Sources have the layout the script documents (number of header lines, columns, sheets).",
                 "Repeated wavelengths keep one of their responses.",
                 "Converted files hold single precision."])

ROOT = Path(os.environ["VP_REPO"]) / "rsr_convert_scripts"
ALL = sorted(agency.TO_HDF5)


def run(script, *argv, as_main=True):
    """Run a conversion script, or only load it."""
    old_argv, old_path = sys.argv, list(sys.path)
    sys.argv = [str(ROOT / f"{script}.py"), *argv]
    handlers = {name: list(logging.getLogger(name).handlers) for name in list(logging.root.manager.loggerDict)}
    root_handlers = list(logging.getLogger().handlers)
    root_level = logging.getLogger().level
    out, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        return runpy.run_path(sys.argv[0], run_name="__main__" if as_main else "vp_script")
    finally:
        sys.stdout.close()
        sys.stdout = out
        sys.argv, sys.path[:] = old_argv, old_path
        for name in list(logging.root.manager.loggerDict):
            logging.getLogger(name).handlers = handlers.get(name, [])
        logging.getLogger().handlers = root_handlers
        logging.getLogger().setLevel(root_level)


def convert(script, platform, bands):
    """Convert one platform with the script's own class or function."""
    names = run(script, as_main=False)
    if script == "viirs_rsr":
        return names["create_viirs_rsr"](platform)
    own = [c for c in names.values() if inspect.isclass(c) and issubclass(c, InstrumentRSR) and c.__module__ == "vp_script"]
    own = [c for c in own if not any(c is not o and issubclass(o, c) for o in own)]
    return convert2hdf5(own[0], platform, bands)


def _samples(mon, got_w, got_r, want, sorted_, what):
    """Compare one curve."""
    wvl, resp = (np.asarray(x, dtype=float) for x in want)
    got_w, got_r = np.asarray(got_w, dtype=float), np.asarray(got_r, dtype=float)
    if not sorted_:
        mon.close(got_w, wvl, f"{what}: wavelengths in micrometres", rtol=3e-7)
        mon.close(got_r, resp, f"{what}: responses", rtol=3e-7, atol=1e-12)
        return wvl, resp
    mon.check(np.all(np.diff(got_w) > 0), f"{what}: ascending and without duplicates", got=got_w)
    uniq = np.unique(wvl)
    mon.close(got_w, uniq, f"{what}: every wavelength of the source", rtol=2e-5)
    mon.check(got_r.shape == uniq.shape, f"{what}: a response for every wavelength", got=got_r.shape, want=uniq.shape)
    for w, r in zip(uniq, got_r):
        cand = resp[wvl == w]
        mon.check(np.any(np.abs(cand - r) <= 3e-7 * np.abs(cand) + 1e-12), f"{what}: each wavelength with a response it had",
                  wavelength=w, got=r, candidates=cand)
    if len(uniq) < len(wvl):
        mon.ev("repeated")
    if np.any(np.diff(wvl) < 0):
        mon.ev("unordered")
    return got_w, got_r


def compare(mon, path, platform, expected, sorted_=False):
    """The converted file against the source."""
    mon.check(path.exists(), "the converted file has the configured place and name", path=path.name,
              there=sorted(p.name for p in path.parent.iterdir()))
    mon.ctx(file=path.name)
    read = RelativeSpectralResponse(filename=str(path))
    mon.check(read.platform_name == platform, "the converted file tells its platform", got=read.platform_name, want=platform)
    mon.check(sorted(read.band_names) == sorted(expected), "the converted file has the bands of the source", got=read.band_names)
    mon.check(sorted(read.rsr) == sorted(expected), "the converted file reads with the bands of the source", got=sorted(read.rsr))
    with h5py.File(path, "r") as h5f:
        for band, dets in expected.items():
            mon.ctx(band=band)
            grp = h5f[band]
            if not isinstance(dets, dict):
                dets = {"det-1": dets}
            mon.check(sorted(read.rsr[band]) == sorted(dets), "the detectors of the source", got=sorted(read.rsr[band]), want=sorted(dets))
            mon.ev("bands_compared")
            for det, want in dets.items():
                mon.ctx(det=det)
                node = grp[det] if det in grp else grp
                wvl_set = node["wavelength"] if "wavelength" in node else grp["wavelength"]
                scale = float(wvl_set.attrs["scale"])
                mon.check(abs(scale / 1e-6 - 1) < 1e-6, "wavelengths are stored in micrometres", scale=scale)
                wvl, resp = _samples(mon, wvl_set[:], node["response"][:], want, sorted_, "stored")
                curve = read.rsr[band][det]
                _samples(mon, curve["wavelength"], curve["response"], want, sorted_, "read back")
                cwl = curve["central_wavelength"]
                mon.close(float(cwl), float(ref.central(wvl, resp)), "central wavelength in micrometres", rtol=2e-5)
                mon.ev("detectors_compared")
    mon.ev("read_back")


def _prepare(rng, scratch, script, platforms):
    """Write the sources of some platforms and the configuration."""
    conf, made = {}, {}
    for platform in platforms:
        root = scratch / "src" / platform
        root.mkdir(parents=True)
        made[platform] = agency.TO_HDF5[script][0](rng, root, platform)
        conf.update(made[platform].conf)
    data.use_config(scratch, **conf)
    return made


@SUITE.case(quick=260, thorough=2600)
def as_script(mon, rng, scratch):
    """Run the script as it is."""
    script = ALL[mon.index % len(ALL)]
    _, _, platforms, _ = agency.TO_HDF5[script]
    made = _prepare(rng, scratch, script, platforms)
    mon.ctx(script=script)
    before = data.snapshot_tree(scratch / "src")
    run(script)
    for platform in platforms:
        compare(mon, scratch / "rsr" / agency.file_name(script, platform), platform, made[platform].expected, script in agency.SORTING)
    mon.check(data.snapshot_tree(scratch / "src") == before, "the sources are not changed")
    mon.ev("scripts_run")
    if script in ("aatsr_reader", "ahi_reader"):
        mon.ev("xls")
    if script in ("agri_rsr", "ghi_rsr", "mersi1_rsr", "oli_tirs_reader"):
        mon.ev("cut_samples")
    return (script, mon.index, float(rng.random()))


@SUITE.case(quick=96, thorough=1200)
def as_class(mon, rng, scratch):
    """Platforms not listed in the script, which its class supports."""
    pairs = [(s, p) for s in ALL for p in agency.TO_HDF5[s][3]]
    script, platform = pairs[mon.index % len(pairs)]
    mon.ctx(script=script, platform=platform)
    made = _prepare(rng, scratch, script, [platform])[platform]
    convert(script, platform, list(made.expected))
    compare(mon, scratch / "rsr" / agency.file_name(script, platform), platform, made.expected, script in agency.SORTING)
    mon.ev("classes_run")
    return (script, platform, float(rng.random()))


@SUITE.case(quick=52 * 2, thorough=26 * 30)
def missing(mon, rng, scratch):
    """One source is not there."""
    script = ALL[mon.index % len(ALL)]
    _, _, platforms, _ = agency.TO_HDF5[script]
    made = _prepare(rng, scratch, script, platforms)
    victim = platforms[int(rng.integers(len(platforms)))]
    bands = agency.remove(made[victim], rng)
    mon.ctx(script=script, platform=victim, bands=bands)
    mon.raises(Exception, "a missing source is reported", run, script)
    path = scratch / "rsr" / agency.file_name(script, victim)
    if path.exists():
        found = []
        with h5py.File(path, "r") as h5f:
            for band in bands:
                if band in h5f:
                    h5f[band].visit(lambda name, b=band: found.append((b, name)) if name.endswith("response") else None)
        mon.check(not found, "a band without a source has no responses", found=found)
    mon.ev("missing_source")
    return (script, victim, bands[0])


@SUITE.case(quick=16, thorough=60)
def workbooks(mon, rng, scratch):
    """SEVIRI and AVHRR/1: all satellites in one workbook."""
    src = scratch / "src"
    src.mkdir()
    if mon.index % 2:
        script, inst = "seviri_rsr", "seviri"
        path, exp = agency.seviri(rng, src)
        data.use_config(scratch, seviri={"path": str(path), "filename": "none.xls"})
    else:
        script, inst = "avhrr1_rsr", "avhrr1"
        path, exp = agency.avhrr1(rng, src)
        data.use_config(scratch, **{"avhrr/1": {"path": str(path), "filename": "none.xls"}})
    mon.ctx(script=script)
    run(script)
    for platform, bands in exp.items():
        compare(mon, scratch / "rsr" / f"rsr_{inst}_{platform}.h5", platform, bands)
    mon.ev("scripts_run")
    mon.ev("xls")
    shutil.rmtree(scratch / "rsr")
    os.remove(path)
    os.makedirs(scratch / "rsr")
    mon.raises(Exception, "a missing workbook is reported", run, script)
    mon.check(not list((scratch / "rsr").iterdir()), "nothing is converted without the workbook")
    return (script, float(rng.random()))


@SUITE.case(quick=4, thorough=4)
def shipped(mon, rng, scratch):
    """The originals in the package."""
    pkg = Path(os.environ["VP_REPO"]) / "pyspectral" / "data"
    if mon.index % 2:
        terra, aqua = pkg / "modis" / "EOS-Terra" / "L1B_RSR_LUT", pkg / "modis" / "EOS-Aqua"
        data.use_config(scratch, **{"EOS-Terra-modis": {"path": str(terra)}, "EOS-Aqua-modis": {"path": str(aqua)}})
        run("modis_rsr")
        for platform, root in (("EOS-Terra", terra), ("EOS-Aqua", aqua)):
            exp = {str(n): agency.modis_parse(platform, n, (root / agency.modis_name(platform, n)).read_text()) for n in range(1, 37)}
            compare(mon, scratch / "rsr" / f"rsr_modis_{platform}.h5", platform, exp, True)
        mon.ev("shipped_modis")
    else:
        name = "MSG_SEVIRI_Spectral_Response_Characterisation.XLS"
        # the script falls back to the package's copy
        data.use_config(scratch, seviri={"path": str([pkg / name, scratch / "not there"][mon.index // 2 % 2]), "filename": name})
        run("seviri_rsr")
        exp = agency.seviri_shipped(pkg / name)
        for platform in agency.SEVIRI_SATS:
            compare(mon, scratch / "rsr" / f"rsr_seviri_{platform}.h5", platform, exp[platform])
        mon.ev("shipped_seviri")
    return mon.index


def _text_curve(path):
    """(wavelength, response, text of the first line) of a converted text file."""
    lines = path.read_text().splitlines()
    vals = np.array([[float(x) for x in line.split()] for line in lines if line.strip() and not line.startswith("#")]).reshape(-1, 2)
    return vals[:, 0], vals[:, 1], lines[0]


@SUITE.case(quick=24, thorough=300)
def old_tables(mon, rng, scratch):
    """The old NOAA-15 tables: three curves side by side, shorter ones filled with dashes."""
    names = run("convert_avhrr_old2star", as_main=False)
    fields = [["wvl1", "resp1", "wvl2", "resp2", "wvl3a", "resp3a"], ["wvl3b", "resp3b", "wvl4", "resp4", "wvl5", "resp5"]][rng.integers(2)]
    curves = {}
    for name in fields[::2]:
        n = int(rng.integers(2, 30))
        curves[name] = (np.sort(rng.uniform(0.4, 13, n)).round(int(rng.integers(0, 5)) + 1),
                        rng.uniform(-0.5, 100, n).round(int(rng.integers(0, 4))))
    rows = []
    for i in range(max(len(c[0]) for c in curves.values())):
        cells = []
        for w, r in curves.values():
            cells += [f"{w[i]:.9g}", f"{r[i]:.9g}"] if i < len(w) else ["-", "-"]
        rows.append(str(rng.choice(["", "  "])) + str(rng.choice([" ", "    ", "\t"])).join(cells))
    src = scratch / "table.txt"
    src.write_text("\n".join(rows) + "\n")
    cwd = os.getcwd()
    os.chdir(scratch)
    try:
        names["unpack_data"]([str, Path][rng.integers(2)](src), fields)
    finally:
        os.chdir(cwd)
    files = dict(zip(("wvl1", "wvl2", "wvl3a", "wvl3b", "wvl4", "wvl5"),
                     (f"NOAA_15_A302xx{k}.txt" for k in ("01", "02", "3A", "3B", "04", "05"))))
    mon.check(sorted(p.name for p in scratch.glob("NOAA*")) == sorted(files[n] for n in curves), "one file for each band of the table",
              got=sorted(p.name for p in scratch.iterdir()))
    for name, (w, r) in curves.items():
        got_w, got_r, head = _text_curve(scratch / files[name])
        mon.check(head.startswith("#"), "a header line", got=head)
        mon.close(got_w, w, "old table: wavelengths", rtol=3e-7, atol=1e-6, band=name)
        mon.close(got_r, r / 100, "old table: responses as fractions", rtol=3e-7, atol=1e-6, band=name)
    mon.ev("old_tables")
    return (fields[0], len(rows), float(curves[fields[0]][0][0]))


class _Moved:
    """The author's own directory, which the script names, is in the scratch directory."""

    HOME = "/home/a000680"

    def __init__(self, root):
        self.root = root
        self.saved = {}

    def path(self, path):
        """Where a path of the script is."""
        try:
            text = os.fspath(path)
        except TypeError:
            return path
        if isinstance(text, str) and text.startswith(self.HOME):
            return str(self.root) + text[len(self.HOME):]
        return path

    def __enter__(self):
        for mod, name in ((builtins, "open"), (io, "open"), (np, "savetxt"), (np, "loadtxt"), (np, "genfromtxt")):
            func = self.saved[mod, name] = getattr(mod, name)
            setattr(mod, name, lambda p, *a, _f=func, **k: _f(self.path(p), *a, **k))
        return self

    def __exit__(self, *exc):
        for (mod, name), func in self.saved.items():
            setattr(mod, name, func)


@SUITE.case(quick=16, thorough=200)
def split_files(mon, rng, scratch):
    """The Metop-C AVHRR file, all bands in wavenumbers, becomes one file per band in wavelengths."""
    home = scratch / "home"
    work = home / "data" / "SpectralResponses" / "avhrr"
    work.mkdir(parents=True)
    files = dict(zip(("1", "2", "3A", "3B", "4", "5"), (f"Metop_C_A309C{k}.txt" for k in ("001", "002", "03A", "03B", "004", "005"))))
    text, curves = ["Preliminary", ""][:int(rng.integers(0, 3))], {}
    for band in files:
        n = int(rng.integers(3, 40))
        wn = np.sort(rng.uniform(700, 20000, n)).round(3)
        resp = rng.uniform(0, 1, n).round(6)
        curves[band] = (wn, resp)
        text += [f"AVHRR/3 A309 Channel {band}", "Wavenumber (cm-1)   Normalized"]
        text += [f"  {w:12.3f}   {r:9.6f}" for w, r in zip(wn, resp)]
        text += [""] * int(rng.integers(1, 4))
    (work / "AVHRR_A309_METOPC_SRF_PRELIMINARY.TXT").write_text("\n".join(text) + "\n\n")
    with _Moved(home):
        run("split_metop_avhrr_rsrfile")
    mon.check(sorted(p.name for p in work.glob("Metop*")) == sorted(files.values()), "one file for each band",
              got=sorted(p.name for p in work.iterdir()))
    for band, (wn, resp) in curves.items():
        got_w, got_r, _ = _text_curve(work / files[band])
        mon.close(got_w, 1e4 / wn[::-1], "split: wavelengths in micrometres, ascending", rtol=1e-9, atol=6e-7, band=band)
        mon.close(got_r, resp[::-1], "split: each wavelength with its response", rtol=1e-9, atol=6e-9, band=band)
    mon.ev("split_files")
    return tuple(len(c[0]) for c in curves.values())


@SUITE.case(quick=12, thorough=100)
def renamed(mon, rng, scratch):
    """The MODIS files under the new platform names."""
    root = scratch / "old"
    root.mkdir()
    sets = {}
    for sat in ("Aqua", "Terra"):
        sets[sat] = {b: data.make_band(rng, float(rng.uniform(.4, 12)), 0.1, ndet=int(rng.integers(1, 4))) for b in ("1", "20", "31")}
        data.write_rsr(root / f"rsr_modis_EOS-{sat}.h5", sets[sat], platform_name=f"EOS-{sat}", sensor=None,
                       attrs={"platform": "EOS", "sat_number": 2} if rng.integers(2) else None)
    before = data.snapshot_tree(root)
    run("modis_old2new_rsr", "-d", str(root))
    after = data.snapshot_tree(root)
    mon.check({k: v for k, v in after.items() if k in before} == before, "the old files are kept as they are")
    mon.check(sorted(set(after) - set(before)) == ["rsr_modis_Aqua.h5", "rsr_modis_Terra.h5"], "the new files and nothing else",
              got=sorted(set(after) - set(before)))
    for sat, bands in sets.items():
        read = RelativeSpectralResponse(filename=str(root / f"rsr_modis_{sat}.h5"))
        mon.check(read.platform_name == sat and read.instrument == "modis", "new names", got=(read.platform_name, read.instrument))
        with h5py.File(root / f"rsr_modis_{sat}.h5", "r") as h5f:
            mon.check("platform" not in h5f.attrs and "sat_number" not in h5f.attrs, "old names are gone", got=list(h5f.attrs))
        for band, dets in bands.items():
            for det, want in dets.items():
                mon.close(read.rsr[band][det]["response"], want["response"], "renamed: responses")
                mon.close(read.rsr[band][det]["wavelength"], want["wavelength"], "renamed: wavelengths", rtol=1e-12)
    mon.ev("renamed")
    return tuple(len(d) for s in sets.values() for d in s.values())
