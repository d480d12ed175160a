"""P05: platform and instrument select the response file."""
import itertools
import os

import numpy as np

from pyspectral.radiance_tb_conversion import RadTbConverter
from pyspectral.rayleigh import Rayleigh
from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.utils import are_instruments_identical, check_and_adjust_instrument_name
from vp import data
from vp.core import Suite
from vp.logs import capture
from vp.tables import INSTRUMENTS

SUITE = Suite(
    "P05", "exploration",
    "A case picks a platform (all documented ones are visited) in a directory of decoy files - every file carries "
    "its own signature curve - and asks for an instrument in one spelling; distinct by (platform, instrument, "
    "spelling, entry point).",
    needs=["files_selected", "replaced", "refusals", "readjusted", "rayleigh_selected", "similar_names", "none_of_several"])

ALL = {p: (i if isinstance(i, list) else [i]) for p, i in INSTRUMENTS.items()}
EVERY = sorted({i for v in ALL.values() for i in v})
PAIRS = [(p, i) for p, v in ALL.items() for i in v]


def _spell(rng, instr):
    bare = instr.replace("/", "").replace("-", "")
    forms = {instr, bare}
    if "/" in instr or "-" in instr:
        forms |= {instr.replace("/", "-"), instr.replace("-", "/")}
    form = str(rng.choice(sorted(forms)))
    how = rng.integers(4)
    return [form, form.upper(), form.capitalize(), form.lower()][how]


def _signature(k):
    """Each file has its own band position between 0.41 and 0.79 micrometre."""
    return 0.41 + 0.38 * k / 400


def _populate(rng, scratch, platform, instrs, skip=()):
    """Write the platform's files and decoys; returns {(platform, bare instrument): signature}."""
    sigs = {}
    others = [PAIRS[i] for i in rng.choice(len(PAIRS), 6, replace=False)]
    todo = [(platform, i) for i in instrs] + others + [(platform, str(rng.choice(EVERY)))]
    # neighbours that an imprecise match would confuse
    todo += [(platform + "X", instrs[0]), (platform[:-1], instrs[0]), (platform + "0", instrs[0]),
             (platform, instrs[0] + "2"), (platform.lower(), instrs[0]), (platform.upper(), instrs[0])]
    nums = rng.permutation(400)
    for k, (plat, ins) in enumerate(todo):
        bare = ins.replace("/", "").replace("-", "")
        if (plat, bare) in sigs or (plat, bare) in skip:
            continue
        sig = _signature(int(nums[k]))
        sigs[(plat, bare)] = sig
        wvl = np.linspace(sig - 0.004, sig + 0.004, 9)
        resp = np.array([0.1, 0.4, 0.8, 1, 1, 1, 0.8, 0.4, 0.1])
        band = {"det-1": {"wavelength": wvl, "response": resp, "central_wavelength": sig}}
        data.write_rsr(scratch / "rsr" / f"rsr_{bare}_{plat}.h5", {"bandA": band}, platform_name=plat, sensor=ins)
    return sigs


@SUITE.case(quick=660, thorough=8000)
def select(mon, rng, scratch):
    """The right file, whatever the spelling."""
    data.use_config(scratch)
    k = int(rng.integers(1 << 30))
    platform, instr = PAIRS[k % len(PAIRS)]
    sigs = _populate(rng, scratch, platform, ALL[platform])
    spelled = _spell(rng, instr)
    bare = instr.replace("/", "").replace("-", "")
    mon.ctx(platform=platform, instrument=instr, spelled=spelled)
    with capture() as log:
        obj = RelativeSpectralResponse(platform, spelled)
    want = sigs[(platform, bare)]
    mon.check(obj.filename.name == f"rsr_{bare}_{platform}.h5" and obj.filename.parent == scratch / "rsr",
              "the instrument's file for exactly that platform", got=str(obj.filename))
    mon.check(abs(obj.rsr["bandA"]["det-1"]["central_wavelength"] - want) < 1e-12, "the data are those of that file")
    mon.check(obj.platform_name == platform, "the platform is reported", got=obj.platform_name)
    mon.check(not log.warnings(), "no warning for an instrument that flies there",
              warnings=log.warnings())
    mon.ev("files_selected")
    mon.seen("platform_instrument", (platform, instr))
    mon.seen("spellings", spelled)
    again = RelativeSpectralResponse(obj.platform_name, obj.instrument)
    mon.check(again.filename == obj.filename and again.instrument == obj.instrument,
              "the reported names select the same file again", got=str(again.filename), reported=obj.instrument)
    mon.ev("readjusted")
    conv = RadTbConverter(platform, spelled, "bandA")
    mon.close(np.mean(conv.wavelength_or_wavenumber), want * 1e-6, "the converter uses the same file", rtol=1e-9)
    return (platform, instr, spelled)


@SUITE.case(quick=2, thorough=4)
def whole_table(mon, rng, scratch):
    """Every platform and instrument of the documented table, in every spelling form."""
    data.use_config(scratch)
    sigs = {}
    for k, (plat, ins) in enumerate(PAIRS):
        bare = ins.replace("/", "").replace("-", "")
        sigs[(plat, bare)] = 1.0 + k
        wvl = np.linspace(k + 0.9, k + 1.1, 3)
        band = {"det-1": {"wavelength": wvl, "response": np.ones(3), "central_wavelength": 1.0 + k}}
        data.write_rsr(scratch / "rsr" / f"rsr_{bare}_{plat}.h5", {"bandA": band}, platform_name=plat, sensor=ins)
    for plat, ins in PAIRS:
        bare = ins.replace("/", "").replace("-", "")
        for form in {ins, bare, ins.replace("/", "-"), ins.replace("-", "/")}:
            for cased in (form, form.upper()):
                mon.ctx(platform=plat, instrument=cased)
                obj = RelativeSpectralResponse(plat, cased)
                mon.check(obj.rsr["bandA"]["det-1"]["central_wavelength"] == sigs[(plat, bare)],
                          "documented platform and instrument select their own file", got=str(obj.filename))
                mon.ev("files_selected")
        if len(ALL[plat]) == 1:
            for wrong in rng.choice([e for e in EVERY if e.replace("/", "").replace("-", "") != bare], 6):
                mon.ctx(platform=plat, instrument=str(wrong))
                with capture() as log:
                    obj = RelativeSpectralResponse(plat, str(wrong))
                mon.check(obj.rsr["bandA"]["det-1"]["central_wavelength"] == sigs[(plat, bare)],
                          "an instrument that does not fly there is replaced by the one that does",
                          got=str(obj.filename))
                mon.check(len(log.warnings()) > 0, "a replaced instrument is warned about")
                mon.ev("replaced")
    return "table"


@SUITE.case(quick=160, thorough=3000)
def replaced(mon, rng, scratch):
    """A wrong instrument on a single-instrument platform."""
    data.use_config(scratch)
    singles = [p for p, v in ALL.items() if len(v) == 1]
    platform = str(rng.choice(singles))
    instr = ALL[platform][0]
    bare = instr.replace("/", "").replace("-", "")
    sigs = _populate(rng, scratch, platform, [instr])
    wrong = str(rng.choice([e for e in EVERY if e != instr] + ["avhrr", "avhrr/4", "foo", instr + "x", instr[:-1]]))
    wrong = wrong.upper() if rng.integers(2) else wrong
    mon.ctx(platform=platform, given=wrong)
    with capture() as log:
        obj = RelativeSpectralResponse(platform, wrong)
    mon.check(obj.filename.name == f"rsr_{bare}_{platform}.h5", "the instrument that flies there is used",
              got=str(obj.filename))
    mon.check(len(log.warnings()) > 0, "a replaced instrument is warned about")
    mon.check(abs(obj.rsr["bandA"]["det-1"]["central_wavelength"] - sigs[(platform, bare)]) < 1e-12, "its data are read")
    with capture() as log:
        again = RelativeSpectralResponse(platform, obj.instrument)
    mon.check(again.filename == obj.filename and not log.warnings(), "the adjusted name can be used again",
              reported=obj.instrument, got=str(again.filename), warnings=log.warnings())
    adj = check_and_adjust_instrument_name(platform, wrong)
    mon.check(adj == bare and check_and_adjust_instrument_name(platform, adj) == adj, "adjustment is idempotent",
              got=adj)
    mon.ev("replaced")
    mon.ev("readjusted")
    return (platform, wrong)


@SUITE.case(quick=120, thorough=2000)
def none_of_several(mon, rng, scratch):
    """A wrong instrument where several fly: one of those, or an error, never data of an instrument that is not there."""
    data.use_config(scratch)
    platform = str(rng.choice([p for p, v in ALL.items() if len(v) > 1]))
    bares = [i.replace("/", "").replace("-", "") for i in ALL[platform]]
    one = ALL[platform][rng.integers(len(bares))]
    pool = [e for e in EVERY if e.replace("/", "").replace("-", "") not in bares] + [one + "x", one[:-1], one[:4], "foo"]
    wrong = str(rng.choice([w for w in pool if w.replace("/", "").replace("-", "") not in bares]))
    sigs = _populate(rng, scratch, platform, ALL[platform] + [wrong])
    mon.ctx(platform=platform, given=wrong)
    with capture() as log:
        try:
            obj = RelativeSpectralResponse(platform, wrong.upper() if rng.integers(2) else wrong)
        except (ValueError, OSError):
            mon.ev("none_of_several")
            return platform, wrong
    mon.check(obj.filename.name in [f"rsr_{b}_{platform}.h5" for b in bares],
              "where several instruments fly, one of those is used", got=str(obj.filename))
    mon.check(len(log.warnings()) > 0, "a replaced instrument is warned about")
    mon.check(abs(obj.rsr["bandA"]["det-1"]["central_wavelength"] - sigs[(platform, obj.instrument)]) < 1e-12, "its data are read",
              instrument=obj.instrument)
    mon.ev("none_of_several")
    return platform, wrong


@SUITE.case(quick=120, thorough=2000)
def unknown_and_missing(mon, rng, scratch):
    """Unknown platforms, missing files, contradictory arguments."""
    data.use_config(scratch)
    platform = str(rng.choice(["Unknown-1", "GOES-99", "noaa-18", "NOAA18", "Sentinel-9Z", "meteosat-9"]))
    instr = str(rng.choice(EVERY + ["fancy-1", "Fancy", "x/y"]))
    bare = instr.lower().replace("/", "").replace("-", "")
    sigs = _populate(rng, scratch, platform, [instr.lower()])
    mon.ctx(platform=platform, instr=instr)
    given = instr.upper() if rng.integers(2) else instr
    with capture() as log:
        obj = RelativeSpectralResponse(platform, given)
    mon.check(obj.filename.name == f"rsr_{bare}_{platform}.h5", "unknown platforms use the instrument as given",
              got=str(obj.filename))
    mon.check(obj.rsr["bandA"]["det-1"]["central_wavelength"] == sigs[(platform, bare)], "and its data")
    mon.ev("files_selected")
    # missing
    name = f"rsr_{bare}_{platform}.h5"
    os.remove(scratch / "rsr" / name)
    err = mon.raises(FileNotFoundError, "a missing file is an error", RelativeSpectralResponse, platform, instr)
    mon.check(name in str(err), "the error names the missing file", error=str(err))
    plat2, ins2 = PAIRS[rng.integers(len(PAIRS))]
    name2 = f"rsr_{ins2.replace('/', '').replace('-', '')}_{plat2}.h5"
    if (scratch / "rsr" / name2).exists():
        os.remove(scratch / "rsr" / name2)
    err = mon.raises(FileNotFoundError, "a missing file of a known platform is an error", RelativeSpectralResponse,
                     plat2, ins2)
    mon.check(name2 in str(err), "the error names the missing file", error=str(err))
    # the only file there is one of a platform or instrument with a similar name
    close = [(plat2 + "0", ins2), (plat2 + "-1", ins2), (plat2, ins2 + "2"), (plat2, "x" + ins2), (plat2[:-1], ins2),
             (plat2.upper() + "x", ins2), (PAIRS[rng.integers(len(PAIRS))][0] + "_" + plat2, ins2), (plat2 + "_old", ins2)]
    plat3, ins3 = close[rng.integers(len(close))]
    alone = scratch / "alone"
    bare3 = ins3.replace("/", "").replace("-", "")
    band = {"det-1": {"wavelength": np.linspace(0.5, 0.6, 5), "response": np.ones(5), "central_wavelength": 0.55}}
    data.use_config(scratch, name="alone.yaml", rsr_dir=str(alone))
    data.write_rsr(alone / f"rsr_{bare3}_{plat3}.h5", {"bandA": band}, platform_name=plat3, sensor=ins3)
    mon.ctx(only_file=f"rsr_{bare3}_{plat3}.h5")
    err = mon.raises(FileNotFoundError, "a file of a similar name does not serve", RelativeSpectralResponse, plat2, ins2)
    mon.check(name2 in str(err), "the error names the missing file", error=str(err))
    mon.ev("similar_names")
    data.use_config(scratch)
    err = mon.raises(FileNotFoundError, "a missing given file is an error", RelativeSpectralResponse,
                     filename=str(scratch / "rsr" / "gone.h5"))
    mon.check("gone.h5" in str(err), "the error names the given file", error=str(err))
    # nor does a file of that name in the configured directory serve
    same = next((scratch / "rsr").glob("rsr_*.h5")).name
    err = mon.raises(FileNotFoundError, "a missing given file is an error", RelativeSpectralResponse,
                     filename=[str, type(scratch)][rng.integers(2)](scratch / "elsewhere" / same))
    mon.check("elsewhere" in str(err), "the error names the given file", error=str(err))
    # a directory of that name is not a file
    os.makedirs(scratch / "rsr" / "adir.h5")
    mon.raises(FileNotFoundError, "a directory is not a response file", RelativeSpectralResponse,
               filename=scratch / "rsr" / "adir.h5")
    # arguments
    some = next((scratch / "rsr").glob("rsr_*.h5"))
    for kw in ({}, {"platform_name": platform}, {"instrument": instr}, {"filename": some, "platform_name": platform},
               {"filename": some, "instrument": instr}, {"filename": some, "platform_name": platform,
                                                         "instrument": instr}):
        mon.ctx(arguments=sorted(kw))
        mon.raises(ValueError, "incomplete or contradictory arguments are rejected", RelativeSpectralResponse, **kw)
    return (platform, given)


@SUITE.case(quick=180, thorough=2500)
def rayleigh_sensor(mon, rng, scratch):
    """The Rayleigh correction uses the band of the right platform and sensor."""
    data.use_config(scratch)
    platform, instr = PAIRS[rng.integers(len(PAIRS))]
    bare = instr.replace("/", "").replace("-", "")
    sigs = _populate(rng, scratch, platform, ALL[platform])
    lut = {"wavelengths": np.linspace(400.0, 800.0, 3), "sun_zenith_secant": np.linspace(1, 5, 3),
           "azimuth_difference": np.linspace(0, 180, 3), "satellite_zenith_secant": np.linspace(1, 3, 3)}
    lut["reflectance"] = np.broadcast_to((lut["wavelengths"] / 1000)[:, None, None, None], (3, 3, 3, 3)).copy()
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
    single = len(ALL[platform]) == 1
    given = instr
    if single and rng.integers(2):
        given = str(rng.choice([e for e in EVERY if e != instr]))
    mon.ctx(platform=platform, given=given)
    with capture() as log:
        ray = Rayleigh(platform, given)
    if given != instr:
        mon.check(len(log.warnings()) > 0, "a replaced sensor is warned about")
        mon.ev("replaced")
    ang = np.full((2, 2), 30.0)
    res = ray.get_reflectance(ang, ang, ang, "bandA")
    # the table is the wavelength itself: 100 * wavelength [micrometre]
    mon.check(np.all(np.abs(res / 100 - sigs[(platform, bare)]) < 2e-4), "the band is that of the right platform and sensor",
              got=res / 100, want=sigs[(platform, bare)])
    mon.ev("rayleigh_selected")
    if not single:
        bad = str(rng.choice([e for e in EVERY if e not in ALL[platform]]))
        mon.raises(ValueError, "several sensors: an absent one is refused", Rayleigh, platform, bad)
    mon.raises(KeyError, "no response file: refused with the band and platform named",
               Rayleigh("Unknown-7", "none").get_reflectance, ang, ang, ang, "bandA")
    return (platform, given)


@SUITE.case(quick=1, thorough=1)
def identity(mon, rng, scratch):
    """Which names mean the same instrument."""
    def bare(x):
        return x.replace("/", "").replace("-", "")
    for a, b in itertools.product(EVERY, EVERY):
        for fa in {a, bare(a), a.replace("/", "-")}:
            for fb in {b, bare(b), b.replace("/", "-")}:
                mon.ctx(a=fa, b=fb)
                got = are_instruments_identical(fa, fb)
                mon.check(got is (bare(a) == bare(b)), "two names are identical exactly if they name one instrument",
                          got=got)
                mon.ev("name_pairs")
    for bad in (None, 3, ["avhrr"], b"avhrr"):
        mon.raises(ValueError, "names must be strings", are_instruments_identical, "avhrr/1", bad)
        mon.raises(ValueError, "names must be strings", are_instruments_identical, bad, "avhrr/1")
    return "pairs"
