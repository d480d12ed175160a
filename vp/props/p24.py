"""P24: calls leave the caller's data alone and repeat identically."""
import copy
import sys
import threading
import time
import random

import dask
import dask.array as da
import h5py
import numpy as np
import xarray as xr

from pyspectral.atm_correction_ir import AtmosphericalCorrection
from pyspectral.blackbody import blackbody, blackbody_rad2temp, blackbody_wn, blackbody_wn_rad2temp
from pyspectral.config import get_config
from pyspectral.near_infrared_reflectance import Calculator
from pyspectral.radiance_tb_conversion import RadTbConverter, SeviriRadTbConverter, radiance2tb
from pyspectral.rayleigh import Rayleigh
from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.solar import SolarIrradianceSpectrum
from pyspectral.utils import (
    are_instruments_identical,
    bytes2string,
    check_and_adjust_instrument_name,
    convert2hdf5,
    convert2str,
    convert2wavenumber,
    get_bandname_from_wavelength,
    get_bounds_integrated_energy,
    get_central_wave,
    get_fullwidth_halfmax,
    get_wave_range,
    np2str,
    sort_data,
)
from vp import data, nir
from vp.core import Suite
from vp.sched import random_chunks

SUITE = Suite(
    "P24", "exploration",
    "A case runs one public operation, a random history of operations on a pool of shared and fresh objects, or several threads "
    "with their own objects (with sleeps injected at random lines of the package); every argument and every earlier result is "
    "fingerprinted before and after, and every call is repeated on the same and on a fresh object, later in the history and "
    "sequentially; distinct by (operations, carriers, order).",
    needs=["arguments_fingerprinted", "results_fingerprinted", "repeats_same_object", "repeats_fresh_object", "histories",
           "threads_run", "crowds", "lines_delayed", "results_overwritten", "read_only_arguments", "masked_arguments", "lazy_arguments",
           "buffers_refilled"],
    assumptions=["Identical means the same type, shape, missing pixels and values within 4 units in the last place.",
                 "viewzen_corr (low level) and RelativeSpectralResponse.convert change their argument/object by design."])


# --- fingerprints -----------------------------------------------------------

def snap(obj):
    """A comparable deep fingerprint."""
    if isinstance(obj, np.ma.MaskedArray):
        return ("ma", snap(np.asarray(obj.data)), snap(np.ma.getmaskarray(obj)))
    if isinstance(obj, np.ndarray):
        return ("nd", obj.dtype.str, obj.shape, obj.tobytes() if obj.dtype != object else repr(obj.tolist()))
    if isinstance(obj, da.Array):
        with dask.config.set(scheduler="synchronous"):
            return ("da", obj.chunks, snap(obj.compute()))
    if isinstance(obj, xr.DataArray):
        return ("xr", obj.dims, snap(dict(obj.attrs)), snap({str(k): v.values for k, v in obj.coords.items()}), snap(obj.data))
    if isinstance(obj, dict):
        return (type(obj).__name__, tuple((repr(k), snap(v)) for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(snap(v) for v in obj))
    if isinstance(obj, RelativeSpectralResponse):
        return ("rsr", snap({k: v for k, v in sorted(vars(obj).items())}))
    return repr(obj)


def val(res):
    """Result as {path: array}."""
    out = {}

    def walk(path, obj):
        if isinstance(obj, da.Array):
            with dask.config.set(scheduler="synchronous"):
                obj = obj.compute()
        if isinstance(obj, xr.DataArray):
            walk(path + ".x", obj.data)
        elif isinstance(obj, dict):
            out[path + ".keys"] = np.array([repr(k) for k in obj])
            for k, v in obj.items():
                walk(f"{path}[{k!r}]", v)
        elif isinstance(obj, (list, tuple)):
            out[path + ".len"] = np.array(len(obj))
            for i, v in enumerate(obj):
                walk(f"{path}[{i}]", v)
        elif isinstance(obj, np.ma.MaskedArray):
            out[path + ".mask"] = np.ma.getmaskarray(obj).copy()
            out[path] = np.array(obj.filled(0))
        elif isinstance(obj, (np.ndarray, np.generic, float, int)):
            out[path] = np.array(obj)
        else:
            out[path] = np.array(repr(obj))
    walk("", res)
    return out


def arrays(obj):
    """All in-memory arrays inside an object."""
    if isinstance(obj, np.ma.MaskedArray):
        return [np.asarray(obj.data)] + ([obj.mask] if obj.mask is not np.ma.nomask else [])
    if isinstance(obj, np.ndarray):
        return [obj]
    if isinstance(obj, xr.DataArray):
        return arrays(obj.data)
    if isinstance(obj, dict):
        return [a for v in obj.values() for a in arrays(v)]
    if isinstance(obj, (list, tuple)):
        return [a for v in obj for a in arrays(v)]
    if isinstance(obj, RelativeSpectralResponse):
        return arrays(vars(obj))
    return []


def scribble(res):
    """The caller overwrites a result of theirs; returns the number of arrays overwritten."""
    done = 0
    for arr in arrays(res):
        if arr.size and arr.flags.writeable and arr.dtype.kind in "fib":
            arr[...] = 1 if arr.dtype.kind == "b" else 77
            done += 1
    for one in dicts(res):
        one["scribble"] = done
    return done


def dicts(obj):
    """All dictionaries inside an object."""
    if isinstance(obj, dict):
        return [d for v in list(obj.values()) for d in dicts(v)] + [obj]
    if isinstance(obj, (list, tuple)):
        return [d for v in obj for d in dicts(v)]
    return []


def same(mon, got, want, what):
    """Identical results."""
    mon.check(list(got) == list(want), what + " (structure)", got=list(got), want=list(want))
    for key, a in got.items():
        b = want[key]
        mon.check(a.dtype == b.dtype and a.shape == b.shape, what + " (type/shape)", got=f"{a.dtype}{a.shape}", want=f"{b.dtype}{b.shape}")
        if a.dtype.kind == "f":
            mon.close(a, b, what, rtol=4 * np.finfo(a.dtype).eps)
        else:
            mon.check(np.array_equal(a, b), what, got=a, want=b)


# --- operations: each returns (make object, call(object), arguments) ----------

def world(rng, scratch):
    """Everything the operations need: files and scenes."""
    data.use_config(scratch)
    w = {"scratch": scratch}
    w["plat"], w["instr"], w["band"], w["dets"] = nir.setup(rng, scratch, n=15, ndet=int(rng.integers(1, 3)))
    lut = data.rayleigh_lut(rng)
    data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
    vis = data.make_band(rng, 0.64, 0.06, ndet=2)
    w["file"] = data.write_rsr(scratch / "rsr" / "rsr_abi_GOES-16.h5",
                               {"ch2": vis, "ch7": data.make_band(rng, 3.8, 0.2, n=15), "ch13": data.make_band(rng, 10.4, 0.5)},
                               platform_name="GOES-16", sensor="abi")
    conv = RadTbConverter(w["plat"], w["instr"], w["band"])
    conv.make_tb2rad_lut(scratch / "own.npz")
    w["lut"] = {k: np.array(v) for k, v in conv.read_tb2rad_lut(str(scratch / "own.npz")).items()}
    return w


def img(mon, rng, arr, lazy=True, masked=False, lists=False):
    """An image in some carrier."""
    # all of one precision in two thirds of the operations
    arr = arr.astype([rng.choice(["f4", "f8"]), "f4", "f8"][(mon.index // 7) % 3])
    pick = int(rng.integers(6))
    if pick == 0 and lazy:
        mon.ev("lazy_arguments")
        return da.from_array(arr, chunks=random_chunks(rng, arr.shape))
    if pick == 1 and masked:
        mon.ev("masked_arguments")
        return np.ma.masked_array(arr, mask=rng.integers(0, 4, arr.shape) == 0)
    if pick == 2:
        arr.setflags(write=False)
        mon.ev("read_only_arguments")
    elif pick == 3 and arr.ndim == 2:
        return np.asfortranarray(arr)
    elif pick == 4 and lists and arr.ndim == 1:
        return [float(x) for x in arr]
    return arr


def _wave(rng):
    return float(rng.uniform(3e-6, 14e-6))


def op_blackbody(mon, rng, w):
    waves = rng.uniform(3e-6, 14e-6, int(rng.integers(1, 6)))
    temps = rng.uniform(180, 330, int(rng.integers(1, 6)))
    temps[0] = rng.choice([0.0, np.nan, temps[0]])
    args = [img(mon, rng, waves, lazy=False, lists=True), img(mon, rng, temps, lazy=False)]
    if rng.integers(2):
        return (lambda: None), (lambda o: blackbody(*args)), args
    args[0] = img(mon, rng, 1 / waves, lazy=False, lists=True)
    return (lambda: None), (lambda o: blackbody_wn(*args)), args


def op_rad2temp(mon, rng, w):
    wav = _wave(rng)
    rad = np.asarray(blackbody(wav, rng.uniform(190, 330, 12)), dtype=np.float64).reshape(3, 4)
    rad.flat[0] = rng.choice([-1.0, np.nan, rad.flat[0]])
    arr = img(mon, rng, rad)
    if rng.integers(4) == 0:
        arr = xr.DataArray(arr, dims=("y", "x"), attrs={"a": [1]}, coords={"y": [1, 2, 3]})
    which = int(rng.integers(3))
    wave = np.full(arr.shape, wav) if rng.integers(4) == 0 and not isinstance(arr, (da.Array, xr.DataArray)) else wav
    call = [lambda o: blackbody_rad2temp(wave, arr), lambda o: blackbody_wn_rad2temp(1 / wave, arr), lambda o: radiance2tb(arr, wave)][which]
    return (lambda: None), call, [arr, wave]


def op_converter(mon, rng, w):
    kw = {"wavespace": str(rng.choice(["wavelength", "wavenumber"]))}
    tb = img(mon, rng, rng.uniform(200, 320, 7), lazy=False)
    norm = bool(rng.integers(2))
    band = w["band"]
    return (lambda: RadTbConverter(w["plat"], w["instr"], band, **kw)), (lambda o: o.tb2radiance(tb, normalized=norm)), [tb, kw, band]


def op_table(mon, rng, w):
    tb = rng.uniform(100, 400, (3, 4))
    tb[0, 0] = np.nan
    arr = img(mon, rng, tb)
    lut = w["lut"]
    return (lambda: RadTbConverter(w["plat"], w["instr"], w["band"])), (lambda o: o.tb2radiance(arr, lut=lut)["radiance"]), [arr, lut]


def op_back(mon, rng, w):
    rad = np.asarray(blackbody(3.8e-6, rng.uniform(230, 330, 12)), dtype=np.float64).reshape(3, 4)
    arr = img(mon, rng, rad)
    return (lambda: RadTbConverter(w["plat"], w["instr"], w["band"])), (lambda o: o.radiance2tb(arr)), [arr]


def op_seviri(mon, rng, w):
    band = str(rng.choice(["IR3.9", "IR10.8", "IR12.0", "WV6.2"]))
    plat = str(rng.choice(["Meteosat-8", "Meteosat-9"]))
    tb = img(mon, rng, rng.uniform(200, 320, (2, 3)), lazy=False)
    back = bool(rng.integers(2))

    def call(o):
        return o.radiance2tb(tb) if back else o.tb2radiance(tb)
    return (lambda: SeviriRadTbConverter(plat, band)), call, [tb]


def op_reflectance(mon, rng, w):
    sunz, tb39, tb11 = nir.scene(rng, (4, 5))
    args = [img(mon, rng, sunz, masked=True), img(mon, rng, tb39, masked=True), img(mon, rng, tb11, masked=True)]
    kw = {"tb_ir_co2": img(mon, rng, tb11 - 12, masked=True)} if rng.integers(2) else {}
    if rng.integers(3) == 0:
        kw["lut"] = w["lut"]
    flux = [None, 2.25][rng.integers(2)]
    emissive = int(rng.integers(3))

    def call(o):
        res = o.reflectance_from_tbs(*args, **kw)
        if emissive:
            return [res, o.emissive_part_3x(tb=emissive == 1), o.emissive_part_3x(tb=emissive == 2)]
        return res
    return (lambda: Calculator(w["plat"], w["instr"], w["band"], solar_flux=flux)), call, args + [kw]


def op_rayleigh(mon, rng, w):
    shape = (3, 4)
    sunz, satz = rng.uniform(0, 95, shape), rng.uniform(0, 90, shape)
    sunz[0, 0] = rng.choice([np.nan, 90.0, sunz[0, 0]])
    args = [img(mon, rng, sunz), img(mon, rng, satz), img(mon, rng, rng.uniform(0, 180, shape))]
    red = [img(mon, rng, rng.uniform(-5, 130, shape))] if rng.integers(2) else []
    band = ["ch2", 0.55, 0.95][rng.integers(3)]
    return (lambda: Rayleigh("GOES-16", "abi")), (lambda o: o.get_reflectance(*args, band, *red)), args + red


def op_highzenith(mon, rng, w):
    args = [img(mon, rng, rng.uniform(50, 100, (3, 4))), img(mon, rng, rng.uniform(0, 60, (3, 4)))]
    return (lambda: None), (lambda o: Rayleigh.reduce_rayleigh_highzenith(*args, 70.0, 90.0, 0.6)), args


def op_limb(mon, rng, w):
    zen = rng.uniform(-5, 95, (3, 4))
    zen[0, 0] = 0.0
    tb = rng.uniform(190, 310, (3, 4))
    args = [img(mon, rng, zen), img(mon, rng, tb, masked=True)]
    return (lambda: AtmosphericalCorrection("EOS-Terra", "modis")), (lambda o: o.get_correction(args[0], "ch31", args[1])), args


def op_solar(mon, rng, w):
    rsr = RelativeSpectralResponse("GOES-16", "abi")
    band = str(rng.choice(["ch2", "ch7"]))
    arg = rsr.rsr[band]
    ws = str(rng.choice(["wavelength", "wavenumber"]))
    if ws == "wavenumber":
        conv, _ = convert2wavenumber(rsr.rsr)
        arg = conv[band]
    flux = bool(rng.integers(2))
    kw = {"detector": 2} if band == "ch2" and rng.integers(2) else {}

    def call(o):
        return o.inband_solarflux(arg, **kw) if flux else o.inband_solarirradiance(arg, **kw)
    step = float(rng.choice([0.0005, 0.0005, 0.01, 0.002]))
    return (lambda: SolarIrradianceSpectrum(dlambda=step, wavespace=ws)), call, [arg, rsr, kw]


def op_spectrum(mon, rng, w):
    return (lambda: SolarIrradianceSpectrum(dlambda=0.001)), (lambda o: o.solar_constant()), []


def op_towavenumber(mon, rng, w):
    rsr = RelativeSpectralResponse("GOES-16", "abi")
    arg = rsr.rsr
    how = int(rng.integers(4))
    if how == 1:
        # already in wavenumber space
        rsr.convert()
    elif how == 2:
        arg, _ = convert2wavenumber(rsr.rsr)
    elif how == 3:
        # responses of a detector kept by name
        arg = {b: {d: dict(v, response={"a": v["response"].copy(), "b": v["response"] * 2}) for d, v in dets.items()}
               for b, dets in rsr.rsr.items()}
    return (lambda: None), (lambda o: convert2wavenumber(arg)), [arg, rsr]


def op_statistics(mon, rng, w):
    wvl, resp = data.curve(rng, 1.6, 0.2, n=30)
    perm = rng.permutation(30)
    args = [img(mon, rng, wvl, lazy=False), img(mon, rng, resp, lazy=False)]
    shuffled = [img(mon, rng, wvl[perm], lazy=False), img(mon, rng, resp[perm], lazy=False)]
    weight = 1 / np.asarray(args[0], dtype=np.float64) ** 4
    ch = {"wavelength": args[0], "response": args[1], "central_wavelength": 1.6}
    which = int(rng.integers(5))
    call = [lambda o: get_central_wave(args[0], args[1], weight=weight), lambda o: sort_data(*shuffled),
            lambda o: get_fullwidth_halfmax(args[1], args[0]), lambda o: get_bounds_integrated_energy(args[1], args[0], 3),
            lambda o: get_wave_range({"det-1": ch, "det-2": ch} if False else ch, 0.15)][which]
    return (lambda: None), call, args + shuffled + [weight, ch]


def op_reader(mon, rng, w):
    which = int(rng.integers(5))
    call = [lambda o: o.integral("ch2"), lambda o: o.get_bandname_from_wavelength(10.4, 0.3), lambda o: o.rsr["ch7"],
            lambda o: o.rsr.get("ch13"), lambda o: [o.band_names, o.platform_name, o.instrument, o.unit, o.si_scale]][which]
    return (lambda: RelativeSpectralResponse("GOES-16", "abi")), call, []


def op_converted(mon, rng, w):
    """The documented in-place conversion concerns the converted object only."""
    def call(o):
        rsr = RelativeSpectralResponse("GOES-16", "abi")
        rsr.convert()
        return rsr.rsr
    return (lambda: None), call, []


def op_search(mon, rng, w):
    rsr = RelativeSpectralResponse("GOES-16", "abi")
    eps = float(rng.choice([0.1, 0.5]))
    wl = float(rng.choice([3.8, 10.4, 0.64, 7.0]))
    return (lambda: None), (lambda o: get_bandname_from_wavelength("abi", wl, rsr.rsr, eps, True)), [rsr.rsr, rsr]


def op_names(mon, rng, w):
    instruments = np.array([b"abi", b"ahi"])
    name = np.bytes_(b"avhrr/3")
    plat = str(rng.choice(["NOAA-18", "GOES-16", "FY-3D", "Metop-B"]))
    inst = str(rng.choice(["avhrr-3", "abi", "viirs", "mersi2"]))
    which = int(rng.integers(4))
    call = [lambda o: [bytes2string(name), convert2str(name), np2str(name)], lambda o: [np2str(x) for x in instruments],
            lambda o: check_and_adjust_instrument_name(plat, inst), lambda o: are_instruments_identical(inst, "AVHRR/3")][which]
    return (lambda: None), call, [instruments]


def op_config(mon, rng, w):
    return (lambda: None), (lambda o: get_config()), []


class Source:
    """Raw responses for convert2hdf5."""

    bands = {}

    def __init__(self, bandname, platform_name):
        self.platform_name, self.bandname, self.instrument = platform_name, bandname, "abi"
        self.output_dir = Source.out
        self.rsr = Source.bands[bandname]
        self.filename = None


def op_tohdf5(mon, rng, w):
    bands = {b: {"wavelength": c[0], "response": c[1]} for b, c in (("ch1", data.curve(rng, 0.5, 0.05)), ("ch2", data.curve(rng, 0.6, 0.1)))}

    def call(o):
        src = type("Src", (Source,), {})
        Source.bands, Source.out = bands, str(w["scratch"])
        convert2hdf5(src, "Sat-1", list(bands))
        with h5py.File(w["scratch"] / "rsr_abi_Sat-1.h5", "r") as h5f:
            return {b: [h5f[b]["wavelength"][:], h5f[b]["response"][:]] for b in bands}
    return (lambda: None), call, [bands]


OPS = {k[3:]: v for k, v in list(globals().items()) if k.startswith("op_")}


@SUITE.case(quick=40 * len(OPS), thorough=700 * len(OPS))
def operations(mon, rng, scratch):
    """One operation, its arguments, the same again, and on a fresh object."""
    w = world(rng, scratch)
    name = list(OPS)[mon.index % len(OPS)]
    make, call, args = OPS[name](mon, rng, w)
    mon.ctx(operation=name)
    before = snap(args)
    obj = make()
    res = call(obj)
    mon.check(snap(args) == before, "arguments are unchanged")
    mon.ev("arguments_fingerprinted")
    first, fp = val(res), snap(res)
    again = val(call(obj))
    mon.check(snap(res) == fp, "a returned result is not changed by a later call")
    mon.ev("results_fingerprinted")
    same(mon, again, first, "repeating a call gives the same result")
    mon.ev("repeats_same_object")
    same(mon, val(call(make())), first, "a fresh object gives the same result")
    mon.ev("repeats_fresh_object")
    mon.check(snap(args) == before, "arguments are unchanged by repeated calls")
    mon.ev("results_overwritten", scribble(res))
    mon.check(snap(args) == before, "overwriting a result leaves the arguments alone")
    same(mon, val(call(make())), first, "overwriting a result does not influence a fresh object")
    return (name, before if len(repr(before)) < 2000 else hash(repr(before)))


IMAGE_OPS = ["blackbody", "rad2temp", "converter", "table", "back", "seviri", "reflectance", "rayleigh", "highzenith", "limb"]


def _refill(args):
    """Turn every array around in place, as if the next swath had been read into the same buffer."""
    count = 0
    for a in args:
        a = a.data if isinstance(a, xr.DataArray) else a
        if isinstance(a, np.ndarray) and a.dtype.kind == "f" and a.size > 1 and a.flags.writeable:
            a[...] = a[(slice(None, None, -1),) * a.ndim].copy()
            count += 1
        elif isinstance(a, list) and a and isinstance(a[0], float):
            a.reverse()
            count += 1
    return count


@SUITE.case(quick=12 * len(IMAGE_OPS), thorough=300 * len(IMAGE_OPS))
def buffers(mon, rng, scratch):
    """The caller reads the next scene into the arrays of the last one."""
    w = world(rng, scratch)
    name = IMAGE_OPS[mon.index % len(IMAGE_OPS)]
    twin = copy.deepcopy(rng)
    make, call, args = OPS[name](mon, rng, w)
    make2, call2, args2 = OPS[name](mon, twin, w)
    mon.ctx(operation=name)
    mon.check(snap(args) == snap(args2), "the harness makes equal arguments")
    obj = make()
    first = val(call(obj))
    res = call(obj)
    fp = snap(res)
    lazy = "'da'" in repr(fp) or any(isinstance(x, da.Array) for x in args)
    n = _refill(args)
    _refill(args2)
    want = val(call2(make2()))
    same(mon, val(call(obj)), want, "a call sees what its arguments hold now (same object)")
    same(mon, val(call(make())), want, "a call sees what its arguments hold now (fresh object)")
    if not lazy:
        mon.check(snap(res) == fp, "a result does not follow later changes of the arguments")
    _refill(args)
    same(mon, val(call(obj)), first, "a call sees what its arguments hold again")
    mon.ev("buffers_refilled", n)
    return (name, n, hash(repr(snap(args))))


@SUITE.case(quick=60, thorough=2500)
def histories(mon, rng, scratch):
    """Random histories on shared objects; every call is repeated later."""
    w = world(rng, scratch)
    pool = []
    for _ in range(int(rng.integers(4, 9))):
        name = str(rng.choice([n for n in OPS if n != "tohdf5"]))
        make, call, args = OPS[name](mon, rng, w)
        # half of the calls share an object with an earlier call of the same kind, if there is one
        old = [p for p in pool if p["name"] == name]
        shared = name in ("rayleigh", "limb", "table", "back", "reader")
        obj = old[-1]["obj"] if old and shared and rng.integers(2) else make()
        pool.append({"name": name, "make": make, "call": call, "args": args, "obj": obj, "fp": snap(args), "res": None})
    order = [int(i) for i in rng.integers(0, len(pool), 3 * len(pool))] + list(range(len(pool)))
    held = []
    for i in order:
        p = pool[i]
        fresh = rng.integers(4) == 0
        mon.ctx(operation=p["name"], history=[pool[j]["name"] for j in order][:20])
        res = p["call"](p["make"]() if fresh else p["obj"])
        held.append((res, snap(res), p["name"]))
        got = val(res)
        if p["res"] is None:
            p["res"] = got
        else:
            same(mon, got, p["res"], "a call gives the same result whatever was called in between")
            mon.ev("repeats_fresh_object" if fresh else "repeats_same_object")
    for p in pool:
        mon.ctx(operation=p["name"])
        mon.check(snap(p["args"]) == p["fp"], "arguments are unchanged after the history")
    for res, fp, name in held:
        mon.ctx(operation=name)
        mon.check(snap(res) == fp, "earlier results are unchanged after the history")
    mon.ev("histories")
    return tuple(pool[i]["name"] for i in order)


class Delays:
    """Sleep at random lines of the package (all threads)."""

    def __init__(self, seed, prob=0.03):
        self.rnd = random.Random(seed)
        self.prob = prob
        self.count = 0

    def __enter__(self):
        self.old = sys.getswitchinterval()
        sys.setswitchinterval(1e-5)
        mon = sys.monitoring
        mon.use_tool_id(5, "vp-delays")

        def line(code, lineno):
            if "pyspectral" not in code.co_filename or "/vp/" in code.co_filename:
                return mon.DISABLE
            if self.rnd.random() < self.prob:
                self.count += 1
                time.sleep(self.rnd.random() * 0.0005)
            return None
        mon.register_callback(5, mon.events.LINE, line)
        mon.set_events(5, mon.events.LINE)
        mon.restart_events()
        return self

    def __exit__(self, *exc):
        mon = sys.monitoring
        mon.set_events(5, 0)
        mon.free_tool_id(5)
        sys.setswitchinterval(self.old)
        return False


def _race(mon, rng, jobs, prob, rounds=1):
    """Run the jobs (lists of operations) in one thread each, all starting together, in every round anew."""
    barrier = threading.Barrier(len(jobs))
    results, errors, trace = {}, [], []

    def run(i):
        try:
            for r in range(rounds):
                barrier.wait(60)
                for j, (name, make, call, args, fp, want) in enumerate(jobs[i]):
                    trace.append((i, j, "start"))
                    results[i, j, r] = val(call(make()))
                    trace.append((i, j, "end"))
        except BaseException as err:      # noqa: B902 - reported below
            errors.append((i, repr(err)))
            barrier.abort()

    with Delays(int(rng.integers(1 << 30)), prob) as delays:
        ths = [threading.Thread(target=run, args=(i,), daemon=True) for i in range(len(jobs))]
        for t in ths:
            t.start()
        for t in ths:
            t.join(180)
    mon.ev("lines_delayed", delays.count)
    errors = [e for e in errors if "BrokenBarrier" not in e[1]] or errors
    mon.check(not errors, "threads with their own objects do not disturb each other", errors=errors,
              jobs=[[x[0] for x in j] for j in jobs])
    for (i, j, r), got in results.items():
        name, make, call, args, fp, want = jobs[i][j]
        mon.ctx(operation=name)
        same(mon, got, want, "threads give the sequential results")
        mon.check(snap(args) == fp, "arguments are unchanged by threads")
    mon.check(len(results) == rounds * sum(map(len, jobs)), "every call returned")
    mon.ev("threads_run", len(jobs))
    mon.seen("interleavings", trace)
    return tuple(trace)


@SUITE.case(quick=48, thorough=1600)
def threads(mon, rng, scratch):
    """Threads with their own objects, made inside the threads."""
    w = world(rng, scratch)
    names = [n for n in OPS if n != "tohdf5"]
    few = [str(x) for x in rng.choice(names, 2)]          # several threads in the same code
    jobs = []
    for _ in range(int(rng.integers(3, 7))):
        job = []
        for _ in range(int(rng.integers(1, 4))):
            name = str(rng.choice(few if rng.integers(2) else names))
            make, call, args = OPS[name](mon, rng, w)
            job.append((name, make, call, args, snap(args), val(call(make()))))
        jobs.append(job)
    return _race(mon, rng, jobs, 0.03)


@SUITE.case(quick=5 * (len(OPS) - 1), thorough=80 * (len(OPS) - 1))
def crowd(mon, rng, scratch):
    """All threads in the same operation, over and over, with frequent delays."""
    w = world(rng, scratch)
    names = [n for n in OPS if n != "tohdf5"]
    name = names[mon.index % len(names)]
    jobs = []
    for _ in range(4):
        make, call, args = OPS[name](mon, rng, w)
        jobs.append([(name, make, call, args, snap(args), val(call(make())))])
    mon.ev("crowds")
    return _race(mon, rng, jobs, 0.15, rounds=4)
