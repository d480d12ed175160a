"""P29: operations leave nothing behind in the process."""
import contextlib
import gc
import locale
import os
import random
import signal
import socket
import sys
import tempfile
import threading
import tracemalloc
import warnings

import dask
import dask.array as da
import h5py
import numpy as np
import xarray as xr
import yaml

from pyspectral import rayleigh, rsr_reader, utils
from pyspectral.atm_correction_ir import AtmosphericalCorrection
from pyspectral.blackbody import blackbody, blackbody_rad2temp, blackbody_wn_rad2temp
from pyspectral.config import get_config
from pyspectral.near_infrared_reflectance import Calculator
from pyspectral.radiance_tb_conversion import RadTbConverter, SeviriRadTbConverter, radiance2tb
from pyspectral.rayleigh import Rayleigh
from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.solar import SolarIrradianceSpectrum
from vp import data, tables, watch
from vp.core import Suite
from vp.net import fake_net, tarball
from vp.props import p24

SUITE = Suite(
    "P29", "exploration",
    "A case records the open files, threads, temporary files and process-wide settings (numpy error handling and printing, warning "
    "filters, random states, working directory, environment, umask, signal handlers, dask and xarray options, import path, socket "
    "time-out, locale), runs one operation - succeeding, failing on hostile input, or failing because its n-th file operation fails - and "
    "compares while the result or exception is still held and again after it is dropped; or it repeats one operation on large inputs and "
    "watches the traced memory; distinct by (operation, fault, setting).",
    needs=["operations_watched", "failures_watched", "injected", "files_opened", "settings_varied", "growth_watched", "downloads_watched",
           "threads_watched", "leftovers_watched", "interruptions"],
    assumptions=["A calculator may keep its table file open for as long as it lives."])


def open_files(root):
    """Files the process holds open (below root, and others outside /dev, pipes and sockets)."""
    res = []
    for fd in os.listdir("/proc/self/fd"):
        with contextlib.suppress(OSError):
            path = os.readlink(f"/proc/self/fd/{fd}")
            if path.startswith("/") and not path.startswith(("/dev/", "/proc/", "/sys/")):
                res.append(path)
    return sorted(res)


def _umask():
    old = os.umask(0o22)
    os.umask(old)
    return old


def settings():
    """Process-wide settings somebody else may depend on."""
    return {
        "numpy error handling": dict(np.geterr()), "numpy printing": repr(np.get_printoptions()), "numpy error callback": np.geterrcall(),
        "warning filters": [repr(f) for f in warnings.filters], "numpy random state": repr(np.random.get_state()[1:3]) + str(hash(np.random.get_state()[1].tobytes())),
        "random state": hash(random.getstate()), "working directory": os.getcwd(), "environment": dict(os.environ), "umask": _umask(),
        "signal handlers": [signal.getsignal(s) for s in (signal.SIGINT, signal.SIGTERM, signal.SIGCHLD, signal.SIGPIPE)],
        "dask options": repr(dask.config.config), "xarray options": repr(xr.get_options()), "import path": list(sys.path),
        "socket time-out": socket.getdefaulttimeout(), "locale": locale.setlocale(locale.LC_ALL), "recursion limit": sys.getrecursionlimit(),
        "temporary directory": tempfile.gettempdir(), "standard streams": (id(sys.stdout), id(sys.stderr), id(sys.stdin)),
        "default encoding of h5py strings": repr(h5py.get_config().track_order), "switch interval": sys.getswitchinterval(),
        "garbage collector": (gc.isenabled(), gc.get_threshold()), "exception hook": (sys.excepthook, threading.excepthook),
    }


def dasks():
    """Threads of dask's own pools, which it keeps for the next computation."""
    from dask import threaded
    pools = [threaded.default_pool] + [p for by_n in threaded.pools.values() for p in by_n.values()]
    return {t for p in pools for t in getattr(p, "_threads", ())}


class Watch:
    """Compare the process before and after."""

    def __init__(self, mon, scratch):
        self.mon, self.scratch = mon, str(scratch)
        gc.collect()
        self.files = open_files(scratch)
        self.threads = set(threading.enumerate())
        self.tmp = sorted(os.listdir(tempfile.gettempdir()))
        self.set = settings()

    def compare(self, what, held=False):
        """Nothing differs (tables of living calculators aside)."""
        mon = self.mon
        now = open_files(self.scratch)
        extra = list(now)
        for path in self.files:
            if path in extra:
                extra.remove(path)
        if held:
            extra = [p for p in extra if not p.endswith(".npz")]
        mon.check(not extra, f"files are closed {what}", open=extra)
        new = [t.name for t in set(threading.enumerate()) - self.threads - dasks() if t.is_alive()]
        mon.check(not new, f"no thread keeps running {what}", threads=new)
        mon.ev("threads_watched")
        mon.check(sorted(os.listdir(tempfile.gettempdir())) == self.tmp, f"no temporary files are left {what}",
                  left=sorted(set(os.listdir(tempfile.gettempdir())) - set(self.tmp)))
        for key, val in settings().items():
            mon.check(val == self.set[key], f"process-wide settings are untouched {what}", setting=key, now=repr(val)[-300:],
                      before=repr(self.set[key])[-300:])


@contextlib.contextmanager
def varied(mon, rng):
    """The user's own settings, which may be unusual."""
    with contextlib.ExitStack() as es:
        pick = int(rng.integers(7))
        if pick == 1:
            es.enter_context(np.errstate(all=str(rng.choice(["ignore", "warn"]))))
        elif pick == 2:
            es.enter_context(np.printoptions(precision=2))
        elif pick == 3:
            es.enter_context(warnings.catch_warnings())
            warnings.simplefilter(str(rng.choice(["always", "once", "default"])))
        elif pick == 4:
            es.enter_context(dask.config.set(scheduler="synchronous"))
        elif pick == 5:
            np.random.seed(int(rng.integers(1000)))
            random.seed(int(rng.integers(1000)))
        elif pick == 6:
            old = os.umask(0o27)
            es.callback(os.umask, old)
        mon.ev("settings_varied", int(pick > 0))
        yield pick


@SUITE.case(quick=16 * len(p24.OPS), thorough=300 * len(p24.OPS))
def operations(mon, rng, scratch):
    """Every operation of the catalogue, succeeding."""
    w = p24.world(rng, scratch)
    name = list(p24.OPS)[mon.index % len(p24.OPS)]
    make, call, args = p24.OPS[name](mon, rng, w)
    mon.ctx(operation=name)
    with varied(mon, rng) as pick:
        watch_ = Watch(mon, scratch)
        obj = make()
        res = call(obj)
        watch_.compare("while the result is held", held=True)
        more = [call(make()) for _ in range(2)]
        watch_.compare("after repeated calls", held=True)
        obj = res = more = None
        gc.collect()
        watch_.compare("after the result is dropped")
    mon.ev("operations_watched")
    return (name, pick, float(rng.random()))


def _files(mon, rng, scratch):
    """Operations which open files: name -> (call, files it must have opened)."""
    w = p24.world(rng, scratch)
    conf = scratch / "pyspectral.yaml"

    def write(path, content):
        path.parent.mkdir(parents=True, exist_ok=True)
        path.write_bytes(content)
        return path

    good = w["file"].read_bytes()
    bad = scratch / "bad"
    cut = write(bad / "cut.h5", good[:int(rng.integers(8, len(good) - 1))])
    nothdf = write(bad / "nothdf.h5", b"not a file of this kind" * 30)
    with h5py.File(write(bad / "noband.h5", good), "r+") as h5f:
        del h5f["ch7"]
    with h5py.File(write(bad / "nodata.h5", good), "r+") as h5f:
        del h5f[str(rng.choice(["ch7", "ch13"]))]["wavelength"]
    broken = str(rng.choice([str(p) for p in (cut, nothdf, bad / "noband.h5", bad / "nodata.h5", bad / "none.h5")]))
    aer = str(rng.choice(["desert_aerosol", "urban_aerosol"]))
    lut = scratch / "rayleigh" / aer / "rayleigh_lut_us-standard.h5"
    how = int(rng.integers(4))
    if how:
        src = (scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5").read_bytes()
        write(lut, [None, src[:len(src) // 2], b"x" * 50, src][how])
        if how == 3:
            with h5py.File(lut, "r+") as h5f:
                del h5f[str(rng.choice(["reflectance", "wavelengths", "azimuth_difference"]))]
    ang = np.zeros((2, 2)) + 30.0
    tab = scratch / "broken.npz"
    tab.write_bytes((scratch / "own.npz").read_bytes()[:int(rng.integers(1, 2000))])

    class Source:
        def __init__(self, bandname, platform_name):
            self.platform_name, self.bandname, self.instrument, self.output_dir = platform_name, bandname, "abi", str(scratch)
            wvl, resp = data.curve(rng, 0.6, 0.1)
            self.rsr = {"wavelength": wvl, "response": resp} if bandname != "ch2" else {"wavelength": wvl}

    def badyaml():
        path = write(scratch / "bad.yaml", b"rsr_dir: [1, 2\n  - x: {")
        os.environ["PSP_CONFIG_FILE"] = str(path)
        try:
            return get_config()
        finally:
            os.environ["PSP_CONFIG_FILE"] = str(conf)

    return {
        "read": lambda: RelativeSpectralResponse("GOES-16", "abi"), "read file": lambda: RelativeSpectralResponse(filename=str(w["file"])),
        "broken file": lambda: RelativeSpectralResponse(filename=broken),
        "missing file": lambda: RelativeSpectralResponse("GOES-17", "abi"),
        "unknown band": lambda: RelativeSpectralResponse("GOES-16", "abi").rsr["nothing"],
        "configuration": get_config, "broken configuration": badyaml,
        "rayleigh": lambda: Rayleigh("GOES-16", "abi").get_reflectance(ang, ang, ang, "ch2"),
        "broken table": lambda: Rayleigh("GOES-16", "abi", aerosol_type=aer).get_reflectance(ang, ang, ang, 0.5),
        "calculator": lambda: Calculator(w["plat"], w["instr"], w["band"]).reflectance_from_tbs(ang, ang + 280, ang + 250),
        "wrong shapes": lambda: Calculator(w["plat"], w["instr"], w["band"]).reflectance_from_tbs(ang, ang + 280, np.zeros(7)),
        "calculator of a thermal band": lambda: Calculator(w["plat"], w["instr"], "other"),
        "table": lambda: RadTbConverter(w["plat"], w["instr"], w["band"]).make_tb2rad_lut(str(scratch / "new.npz")),
        "table elsewhere": lambda: RadTbConverter(w["plat"], w["instr"], w["band"]).make_tb2rad_lut(str(scratch / "no" / "dir" / "new.npz")),
        "read table": lambda: RadTbConverter.read_tb2rad_lut(str(scratch / "own.npz")),
        "broken tables": lambda: RadTbConverter.read_tb2rad_lut(str(tab)),
        "convert": lambda: utils.convert2hdf5(Source, "Sat-2", ["ch1", "ch3"]),
        "convert broken": lambda: utils.convert2hdf5(Source, "Sat-2", ["ch1", "ch2"]),
        "solar": lambda: SolarIrradianceSpectrum().solar_constant(),
        "no solar file": lambda: SolarIrradianceSpectrum(filename=str(scratch / "none.dat")),
        "no coefficients": lambda: SeviriRadTbConverter("Meteosat-30", "IR3.9").tb2radiance(ang + 250),
        "unknown limb": lambda: AtmosphericalCorrection("EOS-Terra", "modis").get_correction(ang, "ch31", np.zeros(3)),
        "versions": lambda: (rsr_reader.check_and_download(dry_run=True), rayleigh.check_and_download(dry_run=True)),
    }


N_FILES = 23


def _error(rng):
    return [OSError(5, "injected"), OSError(28, "injected"), KeyboardInterrupt(), MemoryError("injected")][rng.integers(4)]


@SUITE.case(quick=12 * N_FILES, thorough=250 * N_FILES)
def failing(mon, rng, scratch):
    """Operations with files, hostile files and failing file operations."""
    ops = _files(mon, rng, scratch)
    name = list(ops)[mon.index % len(ops)]
    fault = int(rng.integers(1, 12)) if rng.integers(3) == 0 else None
    mon.ctx(operation=name, fault=fault)
    with varied(mon, rng) as pick:
        watch_ = Watch(mon, scratch)
        res = err = None
        error = _error(rng)
        before = data.tree(scratch)
        with watch.Audit(fail_at=fault, error=error, only_under=scratch) as audit:
            try:
                res = ops[name]()
            except (Exception, KeyboardInterrupt) as exc:
                err = exc
        if err is not None and "table" in name or "calculator" in name:
            # (cleaning up cannot succeed where it is what fails)
            if audit.failed is None or audit.failed[0] != "os.remove":
                left = [p for p in data.tree(scratch) - before if not p.endswith(".npz")]
                mon.check(not left, "no temporary file is left next to the tables", left=left, error=repr(err))
                mon.ev("leftovers_watched")
        mon.ev("files_opened", len(audit.paths(("read", "write"))))
        if audit.failed:
            mon.ev("injected")
        if err is not None:
            mon.ev("failures_watched")
        mon.ctx(error=repr(err))
        watch_.compare("while the result or exception is held", held=True)
        res = err = audit.error = None
        gc.collect()
        watch_.compare("after the result or exception is dropped")
    mon.ev("operations_watched")
    return (name, fault, pick, float(rng.random()))


def _interruptible(mon, rng, scratch, spec=()):
    """Operations which write files, with what they may leave: name -> (call, suffixes)."""
    w = p24.world(rng, scratch)
    aer = "desert_aerosol"
    body = tarball([("data.h5", rng.bytes(int(rng.integers(1, 3000)))), ("sub/other.h5", rng.bytes(200)),
                    ("last.h5", rng.bytes(int(rng.integers(1, 3000))))])
    (scratch / "d").mkdir()
    got = ("data.h5", "other.h5", "last.h5")

    def net(call):
        def run():
            page = dict(spec, body=body)
            with fake_net({tables.RSR_URL: page, tables.AEROSOLS[aer]["url"]: page}):
                return call()
        return run

    def conv():
        return RadTbConverter(w["plat"], w["instr"], w["band"])
    return {
        "table": (lambda: conv().make_tb2rad_lut(str(scratch / "new.npz")), (".npz",)),
        "table without suffix": (lambda: conv().make_tb2rad_lut(scratch / "new"), (".npz",)),
        "calculator": (lambda: Calculator(w["plat"], w["instr"], w["band"]).reflectance_from_tbs(
            np.array([30.0]), np.array([310.0]), np.array([290.0])), (".npz",)),
        "rsr": (net(lambda: utils.download_rsr(dest_dir=str(scratch / "d"))), got),
        "luts": (net(lambda: utils.download_luts(aerosol_types=[aer])), got)}


class Stop(BaseException):
    """Somebody stops the program."""


@SUITE.case(quick=50, thorough=1200)
def interrupted(mon, rng, scratch):
    """Every file operation in turn is interrupted, or the transfer is at any byte."""
    name = ["table", "table without suffix", "calculator", "rsr", "luts"][mon.index % 5]
    error = [KeyboardInterrupt(), MemoryError("injected"), SystemExit(1), Stop(), OSError(28, "injected")][rng.integers(5)]
    mon.ctx(operation=name, error=repr(error))
    # how many points are there
    trial = scratch / "trial"
    trial.mkdir()
    state = rng.bit_generator.state
    call, _ = _interruptible(mon, rng, trial)[name]
    with watch.Audit(only_under=trial, reads=False) as audit:
        call()
    total = audit.count
    cuts = [("byte", int(x)) for x in rng.integers(0, 1500, 3)] if name in ("rsr", "luts") else []
    for kind, k in [("operation", k) for k in range(1, total + 1)] + cuts:
        sub = scratch / f"{kind}{k}"
        sub.mkdir(exist_ok=True)
        again = np.random.default_rng()
        again.bit_generator.state = state
        error.__traceback__ = error.__context__ = None
        call, allowed = _interruptible(mon, again, sub, {"fail_at": k, "error": error} if kind == "byte" else {})[name]
        watch_ = Watch(mon, sub)
        before = data.tree(sub)
        err = None
        with watch.Audit(fail_at=k if kind == "operation" else None, error=error, only_under=sub, reads=False) as audit:
            try:
                call()
            except BaseException as exc:
                err = exc
        mon.ctx(kind=kind, k=k, hit=audit.failed, total=total)
        mon.ev("injected", int(audit.failed is not None or kind == "byte"))
        mon.ev("failures_watched", int(err is not None))
        # cleaning up cannot succeed where it is itself what fails
        if audit.failed is None or audit.failed[0] != "os.remove":
            left = [p for p in data.tree(sub) - before if not p.endswith(allowed)]
            mon.check(not left, "no temporary file is left when the work is interrupted", left=left, error=repr(err))
            mon.ev("interruptions")
        err = call = audit.error = None
        error.__traceback__ = error.__context__ = None
        gc.collect()
        watch_.set["environment"] = dict(os.environ)
        watch_.compare("after an interruption")
    return (name, type(error).__name__, total, mon.index)


@SUITE.case(quick=80, thorough=2500)
def downloads(mon, rng, scratch):
    """Downloads, succeeding and failing."""
    data.use_config(scratch, version=False, download_from_internet=True)
    aer = "desert_aerosol"
    members = [("data.h5", rng.bytes(int(rng.integers(1, 60000)))), ("sub/other.h5", rng.bytes(200))]
    body = tarball(members)
    url_r, url_a = tables.RSR_URL, tables.AEROSOLS[aer]["url"]
    what = str(rng.choice(["good", "status", "error", "cut", "corrupt", "fault"]))
    spec = {"good": body, "status": {"status": 503, "body": b"no"}, "error": ConnectionError("no"),
            "cut": {"body": body, "fail_at": int(rng.integers(0, len(body))), "error": None if rng.integers(2) else OSError(5, "x")},
            "corrupt": body[:len(body) // 2] + b"xxxxxxxx" + body[len(body) // 2 + 8:], "fault": body}[what]
    fault = int(rng.integers(1, 14)) if what == "fault" else None
    calls = {"rsr": lambda: utils.download_rsr(), "dest": lambda: utils.download_rsr(dest_dir=str(scratch / "d")),
             "luts": lambda: utils.download_luts(aerosol_types=[aer]), "deprecated": lambda: utils.download_luts(aerosol_type=aer),
             "dry": lambda: utils.download_luts(aerosol_type=aer, dry_run=True), "check": lambda: rsr_reader.check_and_download(),
             "check luts": lambda: rayleigh.check_and_download(aerosol_types=[aer]),
             "object": lambda: RelativeSpectralResponse("GOES-16", "abi"), "rayleigh": lambda: Rayleigh("GOES-16", "abi", aerosol_type=aer)}
    (scratch / "d").mkdir()
    name = str(rng.choice(list(calls)))
    mon.ctx(call=name, what=what, fault=fault)
    with varied(mon, rng) as pick, fake_net({url_r: spec, url_a: spec}) as net:
        watch_ = Watch(mon, scratch)
        res = err = None
        before = data.tree(scratch)
        with watch.Audit(fail_at=fault, error=_error(rng), only_under=scratch, reads=False) as audit:
            try:
                res = calls[name]()
            except (Exception, KeyboardInterrupt) as exc:
                err = exc
        if audit.failed is None or audit.failed[0] != "os.remove":
            left = [p for p in data.tree(scratch) - before if not p.endswith(("data.h5", "other.h5"))]
            mon.check(not left, "the archive does not stay behind", left=left, error=repr(err))
            mon.ev("leftovers_watched")
        mon.ev("injected", int(audit.failed is not None))
        mon.ev("failures_watched", int(err is not None))
        mon.ctx(error=repr(err))
        mon.ev("downloads_watched", len(net.requests))
        watch_.compare("while the result or exception is held", held=True)
        res = err = audit.error = None
        gc.collect()
        watch_.compare("after the result or exception is dropped")
        # (the injected errors hold their tracebacks)
        if isinstance(spec, dict):
            spec.clear()
        elif isinstance(spec, Exception):
            spec.__traceback__ = spec.__context__ = None
        gc.collect()
        kept = [s for s in net.streams if s() is not None and not s().closed]
        mon.check(not kept, "no connection is kept", kept=len(kept))
    return (name, what, fault, pick)


def _big(rng, scratch):
    """Operations on large inputs: name -> call(k) with new input in every call."""
    w = p24.world(rng, scratch)
    shape = (100, 300)
    size = shape[0] * shape[1] * 8
    gen = np.random.default_rng(5)

    def arr(lo, hi):
        return gen.uniform(lo, hi, shape)

    rad = blackbody(3.8e-6, 300.0)
    ray = Rayleigh("GOES-16", "abi")
    calc = Calculator(w["plat"], w["instr"], w["band"], solar_flux=2.0)
    conv = RadTbConverter(w["plat"], w["instr"], w["band"])
    corr = AtmosphericalCorrection("EOS-Terra", "modis")
    solar = SolarIrradianceSpectrum(dlambda=0.0005)

    def curve(n):
        wvl = np.sort(gen.uniform(0.5, 0.6, n))
        return {"wavelength": wvl, "response": gen.uniform(0.1, 1, n)}

    def rsr(k):
        bands = {"ch2": data.make_band(gen, 0.64, 0.06, n=9000), "ch7": data.make_band(gen, 3.8, 0.2, n=9000)}
        data.write_rsr(scratch / "rsr" / "rsr_abi_GOES-16.h5", bands, platform_name="GOES-16", sensor="abi")
        obj = RelativeSpectralResponse("GOES-16", "abi")
        if k % 2:
            obj.convert()
        return obj.integral("ch2")

    def table(k):
        lut = data.rayleigh_lut(gen, nwvl=9, nsun=9, nazi=19, nsat=9)
        data.write_rayleigh_lut(scratch / "rayleigh/marine_clean_aerosol/rayleigh_lut_us-standard.h5", lut)
        one = np.full((1, 1), 30.0)
        return Rayleigh("GOES-16", "abi").get_reflectance(one, one, one, float(gen.uniform(0.45, 0.75)))

    def config(k):
        (scratch / "pyspectral.yaml").write_text(yaml.safe_dump({"rsr_dir": str(scratch / "rsr"), "rayleigh_dir": str(scratch / "rayleigh"),
                                                                 "big": ["%d-%d" % (k, i) for i in range(2000)]}))
        return get_config()

    def lazy(call, *limits):
        def run(k):
            with dask.config.set(scheduler="synchronous"):
                return call(*[da.from_array(arr(*lim), chunks=50) for lim in limits]).compute()
        return run

    return size, {
        "inverse": lambda k: blackbody_rad2temp(3.8e-6, arr(.2, 1) * rad), "inverse wn": lambda k: blackbody_wn_rad2temp(90000.0, arr(1e-4, 1e-3)),
        "planck": lambda k: blackbody(gen.uniform(3e-6, 4e-6, 60), gen.uniform(200, 300, 500)),
        "lazy inverse": lazy(lambda r: radiance2tb(r, 3.8e-6), (1e4, 1e6)),
        "table": lambda k: conv.tb2radiance(arr(200, 300), lut=w["lut"]), "exact": lambda k: conv.tb2radiance(gen.uniform(200, 300, 3000)),
        "back": lambda k: conv.radiance2tb(arr(1e4, 1e6)),
        "reflectance": lambda k: calc.reflectance_from_tbs(arr(0, 80), arr(280, 320), arr(240, 290)),
        "new calculators": lambda k: Calculator(w["plat"], w["instr"], w["band"], solar_flux=2.0).reflectance_from_tbs(
            arr(0, 80), arr(280, 320), arr(240, 290)),
        "lazy reflectance": lazy(calc.reflectance_from_tbs, (0, 80), (280, 320), (240, 290)),
        "rayleigh": lambda k: ray.get_reflectance(arr(0, 80), arr(0, 70), arr(0, 180), "ch2", arr(0, 100)),
        "lazy rayleigh": lazy(lambda *a: ray.get_reflectance(*a, 0.55), (0, 80), (0, 70), (0, 180)),
        "new tables": table, "new responses": rsr, "new configurations": config,
        "limb": lambda k: corr.get_correction(arr(0, 80), "ch31", arr(200, 300)),
        "solar": lambda k: solar.inband_solarflux({"det-1": curve(9000)}),
        "statistics": lambda k: [utils.get_central_wave(c["wavelength"], c["response"]) for c in [curve(9000)]],
    }


N_BIG = 18


@SUITE.case(quick=N_BIG, thorough=10 * N_BIG)
def growth(mon, rng, scratch):
    """Memory does not grow with the number of calls."""
    size, ops = _big(rng, scratch)
    name = list(ops)[mon.index % len(ops)]
    mon.ctx(operation=name)
    call = ops[name]
    for k in range(4):
        call(k)
    tracemalloc.start()
    try:
        marks = []
        for k in range(24):
            call(k + 4)
            if k in (5, 11, 17, 23):
                gc.collect()
                marks.append(tracemalloc.get_traced_memory()[0])
    finally:
        tracemalloc.stop()
    # something kept per call shows in every interval
    per_call = min(np.diff(marks)) / 6
    mon.check(per_call < 12000, "memory does not grow with the number of calls", bytes_per_call=per_call, input_bytes=size)
    mon.ev("growth_watched")
    return (name, mon.index)
