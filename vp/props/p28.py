"""P28: logging is only logging."""
import contextlib
import io
import logging
import sys

import dask.array as da
import numpy as np

from pyspectral import utils
from pyspectral.blackbody import blackbody, blackbody_rad2temp
from pyspectral.near_infrared_reflectance import Calculator
from pyspectral.rayleigh import Rayleigh
from pyspectral.rayleigh import check_and_download as check_luts
from pyspectral.rsr_reader import RelativeSpectralResponse
from pyspectral.rsr_reader import check_and_download as check_rsr
from pyspectral.solar import SolarIrradianceSpectrum
from pyspectral.utils import convert2wavenumber, get_logger, sort_data
from vp import data, nir
from vp.core import Suite
from vp.props import p24
from vp.sched import no_compute, random_chunks

SUITE = Suite(
    "P28", "exploration",
    "A case runs one public operation, or one of the situations in which the package has something to say, with nobody listening and "
    "with a handler of a random level that formats every record, on fresh objects; or it drives a random history of the logging "
    "helpers and writes messages of all levels; distinct by (operation or history, level).",
    needs=["records_formatted", "operations_compared", "situations_compared", "helper_calls", "messages_shown", "messages_hidden",
           "lazy_under_debug", "loggers", "own_listeners"],
    assumptions=["The package is only responsible for its own loggers' records."])


class Strict(logging.Handler):
    """Formats every record; remembers those that cannot be."""

    def __init__(self, mon, level):
        super().__init__(level=level)
        self.mon = mon
        self.broken = []
        self.count = 0

    def emit(self, record):
        try:
            text = self.format(record)
            self.count += 1
            if not isinstance(text, str):
                self.broken.append(repr(text))
        except Exception as err:
            self.broken.append(f"{record.name}:{record.funcName}: {record.msg!r} {record.args!r}: {err!r}"[:300])


class Tap(io.StringIO):
    """Standard output, watched."""


@contextlib.contextmanager
def listening(mon, level):
    """Somebody listens to the package (None: nobody does)."""
    log = logging.getLogger("pyspectral")
    old, handlers = log.level, list(log.handlers)
    strict = Strict(mon, level or 0)
    if level is None:
        log.handlers, log.level = [logging.NullHandler()], logging.CRITICAL + 10
        log.setLevel(logging.CRITICAL + 10)
    else:
        strict.setFormatter(logging.Formatter("[%(levelname)s: %(asctime)s : %(name)s] %(message)s"))
        log.addHandler(strict)
        log.setLevel(level)
    try:
        yield strict
    finally:
        log.handlers = handlers
        log.setLevel(old)


def state():
    """The logging configuration outside of the package's hands."""
    root = logging.getLogger()
    log = logging.getLogger("pyspectral")
    return ([id(h) for h in root.handlers], root.level, root.disabled, [id(h) for h in log.handlers], log.level, log.disabled,
            logging.root.manager.disable, logging.raiseExceptions, log.propagate, len(logging.lastResort.filters) if logging.lastResort else None)


def _run(mon, level, func):
    """Run under observation: (result or error, records)."""
    out = Tap()
    with listening(mon, level) as strict:
        before = state()
        with contextlib.redirect_stdout(out):
            try:
                res = func()
            except Exception as err:
                res = f"error {type(err).__name__}: {err}"
        after = state()
    mon.check(before == after, "an operation leaves the logging configuration alone")
    mon.check(not strict.broken, "every log record can be formatted", got=strict.broken[:3])
    mon.check(out.getvalue() == "", "nothing is printed", got=out.getvalue()[:200])
    mon.ev("records_formatted", strict.count)
    return res


LEVELS = [logging.DEBUG, logging.DEBUG, logging.DEBUG, logging.INFO, logging.WARNING]


@SUITE.case(quick=40 * len(p24.OPS), thorough=400 * len(p24.OPS))
def operations(mon, rng, scratch):
    """An operation with and without listeners."""
    w = p24.world(rng, scratch)
    name = list(p24.OPS)[mon.index % len(p24.OPS)]
    make, call, args = p24.OPS[name](mon, rng, w)
    level = LEVELS[rng.integers(len(LEVELS))]
    mon.ctx(operation=name, level=level)
    silent = _run(mon, None, lambda: call(make()))
    loud = _run(mon, level, lambda: call(make()))
    p24.same(mon, p24.val(loud), p24.val(silent), "the same result whether or not somebody listens")
    mon.ev("operations_compared")
    return (name, level, mon.index)


def situation(mon, rng, scratch):
    """Something the package has a message for."""
    which = int(rng.integers(12))
    w = p24.world(rng, scratch)
    n = int(rng.choice([1, 2, 3, 9, 10, 11]))
    if which <= 2:
        # small scenes are shown in full; no masking limit; lazy and masked ones
        limit = [None, 85.0, 88.0][rng.integers(3)]
        arrs = list(nir.scene(rng, (n,)))
        kind = int(rng.integers(4))
        if kind == 1:
            arrs = [da.from_array(a, chunks=random_chunks(rng, a.shape)) for a in arrs]
        elif kind == 2:
            arrs = [np.ma.masked_array(a, mask=rng.integers(0, 3, a.shape) == 0) for a in arrs]
        elif kind == 3:
            arrs = [float(a[0]) for a in arrs]
        kw = {"tb_ir_co2": arrs[2] - 10} if rng.integers(2) else {}
        flux = [None, 2.1][rng.integers(2)]

        def func():
            calc = Calculator(w["plat"], w["instr"], w["band"], solar_flux=flux, masking_limit=limit)
            if kind != 1:
                res = calc.reflectance_from_tbs(*arrs, **kw)
                return [res, calc.emissive_part_3x(tb=False)]
            with no_compute():
                res = calc.reflectance_from_tbs(*arrs, **kw)
                res = [res, calc.emissive_part_3x(tb=True)]
            mon.ev("lazy_under_debug")
            return res
        return f"scene{kind}{limit}", func
    if which == 3:
        temps = np.array([250.0, 0.0, np.nan, -3.0, 1e-9][:int(rng.integers(1, 6))])
        return "temperatures", lambda: blackbody([3.7e-6, 11e-6], temps)
    if which == 4:
        rad = da.from_array(np.array([[1e6, -1.0], [np.nan, 5e5]]), chunks=1)

        def func():
            with no_compute():
                res = blackbody_rad2temp(3.8e-6, rad)
            mon.ev("lazy_under_debug")
            return res
        return "lazyrad", func
    if which == 5:
        wvl = [0.3, 0.9, 0.55, 0.4, 0.8, "ch2", "nochannel", "ch7"][rng.integers(8)]
        ang = [np.full((n, 2), x) for x in (30.0, 20.0, 100.0)]
        lazy = bool(rng.integers(2))
        if lazy:
            ang = [da.from_array(a, chunks=1) for a in ang]

        def func():
            with no_compute() if lazy else contextlib.nullcontext():
                res = Rayleigh("GOES-16", "abi").get_reflectance(*ang, wvl)
            if lazy:
                mon.ev("lazy_under_debug")
            return res
        return f"rayleigh{wvl}", func
    if which == 6:
        plat, instr = [("GOES-16", "viirs"), ("NOAA-18", "avhrr-3"), ("Nowhere", "abi"), ("GOES-16", "ABI")][rng.integers(4)]
        return f"names{plat}{instr}", lambda: RelativeSpectralResponse(plat, instr).rsr
    if which == 7:
        kw = [{}, {"dry_run": True}][rng.integers(2)]
        (scratch / "rsr" / "PYSPECTRAL_RSR_VERSION").write_text(
            [data.tables.RSR_VERSION, data.tables.RSR_VERSION, "v0"][rng.integers(3) if kw else 0])
        if rng.integers(2) or not kw:
            return f"versions{kw}", lambda: check_rsr(**kw)
        return "lutversions", lambda: check_luts(dry_run=True)
    if which == 8:
        rsr = RelativeSpectralResponse("GOES-16", "abi").rsr
        conv, _ = convert2wavenumber(rsr)
        return "twice", lambda: convert2wavenumber(conv)
    if which == 9:
        x = np.array([1.0, 2.0, 2.0, 3.0])
        return "duplicates", lambda: sort_data(x, x * 2)
    if which == 10:
        wvl, resp = data.curve(rng, 1.6, 0.2, n=12, dtype=[np.float32, np.float64][rng.integers(2)])
        return "solar", lambda: SolarIrradianceSpectrum().inband_solarflux({"wavelength": wvl, "response": resp})
    bands = {"ch2": data.make_band(rng, 0.64, 0.06), "ch3": data.make_band(rng, 0.67, 0.06)}
    attrs = [{}, {"platform_name": None}, {"sensor": None}, {"platform_name": None, "sensor": None}][rng.integers(4)]
    path = scratch / "odd.h5"
    data.write_rsr(path, bands, **attrs)
    wl = float(rng.choice([0.65, 0.64, 3.0]))

    def func():
        obj = RelativeSpectralResponse(filename=path)
        return [obj.rsr, obj.platform_name, obj.instrument, obj.get_bandname_from_wavelength(wl, 0.5, multiple_bands=True)]
    return f"odd{sorted(attrs)}", func


@SUITE.case(quick=600, thorough=6000)
def situations(mon, rng, scratch):
    """Situations with a message."""
    name, func = situation(mon, rng, scratch)
    level = LEVELS[rng.integers(len(LEVELS))]
    mon.ctx(situation=name, level=level)
    silent = _run(mon, None, func)
    loud = _run(mon, level, func)
    p24.same(mon, p24.val(loud), p24.val(silent), "the same outcome whether or not somebody listens")
    mon.ev("situations_compared")
    return (name, level, mon.index)


def _say(name, tag):
    """One message of every level; returns {level: text}."""
    log = get_logger(name)
    texts = {}
    for level in (logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR, logging.CRITICAL):
        texts[level] = f"message-{tag}-{level}"
        log.log(level, texts[level])
    return texts


@SUITE.case(quick=500, thorough=8000)
def helpers(mon, rng, scratch):
    """logging_on, debug_on, logging_off, get_logger in any order."""
    root = logging.getLogger()
    keep, level0, flag = list(root.handlers), root.level, getattr(utils, "_is_logging_on", None)
    stderr = sys.stderr
    raises0, off0 = logging.raiseExceptions, logging.root.manager.disable
    logging.raiseExceptions = True
    root.handlers = []
    root.setLevel(logging.WARNING)
    utils.logging_off()
    active = None
    hist = []
    out = io.StringIO()
    sys.stderr = out
    try:
        for step in range(int(rng.integers(2, 9))):
            act = str(rng.choice(["on", "on", "debug", "off", "off", "default", "logger"]))
            hist.append(act)
            if act == "off":
                utils.logging_off()
                active = None
            elif act == "debug":
                utils.debug_on()
                active = logging.DEBUG
            elif act == "default":
                utils.logging_on()
                active = logging.WARNING
            elif act == "on":
                active = int(rng.choice([logging.DEBUG, logging.INFO, logging.WARNING, logging.ERROR]))
                hist[-1] = f"on{active}"
                utils.logging_on(active) if rng.integers(2) else utils.logging_on(level=active)
            else:
                name = f"vp.some.logger{mon.index}.{rng.integers(3)}"
                first = get_logger(name)
                n = len(first.handlers)
                mon.check(get_logger(name) is first and len(first.handlers) == n == 1,
                          "asking for a logger again does not add handlers", got=len(first.handlers))
                mon.check(first.name == name, "the logger asked for", got=first.name)
                mon.ev("loggers")
            mon.ev("helper_calls")
            mine = None
            if rng.integers(3) == 0:
                # a listener of the user's own, which comes later
                seen = io.StringIO()
                mine = logging.StreamHandler(seen)
                root.addHandler(mine)
            out.truncate(0)
            out.seek(0)
            texts = _say(f"vp.helper{rng.integers(4)}", f"{step}-{mon.index}")
            got = out.getvalue()
            if mine is not None:
                root.removeHandler(mine)
                for level, text in texts.items():
                    if active is not None:
                        mon.check(seen.getvalue().count(text + "\n") == int(level >= active),
                                  "the level holds for the messages handed out, too", level=level, active=active, history=hist)
                mon.ev("own_listeners")
            mon.ctx(history=hist, active=active)
            mon.check(logging.raiseExceptions and logging.root.manager.disable == off0,
                      "the helpers switch nothing else off", raises=logging.raiseExceptions, disabled=logging.root.manager.disable)
            for level, text in texts.items():
                want = 1 if active is not None and level >= active else 0
                mon.check(got.count(text + "\n") == want, "messages at or above the level are shown once, others not at all",
                          level=level, want=want, got=got[:400])
                mon.ev("messages_shown" if want else "messages_hidden")
    finally:
        sys.stderr = stderr
        root.handlers = keep
        root.setLevel(level0)
        logging.raiseExceptions = raises0
        logging.disable(off0)
        if flag is not None:
            utils._is_logging_on = flag
    return tuple(hist)
