"""P27: the plotting and listing tools show what is stored."""
import contextlib
import io
import logging
import os
import runpy
import sys
from pathlib import Path

import matplotlib
import matplotlib.figure
import matplotlib.pyplot as plt
import numpy as np

from pyspectral.solar import SolarIrradianceSpectrum
from vp import data, ref, tables
from vp.core import Suite

SUITE = Suite(
    "P27", "exploration",
    "A case writes response files for some platforms, runs one of the command-line tools (plot of a band, composite plot of several "
    "platforms by band name, wavelength or range, list of wavelength ranges) or the spectrum plot as a user does, records every curve "
    "in the figure at the moment it is saved (or the lines printed), and compares them with what was stored; distinct by (tool, "
    "options, platforms).",
    needs=["tools_run", "curves_compared", "figures_saved", "ranges_listed", "hidden_samples", "several_platforms", "without_sensor",
           "by_band", "by_wavelength", "by_range", "excluded", "spectra", "detectors_shown", "by_alias", "several_instruments", "unknown_asked"],
    assumptions=["Figures are observed when they are saved: a curve that cannot be seen for lack of colour is not noticed."])

BIN = Path(os.environ["VP_REPO"]) / "bin"
SENSORS = [("Suomi-NPP", "viirs"), ("NOAA-20", "viirs"), ("NOAA-18", "avhrr/3"), ("GOES-16", "abi"), ("Himawari-8", "ahi"),
           ("Meteosat-10", "seviri"), ("EOS-Aqua", "modis"), ("FY-3D", "mersi-2"), ("Nowhere-1", "noinstr")]
#: several instruments on one platform
SEVERAL = [("FY-4B", "agri"), ("FY-4B", "ghi"), ("FY-3B", "virr"), ("FY-3B", "mersi-1")]


class Saved:
    """What was in the figure when it was saved."""

    def __init__(self, fig, name):
        self.name = str(name)
        self.curves = []
        self.titles = [a.get_title() for a in fig.axes]
        self.xlim = [a.get_xlim() for a in fig.axes]
        self.ylim = [a.get_ylim() for a in fig.axes]
        for axes in fig.axes:
            for line in axes.get_lines():
                x = np.ma.filled(np.ma.asarray(line.get_xdata(orig=True), dtype=float), np.nan)
                y = np.ma.filled(np.ma.asarray(line.get_ydata(orig=True), dtype=float), np.nan)
                ok = ~(np.isnan(x) | np.isnan(y))
                self.curves.append((str(line.get_label()), x[ok], y[ok]))


@contextlib.contextmanager
def figures(real):
    """Record every figure that is saved."""
    saved = []
    orig = matplotlib.figure.Figure.savefig

    def savefig(self, fname, *args, **kwargs):
        saved.append(Saved(self, fname))
        if real:
            return orig(self, fname, *args, **kwargs)
        with open(fname, "wb"):
            return None

    matplotlib.figure.Figure.savefig = savefig
    settings = dict(matplotlib.rcParams)
    try:
        yield saved
    finally:
        for key, val in settings.items():
            if matplotlib.rcParams[key] != val and key != "backend":
                saved.append(f"setting {key} changed")
                matplotlib.rcParams[key] = val
        matplotlib.figure.Figure.savefig = orig
        plt.close("all")


def tool(mon, name, argv, cwd, real=False):
    """Run a tool; returns the printed text and the figures saved."""
    root = logging.getLogger()
    keep = sys.argv, list(sys.path), list(root.handlers), root.level, os.getcwd()
    out, err = io.StringIO(), io.StringIO()
    code = None
    from pyspectral import utils
    on = getattr(utils, "_is_logging_on", None)
    os.chdir(cwd)
    sys.argv = [str(BIN / name)] + [str(a) for a in argv]
    try:
        with figures(real) as saved, contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                runpy.run_path(sys.argv[0], run_name="__main__")
            except SystemExit as exc:
                code = exc.code
    finally:
        sys.argv, sys.path[:] = keep[0], keep[1]
        root.handlers[:] = keep[2]
        root.setLevel(keep[3])
        os.chdir(keep[4])
        if on is not None:
            utils._is_logging_on = on
    saved = [x for x in saved if not isinstance(x, str)]
    mon.check(not code, f"{name} ends normally", code=code, argv=argv, stderr=err.getvalue()[-300:])
    mon.ev("tools_run")
    return out.getvalue(), saved


def _bands(rng, names, thr):
    bands = {}
    for i, name in enumerate(names):
        dets = {}
        centre = float(rng.uniform(0.4, 13))
        if i and rng.integers(4) == 0:
            # close to the previous band
            centre = float(bands[names[i - 1]]["det-1"]["central_wavelength"] + rng.uniform(-0.02, 0.02))
        for k in range(int(rng.choice([1, 1, 2, 5]))):
            wvl, resp = data.curve(rng, centre * (1 + 0.002 * k), centre * float(rng.uniform(0.02, 0.2)), n=int(rng.integers(6, 80)))
            resp = resp * float(rng.uniform(0.5, 1))
            # a few samples right at the limit
            for j in rng.integers(0, wvl.size, 2):
                if j != np.argmax(resp):
                    resp[j] = rng.choice([thr, np.nextafter(thr, 0), np.nextafter(thr, 1), 0.0])
            dets[f"det-{k + 1}"] = {"wavelength": wvl, "response": resp,
                                    "central_wavelength": float(ref.central(wvl, resp))}
        bands[name] = dets
    return bands


def _shown(mon, det, thr):
    ok = det["response"] > thr
    mon.ev("hidden_samples", int(np.sum(~ok)))
    return det["wavelength"][ok], det["response"][ok]


def _same_curve(mon, got, want, what):
    mon.close(got[1], want[0], f"{what}: wavelengths of the samples above the limit", rtol=1e-12)
    mon.close(got[2], want[1], f"{what}: responses of the samples above the limit", rtol=1e-12)
    mon.ev("curves_compared")


def _install(rng, scratch, plat, instr, thr, n=None):
    names = [f"b{i}" for i in range(int(n or rng.integers(1, 7)))]
    table = tables.BANDNAMES.get(instr, tables.BANDNAMES["generic"])
    if rng.integers(2):
        names = [str(x) for x in rng.choice(sorted(set(table.values())), min(len(names), len(set(table.values()))), replace=False)]
    bands = _bands(rng, names, thr)
    data.write_rsr(scratch / "rsr" / data.rsr_name(plat, instr), bands, platform_name=plat, sensor=instr)
    return bands


@SUITE.case(quick=270, thorough=2500)
def plot_rsr(mon, rng, scratch):
    """One band of one instrument, all detectors."""
    data.use_config(scratch)
    (scratch / "out").mkdir()
    thr = float(rng.choice([0.01, 0.05, 0.3]))
    plat, instr = SENSORS[rng.integers(len(SENSORS))]
    bands = _install(rng, scratch, plat, instr, thr)
    band = str(rng.choice(list(bands)))
    argv = [plat, instr]
    asked = band
    cw = bands[band]["det-1"]["central_wavelength"]
    near = [b for b, d in bands.items() if abs(d["det-1"]["central_wavelength"] - cw) < 0.35]
    if rng.integers(2) and near == [band]:
        argv += [["-w", "--wavelength"][rng.integers(2)], round(cw + float(rng.uniform(-0.09, 0.09)), 4)]
        mon.ev("by_wavelength")
    else:
        table = tables.BANDNAMES.get(instr, tables.BANDNAMES["generic"])
        alias = [a for a, b in table.items() if b == band and a not in bands]
        if alias and rng.integers(2):
            asked = str(rng.choice(alias))
            mon.ev("by_alias")
        argv += [["-b", "--bandname"][rng.integers(2)], asked]
        mon.ev("by_band")
    if rng.integers(8) == 0:
        # nothing is shown for what is not there
        argv = [plat, instr, "-b", str(rng.choice(["no-such-band", band + "x", "x" + band, "-1"]))]
        mon.ctx(argv=argv)
        try:
            _, saved = tool(mon, "plot_rsr.py", argv, scratch / "out")
        except Exception:
            saved = []
            mon.ev("unknown_asked")
        mon.check(not any(fig.curves for fig in saved), "an unknown band is not shown as another one", argv=argv)
        return ("unknown", plat, argv[-1])
    if thr != 0.01 or rng.integers(2):
        argv += [["-r", "--minimum_response"][rng.integers(2)], thr]
    xlim = None
    if rng.integers(3) == 0:
        xlim = [(round(cw - 0.5, 3), round(cw + 0.7, 3)), (0.0, round(cw + 0.7, 3)), (round(cw + 0.7, 3), round(cw - 0.5, 3))][rng.integers(3)]
        argv += ["-x", *xlim]
    title = None
    if rng.integers(3) == 0:
        title = "My title %d" % rng.integers(100)
        argv += ["--title", title]
    mon.ctx(argv=argv)
    _, saved = tool(mon, "plot_rsr.py", argv, scratch / "out", real=mon.index % 8 == 0)
    mon.check(len(saved) == 1, "one figure is saved", got=len(saved))
    fig = saved[0]
    mon.check(len(fig.curves) == len(bands[band]), "one curve per detector", got=len(fig.curves), want=len(bands[band]))
    for got, (dname, det) in zip(fig.curves, bands[band].items()):
        _same_curve(mon, got, _shown(mon, det, thr), "plot of a band")
        mon.ev("detectors_shown")
    mon.check(fig.titles == [title or "Relative Spectral Responses"], "title", got=fig.titles)
    if xlim:
        mon.close(fig.xlim[0], xlim, "limits of the x-axis", rtol=1e-9)
    files = [p.name for p in (scratch / "out").rglob("*") if p.is_file()]
    mon.check(len(files) == 1 and plat in files[0] and instr.replace("/", "") in files[0] and files[0].endswith((f"band{asked}.png", f"band{band}.png")),
              "the plot is named after platform, instrument and band", got=files)
    mon.ev("figures_saved")
    return ("plot", plat, band, thr, len(argv))


@SUITE.case(quick=360, thorough=3000)
def composite(mon, rng, scratch):
    """Several platforms in one plot."""
    data.use_config(scratch)
    (scratch / "out").mkdir()
    thr = float(rng.choice([0.015, 0.05, 0.3]))
    picks = [SENSORS[i] for i in rng.choice(len(SENSORS), int(rng.integers(1, 4)), replace=False)]
    if rng.integers(3) == 0:
        picks[0] = SEVERAL[rng.integers(len(SEVERAL))]
        mon.ev("several_instruments")
    sets = {}
    for plat, instr in picks:
        sets[plat] = (_install(rng, scratch, plat, instr, thr, n=4), instr)
    lost = None
    if rng.integers(3) == 0 and len(picks) > 1:
        # a platform none of whose instruments is asked for
        cand = [p for p, i in picks if p != "Nowhere-1" and not any(i in x or x in i for q, x in picks if q != p)]
        if cand and "Nowhere-1" not in sets:
            lost = cand[rng.integers(len(cand))]
            mon.ev("without_sensor")
    sensors = list(dict.fromkeys(i for p, i in picks if p != lost))
    sensors = [sensors[i] for i in rng.permutation(len(sensors))]
    if "Nowhere-1" in sets and len(sensors) > 1:
        # an unknown platform takes the first sensor there is a file for
        sensors = ["noinstr"] + [s for s in sensors if s != "noinstr"]
    mode = str(rng.choice(["band", "wavelength", "range"]))
    expect = []          # (platform, band, required)
    res = 0.005
    argv = ["-p", *[p for p, _ in picks], "-s", *sensors]
    if mode == "band":
        common = [set(bands) for bands, _ in sets.values()]
        names = sorted(set.intersection(*common))
        if not names:
            return None
        band = str(rng.choice(names))
        argv += [["-b", "--bandname"][rng.integers(2)], band]
        expect = [(p, band, True) for p, _ in picks if p != lost]
        fname = f"rsr_band_{band}.png"
    elif mode == "wavelength":
        plat = picks[rng.integers(len(picks))][0]
        dets = [d["det-1"]["central_wavelength"] for d in sets[plat][0].values()]
        wvl = round(float(rng.choice(dets)) + float(rng.uniform(-0.3, 0.3)), 4)
        argv += [["-w", "--wavelength"][rng.integers(2)], wvl]
        for p, _ in picks:
            for b, d in sets[p][0].items():
                dist = abs(d["det-1"]["central_wavelength"] - wvl)
                if abs(dist - 0.25) < 1e-6:
                    return None
                if dist < 0.25 and p != lost:
                    expect.append((p, b, True))
        fname = "rsr_band_{:>04d}.png".format(int(100 * wvl))
    else:
        plat = picks[rng.integers(len(picks))][0]
        cw = float(rng.choice([d["det-1"]["central_wavelength"] for d in sets[plat][0].values()]))
        lo, hi = round(max(0.3, cw - float(rng.uniform(0.05, 1))), 3), round(cw + float(rng.uniform(0.05, 2)), 3)
        argv += [["-r", "--range"][rng.integers(2)], lo, hi]
        if rng.integers(2):
            res = float(rng.choice([0.02, 0.05]))
            argv += ["--wavelength_resolution", res]
        for p, _ in picks:
            for b, d in sets[p][0].items():
                c = d["det-1"]["central_wavelength"]
                if p != lost and lo - res < c < hi + res:
                    expect.append((p, b, lo + res / 2 < c < hi - res / 2))
        fname = "rsr_band_{:>04d}_{:>04d}.png".format(int(100 * lo), int(100 * hi))
        if expect and rng.integers(3) == 0:
            out = expect[rng.integers(len(expect))][1]
            expect = [e for e in expect if e[1] != out]
            # an excluded name says nothing about names which are like it
            argv += ["--exclude_bandnames", *[str(x) for x in rng.permutation([out] + [y for y in (out + "0", "x" + out, "zz", *(b + "1" for _, b, _ in expect))
                                                                           if y not in {b for _, b, _ in expect} and rng.integers(2)])]]
            mon.ev("excluded")
    mon.ev("by_" + mode)
    if thr != 0.015 or rng.integers(2):
        argv += [["-t", "--minimum_response"][rng.integers(2)], thr]
    label = bool(rng.integers(4))
    if not label:
        argv += ["-no_platform_name_in_legend"]
    if rng.integers(3) == 0:
        fname = "mine.png"
        argv += [["-o", "--filename"][rng.integers(2)], fname]
    lims = None
    if rng.integers(3) == 0:
        lims = ((0.5, 11.0), (0.0, 1.25))
        argv += ["-x", 0.5, 11.0, "-y", 0.0, 1.25]
    if rng.integers(3) == 0:
        argv += ["-v"]
    mon.ctx(argv=argv, lost=lost)
    _, saved = tool(mon, "composite_rsr_plot.py", argv, scratch / "out", real=mon.index % 8 == 0)
    mon.check(len(saved) == 1, "one figure is saved", got=len(saved))
    fig = saved[0]
    got = list(fig.curves)
    for p, b, required in expect:
        det = sets[p][0][b]["det-1"]
        want = _shown(mon, det, thr)
        text = f"{p} - {b}" if label else b
        hit = [c for c in got if c[0] == text and len(c[1]) == len(want[0]) and np.allclose(c[1], want[0], rtol=1e-12, atol=0)]
        if not hit and not required:
            continue
        mon.check(len(hit) >= 1, "composite plot: the band is shown under its name", platform=p, band=b, want=text,
                  got=[(c[0], len(c[1])) for c in got])
        _same_curve(mon, hit[0], want, "composite plot")
        got = [c for c in got if c is not hit[0]]
    mon.check(not got, "composite plot: nothing else is shown, nothing twice", left=[c[0] for c in got], expected=expect)
    if lims:
        mon.close(fig.xlim[0], lims[0], "limits of the x-axis", rtol=1e-9)
        mon.close(fig.ylim[0], lims[1], "limits of the y-axis", rtol=1e-9)
    files = [q.name for q in (scratch / "out").rglob("*") if q.is_file()]
    mon.check(files == [fname], "name of the plot", got=files, want=fname)
    mon.ev("figures_saved")
    if len(sets) > 1:
        mon.ev("several_platforms")
    return ("composite", mode, tuple(p for p, _ in picks), thr, len(argv))


@SUITE.case(quick=360, thorough=3000)
def listing(mon, rng, scratch):
    """Wavelength ranges."""
    data.use_config(scratch)
    thr = float(rng.choice([0.15, 0.15, 0.01, 0.5, 0.0]))
    plat, instr = SENSORS[rng.integers(len(SENSORS))]
    bands = _install(rng, scratch, plat, instr, thr)
    argv = [plat, instr]
    if thr != 0.15 or rng.integers(2):
        argv += [["-r", "--minimum_response"][rng.integers(2)], thr]
    names = list(bands)
    asked = None
    det = "det-1"
    if rng.integers(2):
        names = [str(rng.choice(names))]
        # the tool names the band as it was asked for
        table = tables.BANDNAMES.get(instr, tables.BANDNAMES["generic"])
        alias = [a for a, b in table.items() if b == names[0] and a not in bands]
        asked = str(rng.choice(alias)) if alias and rng.integers(2) else names[0]
        mon.ev("by_alias", int(asked != names[0]))
        argv += [["-b", "--bandname"][rng.integers(2)], asked]
        if rng.integers(2):
            det = str(rng.choice(list(bands[names[0]])))
            argv += [["-d", "--detector"][rng.integers(2)], det]
    if any(not np.any(bands[n][det]["response"] > thr) for n in names):
        return None
    mon.ctx(argv=argv)
    if rng.integers(6) == 0:
        # nothing is listed for what is not there
        argv = [plat, instr, "-b", names[0], "-d", "det-77"] if rng.integers(2) else [plat, instr, "-b", "no-such-band"]
        mon.ctx(argv=argv)
        text = None
        try:
            text, _ = tool(mon, "find_wavelengths_for_satpy.py", argv, scratch)
        except Exception:
            mon.ev("unknown_asked")
        mon.check(text is None or "wavelength:" not in text, "an unknown band or detector is not listed as another one", text=text)
        return ("unknown", plat, len(argv))
    text, _ = tool(mon, "find_wavelengths_for_satpy.py", argv, scratch)
    lines = [ln.strip() for ln in text.splitlines() if ln.strip()]
    got = {}
    order = []
    for one, two in zip(lines[::2], lines[1::2]):
        mon.check(one.startswith("name:") and two.startswith("wavelength:"), "layout of the list", got=(one, two))
        name = one.split(":", 1)[1].strip()
        order.append(name)
        got[name] = [float(x) for x in two.split(":", 1)[1].strip(" []").split(",")]
    if asked is not None:
        mon.check(order in ([asked], names), "the band asked for", got=order, want=asked)
        got = {names[0]: got[order[0]]}
    else:
        mon.check(order == names, "the bands, in their order", got=order, want=names)
    for name in names:
        d = bands[name][det]
        ok = d["wavelength"][d["response"] > thr]
        want = (ok[0], float(ref.central(d["wavelength"], d["response"])), ok[-1])
        mon.check(len(got[name]) == 3, "minimum, centre and maximum")
        mon.close(got[name], want, "listed range: first and last wavelength above the limit, and the centre", atol=5.1e-4, rtol=1e-9,
                  band=name)
        mon.ev("ranges_listed")
    return ("list", plat, tuple(names), det, thr)


@SUITE.case(quick=36, thorough=60)
def spectrum(mon, rng, scratch):
    """Plot of the solar spectrum."""
    space = ["wavelength", "wavenumber"][mon.index % 2]
    spec = SolarIrradianceSpectrum(wavespace=space) if rng.integers(2) or space != "wavelength" else SolarIrradianceSpectrum()
    wvl, irr = ref.solar_spectrum()
    if space == "wavenumber":
        wvl, irr = 1e4 / wvl[::-1], irr[::-1] * wvl[::-1] ** 2 * 0.1
    name = str(scratch / "sun.png")
    with figures(mon.index < 4) as saved:
        spec.plot(plotname=name) if rng.integers(2) else spec.plot(name, color="red")
    mon.check(not any(isinstance(x, str) for x in saved), "plot settings are left alone", got=saved)
    mon.check(len(saved) == 1 and saved[0].name == name and Path(name).is_file(), "the spectrum is saved where asked")
    mon.check(len(saved[0].curves) == 1, "one spectrum is shown")
    _, x, y = saved[0].curves[0]
    mon.close(x, wvl, "abscissae of the spectrum shown", rtol=1e-9)
    mon.close(y, irr, "irradiances of the spectrum shown", rtol=1e-9)
    mon.ev("spectra")
    return (space, mon.index)
