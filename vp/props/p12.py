"""P12: the cached Tb-radiance table over histories, crashes, faults and concurrent processes."""
import os
import threading
import time

import numpy as np

from pyspectral.near_infrared_reflectance import Calculator
from vp import data, nir, ref
from vp.core import Suite
from vp.watch import Audit, collect, in_child

SUITE = Suite(
    "P12", "fault_enumeration",
    "A case is one history over one cache directory: creations of calculators for random platforms, bands and detectors, "
    "in this process, in concurrent delayed processes or threads, in processes killed at a chosen executed line, or with "
    "failing file operations/size limits; afterwards every calculator's table and reflectance is compared with "
    "extended-precision tables, and files with what may be there; distinct by history and kill point.",
    needs=["calculators", "reused", "generated", "kills", "kills_mid_write", "faults", "concurrent", "observer_reads",
           "configured_names", "threads"],
    assumptions=["A configured file name is meant for one band (a name per band where an instrument has several).",
                 "Responses do not change under an existing cache."])

#: platform, instrument, [(band, centre)]
POOL = [("Suomi-NPP", "viirs", [("M12", 3.7), ("I4", 3.76)]), ("NOAA-20", "viirs", [("M12", 3.69), ("I4", 3.77)]),
        ("EOS-Aqua", "modis", [("20", 3.75), ("21", 3.9), ("22", 3.91)]), ("EOS-Terra", "modis", [("20", 3.77)]),
        ("Meteosat-9", "seviri", [("IR3.9", 3.88)]), ("Meteosat-10", "seviri", [("IR3.9", 3.86)]),
        ("Himawari-8", "ahi", [("ch7", 3.85)]), ("GOES-16", "abi", [("ch7", 3.84)]),
        ("NOAA-18", "avhrr/3", [("ch3b", 3.74)]), ("NOAA-19", "avhrr/3", [("ch3b", 3.76)]),
        ("NOAA-12", "avhrr/2", [("ch3", 3.72)])]


class World:
    """Response files and the tables they must lead to."""

    def __init__(self, rng, scratch, n=4, ndet=2, **conf):
        ndet = 11 if ndet == 2 and rng.integers(4) == 0 else ndet
        self.scratch = scratch
        self.conf = data.use_config(scratch, **conf)
        self.items = []
        for i in rng.permutation(len(POOL))[:n]:
            plat, instr, blist = POOL[i]
            bands = {b: data.make_band(rng, c, float(rng.uniform(0.1, 0.2)), ndet=ndet, n=12, kind="gauss")
                     for b, c in blist}
            for b in bands:
                # detectors differ clearly
                for k, d in enumerate(bands[b].values()):
                    d["wavelength"] = d["wavelength"] + 0.015 / (ndet / 2) * k
                    d["central_wavelength"] = float(ref.central(d["wavelength"], d["response"]))
            data.write_rsr(scratch / "rsr" / data.rsr_name(plat, instr), bands, platform_name=plat, sensor=instr)
            for b, dets in bands.items():
                for dname in dets:
                    self.items.append((plat, instr, b, dname, dets[dname]))
        self.picks = np.r_[0, 1, 700, 1500, 2099]
        self.want = {}
        self.tabs = {}

    def full(self, item):
        """Expected table."""
        if item[:4] not in self.tabs:
            self.tabs[item[:4]] = nir.table(item[4])
        return self.tabs[item[:4]]

    def table(self, item):
        """Expected table values at some steps."""
        key = item[:4]
        if key not in self.want:
            tb = 150.0 + 0.1 * self.picks
            self.want[key] = np.asarray(ref.band_radiance(item[4]["wavelength"] * 1e-6, item[4]["response"], tb), "f8")
        return self.want[key]

    def make(self, item):
        """Create the calculator of an item."""
        plat, instr, band, dname, _ = item
        kw = {} if dname == "det-1" else {"detector": dname}
        return Calculator(plat, instr, band, solar_flux=2.0, **kw)


SUN = np.array([10.0, 40.0, 60.0, 84.0, 86.0])
T39 = np.array([290.05, 300.05, 310.05, 320.05, 280.05])
T11 = np.array([250.05, 280.05, 270.05, 260.05, 275.05])


def _result(calc):
    return {"tb": np.array(calc.lut["tb"]), "radiance": np.array(calc.lut["radiance"]), "file": str(calc.lutfile),
            "refl": np.asarray(calc.reflectance_from_tbs(SUN, T39, T11))}


def _verify(mon, world, item, res, what):
    """The calculator has its own band's complete table."""
    mon.check(res["tb"].shape == (2100,) and res["radiance"].shape == (2100,), f"{what}: the table is complete",
              got=(res["tb"].shape, res["radiance"].shape), item=item[:4])
    mon.close(res["radiance"][world.picks], world.table(item), f"{what}: the table is the one of the calculator's own band",
              rtol=1e-8, item=item[:4], file=res["file"])
    det = item[4]
    integ = float(ref.trapz(det["response"], det["wavelength"] * 1e-6))
    tab = world.full(item)
    l39, l11 = nir.lookup(T39, tab)[0] * integ, nir.lookup(T11, tab)[0] * integ
    want = (l39 - l11) / (2.0 * np.cos(np.deg2rad(np.clip(SUN, 0, 85))) / np.pi - l11)
    want[SUN > 85] = np.nan
    mon.close(res["refl"], want, f"{what}: reflectance as without a cache", rtol=1e-7, item=item[:4])
    mon.ev("calculators")


def _files_ok(mon, world, root, what):
    """Whatever sits where a calculator reads must be complete."""
    for name in os.listdir(root):
        if name.endswith(".npz"):
            path = os.path.join(root, name)
            try:
                with np.load(path) as tab:
                    ok = tab["tb"].shape == (2100,) and tab["radiance"].shape == (2100,) and np.all(np.diff(tab["radiance"]) > 0)
            except Exception as err:
                ok = False
                mon.ctx(read_error=repr(err))
            mon.check(ok, f"{what}: no incomplete table where a calculator reads it", file=name)


@SUITE.case(quick=64, thorough=1500)
def history(mon, rng, scratch):
    """Random creation histories in one process; re-use; location of files."""
    world = World(rng, scratch, n=int(rng.integers(2, 5)))
    root = scratch / "tb2rad"
    hist, seen = [], {}
    for _ in range(int(rng.integers(5, 11))):
        item = world.items[rng.integers(len(world.items))]
        hist.append(item[:4])
        mon.ctx(history=hist)
        before = {n: (os.stat(root / n).st_mtime_ns, os.stat(root / n).st_ino) for n in os.listdir(root)}
        with Audit() as aud:
            res = _result(world.make(item))
        outside = [(k, p) for k, p in aud.mutations if not p.startswith(str(root) + os.sep)]
        mon.check(not outside, "only files in the cache location are written", got=outside)
        mon.check(not aud.outside, "no process or connection is started", got=aud.outside)
        mon.check(res["file"].startswith(str(root) + os.sep), "the table is in the configured directory", got=res["file"])
        _verify(mon, world, item, res, "history")
        if item[:4] in seen:
            mon.check(not aud.mutations, "an existing table is re-used, nothing is written", got=aud.mutations)
            after = {n: (os.stat(root / n).st_mtime_ns, os.stat(root / n).st_ino) for n in os.listdir(root)}
            mon.check(after == before, "an existing table is not regenerated")
            mon.check(res["file"] == seen[item[:4]], "the same file is used again")
            mon.ev("reused")
        else:
            mon.check(aud.mutations, "a new table is written")
            seen[item[:4]] = res["file"]
            mon.ev("generated")
        _files_ok(mon, world, root, "history")
    return tuple(hist)


@SUITE.case(quick=24, thorough=500)
def reuse(mon, rng, scratch):
    """A recognisable table in the cache is what a calculator uses."""
    world = World(rng, scratch, n=1, ndet=1)
    item = world.items[rng.integers(len(world.items))]
    path = world.make(item).lutfile
    with np.load(path) as tab:
        tb, rad = tab["tb"], tab["radiance"]
    np.savez(path, tb=tb, radiance=rad * 1.25)
    calc = world.make(item)
    mon.same(np.array(calc.lut["radiance"]), rad * 1.25, "an existing table is re-used rather than regenerated")
    mon.ev("reused")
    os.remove(path)
    res = _result(world.make(item))
    _verify(mon, world, item, res, "after removal")
    return item[:4]


def _run(world, item):
    return lambda: _result(world.make(item))


@SUITE.case(quick=32, thorough=600)
def killed(mon, rng, scratch):
    """The creating process is killed at a line; later ones must not notice."""
    world = World(rng, scratch, n=1, ndet=2)
    item = world.items[rng.integers(len(world.items))]
    root = scratch / "tb2rad"
    files = ("near_infrared_reflectance", "radiance_tb_conversion", "zipfile", "_npyio_impl", "npyio", "lib/format.py",
             "_format_impl", "shutil")
    kind, res, nlines = in_child(_run(world, item), kill_at=10**9, files=files)
    mon.check(kind == "ok", "creation in a child works", got=res)
    for name in os.listdir(root):
        os.remove(root / name)
    # first line at which a file exists in the cache directory is found by bisection over kills
    points = np.unique(np.r_[rng.integers(1, nlines, 6), _mid_write(mon, world, item, root, nlines, files, rng)])
    for point in points:
        kind, res, _ = in_child(_run(world, item), kill_at=int(point), files=files)
        mon.ev("kills" if kind == "killed" else "survived")
        left = os.listdir(root)
        mon.seen("kill_points", (int(point), tuple(sorted(n.rsplit(".", 1)[-1] for n in left))))
        if left and kind == "killed":
            mon.ev("kills_mid_write")
        mon.ctx(kill_at=int(point), of=nlines, left=left, item=item[:4])
        _files_ok(mon, world, root, "killed")
        got = _result(world.make(item))
        _verify(mon, world, item, got, "after a kill")
        other = world.items[rng.integers(len(world.items))]
        _verify(mon, world, other, _result(world.make(other)), "another band after a kill")
        for name in os.listdir(root):
            os.remove(root / name)
    return (item[:4], tuple(int(p) for p in points))


def _mid_write(mon, world, item, root, nlines, files, rng):
    """Kill points between the first appearance of a file and the end."""
    lo, hi = 1, nlines
    while lo < hi:
        mid = (lo + hi) // 2
        in_child(_run(world, item), kill_at=mid, files=files)
        if os.listdir(root):
            hi = mid
        else:
            lo = mid + 1
        for name in os.listdir(root):
            os.remove(root / name)
    return rng.integers(lo, nlines + 1, 8)


@SUITE.case(quick=48, thorough=1200)
def faults(mon, rng, scratch):
    """File operations fail, or the disk is full."""
    world = World(rng, scratch, n=1, ndet=1)
    item = world.items[rng.integers(len(world.items))]
    root = scratch / "tb2rad"
    for _ in range(4):
        mode = str(rng.choice(["op", "size", "size"]))
        if mode == "op":
            at = int(rng.integers(1, 5))

            def run(at=at):
                with Audit(fail_at=at, error=OSError(5, "injected I/O error"), only_under=root) as aud:
                    try:
                        res = ("made", _result(world.make(item)))
                    except OSError as err:
                        res = ("refused", str(err))
                return res + (aud.failed,)
            kind, res, _ = in_child(run)
            mon.ctx(mode=mode, at=at)
        else:
            size = int(rng.choice([0, 1, 100, 4096, 16384, 17000, 33000, 34000, int(rng.integers(0, 34300))]))

            def run():
                try:
                    return ("made", _result(world.make(item)), True)
                except OSError as err:
                    return ("refused", str(err), True)
            kind, res, _ = in_child(run, fsize=size)
            mon.ctx(mode=mode, size=size)
        mon.check(kind == "ok", "a failing file operation is reported as such", got=res)
        if res[2]:
            mon.ev("faults")
        if res[0] == "made":
            _verify(mon, world, item, res[1], "in spite of a fault")
        mon.seen("fault_outcomes", (mode, res[0], str(res[2])[:60] if mode == "op" else ""))
        _files_ok(mon, world, root, "fault")
        _verify(mon, world, item, _result(world.make(item)), "after a fault")
        for name in os.listdir(root):
            os.remove(root / name)
    return (item[:4], float(rng.random()))


@SUITE.case(quick=32, thorough=500)
def concurrent(mon, rng, scratch):
    """Several delayed processes create calculators at once while an observer reads the directory."""
    world = World(rng, scratch, n=2, ndet=2)
    root = scratch / "tb2rad"
    nitems = int(rng.integers(1, 4))
    items = [world.items[i] for i in rng.permutation(len(world.items))[:nitems]]
    files = ("near_infrared_reflectance", "radiance_tb_conversion", "zipfile", "npyio", "format", "shutil")
    rfd, wfd = os.pipe()
    procs = []
    for k in range(6):
        item = items[k % nitems]
        kill = int(rng.integers(1, 900)) if rng.integers(4) == 0 else None
        procs.append((item, kill, in_child(_run(world, item), delay=None if kill else int(rng.integers(1 << 30)),
                                           kill_at=kill, wait=False, barrier=rfd, files=files)))
    stop = threading.Event()
    problems, reads, known = [], [0], set()

    def observe():
        while not stop.is_set():
            names = os.listdir(root)
            problems.extend((n, "gone again") for n in known - set(names))
            for name in names:
                if not name.endswith(".npz"):
                    continue
                try:
                    with np.load(os.path.join(root, name)) as tab:
                        if tab["radiance"].shape != (2100,) or tab["tb"].shape != (2100,):
                            problems.append((name, "incomplete"))
                    reads[0] += 1
                    known.add(name)
                except FileNotFoundError:
                    if name in known:
                        problems.append((name, "gone again"))
                except Exception as err:
                    problems.append((name, repr(err)))
            time.sleep(0.0005)

    thread = threading.Thread(target=observe)
    thread.start()
    try:
        os.write(wfd, b"x" * 6)
        results = [(item, kill, collect(*proc)) for item, kill, proc in procs]
    finally:
        stop.set()
        thread.join()
        os.close(rfd)
        os.close(wfd)
    mon.ev("observer_reads", reads[0])
    mon.check(not problems, "an observer never sees an incomplete table, or one that is gone again", problems=problems[:3])
    for item, kill, (kind, res, _) in results:
        mon.ctx(item=item[:4], kill=kill)
        if kill is not None and kind == "killed":
            mon.ev("kills")
            continue
        mon.check(kind == "ok", "a concurrent creation succeeds", got=res)
        _verify(mon, world, item, res, "concurrent")
        mon.ev("concurrent")
    _files_ok(mon, world, root, "concurrent")
    for item in items:
        _verify(mon, world, item, _result(world.make(item)), "after concurrent creations")
    return (tuple(i[:4] for i in items), tuple(k for _, k, _ in procs))


@SUITE.case(quick=24, thorough=400)
def threads(mon, rng, scratch):
    """Several threads create calculators at once."""
    world = World(rng, scratch, n=2, ndet=2)
    items = [world.items[rng.integers(len(world.items))] for _ in range(6)]
    results = [None] * len(items)
    gate = threading.Barrier(len(items))

    def work(k):
        gate.wait()
        try:
            results[k] = ("ok", _result(world.make(items[k])))
        except Exception as err:
            results[k] = ("exc", repr(err))

    pool = [threading.Thread(target=work, args=(k,)) for k in range(len(items))]
    for t in pool:
        t.start()
    for t in pool:
        t.join()
    for item, res in zip(items, results):
        mon.check(res[0] == "ok", "creation in a thread succeeds", got=res[1])
        _verify(mon, world, item, res[1], "threads")
        mon.ev("threads")
    _files_ok(mon, world, scratch / "tb2rad", "threads")
    return tuple(i[:4] for i in items)


@SUITE.case(quick=64, thorough=1500)
def configured(mon, rng, scratch):
    """File names from the configuration; default location."""
    (scratch / "own").mkdir()
    world = World(rng, scratch, n=2, ndet=1)
    conf = {}
    expect = {}
    by_plat = {}
    for item in world.items:
        by_plat.setdefault((item[0], item[1]), []).append(item)
    for (plat, instr), its in by_plat.items():
        mode = str(rng.choice(["str", "dict", "dictlower", "partial", "none", "nodir"]))
        if mode == "str" and len(its) > 1:
            mode = "dict"
        key = plat + "-" + instr
        suffix = str(rng.choice([".npz", ""]))
        stem = plat.lower().replace("-", "") + "_" + instr.replace("/", "")
        sep = str(rng.choice(["_", ".", ".v1.", " "]))
        if mode == "str":
            conf[key] = {"tb2rad_lut_filename": str(scratch / "own" / (stem + suffix))}
            expect[its[0][:4]] = scratch / "own" / (stem + ".npz")
        elif mode in ("dict", "dictlower", "partial"):
            names = {}
            if rng.integers(2):
                # names which only resemble those of the bands
                for it in its:
                    for like in (it[2][:-1], it[2] + "0", "x" + it[2]):
                        if like and like not in [x[2] for x in its]:
                            names[like] = str(scratch / "own" / f"{stem}_not_{like}{suffix}")
            for i, it in enumerate(its):
                if mode == "partial" and i == 0:
                    continue
                bkey = it[2].lower() if mode == "dictlower" else it[2]
                names[bkey] = str(scratch / "own" / f"{stem}{sep}{i}{suffix}")
                expect[it[:4]] = scratch / "own" / f"{stem}{sep}{i}.npz"
            conf[key] = {"path": "/nowhere", "tb2rad_lut_filename": names or {"zz": str(scratch / "own" / "zz.npz")}}
        elif mode == "nodir":
            conf[key] = {"tb2rad_lut_filename": {it[2]: str(scratch / "missing" / f"{stem}_{i}{suffix}")
                                                 for i, it in enumerate(its)}}
            for i, it in enumerate(its):
                expect[it[:4]] = scratch / "tb2rad" / f"{stem}_{i}.npz"
    default = bool(rng.integers(3) == 0)
    if default:
        tmp = scratch / "systmp"
        tmp.mkdir()
        conf["tb2rad_dir"] = None
        import tempfile
        old = tempfile.tempdir
        tempfile.tempdir = str(tmp)
    base = tmp if default else scratch / "tb2rad"
    data.use_config(scratch, **conf)
    try:
        order = [world.items[i] for i in rng.integers(0, len(world.items), 6)]
        seen = set()
        for item in order:
            with Audit() as aud:
                res = _result(world.make(item))
            mon.ctx(item=item[:4], conf=conf, default=default)
            _verify(mon, world, item, res, "configured")
            want = expect.get(item[:4])
            if want is not None and want.parent.name == "tb2rad":
                want = base / want.name
            if want is not None:
                mon.check(res["file"] == str(want), "the configured file is used", got=res["file"], want=str(want))
                mon.check(os.path.exists(want), "the table is stored under the configured name")
                mon.ev("configured_names")
            else:
                mon.check(os.path.dirname(res["file"]) == str(base), "a generated name is in the cache directory",
                          got=res["file"], want=str(base))
            allowed = (str(scratch / "own") + os.sep, str(base) + os.sep)
            outside = [(k, p) for k, p in aud.mutations if not p.startswith(allowed)]
            mon.check(not outside, "only files in the configured location are written", got=outside)
            if item[:4] in seen:
                mon.check(not aud.mutations, "an existing table is re-used", got=aud.mutations)
                mon.ev("reused")
            seen.add(item[:4])
    finally:
        if default:
            tempfile.tempdir = old
    return (tuple(i[:4] for i in order), repr(sorted(conf)), default)
