"""P19: downloads happen only when needed and permitted, and fetch only the right data."""
import contextlib
import io
import logging
import os
import runpy
import sys
import tempfile
from pathlib import Path

import h5py
import numpy as np
import yaml

from pyspectral import rayleigh, rsr_reader, utils
from vp import data, tables, watch
from vp.core import Suite, Violation
from vp.net import fake_net, tarball

SUITE = Suite(
    "P19", "exploration",
    "A case is a random history of version-file states, download settings and downloading calls (constructors, explicit checks, "
    "direct downloads, scripts, dry runs) against a recording stand-in of the network, each call compared with a model that knows "
    "which requests and which file changes it must cause; distinct by history.",
    needs=["requests_seen", "auto_rsr", "auto_lut", "explicit_rsr", "explicit_lut", "direct", "scripts", "dry_runs", "not_permitted",
           "up_to_date", "stale", "given_filename", "rejected", "destinations", "landed_files", "earlier_installations", "updates_told"],
    assumptions=["Archives carry the current version file (as the published ones do).", "Lists of aerosol types have no duplicates.",
                 "Explicit updates of the atmospheric tables are a request of their own (not an automatic update)."])

RSR_FILES = ("rsr_newinstr_Newsat-1.h5", "rsr_avhrr3_Metop-B.h5", "rsr_viirs_NOAA-20.h5")
_CACHE = {}


def _h5bytes(func):
    buf = io.BytesIO()
    with h5py.File(buf, "w") as h5f:
        func(h5f)
    return buf.getvalue()


def archives():
    """The published archives in miniature, each with content of its own."""
    if _CACHE:
        return _CACHE
    members = []
    for i, name in enumerate(RSR_FILES):
        def fill(h5f, i=i, name=name):
            h5f.attrs["description"] = "d"
            h5f.attrs["platform_name"] = name[:-3].split("_")[2]
            h5f.attrs["sensor"] = ["newinstr", "avhrr/3", "viirs"][i]
            h5f.attrs["band_names"] = ["ch1"]
            grp = h5f.create_group("ch1")
            grp.attrs["central_wavelength"] = 0.5 + i / 10
            grp["response"] = np.ones(4)
            grp["wavelength"] = np.linspace(0.45, 0.55, 4) + i / 10
            grp["wavelength"].attrs["scale"] = 1e-6
        members.append((name, _h5bytes(fill)))
    members.insert(1, (tables.RSR_VERSION_FILE, tables.RSR_VERSION.encode() + b"\n"))
    _CACHE[tables.RSR_URL] = (members, tarball(members))
    for k, (aer, info) in enumerate(tables.AEROSOLS.items()):
        def lut(h5f, k=k):
            for key, val in (("wavelengths", np.linspace(400, 800, 3)), ("sun_zenith_secant", np.linspace(1, 5, 3)),
                             ("azimuth_difference", np.linspace(0, 180, 3)), ("satellite_zenith_secant", np.linspace(1, 3, 3)),
                             ("reflectance", np.full((3, 3, 3, 3), 0.01 * (k + 1)))):
                h5f[key] = val
        body = _h5bytes(lut)
        members = [(f"rayleigh_lut_{a.replace(' ', '_')}.h5", body) for a in tables.ATMOSPHERES]
        members.insert(2, (info["filename"], (info["version"] + "\n").encode()))
        _CACHE[info["url"]] = (members, tarball(members))
    return _CACHE


STALE = [None, "v0.0.0", "", "v1.6.0", "v1.6.10", "v1.6", "v1.6.1-rc1", "1.6.1", "v1.0.10", "v1.0", "v2.0.0", "v1.0.1.post1", "vv1.6.1"]
FRESH = ["{}", "{}\n", "{}  \n", "{}\nsomething else\n", " {}\n"]


class World:
    """Model of the data directories and the configuration."""

    def __init__(self, rng, scratch, mon):
        self.rng = rng
        self.mon = mon
        self.scratch = scratch
        self.version = {}
        self.permit = False
        self.n = 0
        self.dirs(0)

    def dirs(self, i):
        """Use another set of directories."""
        self.rsr_dir = self.scratch / f"rsr{i}"
        self.ray_dir = self.scratch / f"ray{i}"
        self.rsr_dir.mkdir(exist_ok=True)
        self.ray_dir.mkdir(exist_ok=True)
        self.write_config()

    def write_config(self):
        """Write and activate the configuration."""
        conf = {"rsr_dir": str(self.rsr_dir), "rayleigh_dir": str(self.ray_dir)}
        if self.permit is not None:
            conf["download_from_internet"] = self.permit
        path = self.scratch / "conf.yaml"
        path.write_text(yaml.safe_dump(conf))
        os.environ["PSP_CONFIG_FILE"] = str(path)

    def verfile(self, what):
        """Path of the version file."""
        if what == "rsr":
            return self.rsr_dir / tables.RSR_VERSION_FILE, tables.RSR_VERSION
        info = tables.AEROSOLS[what]
        return self.ray_dir / what / info["filename"], info["version"]

    def stale(self, what):
        """Does the local version differ from the required one?"""
        path, want = self.verfile(what)
        if not path.exists():
            return True
        first = path.read_text().split("\n")[0].strip()
        return first != want

    def set_version(self, what):
        """Put the version file of a data set into a random state."""
        path, want = self.verfile(what)
        if self.rng.integers(2):
            text = FRESH[self.rng.integers(len(FRESH))].format(want)
        else:
            cand = STALE + [want + x for x in (".1", "0", "-rc1", "a", " (old)", "\x00")] + [want[:-1], want[1:], want.upper(), "x" + want,
                            "\n" + want, want.replace(".", ""), want + "," + want]
            cand = [s for s in cand if s is None or s.split("\n")[0].strip() != want]
            text = cand[self.rng.integers(len(cand))]
        if text is None:
            path.unlink(missing_ok=True)
        else:
            path.parent.mkdir(parents=True, exist_ok=True)
            path.write_text(text)
        return repr(text)


def observe(world, call, urls, dest, refused=None, what=""):
    """Make a call and compare the requests and file changes it caused with the expected ones.

    urls: expected requests; dest: {url: directory}; refused: exceptions that may or must come.
    """
    mon = world.mon
    pages = {url: arc[1] for url, arc in archives().items()}
    before = data.snapshot_tree(world.scratch)
    mon.ctx(what=what, permit=world.permit, want=urls)
    res = err = None
    with fake_net(pages) as net, watch.Audit(reads=False) as audit:
        try:
            res = call()
        except Violation:
            raise
        except Exception as exc:
            err = exc
    after = data.snapshot_tree(world.scratch)
    mon.ctx(got=net.requests, error=repr(err))
    mon.check(not net.sockets, "no connection past the download address", sockets=net.sockets)
    mon.check(sorted(net.urls) == sorted(urls), "exactly the needed data sets are requested, once each", got=net.urls)
    mon.check(all(m == "GET" for m, _ in net.requests), "data are fetched with GET")
    expected = dict(before)
    for url in urls:
        target = dest[url]
        rel = Path(target).relative_to(world.scratch)
        for part in [*reversed([p for p in rel.parents if str(p) != "."]), rel]:
            expected.setdefault(str(part), ("dir", ""))
        for name, body in archives()[url][0]:
            import hashlib
            expected[str(rel / name)] = ("file", hashlib.sha256(body).hexdigest())
            mon.ev("landed_files")
    diff = {k: (expected.get(k), after.get(k)) for k in set(expected) | set(after) if expected.get(k) != after.get(k)}
    mon.check(not diff, "exactly the archives' files land in the right directory, nothing else changes", diff=diff)
    if not urls:
        bad = [m for m in audit.mutations if not m[1].startswith((str(world.scratch / "mplconfig"), "/dev/"))]
        mon.check(not bad, "no file operation when nothing is fetched", ops=bad[:4])
    homes = tuple(str(dest[url]) + os.sep for url in urls) + (tempfile.gettempdir(), "/dev/", str(world.scratch / "mplconfig"))
    bad = [m for m in audit.mutations if not (str(m[1]) + os.sep).startswith(homes) and
           not (m[0] == "os.mkdir" and any(h.startswith(str(m[1])) for h in homes))]
    mon.check(not bad, "no file operation outside the directory the data are meant for", ops=bad[:4])
    mon.ev("requests_seen", len(net.requests))
    return res, err


@contextlib.contextmanager
def quiet_script(argv):
    """Run a script with these arguments; logging set-up and output are undone."""
    root = logging.getLogger("")
    handlers, level = list(root.handlers), root.level
    old_argv = sys.argv
    sys.argv = argv
    flag = getattr(utils, "_is_logging_on", None)
    try:
        with contextlib.redirect_stderr(io.StringIO()), contextlib.redirect_stdout(io.StringIO()):
            yield
    finally:
        sys.argv = old_argv
        root.handlers = handlers
        root.setLevel(level)
        if flag is not None:
            utils._is_logging_on = flag


def subset(rng):
    """A random non-empty list of aerosol types."""
    names = list(tables.AEROSOLS)
    n = int(rng.choice([1, 1, 2, 3, len(names)]))
    return [str(x) for x in rng.permutation(names)[:n]]


def act(world):
    """One random downloading call."""
    rng, mon = world.rng, world.mon
    op = int(rng.integers(11))
    dry = bool(rng.integers(3) == 0)
    rsr_stale = world.stale("rsr")
    permit = bool(world.permit)
    auto = [tables.RSR_URL] if rsr_stale and permit else []
    if op <= 1:
        plat, instr = [("Newsat-1", "newinstr"), ("Metop-B", "avhrr/3"), ("NOAA-20", "viirs"), ("NOAA-21", "viirs")][rng.integers(4)]
        local = world.rsr_dir / data.rsr_name(plat, instr)
        res, err = observe(world, lambda: rsr_reader.RelativeSpectralResponse(plat, instr), auto, {tables.RSR_URL: world.rsr_dir},
                           what="rsr object")
        if local.exists():
            mon.check(err is None, "response object after the check", error=repr(err))
            mon.check(res.platform_name == plat, "response object of the platform")
        else:
            mon.check(isinstance(err, FileNotFoundError) and str(local) in str(err), "missing file is named", error=repr(err))
        mon.ev("auto_rsr")
        _count(mon, rsr_stale, permit)
        return ("rsr", plat, bool(auto))
    if op == 2:
        path = world.scratch / "given.h5"
        if not path.exists():
            path.write_bytes(archives()[tables.RSR_URL][0][0][1])
        name = str(path) if rng.integers(4) else str(world.scratch / "missing.h5")
        res, err = observe(world, lambda: rsr_reader.RelativeSpectralResponse(filename=name), [], {}, what="given file")
        mon.check((err is None) == (name == str(path)), "a given file is read without any check", error=repr(err))
        mon.ev("given_filename")
        return ("given", name == str(path))
    if op == 3:
        kw, dest = {}, world.rsr_dir
        if rng.integers(2):
            dest = world.scratch / f"dest{rng.integers(2)}"
            dest.mkdir(exist_ok=True)
            kw["dest_dir"] = dest if rng.integers(2) else str(dest)
            mon.ev("destinations")
        if dry or rng.integers(3) == 0:
            kw["dry_run"] = dry
        if rng.integers(3):
            _, err = observe(world, lambda: rsr_reader.check_and_download(**kw), [] if dry else auto, {tables.RSR_URL: dest},
                             what=f"rsr check {kw}")
        else:
            given = world.scratch / "given.h5"
            given.write_bytes(archives()[tables.RSR_URL][0][0][1])
            obj = rsr_reader.RelativeSpectralResponse(filename=given)
            told = obj.rsr_data_version_uptodate
            res, err = observe(world, lambda: obj.download_rsr_updates(**kw), [] if dry else auto, {tables.RSR_URL: dest},
                               what=f"rsr update {kw}")
            mon.check(bool(told) == (not rsr_stale), "whether the data are up to date is told", told=told, stale=rsr_stale)
            mon.check(err is not None or bool(res) == rsr_stale, "the update tells whether one was needed", got=res, stale=rsr_stale)
            mon.ev("updates_told")
        mon.check(err is None, "explicit check succeeds", error=repr(err))
        mon.ev("explicit_rsr")
        mon.ev("dry_runs", int(dry))
        _count(mon, rsr_stale, permit)
        return ("check rsr", sorted(kw), bool(auto), dry)
    if op in (4, 5):
        types = None if rng.integers(4) == 0 else subset(rng)
        names = list(tables.AEROSOLS) if types is None else types
        if types is not None and rng.integers(5) == 0:
            bad = types + ["some_aerosol"] if rng.integers(2) else ["some_aerosol"] + types
            _, err = observe(world, lambda: rayleigh.check_and_download(aerosol_types=bad), [], {}, what="unsupported type")
            mon.check(isinstance(err, AttributeError), "unsupported aerosol type is rejected before anything is fetched",
                      error=repr(err))
            mon.ev("rejected")
            return ("bad types", len(bad))
        need = [] if dry else [a for a in names if world.stale(a)]
        kw = {} if types is None else {"aerosol_types": types}
        if types is not None and rng.integers(3) == 0:
            kw["aerosol_types"] = tuple(types)
        if dry:
            kw["dry_run"] = True
        _, err = observe(world, lambda: rayleigh.check_and_download(**kw), [tables.AEROSOLS[a]["url"] for a in need],
                         {tables.AEROSOLS[a]["url"]: world.ray_dir / a for a in need}, what=f"lut check {kw}")
        mon.check(err is None, "explicit check succeeds", error=repr(err))
        mon.ev("explicit_lut")
        mon.ev("dry_runs", int(dry))
        mon.ev("stale", len(need))
        mon.ev("up_to_date", len(names) - len(need))
        return ("check luts", len(names), len(need), dry)
    if op in (6, 7):
        aer = subset(rng)[0]
        atm = str(rng.choice(tables.ATMOSPHERES))
        kw = {"aerosol_type": aer, "atmosphere": atm}
        r = int(rng.integers(6))
        if r == 0:
            kw["aerosol_type"] = str(rng.choice(["bogus", "", "Desert_Aerosol"]))
        elif r == 1:
            kw["atmosphere"] = str(rng.choice(["martian", "us_standard", ""]))
        elif r == 2:
            kw = {}
            aer, atm = "marine_clean_aerosol", "us-standard"
        if r <= 1:
            _, err = observe(world, lambda: rayleigh.Rayleigh("NOAA-20", "viirs", **kw), [], {}, what=f"rayleigh {kw}")
            mon.check(isinstance(err, AttributeError), "unsupported types are rejected before anything is fetched", error=repr(err))
            mon.ev("rejected")
            return ("bad rayleigh", r)
        stale = world.stale(aer)
        url = tables.AEROSOLS[aer]["url"]
        urls = [url] if stale and permit else []
        res, err = observe(world, lambda: rayleigh.Rayleigh("NOAA-20", "viirs", **kw), urls, {url: world.ray_dir / aer},
                           what=f"rayleigh {kw}")
        lutfile = world.ray_dir / aer / f"rayleigh_lut_{atm.replace(' ', '_')}.h5"
        if lutfile.exists():
            mon.check(err is None, "Rayleigh object after the check", error=repr(err))
            k = list(tables.AEROSOLS).index(aer) + 1
            with fake_net() as net:
                got = res.get_reflectance(np.array([[30.0]]), np.array([[20.0]]), np.array([[90.0]]), 0.55)
            mon.check(not net.requests, "no request when computing")
            mon.close(got, [[float(k)]], "the table of the requested aerosol type is used", rtol=1e-6)
        mon.ev("auto_lut")
        _count(mon, stale, permit)
        return ("rayleigh", aer, atm, bool(urls))
    if op == 8:
        kw, dest = {}, world.rsr_dir
        if rng.integers(2):
            dest = world.scratch / f"dest{rng.integers(2)}"
            dest.mkdir(exist_ok=True)
            kw["dest_dir"] = dest if rng.integers(2) else str(dest)
        if dry:
            kw["dry_run"] = True
        _, err = observe(world, lambda: utils.download_rsr(**kw), [] if dry else [tables.RSR_URL], {tables.RSR_URL: dest},
                         what=f"direct rsr {kw}")
        mon.check(err is None, "direct download succeeds", error=repr(err))
        mon.ev("direct")
        mon.ev("dry_runs", int(dry))
        return ("direct rsr", sorted(kw), dry)
    if op == 9:
        types = None if rng.integers(5) == 0 else subset(rng)
        names = list(tables.AEROSOLS) if types is None else types
        kw = {}
        r = int(rng.integers(3))
        if types is not None and rng.integers(6) == 0:
            bad = ["some_aerosol", *types]
            form = {"aerosol_type": bad[0]} if r == 0 else {"aerosol_types": bad}
            _, err = observe(world, lambda: utils.download_luts(**form), [], {}, what="unsupported type")
            mon.check(isinstance(err, Exception), "unsupported aerosol type is rejected", error=repr(err))
            mon.ev("rejected")
            return ("bad direct luts", r)
        box = [list, tuple, set, iter][rng.integers(4)]
        if types is not None and r == 0:
            kw["aerosol_type"] = types if len(types) > 1 else types[0]
            if box is not iter and rng.integers(2):
                kw["aerosol_type"] = box(types)
        elif types is not None:
            kw["aerosol_types"] = box(types)
        if dry:
            kw["dry_run"] = True
        need = [] if dry else names
        _, err = observe(world, lambda: utils.download_luts(**kw), [tables.AEROSOLS[a]["url"] for a in need],
                         {tables.AEROSOLS[a]["url"]: world.ray_dir / a for a in need}, what=f"direct luts {kw}")
        mon.check(err is None, "direct download succeeds", error=repr(err))
        mon.ev("direct")
        mon.ev("dry_runs", int(dry))
        return ("direct luts", len(names), dry)
    return script(world, dry, auto)


def _count(mon, stale, permit):
    mon.ev("stale" if stale else "up_to_date")
    if stale and not permit:
        mon.ev("not_permitted")


def script(world, dry, auto):
    """The download scripts."""
    rng, mon = world.rng, world.mon
    repo = Path(os.environ["VP_REPO"])
    argv = []
    if dry:
        argv.append(str(rng.choice(["-d", "--dry_run"])))
    if rng.integers(2):
        argv.append(str(rng.choice(["-v", "--verbose"])))
    if rng.integers(2):
        dest = world.rsr_dir
        if rng.integers(2):
            dest = world.scratch / f"dest{rng.integers(2)}"
            dest.mkdir(exist_ok=True)
            argv += [str(rng.choice(["-o", "--destination"])), str(dest)]
        name, urls, target = "download_rsr.py", [] if dry else auto, {tables.RSR_URL: dest}
    else:
        names = list(tables.AEROSOLS)
        if rng.integers(3):
            names = subset(rng)
            argv += [str(rng.choice(["-a", "--aerosol_types"])), *names]
        elif rng.integers(3) == 0:
            # no type listed means all
            argv.append("-a")
        need = [] if dry else [a for a in names if world.stale(a)]
        name = "download_atm_correction_luts.py"
        urls = [tables.AEROSOLS[a]["url"] for a in need]
        target = {tables.AEROSOLS[a]["url"]: world.ray_dir / a for a in need}

    def run():
        with quiet_script([name, *argv]):
            try:
                runpy.run_path(str(repo / "bin" / name), run_name="__main__")
            except SystemExit as err:
                if err.code not in (0, None):
                    raise RuntimeError(f"script ended with {err.code}")

    _, err = observe(world, run, urls, target, what=f"script {name} {argv}")
    mon.check(err is None, "the script succeeds", error=repr(err))
    mon.ev("scripts")
    mon.ev("dry_runs", int(dry))
    return (name, len(argv), len(urls), dry)


@SUITE.case(quick=1040, thorough=9000)
def history(mon, rng, scratch):
    """A random history."""
    world = World(rng, scratch, mon)
    os.environ["XDG_DATA_HOME"] = str(scratch / "xdg")
    hist = []
    world.permit = [True, False, None][rng.integers(3)]
    world.write_config()
    if rng.integers(2):
        # files of an earlier installation are there
        for what in ("rsr", *tables.AEROSOLS):
            if rng.integers(3):
                url = tables.RSR_URL if what == "rsr" else tables.AEROSOLS[what]["url"]
                home = world.verfile(what)[0].parent
                home.mkdir(parents=True, exist_ok=True)
                for name, body in archives()[url][0]:
                    if name != world.verfile(what)[0].name:
                        (home / name).write_bytes(body)
                hist.append(("installed", what, world.set_version(what)))
                mon.ev("earlier_installations")
    for _ in range(int(rng.integers(3, 10))):
        r = int(rng.integers(10))
        if r == 0:
            world.permit = [True, True, False, None][rng.integers(4)]
            world.write_config()
            hist.append(("permit", world.permit))
        elif r == 1:
            world.dirs(int(rng.integers(3)))
            hist.append(("dirs",))
        elif r <= 4:
            for what in (["rsr"] if rng.integers(2) else subset(rng)):
                hist.append(("version", what, world.set_version(what)))
        else:
            hist.append(act(world))
    return tuple(hist)
