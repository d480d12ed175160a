"""P23: the testing utilities isolate and clean up."""
import contextlib
import copy
import os
import tempfile
from pathlib import Path
from unittest import mock

import numpy as np
import yaml

from pyspectral import rayleigh, rsr_reader, testing, utils
from pyspectral.config import get_config
from pyspectral.near_infrared_reflectance import Calculator
from pyspectral.radiance_tb_conversion import RadTbConverter
from pyspectral.rayleigh import Rayleigh
from pyspectral.rsr_reader import RelativeSpectralResponse
from vp import data, tables, watch
from vp.core import Suite
from vp.net import fake_net, tarball

SUITE = Suite(
    "P23", "fault_enumeration",
    "A case enters a random nesting of the context managers over a pre-set environment with booby-trapped user directories, works "
    "inside at every level, leaves normally, by an exception in the body or by a failing file operation on entry, and compares "
    "environment, configuration, functions, files and network use; or it asks for fake data of one platform and instrument; "
    "distinct by (nesting, exit, platform).",
    needs=["entered", "left_by_exception", "failed_entries", "nested", "restored", "temp_dirs_gone", "given_dirs_kept", "forbidden",
           "fake_rsr", "fake_rayleigh", "fake_tb", "outer_active_again", "relative_dirs", "versions", "injected", "permitted_downloads", "same_directory", "inside_own_fake", "own_tables", "scribbled",
           "iterables", "variable_changed_inside", "given_config_kept"],
    assumptions=["Managers are left in the reverse order of entering (with statements).",
                 "Creating the empty default data directories where a manager's configuration names none is not a write.",
                 "Explicit downloads inside managers told to fake out-of-date data are the user's own."])


class Outer:
    """The user's environment, which must neither be used nor changed."""

    def __init__(self, rng, scratch, mon):
        self.rng, self.mon = rng, mon
        self.home = scratch / "home"
        self.trap = scratch / "trap"
        self.work = scratch / "work"
        for d in (self.home, self.trap / "rsr", self.trap / "ray", self.trap / "tb", self.work):
            d.mkdir(parents=True)
        os.environ["HOME"] = str(self.home)
        os.environ["XDG_DATA_HOME"] = str(self.home / "xdg")
        os.chdir(self.work)
        (self.trap / "rsr" / tables.RSR_VERSION_FILE).write_text(tables.RSR_VERSION)
        wvl = np.linspace(0.5, 0.6, 9)
        data.write_rsr(self.trap / "rsr" / "rsr_viirs_NOAA-20.h5",
                       {"Ireal": {"det-1": {"wavelength": wvl, "response": wvl, "central_wavelength": 0.55}}},
                       platform_name="NOAA-20", sensor="viirs")
        self.conf = self.trap / "user.yaml"
        self.conf.write_text(yaml.safe_dump({"rsr_dir": str(self.trap / "rsr"), "rayleigh_dir": str(self.trap / "ray"),
                                             "tb2rad_dir": str(self.trap / "tb"), "download_from_internet": True}))
        self.env_set = bool(rng.integers(3))
        os.environ.pop("PSP_CONFIG_FILE", None)
        if self.env_set:
            os.environ["PSP_CONFIG_FILE"] = str(self.conf)
        elif rng.integers(2):
            os.environ["PSP_CONFIG_FILE"] = ""
        self.before = self.state()

    def state(self):
        """Everything that has to be the same afterwards."""
        return {"env": dict(os.environ), "tmp": sorted(os.listdir(tempfile.gettempdir())),
                "trap": data.snapshot_tree(self.trap), "requests": utils.requests,
                "loader": rsr_reader._load_rsr_info_from_file if hasattr(rsr_reader, "_load_rsr_info_from_file") else None}

    def restored(self):
        """Compare."""
        mon = self.mon
        now = self.state()
        mon.check(now["env"] == self.before["env"], "environment as before",
                  now=now["env"].get("PSP_CONFIG_FILE"), before=self.before["env"].get("PSP_CONFIG_FILE"))
        mon.check(now["tmp"] == self.before["tmp"], "self-made temporary directories are gone",
                  left=sorted(set(now["tmp"]) - set(self.before["tmp"])))
        mon.check(now["trap"] == self.before["trap"], "the user's files are untouched")
        mon.check(now["requests"] is self.before["requests"] and now["loader"] is self.before["loader"], "patched functions as before")
        mon.ev("restored")
        mon.ev("temp_dirs_gone")
        if self.env_set:
            conf = get_config()
            mon.check(conf["rsr_dir"] == str(self.trap / "rsr") and conf["tb2rad_dir"] == str(self.trap / "tb"),
                      "configuration as before", conf=conf)
            with fake_net() as net:
                rsr = RelativeSpectralResponse("NOAA-20", "viirs")
            mon.check(list(rsr.rsr) == ["Ireal"] and not net.requests, "real responses are read again", bands=list(rsr.rsr))
            with fake_net({tables.RSR_URL: b"x"}) as net:
                with contextlib.suppress(Exception):
                    utils.download_rsr(dest_dir=str(self.work))
            mon.check(net.urls == [tables.RSR_URL], "real downloads are possible again", urls=net.urls)

    def untouched(self, audit, allowed=()):
        """No file event in the user's directories while inside."""
        for kind, path in audit.log:
            if kind == "os.mkdir" and path.startswith(str(self.home)):
                continue     # the default data directory
            if kind == "os.remove" and os.path.relpath(path, self.trap) not in self.before["trap"]:
                continue     # what was not there cannot be removed (and making it would be seen)
            bad = path.startswith((str(self.trap), str(self.home)))
            self.mon.check(not bad, "nothing is read or written outside the managers' directories", kind=kind, path=path)
            if kind not in ("read",) and kind not in ("socket.connect", "socket.getaddrinfo"):
                inside = path.startswith((tempfile.gettempdir(), "/dev/", *map(str, allowed)))
                self.mon.check(inside, "nothing is written outside the managers' directories", kind=kind, path=path)


INSTR = [(p, i) for p, ins in tables.INSTRUMENTS.items() for i in ([ins] if isinstance(ins, str) else ins)]


def bands_of(instr):
    """(names to ask for, stored name) of an instrument's bands."""
    tab = tables.BANDNAMES.get(instr, tables.BANDNAMES.get(instr.replace("/", "-"), tables.BANDNAMES["generic"]))
    return tab


class Manager:
    """One context manager with random arguments and what must hold inside it."""

    def __init__(self, rng, scratch, mon, kind=None):
        self.rng, self.mon = rng, mon
        self.kind = kind or str(rng.choice(["all", "tb", "rsr", "rayleigh", "config", "forbid"]))
        self.given = None
        self.mine = False
        if rng.integers(2):
            # distinct directory for each manager
            self.given = scratch / "work" / f"dir{rng.integers(10**9)}"
            if rng.integers(3) == 0:
                self.given = Path(self.given.name)
                mon.ev("relative_dirs")
            if rng.integers(2):
                self.given.mkdir(parents=True)
                (self.given / "mine.txt").write_text("mine")
                self.mine = True
        self.extra = scratch / "work" / f"second{rng.integers(10**9)}"
        self.wvl = float(rng.uniform(3.5, 3.8))
        self.band = "20"
        self.value = None
        self.permit = False
        self.args = []
        self.conf_path = None

    def make(self):
        """Create the context manager."""
        d = self.given
        cw = {"central_wavelengths": {self.band: self.wvl}}
        if self.kind == "all":
            kw = {"rsr_files_kwargs": cw}
            if d is not None:
                kw["tmp_path"] = d
            if self.rng.integers(2):
                kw["extra_config_options"] = {"my-option": {"a": 1}}
                self.value = {"a": 1}
                if self.rng.integers(2):
                    # what the user sets comes before what the manager would
                    self.permit = True
                    kw["extra_config_options"]["download_from_internet"] = True
            self.args = [(kw, copy.deepcopy(kw))]
            return testing.mock_pyspectral_downloads(**kw)
        if self.kind == "tb":
            kw = dict(cw)
            if d is not None:
                kw["tb2rad_dir"] = d
                if self.rng.integers(2):
                    kw["rsr_dir"] = self.extra
                d.mkdir(parents=True, exist_ok=True)
            self.args = [(kw, copy.deepcopy(kw))]
            return testing.mock_tb_conversion(**kw)
        if self.kind == "rsr":
            kw = dict(cw)
            if d is not None:
                kw["rsr_dir"] = d
            self.args = [(kw, copy.deepcopy(kw))]
            return testing.mock_rsr(**kw)
        if self.kind == "rayleigh":
            self.lut = data.rayleigh_lut(self.rng, nwvl=3, nsun=3, nazi=3, nsat=3) if self.rng.integers(2) else None
            if self.lut is not None and self.rng.integers(2):
                # wavelengths between the whole numbers
                self.lut["wavelengths"] = np.array([400.0, 600.0 - float(self.rng.uniform(0.2, 30)), 800.0])
            kw = {"lut_data": self.lut}
            if d is not None:
                kw["rayleigh_dir"] = d
            if self.rng.integers(3) == 0:
                kw["rsr_dir"] = self.extra
            return testing.mock_rayleigh(**kw)
        if self.kind == "config":
            base = Path(tempfile.gettempdir()) if d is None else d
            if d is None:
                base = self.extra
            self.options = {"rsr_dir": str(base / "r"), "rayleigh_dir": str(base / "y"), "opt": [1, {"k": self.wvl}, None, True, "yes", "it's: a # test", "\u00fc", "1.0", ""], "none": None}
            if self.rng.integers(2):
                path = self.extra.with_suffix(".yaml")
                testing.create_pyspectral_config_file(path, config_options=self.options)
                self.conf_path = (path, path.read_text())
                return testing.override_config(config_path=path)
            return testing.override_config(config_options=self.options)
        return testing.forbid_pyspectral_downloads()

    def inside(self, top=True):
        """What must hold while this is the innermost manager (with only 'forbid' and the like inside it)."""
        mon = self.mon
        mon.ctx(inside=self.kind)
        conf = get_config()
        if self.kind == "all":
            mon.check(conf["download_from_internet"] is self.permit, "downloads are switched off, unless asked for")
            mon.check(conf.get("my-option") == self.value, "extra options are active", conf=conf)
            self._rsr()
            self._rayleigh(None)
            self._tb()
            with fake_net() as net:
                rsr_reader.check_and_download()
                rayleigh.check_and_download()
            mon.check(not net.requests, "faked data are up to date", urls=net.urls)
        elif self.kind == "tb":
            mon.check(conf["download_from_internet"] is False, "downloads are switched off")
            self._rsr()
            self._tb()
        elif self.kind == "rsr":
            mon.check(conf["download_from_internet"] is False, "downloads are switched off")
            self._rsr()
        elif self.kind == "rayleigh":
            mon.check(conf["download_from_internet"] is False, "downloads are switched off")
            self._rayleigh(self.lut)
        elif self.kind == "config":
            mon.check({k: conf[k] for k in self.options} == self.options, "the overriding configuration is active", conf=conf)

    def _rsr(self):
        rsr = RelativeSpectralResponse("EOS-Aqua", "modis")
        self.mon.check(rsr.rsr[self.band]["det-1"]["central_wavelength"] == self.wvl, "fake responses at the wavelength asked for",
                       got=rsr.rsr[self.band]["det-1"]["central_wavelength"], want=self.wvl)
        self.mon.check(rsr.rsr_data_version_uptodate, "fake responses are up to date", version=rsr.rsr_data_version)
        self.mon.ev("fake_rsr")

    def _tb(self):
        calc = Calculator("EOS-Aqua", "modis", self.band)
        self.mon.check(abs(calc.bandwavelength - self.wvl) < 1e-6, "calculator of the fake band")
        refl = calc.reflectance_from_tbs(np.array([[30.0]]), np.array([[310.0]]), np.array([[290.0]]))
        self.mon.check(np.all(np.isfinite(refl)), "calculator works")
        conv = RadTbConverter("EOS-Aqua", "modis", self.band)
        self.mon.check(conv.tb2radiance(np.array([300.0]))["radiance"][0] > 0, "converter works")
        self.mon.ev("fake_tb")

    def _rayleigh(self, lut):
        ray = Rayleigh("EOS-Aqua", "modis", aerosol_type=str(self.rng.choice(list(tables.AEROSOLS))),
                       atmosphere=str(self.rng.choice(tables.ATMOSPHERES)))
        zero = np.zeros((1, 1))
        got = ray.get_reflectance(zero, zero, zero + 180.0, 0.6)
        if lut is not None:
            # nadir, 180 - azimuth difference = 0
            want = np.interp(600.0, lut["wavelengths"], lut["reflectance"][:, 0, 0, 0]) * 100
            self.mon.close(got, [[want]], "fake table as asked for", rtol=1e-5)
        else:
            want = np.interp(600.0, np.linspace(400, 800, 81), np.linspace(0.668, 0.115, 81)) * 100
            self.mon.close(got, [[want]], "default fake table", rtol=1e-5)
        self.mon.ev("fake_rayleigh")

    def kept(self, entered=True):
        """Directories and files given by the user are kept, arguments unchanged."""
        for now, before in self.args:
            self.mon.check(now == before, "arguments are not changed", now=now, before=before)
        if self.conf_path is not None:
            path, text = self.conf_path
            self.mon.check(path.is_file() and path.read_text() == text, "a configuration file given by the user is kept", path=str(path))
            self.mon.ev("given_config_kept")
        if self.given is None:
            return
        if self.mine:
            self.mon.check((self.given / "mine.txt").exists(), "given directories and their content are kept", dir=str(self.given))
            self.mon.ev("given_dirs_kept")
        if entered and self.kind in ("all", "rsr", "rayleigh"):
            left = [f for f in self.given.iterdir() if f.name != "mine.txt"] if self.given.exists() else []
            self.mon.check(left, "given directories and their content are kept", dir=str(self.given))
            self.mon.ev("given_dirs_kept")


class Boom(Exception):
    """Raised in the body."""


class BoomRuntime(Boom, RuntimeError):
    """The same, as one of the kinds the code itself deals with."""


class BoomOS(Boom, OSError):
    """The same."""


class BoomKey(Boom, KeyError):
    """The same."""


class BoomType(Boom, TypeError, AttributeError, ValueError):
    """The same."""


class BoomFile(Boom, FileNotFoundError):
    """The same."""


BOOMS = [Boom, BoomRuntime, BoomOS, BoomKey, BoomType, BoomFile]


@SUITE.case(quick=220, thorough=8000)
def nesting(mon, rng, scratch):
    """Random nestings, left normally or by an exception."""
    outer = Outer(rng, scratch, mon)
    depth = int(rng.choice([1, 1, 2, 2, 3, 4]))
    stack = [Manager(rng, scratch, mon) for _ in range(depth)]
    boom = int(rng.integers(depth)) if rng.integers(2) else None
    after = bool(rng.integers(2))
    which = int(rng.integers(len(BOOMS)))
    spoil = [int(rng.choice([0, 0, 0, 0, 1, 2])) for _ in stack]
    kinds = [m.kind for m in stack]
    mon.ctx(kinds=kinds, boom=boom)
    mine = {str(m.given / "mine.txt") for m in stack if m.given is not None and (m.given / "mine.txt").exists()}

    def active(level):
        """The innermost manager that sets the configuration."""
        for m in reversed(stack[:level + 1]):
            if m.kind != "forbid":
                return m
        return None

    def responses(level):
        """May the fake data of the active manager be shadowed by an inner one? (never: innermost wins)"""
        return active(level)

    def enter(level):
        if level == depth:
            return
        man = stack[level]
        with man.make():
            mon.ev("entered")
            cur = active(level)
            if cur is not None:
                cur.inside()
            if man.kind == "forbid":
                forbidden(mon, rng, stack[:level])
            if boom == level and not after:
                raise BOOMS[which]()
            enter(level + 1)
            if level + 1 < depth and cur is not None:
                # the inner manager is gone: this one is in charge again
                cur.inside()
                mon.ev("outer_active_again")
            if spoil[level] and man.kind != "forbid":
                # the body changes the variable itself; leaving the manager puts things right all the same
                mon.ev("variable_changed_inside")
                if spoil[level] == 1:
                    os.environ.pop("PSP_CONFIG_FILE", None)
                else:
                    os.environ["PSP_CONFIG_FILE"] = str(scratch / "work" / "nosuch.yaml")
            if boom == level and after:
                raise BOOMS[which]()

    with fake_net() as net, watch.Audit() as audit:
        try:
            enter(0)
            left = False
        except Boom:
            left = True
    mon.check(left == (boom is not None), "exceptions of the body get through")
    if boom is not None:
        mon.ev("left_by_exception")
    if depth > 1:
        mon.ev("nested")
    mon.check(not net.requests and not net.sockets, "no network access inside", urls=net.urls)
    outer.untouched(audit, allowed=(scratch / "work",))
    outer.restored()
    for path in mine:
        mon.check(os.path.exists(path) and Path(path).read_text() == "mine", "the user's files in given directories are kept", path=path)
    for i, m in enumerate(stack):
        m.kept(entered=boom is None or after or i <= boom)
    return (tuple(kinds), boom, after, outer.env_set)


def forbidden(mon, rng, around):
    """Any attempted download is an error."""
    for call in (lambda: utils.download_rsr(dest_dir=os.getcwd()), lambda: utils.download_luts(aerosol_types=["desert_aerosol"])):
        cfg = [m for m in around if m.kind != "forbid"]
        if not cfg:
            continue      # would use the user's own configuration
        with fake_net() as net:
            try:
                call()
                ok = True
            except RuntimeError as err:
                ok = False
                mon.check("download" in str(err), "the error tells about the download", error=str(err)[:100])
        mon.check(not ok and not net.requests, "an attempted download is an error", urls=net.urls)
        mon.ev("forbidden")


@SUITE.case(quick=80, thorough=3000)
def forbid(mon, rng, scratch):
    """Downloads attempted in every way inside the forbidding manager."""
    conf = {"rsr_dir": str(scratch / "rsr"), "rayleigh_dir": str(scratch / "ray"), "download_from_internet": True}
    path = scratch / "c.yaml"
    path.write_text(yaml.safe_dump(conf))
    os.environ["PSP_CONFIG_FILE"] = str(path)
    aer = str(rng.choice(list(tables.AEROSOLS)))
    ways = {"rsr": lambda: RelativeSpectralResponse("NOAA-20", "viirs"), "check": rsr_reader.check_and_download,
            "direct": utils.download_rsr, "luts": lambda: utils.download_luts(aerosol_types=[aer]),
            "checkluts": lambda: rayleigh.check_and_download(aerosol_types=[aer]),
            "rayleigh": lambda: Rayleigh("NOAA-20", "viirs", aerosol_type=aer)}
    order = [str(x) for x in rng.permutation(list(ways))]
    pages = {tables.RSR_URL: tarball([("a", b"b")]), tables.AEROSOLS[aer]["url"]: tarball([("a", b"b")])}
    depth = int(rng.integers(1, 3))
    with fake_net(pages) as net, contextlib.ExitStack() as es:
        own = None
        if rng.integers(3) == 0:
            # inside the user's own fake
            own = es.enter_context(mock.patch("pyspectral.utils.requests")).get
            mon.ev("inside_own_fake")
        for _ in range(depth):
            es.enter_context(testing.forbid_pyspectral_downloads())
        for way in order:
            mon.raises(RuntimeError, "an attempted download is an error", ways[way])
            mon.ev("forbidden")
        mon.check(own is None or not own.called, "the user's own fake is not called")
    mon.check(not net.requests and not net.sockets, "nothing is requested", urls=net.urls)
    # up-to-date data need no download: no error then
    data.use_config(scratch, download_from_internet=True)
    wvl = np.linspace(0.5, 0.6, 9)
    data.write_rsr(scratch / "rsr" / "rsr_viirs_NOAA-20.h5",
                   {"M1": {"det-1": {"wavelength": wvl, "response": wvl, "central_wavelength": 0.55}}}, platform_name="NOAA-20",
                   sensor="viirs")
    with testing.forbid_pyspectral_downloads():
        mon.check(list(RelativeSpectralResponse("NOAA-20", "viirs").rsr) == ["M1"], "data already there are used")
    # and downloads are possible again afterwards
    with fake_net(pages) as net:
        utils.download_rsr(dest_dir=str(scratch / "rsr"))
    mon.check(net.urls == [tables.RSR_URL], "downloads are possible again", urls=net.urls)
    mon.ev("permitted_downloads")
    return (order, aer, depth)


@SUITE.case(quick=60, thorough=2500)
def same_directory(mon, rng, scratch):
    """Managers used one after the other on the same given directory: each returns its own data."""
    outer = Outer(rng, scratch, mon)
    given = scratch / "work" / "given"
    kinds = [str(rng.choice(["rayleigh", "rayleigh", "rsr", "all"])) for _ in range(int(rng.integers(2, 5)))]
    mon.ctx(kinds=kinds)
    with fake_net() as net, watch.Audit() as audit:
        for i, kind in enumerate(kinds):
            man = Manager(rng, scratch, mon, kind=kind)
            man.given = given
            cm = man.make()
            mon.ctx(step=i)
            with cm:
                mon.ev("entered")
                if kind in ("rsr", "all"):
                    man._rsr()
                if kind in ("rayleigh", "all"):
                    for _ in range(2):
                        man._rayleigh(man.lut if kind == "rayleigh" else None)
            mon.ev("same_directory")
            if i and rng.integers(3) == 0:
                (given / "mine.txt").write_text("mine")
    mon.check(not net.requests and not net.sockets, "no network access inside", urls=net.urls)
    outer.untouched(audit, allowed=(scratch / "work",))
    outer.restored()
    mon.check(given.is_dir(), "given directories are kept")
    return tuple(kinds)


@SUITE.case(quick=40, thorough=1500)
def own_tables(mon, rng, scratch):
    """Tables the user has put into a given directory are kept and are the ones used."""
    outer = Outer(rng, scratch, mon)
    man = Manager(rng, scratch, mon, kind=str(rng.choice(["rayleigh", "all"])))
    given = man.given = scratch / "work" / "given"
    ray = given
    if man.kind == "all":
        # whichever directory the manager uses for the tables
        with man.make():
            ray = Path(get_config()["rayleigh_dir"])
        for link in ray.glob("*/*.h5"):
            link.unlink()
    own = {}
    for aer in rng.choice(list(tables.AEROSOLS), 2, replace=False):
        for atm in rng.choice(list(tables.ATMOSPHERES), 2, replace=False):
            lut = data.rayleigh_lut(rng, nwvl=3, nsun=3, nazi=3, nsat=3)
            path = ray / str(aer) / f"rayleigh_lut_{str(atm).replace(' ', '_')}.h5"
            path.parent.mkdir(parents=True, exist_ok=True)
            if rng.integers(2):
                data.write_rayleigh_lut(path, lut)
            else:
                # a link to a table elsewhere
                data.write_rayleigh_lut(scratch / "work" / f"{aer}{atm}.h5", lut)
                path.symlink_to(scratch / "work" / f"{aer}{atm}.h5")
            own[str(aer), str(atm)] = lut, path, path.read_bytes()
    mon.ctx(kind=man.kind, own=list(own))
    with fake_net() as net, man.make():
        mon.ev("entered")
        zero = np.zeros((1, 1))
        for (aer, atm), (lut, path, _) in own.items():
            got = Rayleigh("EOS-Aqua", "modis", aerosol_type=aer, atmosphere=atm).get_reflectance(zero, zero, zero + 180.0, 0.6)
            want = np.interp(600.0, lut["wavelengths"], lut["reflectance"][:, 0, 0, 0]) * 100
            mon.close(got, [[want]], "the user's own table in the given directory is used", rtol=1e-5, aer=aer, atm=atm)
    for lut, path, content in own.values():
        mon.check(path.read_bytes() == content, "the user's own tables are kept", path=str(path))
    mon.ev("own_tables")
    mon.check(not net.requests, "no network access inside", urls=net.urls)
    outer.restored()
    return (man.kind, tuple(own))


@SUITE.case(quick=40, thorough=1500)
def scribble(mon, rng, scratch):
    """Fake data handed out are the caller's own: overwriting them changes nothing for the next."""
    man = Manager(rng, scratch, mon, kind=str(rng.choice(["all", "rsr", "tb"])))
    plat, instr = INSTR[rng.integers(len(INSTR))]
    (scratch / "work").mkdir(exist_ok=True)
    with man.make():
        first = RelativeSpectralResponse(plat, instr)
        keep = {b: {d: {k: np.array(v) for k, v in det.items()} for d, det in dets.items()} for b, dets in first.rsr.items()}
        for dets in first.rsr.values():
            for det in dets.values():
                det["wavelength"][...] = -1
                det["response"][...] = 99
                det["central_wavelength"] = 0.0
        first.rsr.clear()
        for other in (RelativeSpectralResponse(plat, instr), RelativeSpectralResponse("EOS-Terra", "modis")):
            for band, dets in other.rsr.items():
                det = dets["det-1"]
                mon.check(0 <= det["response"].min() and det["response"].max() <= 1 and np.all(det["wavelength"] > 0.4) and
                          det["central_wavelength"] > 0.4, "fake data do not change with those handed out before", band=band)
        again = RelativeSpectralResponse(plat, instr)
        mon.check(list(again.rsr) == list(keep), "the same fake bands again")
        for band, dets in keep.items():
            for d, det in dets.items():
                for k, v in det.items():
                    mon.check(np.array_equal(again.rsr[band][d][k], v), "the same fake data again", band=band, key=k)
    mon.ev("scribbled")
    return (man.kind, plat, instr)


@SUITE.case(quick=240, thorough=8000)
def failing_entry(mon, rng, scratch):
    """A file operation fails while a manager is being entered."""
    outer = Outer(rng, scratch, mon)
    man = Manager(rng, scratch, mon, kind=str(rng.choice(["all", "tb", "rsr", "rayleigh", "config"])))
    wrap = bool(rng.integers(2))
    n = int(rng.integers(1, 9)) if rng.integers(3) else int(rng.integers(1, 60))
    err = OSError(5, "injected")
    mon.ctx(kind=man.kind, n=n)
    cm = man.make()
    with contextlib.ExitStack() as es:
        around = None
        if wrap:
            around = Manager(rng, scratch, mon, kind="rsr")
            es.enter_context(around.make())
        with fake_net() as net, watch.Audit(fail_at=n, error=err, reads=False) as audit:
            try:
                cm.__enter__()
                failed = False
            except OSError:
                failed = True
        if failed:
            mon.check(audit.failed is not None, "entering fails only when a file operation failed")
            mon.ev("failed_entries")
            mon.ev("injected")
            if around is not None:
                around.inside()
                mon.ev("outer_active_again")
        else:
            cm.__exit__(None, None, None)
        mon.check(not net.requests and not net.sockets, "no network access inside")
    outer.restored()
    man.kept(entered=not failed)
    return (man.kind, n, audit.failed and audit.failed[0], wrap)


@SUITE.case(quick=2 * len(INSTR), thorough=20 * len(INSTR))
def platforms(mon, rng, scratch):
    """Every platform and instrument works with fake data."""
    plat, instr = INSTR[mon.index % len(INSTR)]
    outer = Outer(rng, scratch, mon)
    tab = bands_of(instr)
    names = list(tab)
    ask = str(rng.choice(names))
    stored = tab[ask]
    asked = ask if rng.integers(2) else stored
    wvl = float(rng.uniform(3.5, 3.8))
    vis = [n for n in names if tab[n] != stored]
    other = str(rng.choice(vis))
    cw = {asked: wvl, other: 0.55}
    mon.ctx(platform=plat, instrument=instr, ask=asked)
    with fake_net() as net, watch.Audit() as audit, testing.mock_pyspectral_downloads(rsr_files_kwargs={"central_wavelengths": cw}):
        rsr = RelativeSpectralResponse(plat, instr)
        mon.check(rsr.platform_name == plat, "fake responses of the platform", got=rsr.platform_name)
        for name in names:
            det = rsr.rsr[name]["det-1"]
            want = wvl if tab[name] == stored else (0.55 if tab[name] == tab[other] else 0.46)
            mon.check(abs(float(det["central_wavelength"]) - want) < 1e-9, "fake band at the wavelength asked for", band=name,
                      got=det["central_wavelength"], want=want)
            mon.check(det["wavelength"].min() > want - 0.03 and det["wavelength"].max() < want + 0.03 and
                      det["wavelength"].shape == det["response"].shape, "fake curve around the wavelength asked for", band=name)
        mon.ev("fake_rsr", len(names))
        calc = Calculator(plat, instr, stored)
        mon.check(abs(float(calc.bandwavelength) - wvl) < 1e-6, "calculator of the fake band", got=calc.bandwavelength)
        refl = calc.reflectance_from_tbs(np.array([[30.0]]), np.array([[315.0]]), np.array([[285.0]]))
        mon.check(np.all(np.isfinite(refl)), "calculator works")
        mon.check(str(calc.lutfile).startswith(tempfile.gettempdir()), "the table is cached in the managers' directory", lut=calc.lutfile)
        mon.ev("fake_tb")
        if not (plat == "FY-3B" and instr == "mersi-1"):
            ray = Rayleigh(plat, instr, aerosol_type=str(rng.choice(list(tables.AEROSOLS))),
                           atmosphere=str(rng.choice(tables.ATMOSPHERES)))
            zero = np.zeros((1, 1))
            got = ray.get_reflectance(zero + 20, zero + 30, zero + 60.0, other)
            mon.check(np.all((got > 30) & (got < 60)), "Rayleigh correction of the fake band", got=got)
            mon.ev("fake_rayleigh")
    mon.check(not net.requests and not net.sockets, "no network access inside")
    outer.untouched(audit)
    outer.restored()
    return (plat, instr, asked, other)


@SUITE.case(quick=90, thorough=3000)
def options(mon, rng, scratch):
    """Versions, download settings and low-level return values."""
    outer = Outer(rng, scratch, mon)
    version = [None, "v0.0.0", "v1.0.0", "default", "v99.0", "", "x"][rng.integers(7)]
    permit = bool(rng.integers(2))
    kw = {"download_from_internet": permit}
    if version != "default":
        kw["rsr_data_version"] = version
    given = scratch / "work" / "rsr"
    if rng.integers(2):
        kw["rsr_dir"] = given
    what = int(rng.integers(3))
    info = {"platform_name": "X", "instrument": "y", "description": "z", "band_names": ["q"],
            "rsr": {"q": {"det-1": {"wavelength": np.arange(3.0), "response": np.ones(3), "central_wavelength": 1.0}}}}
    if what == 1:
        kw["return_value"] = info
    elif what == 2:
        kw["side_effect"] = lambda path: dict(info, description=str(path))
    mon.ctx(version=version, permit=permit, what=what)
    arc = tarball([(tables.RSR_VERSION_FILE, tables.RSR_VERSION.encode())])
    if version is None and "rsr_dir" in kw:
        given.mkdir()
    with fake_net({tables.RSR_URL: arc}) as net:
        with testing.mock_rsr(**kw) as loader:
            rsr = RelativeSpectralResponse("NOAA-20", "viirs")
            mon.check(loader.call_count == 1, "the fake loader is the one used")
            if what:
                mon.check(list(rsr.rsr) == ["q"], "the data given are returned", bands=list(rsr.rsr))
            if what == 2:
                mon.check(rsr.description.endswith("rsr_viirs_NOAA-20.h5"), "the fake loader is told the file", got=rsr.description)
    stale = version not in ("default", tables.RSR_VERSION)
    mon.check(net.urls == ([tables.RSR_URL] if stale and permit else []), "downloads exactly as asked for", urls=net.urls)
    mon.ev("versions")
    # Rayleigh tables: subsets and versions
    aers = [str(x) for x in rng.permutation(list(tables.AEROSOLS))[:3]]
    atms = [str(x) for x in rng.permutation(tables.ATMOSPHERES)[:2]]
    ver = [True, "v0.0.0", "v9.9.9", "1", "latest"][rng.integers(5)]
    # any iterable will do
    forms = [list, tuple, set, iter, dict.fromkeys, lambda seq: (x for x in seq), lambda seq: np.array(seq, dtype=object)]
    how = [int(rng.integers(len(forms))) for _ in range(2)]
    mon.ev("iterables")
    mon.ctx(how=how)
    with fake_net() as net, testing.mock_rayleigh(aerosol_types=forms[how[0]](aers), atmospheres=forms[how[1]](atms), existing_version=ver):
        for aer in aers:
            base = rayleigh.RayleighConfigBaseClass(aer)
            mon.check(bool(base.lutfiles_version_uptodate) == (ver is True), "tables of the version asked for", aer=aer)
            for atm in atms:
                got = Rayleigh("NOAA-20", "viirs", aerosol_type=aer, atmosphere=atm).get_reflectance(
                    np.zeros((1, 1)), np.zeros((1, 1)), np.zeros((1, 1)), 0.5)
                mon.check(np.all((got > 40) & (got < 60)), "fake table", got=got)
        absent = str(next(a for a in tables.AEROSOLS if a not in aers))
        mon.raises(OSError, "tables not asked for are not there",
                   lambda: Rayleigh("NOAA-20", "viirs", aerosol_type=absent).get_reflectance(
                       np.zeros((1, 1)), np.zeros((1, 1)), np.zeros((1, 1)), 0.5))
    mon.check(not net.requests, "no network access inside")
    outer.restored()
    return (version, permit, what, tuple(aers), tuple(atms), ver)
