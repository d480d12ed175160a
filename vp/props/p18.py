"""P18: the configuration read is the one the user points to, over histories of edits and reads."""
import copy
import os
import threading
from pathlib import Path

import numpy as np
import yaml

from pyspectral.config import get_config
from vp import data, watch
from vp.core import Suite

SUITE = Suite(
    "P18", "exploration",
    "A case is a random history of edits (of three configuration files, of the environment variable, of the home and "
    "data-directory variables and of configurations returned before) and reads, each read compared with a model that "
    "knows only the state of files and variables at that moment, or concurrent reads of different files in threads; "
    "distinct by history.",
    needs=["reads_explicit", "reads_env", "reads_builtin", "refused", "edits", "mutated_results", "default_dirs", "home_expanded",
           "created_dirs", "empty_files", "thread_reads", "consumers", "nested"],
    assumptions=["Files are plain YAML mappings (or empty), encoded in UTF-8.", "File names refer to writable directories."])

WORDS = ["alpha", "path", "seviri", "Meteosat-9-seviri", "tb2rad_lut_filename", "options", "täst", "x", "level", "NOAA-20-viirs"]


def _value(rng, depth):
    kind = int(rng.integers(9 if depth else 7))
    if kind == 0:
        return int(rng.integers(-5, 100))
    if kind == 1:
        return float(rng.normal())
    if kind == 2:
        return bool(rng.integers(2))
    if kind == 3:
        return None
    if kind == 4:
        return [int(rng.integers(9)), str(WORDS[rng.integers(len(WORDS))]), {"k": 1}]
    if kind in (5, 6):
        return str(rng.choice(["", "text", "~/not/a/dir", "/some/where", "yes it is: quoted", "01", "true"]))
    return {str(WORDS[rng.integers(len(WORDS))]): _value(rng, depth - 1) for _ in range(int(rng.integers(0, 4)))}


def content(rng, scratch, mon=None):
    """A random configuration."""
    conf = {str(WORDS[rng.integers(len(WORDS))]): _value(rng, 3) for _ in range(int(rng.integers(0, 6)))}
    for key in ("rsr_dir", "rayleigh_dir", "tb2rad_dir"):
        r = int(rng.integers(5))
        if r == 0:
            conf[key] = str(scratch / f"d{rng.integers(4)}" / key)
        elif r == 1:
            conf[key] = f"~/h{rng.integers(3)}/{key}"
            if rng.integers(4) == 0:
                # only the user's home is a shortcut
                conf[key] = str(rng.choice([f"~/$HOME/{key}", f"~/a~b/{key}", f"~/%s{{x}}/{key}", f"~/with space/{key}",
                                            str(scratch / "$USER" / "${HOME}" / key)]))
        elif r == 2 and rng.integers(4) == 0:
            conf[key] = "~"
    if rng.integers(2):
        conf["download_from_internet"] = bool(rng.integers(2))
    return conf


class World:
    """The model: what the files and variables are now."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.files = [scratch / n for n in ("a.yaml", "b.yml", "sub/c d.cfg")]
        (scratch / "sub").mkdir()
        self.conf = [None, None, None]
        self.env = None

    def expect(self, conf):
        """What a read of this content has to give."""
        res = copy.deepcopy(conf) if conf else {}
        xdg = os.environ.get("XDG_DATA_HOME", "")
        user = (xdg if xdg.strip() else os.path.join(os.environ["HOME"], ".local/share")) + "/pyspectral"
        home = os.environ["HOME"]
        for key in ("rsr_dir", "rayleigh_dir"):
            val = res.get(key, user)
            if val == "~" or val.startswith("~/"):
                val = home + val[1:]
            res[key] = val
        return res


def _has_nested(conf):
    return any(isinstance(v, dict) and any(isinstance(w, dict) for w in v.values()) for v in conf.values())


@SUITE.case(quick=500, thorough=20000)
def history(mon, rng, scratch):
    """A random history of edits and reads."""
    world = World(scratch)
    os.environ.pop("PSP_CONFIG_FILE", None)
    os.environ["HOME"] = str(scratch / "home0")
    os.environ["XDG_DATA_HOME"] = str(scratch / "xdg0")
    for i in range(3):
        os.makedirs(scratch / f"home{i}")
    builtin = yaml.safe_load((Path(os.environ["VP_REPO"]) / "pyspectral/etc/pyspectral.yaml").read_text(encoding="utf-8"))
    returned = []
    hist = []
    for step in range(int(rng.integers(6, 25))):
        op = int(rng.integers(10))
        if op <= 1:
            i = int(rng.integers(3))
            how = int(rng.integers(6))
            if how == 0 and world.files[i].exists():
                world.files[i].unlink()
                world.conf[i] = None
            elif how == 1:
                world.files[i].write_text(str(rng.choice(["", "# only a comment\n", "---\n", "{}\n"])))
                world.conf[i] = {}
                mon.ev("empty_files")
            else:
                conf = content(rng, scratch)
                text = yaml.safe_dump(conf, allow_unicode=bool(rng.integers(2)), default_flow_style=bool(rng.integers(2)))
                if rng.integers(3) == 0:
                    # keep size and time stamp of the old file where possible: staleness must not hide behind them
                    if world.files[i].exists():
                        st = world.files[i].stat()
                        missing = st.st_size - len(text.encode())
                        if missing > 1:
                            text += "#" * (missing - 1) + "\n"
                        world.files[i].write_text(text, encoding="utf-8")
                        os.utime(world.files[i], ns=(st.st_atime_ns, st.st_mtime_ns))
                    else:
                        world.files[i].write_text(text, encoding="utf-8")
                else:
                    world.files[i].write_text(text, encoding="utf-8")
                world.conf[i] = conf
            mon.ev("edits")
            hist.append(("edit", i, how))
        elif op == 2:
            r = int(rng.integers(7))
            if r == 0:
                os.environ.pop("PSP_CONFIG_FILE", None)
                world.env = None
            elif r == 1:
                world.env = str(rng.choice([str(scratch / "nofile.yaml"), str(scratch), "", str(scratch / "gone/x.yaml")]))
                os.environ["PSP_CONFIG_FILE"] = world.env
            else:
                world.env = int(rng.integers(3))
                name = str(world.files[world.env])
                if rng.integers(4) == 0:
                    os.chdir(scratch)
                    name = os.path.relpath(name, scratch)
                os.environ["PSP_CONFIG_FILE"] = name
            mon.ev("edits")
            hist.append(("env", r))
        elif op == 3:
            os.environ["HOME"] = str(scratch / f"home{rng.integers(3)}")
            if rng.integers(3) == 0:
                os.environ.pop("XDG_DATA_HOME", None)
            else:
                os.environ["XDG_DATA_HOME"] = str(scratch / f"xdg{rng.integers(3)}")
            hist.append(("home",))
        elif op == 4 and returned:
            _spoil(rng, returned[int(rng.integers(len(returned)))])
            mon.ev("mutated_results")
            hist.append(("spoil",))
        else:
            hist.append(_read(mon, rng, world, builtin, returned))
    return tuple(hist)


def _spoil(rng, conf):
    """Change a returned configuration at all levels."""
    stack = [conf]
    while stack:
        d = stack.pop()
        stack += [v for v in d.values() if isinstance(v, dict)]
        for k in list(d):
            if isinstance(d[k], list):
                d[k].append("spoilt")
            elif not isinstance(d[k], dict):
                d[k] = "spoilt"
        d["spoilt"] = True


def _read(mon, rng, world, builtin, returned):
    env_before = dict(os.environ)
    explicit = rng.integers(3) == 0
    if explicit:
        i = int(rng.integers(4))
        conf = world.conf[i] if i < 3 else None
        path = world.files[i] if i < 3 else world.scratch / "none.yaml"
        arg = (str(path) if rng.integers(2) else path,)
        what = "explicit"
    else:
        arg = ()
        if world.env is None:
            conf, what = builtin, "builtin"
        elif isinstance(world.env, str):
            conf, what = None, "env"
        else:
            conf, what = world.conf[world.env], "env"
    mon.ctx(what=what, conf=conf, env=os.environ.get("PSP_CONFIG_FILE"))
    if conf is None:
        mon.raises(OSError, "naming no file is an error", get_config, *arg)
        mon.ev("refused")
        return ("refused", what)
    want = world.expect(conf)
    with watch.Audit() as audit:
        got = get_config(*arg)
    mon.check(type(got) is dict and got == want, "the configuration read is the one pointed to", got=got, want=want)
    mon.check(_types(got) == _types(want), "types of the settings are kept", got=got, want=want)
    for key in ("rsr_dir", "rayleigh_dir"):
        mon.check(os.path.isdir(want[key]), "both data directories exist afterwards", key=key, dir=want[key])
    mon.check(dict(os.environ) == env_before, "reading leaves the environment alone")
    for kind, path in audit.mutations:
        ok = kind == "os.mkdir" and any((want[k] + "/").startswith(path.rstrip("/") + "/") for k in ("rsr_dir", "rayleigh_dir"))
        mon.check(ok, "reading writes nothing but the data directories", kind=kind, path=path)
        mon.ev("created_dirs")
    mon.ev("reads_" + what)
    if "rsr_dir" not in conf or "rayleigh_dir" not in conf:
        mon.ev("default_dirs")
    if any(str(conf.get(k, "")).startswith("~") for k in ("rsr_dir", "rayleigh_dir")):
        mon.ev("home_expanded")
    if _has_nested(conf):
        mon.ev("nested")
    for old in returned:
        mon.check(old is not got, "each read gives a configuration of its own")
    returned.append(got)
    if not explicit and rng.integers(3) == 0:
        _consumers(mon, want, world.scratch)
    return ("read", what, len(conf))


def _types(obj):
    if isinstance(obj, dict):
        return {k: _types(v) for k, v in obj.items()}
    if isinstance(obj, list):
        return [_types(v) for v in obj]
    return type(obj)


def _consumers(mon, want, scratch):
    """Everything that uses the configuration follows it."""
    from pyspectral.rayleigh import RayleighConfigBaseClass
    from pyspectral.rsr_reader import RelativeSpectralResponse
    from pyspectral.utils import get_rayleigh_lut_dir
    path = scratch / "some_rsr.h5"
    if not path.exists():
        wvl = np.linspace(0.5, 0.6, 9)
        data.write_rsr(path, {"ch1": {"det-1": {"wavelength": wvl, "response": wvl, "central_wavelength": 0.55}}})
    base = RelativeSpectralResponse(filename=str(path))
    mon.check(str(base.rsr_dir) == os.path.normpath(want["rsr_dir"]), "response directory follows the configuration",
              got=base.rsr_dir, want=want["rsr_dir"])
    mon.check(bool(base.do_download) == bool(want.get("download_from_internet", False)),
              "download setting follows the configuration")
    mon.check(str(get_rayleigh_lut_dir("desert_aerosol")) == os.path.normpath(want["rayleigh_dir"] + "/desert_aerosol"),
              "table directory follows the configuration")
    ray = RayleighConfigBaseClass("rural_aerosol")
    mon.check(bool(ray.do_download) == bool(want.get("download_from_internet", False)),
              "download setting follows the configuration")
    mon.ev("consumers")


@SUITE.case(quick=40, thorough=1500)
def threads(mon, rng, scratch):
    """Concurrent reads of different files do not mix."""
    n = int(rng.integers(2, 7))
    world = World(scratch)
    confs = [content(rng, scratch) for _ in range(n)]
    paths = []
    for i, conf in enumerate(confs):
        path = scratch / f"t{i}.yaml"
        path.write_text(yaml.safe_dump(conf))
        paths.append(path)
    os.environ["HOME"] = str(scratch)
    os.environ["PSP_CONFIG_FILE"] = str(paths[0])
    wants = [world.expect(c) for c in confs]
    barrier = threading.Barrier(n)
    bad = []

    def reader(i):
        barrier.wait()
        for k in range(12):
            try:
                got = get_config(paths[i]) if i else get_config()
                if got != wants[i]:
                    bad.append((i, got))
                _spoil(None, got)
            except Exception as err:
                bad.append((i, repr(err)))

    ths = [threading.Thread(target=reader, args=(i,)) for i in range(n)]
    for th in ths:
        th.start()
    for th in ths:
        th.join()
    mon.check(not bad, "concurrent reads do not mix", bad=bad[:2], wants=[wants[i] for i, _ in bad[:2]])
    mon.ev("thread_reads", 12 * n)
    return (n, [sorted(c) for c in confs])
