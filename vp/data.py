"""Generators of configurations, response files, look-up tables and curves."""
import os
from pathlib import Path

import h5py
import numpy as np
import yaml

from vp import tables


def use_config(scratch, name="pyspectral.yaml", version=True, **options):
    """Write a configuration file and make it the active one."""
    scratch = Path(scratch)
    conf = {"rsr_dir": str(scratch / "rsr"), "rayleigh_dir": str(scratch / "rayleigh"),
            "tb2rad_dir": str(scratch / "tb2rad"), "download_from_internet": False}
    conf.update(options)
    conf = {k: v for k, v in conf.items() if v is not None}
    for key in ("rsr_dir", "rayleigh_dir", "tb2rad_dir"):
        if key in conf:
            os.makedirs(conf[key], exist_ok=True)
    if version and "rsr_dir" in conf:
        (Path(conf["rsr_dir"]) / tables.RSR_VERSION_FILE).write_text(tables.RSR_VERSION)
    path = scratch / name
    path.write_text(yaml.safe_dump(conf))
    os.environ["PSP_CONFIG_FILE"] = str(path)
    return path


CURVES = ("gauss", "boxcar", "ramp", "multipeak", "noisy", "skewed")


def curve(rng, center, width, n=None, kind=None, uneven=None, descending=False, dtype=np.float64, zero_ends=False):
    """Return wavelengths (micrometre) and responses of a band."""
    n = int(n or rng.integers(5, 160))
    kind = kind or CURVES[rng.integers(len(CURVES))]
    uneven = bool(rng.integers(2)) if uneven is None else uneven
    if uneven:
        steps = rng.uniform(0.2, 1.8, n - 1)
        pos = np.r_[0, np.cumsum(steps)]
        pos = pos / pos[-1]
    else:
        pos = np.linspace(0, 1, n)
    x = pos * 2 - 1
    if kind == "gauss":
        resp = np.exp(-(x * 2.2) ** 2)
    elif kind == "boxcar":
        resp = np.where(np.abs(x) < 0.7, 1.0, 0.02)
    elif kind == "ramp":
        resp = 0.05 + 0.95 * pos
    elif kind == "multipeak":
        resp = np.exp(-((x - 0.45) * 5) ** 2) + 0.8 * np.exp(-((x + 0.4) * 6) ** 2) + 0.01
    elif kind == "noisy":
        resp = np.exp(-(x * 1.8) ** 2) * rng.uniform(0.7, 1.0, n)
    else:
        resp = (pos + 0.02) ** 2 * (1.05 - pos)
    resp = resp / resp.max()
    if zero_ends:
        resp[0] = resp[-1] = 0.0
    wvl = center + x * width / 2
    wvl = wvl.astype(dtype)
    resp = resp.astype(dtype)
    if descending:
        wvl, resp = wvl[::-1].copy(), resp[::-1].copy()
    return wvl, resp


def write_rsr(path, bands, platform_name="Test-1", sensor="testinstr", description="Some responses",
              scale=1e-6, dtype="f8", attrs=None, string="str", layout="auto"):
    """Write an RSR file in the internal format.

    bands: {band: {det: {wavelength (micrometre), response, central_wavelength}}}
    """
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)

    def enc(val):
        return np.bytes_(val.encode()) if string == "bytes" else val

    with h5py.File(path, "w") as h5f:
        h5f.attrs["description"] = enc(description)
        if platform_name is not None:
            h5f.attrs["platform_name"] = enc(platform_name)
        if sensor is not None:
            h5f.attrs["sensor"] = enc(sensor)
        if string == "bytes":
            h5f.attrs["band_names"] = np.array([b.encode() for b in bands])
        else:
            h5f.attrs["band_names"] = list(bands)
        for key, val in (attrs or {}).items():
            h5f.attrs[key] = val
        for bname, dets in bands.items():
            grp = h5f.create_group(bname)
            if len(dets) > 1 or layout == "det":
                grp.attrs["number_of_detectors"] = len(dets)
                for dname, det in dets.items():
                    dgrp = grp.create_group(dname)
                    dgrp.attrs["central_wavelength"] = det["central_wavelength"]
                    dgrp.create_dataset("response", data=det["response"].astype(dtype))
                    dset = dgrp.create_dataset("wavelength",
                                               data=(det["wavelength"] * 1e-6 / scale).astype(dtype))
                    dset.attrs["scale"] = scale
            else:
                det = dets["det-1"]
                grp.attrs["central_wavelength"] = det["central_wavelength"]
                grp.create_dataset("response", data=det["response"].astype(dtype))
                dset = grp.create_dataset("wavelength", data=(det["wavelength"] * 1e-6 / scale).astype(dtype))
                dset.attrs["scale"] = scale
    return path


def make_band(rng, center, width, ndet=1, **kw):
    """Return {det: {...}} of a band."""
    from vp import ref
    res = {}
    for i in range(ndet):
        wvl, resp = curve(rng, center * (1 + 0.002 * i), width, **kw)
        res[f"det-{i + 1}"] = {"wavelength": wvl, "response": resp,
                               "central_wavelength": float(ref.central(wvl, resp))}
    return res


def rsr_name(platform, instrument):
    """Name of the response file of a platform and instrument."""
    return f"rsr_{instrument.lower().replace('/', '').replace('-', '')}_{platform}.h5"


def rayleigh_lut(rng, nwvl=None, nsun=None, nazi=None, nsat=None, lo=0.01, hi=0.7):
    """Random Rayleigh reflectance table on a regular grid."""
    nwvl = int(nwvl or rng.integers(3, 12))
    nsun = int(nsun or rng.integers(3, 14))
    nazi = int(nazi or rng.integers(3, 10))
    nsat = int(nsat or rng.integers(3, 8))
    sunmax = float(rng.choice([5.0, 12.0, 24.75]))
    satmax = float(rng.choice([2.0, 3.0, 4.0]))
    return {"wavelengths": np.linspace(400.0, 800.0, nwvl),
            "sun_zenith_secant": np.linspace(1.0, sunmax, nsun),
            "azimuth_difference": np.linspace(0.0, 180.0, nazi),
            "satellite_zenith_secant": np.linspace(1.0, satmax, nsat),
            "reflectance": rng.uniform(lo, hi, (nwvl, nsun, nazi, nsat))}


def write_rayleigh_lut(path, lut):
    """Write a Rayleigh LUT file."""
    path = Path(path)
    path.parent.mkdir(parents=True, exist_ok=True)
    with h5py.File(path, "w") as h5f:
        for key, val in lut.items():
            h5f[key] = val
    return path


def tree(root):
    """Names of all files below a directory."""
    return {os.path.join(base, name) for base, _, files in os.walk(root) for name in files}


def snapshot_tree(root):
    """Return {relative path: (kind, content hash)} of a directory tree."""
    import hashlib
    res = {}
    root = Path(root)
    for base, dirs, files in os.walk(root):
        for name in dirs:
            p = Path(base) / name
            res[str(p.relative_to(root))] = ("link", os.readlink(p)) if p.is_symlink() else ("dir", "")
        for name in files:
            p = Path(base) / name
            if p.is_symlink():
                res[str(p.relative_to(root))] = ("link", os.readlink(p))
            elif p.is_file():
                res[str(p.relative_to(root))] = ("file", hashlib.sha256(p.read_bytes()).hexdigest())
            else:
                res[str(p.relative_to(root))] = ("other", "")
    return res


def near(rng, value, n, dtype=np.float64):
    """Return values at and a few ulps around a boundary value."""
    out = [value]
    up = dn = dtype(value)
    for _ in range(3):
        up = np.nextafter(up, dtype(np.inf))
        dn = np.nextafter(dn, dtype(-np.inf))
        out += [up, dn]
    return rng.choice(np.array(out, dtype=dtype), n)


def layout(rng, arr):
    """Return the same values (and type) in a random memory layout: contiguous, transposed, strided, reversed, read-only."""
    arr = np.asarray(arr)
    kind = int(rng.integers(7))
    if arr.ndim == 0 or arr.size == 0 or kind == 0:
        return arr.copy()
    if kind == 1:
        return np.asfortranarray(arr)
    if kind == 2:
        big = np.full(tuple(2 * n for n in arr.shape), 7, dtype=arr.dtype)
        view = big[tuple(slice(None, None, 2) for _ in arr.shape)]
        view[...] = arr
        return view
    if kind == 3:
        rev = tuple(slice(None, None, -1) for _ in arr.shape)
        return arr[rev].copy()[rev]
    if kind == 4:
        ro = arr.copy()
        ro.flags.writeable = False
        return ro
    if kind == 5:
        big = np.full(tuple(n + 3 for n in arr.shape), 3, dtype=arr.dtype)
        view = big[tuple(slice(1, 1 + n) for n in arr.shape)]
        view[...] = arr
        return view
    return np.moveaxis(np.moveaxis(arr, 0, -1).copy(), -1, 0)


#: sizes around which implementations change their method (blocks, caches, vector lengths, powers of two)
LARGE = [1000, 1023, 1024, 1025, 4095, 4096, 4097, 10000, 16384, 40001, 65535, 65536, 65537, 100000, 131072, 250000]


def large_shape(rng, ndim=None, most=250000):
    """Return a shape of many elements."""
    n = int(rng.choice([x for x in LARGE if x <= most]))
    ndim = ndim or int(rng.integers(1, 3))
    if ndim == 1:
        return (n,)
    rows = int(rng.choice([1, 2, 3, 10, 100, 257]))
    return (rows, max(1, n // rows))


class keep_times:
    """Write a file anew, in half of the cases with the time stamps it had before: only its content counts."""

    def __init__(self, rng, path):
        self.path = path
        self.stat = os.stat(path) if rng.integers(2) and os.path.exists(path) else None

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        if self.stat is not None and os.path.exists(self.path):
            os.utime(self.path, ns=(self.stat.st_atime_ns, self.stat.st_mtime_ns))
