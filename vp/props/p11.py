"""P11: Tb-radiance tables."""
import os
from pathlib import Path

import numpy as np

from pyspectral.radiance_tb_conversion import RadTbConverter
from vp import data, nir, ref
from vp.core import Suite
from vp.sched import SCHEDULERS, lazy, random_chunks, scheduler

SUITE = Suite(
    "P11", "exploration",
    "A case generates, writes and reads a table of a random band, detector, wave space, normalisation and resolution and "
    "looks up temperatures inside, on and around steps, outside, huge, infinite and NaN, in random shapes, precisions and "
    "containers (scalar, list, array, chunked array), with the table from file or as a dictionary; distinct by (band, "
    "resolution, container, shape).",
    needs=["tables", "lookups", "outside", "nan", "steps_hit", "scalars", "lists", "chunked", "single_precision", "partial_tables", "replaced_tables"],
    assumptions=["Resolutions dividing 150 K, the start of the table.",
                 "A temperature within rounding of a step may use either neighbour."])

RES = [0.1, 0.1, 0.05, 0.2, 0.25, 0.5, 1.0, 2.0, 0.3, 0.125, 5.0, 0.01]


@SUITE.case(quick=720, thorough=6000)
def tables(mon, rng, scratch):
    """Generate, store, read, look up."""
    data.use_config(scratch)
    plat, instr, band, dets = nir.setup(rng, scratch, ndet=int(rng.choice([1, 2])), n=int(rng.integers(5, 40)))
    det = str(rng.choice(list(dets)))
    res = float(rng.choice(RES))
    space = str(rng.choice(["wavelength", "wavelength", "wavenumber"]))
    normalized = bool(rng.integers(3))
    kw = {} if res == 0.1 and rng.integers(2) else {"tb_resolution": res}
    conv = RadTbConverter(plat, instr, band, detector=det, wavespace=space, **kw)
    mon.ctx(platform=plat, band=band, det=det, res=res, space=space, normalized=normalized)
    path = scratch / "t" / str(rng.choice(["tab.npz", "tab", "a.b", "x.npz"]))
    path.parent.mkdir()
    if rng.integers(3) == 0:
        # an earlier table of the same name, made with other settings, is replaced
        other = RadTbConverter(plat, instr, band, detector=str(rng.choice(list(dets))), tb_resolution=float(rng.choice(RES)))
        other.make_tb2rad_lut(str(path), normalized=bool(rng.integers(2)))
        mon.ev("replaced_tables")
    arg = [str(path), Path(path)][rng.integers(2)]
    if normalized and rng.integers(2):
        conv.make_tb2rad_lut(arg)
    else:
        conv.make_tb2rad_lut(arg, normalized=normalized)
    real = path if path.name.endswith(".npz") else path.with_name(path.name + ".npz")
    mon.check(os.listdir(path.parent) == [real.name], "exactly the table file is written", got=os.listdir(path.parent))
    lut = conv.read_tb2rad_lut([str(real), real][rng.integers(2)])
    tb = np.array(lut["tb"])
    rad = np.array(lut["radiance"])
    mon.check(tb.ndim == 1 and tb.shape == rad.shape, "one radiance per temperature", got=(tb.shape, rad.shape))
    mon.check(tb[0] == 150.0 and abs(tb.size - 210 / res) < 1.5 and tb[-1] < 360 + 1e-6 and tb[-1] + res > 360 - 1e-6,
              "the table covers 150 to 360 K", got=(tb[0], tb[-1], tb.size))
    mon.close(tb, 150.0 + res * np.arange(tb.size), "temperatures are the steps of the resolution", rtol=1e-11)
    d = dets[det]
    wvl, resp = d["wavelength"], d["response"]
    wave = wvl * 1e-6 if space == "wavelength" else 1e6 / wvl[::-1]
    resp = resp if space == "wavelength" else resp[::-1]
    pick = np.unique(np.r_[0, tb.size - 1, rng.integers(0, tb.size, 40)])
    want = np.asarray(ref.band_radiance(wave, resp, tb[pick], normalized, space == "wavenumber"), "f8")
    mon.close(rad[pick], want, "the table holds the exact band radiance", rtol=2e-9)
    direct = np.asarray(conv.tb2radiance(tb, normalized=normalized)["radiance"])
    mon.same(rad, direct, "the table survives being written and read")
    mon.check(np.all(np.diff(rad) > 0), "the table increases")
    mon.ev("tables")
    table = lut if rng.integers(2) else {"tb": tb.copy(), "radiance": rad.copy()}
    for _ in range(3):
        _lookup(mon, rng, conv, table, tb, rad, res, normalized, space)
    if rng.integers(2):
        # part of a table, as a user might keep it
        start = float(rng.choice([180.0, 210.0, 240.0, 270.0]))
        k0, k1 = int(round((start - 150) / res)), int(rng.integers(3, 60))
        part = {"tb": start + res * np.arange(tb[k0:k0 + k1].size), "radiance": rad[k0:k0 + k1].copy()}
        mon.ctx(part=(start, k1))
        for _ in range(2):
            _lookup(mon, rng, conv, part, part["tb"], rad[k0:k0 + k1], res, normalized, space)
        mon.ev("partial_tables")
    mon.same(np.array(table["tb"]), tb, "lookups do not alter the table")
    mon.same(np.array(table["radiance"]), rad, "lookups do not alter the table")
    lut.close()
    return (plat, band, det, res, space, normalized)


def _temps(rng, res, n, start=150.0, steps=None):
    steps = steps or int(210 / res)
    t = rng.uniform(130, 380, n) if rng.integers(2) else rng.uniform(start - 2 * res, start + (steps + 2) * res, n)
    pool = [np.nan, 150.0, 149.99999, 360.0, 359.999, 360.1, 0.0, -40.0, 1e6, -1e6, np.inf, -np.inf, 273.15, 3276.7, 3276.8,
            6553.6, 1e12, 2.2e8, 33000.0, 400.0, 100.0]
    k = int(rng.integers(0, n + 1))
    for i in rng.integers(0, n, k):
        t[i] = pool[rng.integers(len(pool))]
    k = int(rng.integers(0, n + 1))
    for i in rng.integers(0, n, k):
        t[i] = start + res * rng.integers(0, steps)
    return t


def _lookup(mon, rng, conv, table, tb, rad, res, normalized, space):
    dtype = [np.float64, np.float32][rng.integers(2)]
    form = str(rng.choice(["array", "array", "chunked", "scalar", "list", "int", "npscalar"]))
    if form in ("array", "chunked"):
        shape = [(int(rng.integers(2, 40)),), (3, 7), (1, 5), (2, 3, 4), (0,), (1,)][rng.integers(6)] if rng.integers(40) else data.large_shape(rng)
        if form == "chunked" and 0 in shape:
            shape = (4,)
    elif form in ("list", "int"):
        shape = (int(rng.integers(2, 9)),)
    else:
        shape = ()
    temps = _temps(rng, res, max(1, int(np.prod(shape))), float(tb[0]), int(rad.size))[:int(np.prod(shape))].reshape(shape)
    if form == "int":
        temps = np.round(np.clip(np.nan_to_num(temps, nan=200, posinf=500, neginf=0), -1e9, 1e9))
    if form not in ("array", "chunked", "npscalar"):
        dtype = np.float64
    with np.errstate(over="ignore"):
        temps = temps.astype(dtype)
    if form == "array":
        temps = data.layout(rng, temps)
    t0 = temps.copy()
    kw = {} if normalized else {"normalized": False}
    if form == "array":
        got = conv.tb2radiance(temps, lut=table, **kw)
    elif form == "chunked":
        with scheduler(str(rng.choice(SCHEDULERS)), int(rng.integers(1 << 30)), mon):
            r = conv.tb2radiance(lazy(temps, random_chunks(rng, shape)), lut=table, **kw)
            got = dict(r, radiance=np.asarray(r["radiance"]))
        mon.ev("chunked")
    elif form == "scalar":
        got = conv.tb2radiance(float(temps), lut=table, **kw)
        mon.ev("scalars")
    elif form == "npscalar":
        got = conv.tb2radiance(dtype(temps), lut=table, **kw)
        mon.ev("scalars")
    elif form == "int":
        if rng.integers(2):
            got = conv.tb2radiance(temps.astype(int), lut=table, **kw)
        else:
            got = conv.tb2radiance([int(x) for x in temps], lut=table, **kw)
        mon.ev("lists")
    else:
        got = conv.tb2radiance([float(x) for x in temps], lut=table, **kw)
        mon.ev("lists")
    mon.same(temps, t0, "input untouched")
    unit = "W/m^2 sr^-1" if not normalized else {"wavelength": "W/m^2 sr^-1 m^-1",
                                                 "wavenumber": "W/m^2 sr^-1 (m^-1)^-1"}[space]
    mon.check(got["unit"] == unit and got["scale"] == 1.0, "unit of the looked-up radiance", got=got["unit"], want=unit)
    val = np.asarray(got["radiance"], dtype="f8")
    if val.size == 1 and t0.size == 1:
        val = val.reshape(shape)
    mon.check(val.shape == shape, "one radiance per temperature, same shape", got=val.shape, want=shape, form=form)
    t = t0.astype("f8")
    mon.ctx(form=form, dtype=np.dtype(dtype).name)
    pos = np.nan_to_num((np.clip(t, -1e15, 1e15) - float(tb[0])) / res)
    slack = (np.clip(np.abs(np.nan_to_num(t, posinf=1e15, neginf=1e15)), 0, 1e15) / res + 1) * (
        4e-15 if dtype == np.float64 else 3e-7) * 4
    slack = np.minimum(slack, 1e9)
    last = rad.size - 1
    # 360 K may or may not be a step, depending on rounding of the range
    lo = np.clip(np.floor(pos - slack), 0, last).astype(int)
    hi = np.clip(np.floor(pos + slack), 0, last).astype(int)
    bad = np.isnan(t)
    mon.check(np.array_equal(np.isnan(val), bad), "NaN exactly where the temperature is NaN", temps=t, got=val)
    rtol = 1e-14 if dtype == np.float64 else 1e-6
    ok = bad.copy()
    span = int(np.max(hi - lo)) if hi.size else 0
    for k in range(span + 1):
        want = rad[np.minimum(lo + k, hi)]
        with np.errstate(invalid="ignore"):
            ok |= np.abs(val - want) <= rtol * want
    mon.check(np.all(ok), "lookup is the table value of the step at or just below", n_bad=int(np.sum(~ok)),
              temps=t[~ok][:5] if t.ndim else t, got=val[~ok][:5] if t.ndim else val,
              want=rad[lo[~ok][:5]] if t.ndim else rad[lo])
    mon.ev("lookups", t.size)
    mon.ev("nan", int(bad.sum()))
    mon.ev("outside", int(np.sum((t < 150) | (t > 360))))
    mon.ev("steps_hit", int(np.sum(lo != hi)))
    if dtype == np.float32:
        mon.ev("single_precision", t.size)
