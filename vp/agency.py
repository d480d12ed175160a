"""Original agency files of spectral responses, as the conversion scripts read them.

Every source knows its script, the platforms the script converts when it is run, and
for each platform how to write the original file(s): it returns the section(s) of the
configuration, what has to be in the converted file - computed here from the
text/cells that were written, never by the script - and the file each band comes from.
"""
import os

import numpy as np

from vp import tables, xls


class Made:
    """Original files of one platform."""

    def __init__(self, conf, expected, files, cls=None):
        self.conf = conf            # {section: options}
        self.expected = expected    # {band: {det: (wavelength, response)} or (wavelength, response)}
        self.files = files          # {band: path}


def _num(rng, val):
    """The text of a number, in one of several notations."""
    return [f"{val:.7g}", f"{val:.9f}", f"{val:.6e}", f"{val:12.7f}"][int(rng.integers(4))]


def samples(rng, unit=1.0, n=None, lo=0.4, hi=13.0, level=1.0, floor=0.01):
    """Ascending wavelengths (micrometre/unit) and responses, both exact in their texts."""
    n = int(n or rng.integers(3, 40))
    centre = float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    steps = rng.uniform(0.5, 1.5, n)
    wvl = centre * (1 + 0.05 * (np.cumsum(steps) / steps.sum() - 0.5)) / unit
    x = np.linspace(-1, 1, n)
    resp = np.maximum(np.exp(-(2 * x + rng.uniform(-.4, .4)) ** 2) * rng.uniform(0.6, 1, n), floor)
    if rng.integers(2):
        resp = resp / resp.max()
    if floor == 0:      # negligible responses, around the band and within
        resp[rng.random(n) < 0.25] = float(rng.choice([0.0, 0.0004, 0.0008]))
        resp[n // 2 - 1:n // 2 + 1] = 0.9
        if n > 300:     # a narrow band in a long table
            resp[:n // 2 - 1] = resp[n // 2 + 1:] = 0
    elif rng.integers(2):
        # valid samples without response, or measured slightly below zero
        resp[rng.random(n) < 0.2] = float(rng.choice([0.0, -0.0004, 1e-5, -0.02]))
        resp[n // 2 - 1:n // 2 + 1] = 0.9
    return wvl, resp * level


def table(rng, path, columns, header=0, sep=None, comments=False):
    """Write columns as text; returns the columns as they read."""
    sep = sep or str(rng.choice(["  ", "\t", " ", "    "]))
    lines = [f"header line {i} of the file" for i in range(header)]
    texts = [[_num(rng, v) for v in col] for col in columns]
    for row in zip(*texts):
        lines.append(sep.join(t.strip() if sep == "\t" or sep == "," else t for t in row))
    path.parent.mkdir(parents=True, exist_ok=True)
    path.write_text("\n".join(lines) + ("\n" if rng.integers(2) else ""))
    return [np.array([float(t) for t in col]) for col in texts]


def per_band_text(bands, instrument, unit=1e-3, header=0, extra=0, column=1, wavenumber=False, sep=None, post=None, level=None,
                  floor=0.01):
    """One text file per band."""
    def make(rng, root, platform):
        bnames = bands(platform) if callable(bands) else bands
        inst = instrument(platform) if callable(instrument) else instrument
        conf = {"path": str(root)}
        expected, files = {}, {}
        one_name = int(rng.integers(4))
        for i, band in enumerate(bnames):
            name = [f"srf_{band}.txt", f"SRF-CH{i:02d}.dat", f"sub dir/{band}.prn", band][one_name]
            scale = unit(platform, band) if callable(unit) else unit
            lvl = level(rng) if level else 1.0
            wvl, resp = samples(rng, 1.0 if wavenumber else scale, level=lvl, floor=floor, n=400 if rng.integers(20) == 0 else None)
            if wavenumber:
                cols = [1e4 / wvl[::-1], resp[::-1]]
            elif column == 2:
                cols = [wvl, 1e4 / wvl, resp]
            else:
                cols = [wvl, resp]
            cols += [rng.uniform(0, 1, len(wvl)) for _ in range(extra)]
            cols = table(rng, root / name, cols, header, sep)
            if wavenumber:
                wvl, resp = 1e4 / cols[0][::-1], cols[1][::-1]
            else:
                wvl, resp = cols[0] * scale, cols[column]
            if post:
                wvl, resp = post(wvl, resp)
            conf[band] = name
            expected[band] = (wvl, resp)
            files[band] = root / name
        return Made({f"{platform}-{inst}": conf}, expected, files)
    return make


def _fraction_and_cut(wvl, resp):
    """AGRI/GHI: percents become fractions, negligible responses are cut."""
    if np.any(resp > 1):
        resp = resp / 100.0
    keep = resp > 0.001
    return wvl[keep], resp[keep]


def _cut(limit):
    def post(wvl, resp):
        keep = resp > limit
        return wvl[keep], resp[keep]
    return post


def _agri_unit(platform, band):
    num = int(band[2:])
    return 1e-3 if num <= (3 if platform == "FY-4A" else 6) else 1.0


def _ch(n, first=1):
    return [f"ch{i}" for i in range(first, n + 1)]


def mersi1(rng, root, platform):
    """MERSI-1: a file per band, or two files with many columns (FY-3B)."""
    if platform != "FY-3B":
        return per_band_text(_ch(20), "mersi-1", post=_cut(0.001), floor=0.0)(rng, root, platform)
    first = ["ch1", "ch2", "ch3", "ch4", "ch8", "ch9", "ch10", "ch11", "ch12", "ch13", "ch14", "ch15", "ch16", "ch17", "ch18",
             "ch19", "ch20"]
    expected, files = {}, {}
    conf = {"path": str(root)}
    for name, bands in (("FY3B_1.txt", first), ("FY3B_2.txt", ["ch6", "ch7"])):
        n = int(rng.integers(8, 40))
        wvl = 1000 * (0.4 + np.cumsum(rng.uniform(0.001, 0.02, n)))
        resps = [np.where(rng.random(n) < .3, 0.0, rng.uniform(0.01, 1, n)) for _ in bands]
        for resp in resps:
            resp[3:5] = 0.5
        cols = table(rng, root / name, [wvl] + resps)
        for i, band in enumerate(bands):
            expected[band] = _cut(0.001)(cols[0] * 1e-3, cols[i + 1])
            conf[band] = name
            files[band] = root / name
    return Made({f"{platform}-mersi-1": conf}, expected, files)


def cocts(rng, root, platform):
    """COCTS: one file with a column for each band."""
    n = int(rng.integers(4, 40))
    wvl = 400 + np.cumsum(rng.uniform(0.5, 9, n))
    cols = table(rng, root / "cocts.txt", [wvl] + [rng.uniform(0, 1, n) for _ in range(8)])
    bands = _ch(8)
    return Made({f"{platform}-cocts": {"path": str(root), **{b: "cocts.txt" for b in bands}}},
                {b: (cols[0] * 1e-3, cols[i + 1]) for i, b in enumerate(bands)}, {b: root / "cocts.txt" for b in bands})


GOCI2 = {"L380": "B1 (380 nm)", "L412": "B2 (412 nm)", "L443": "B3 (443 nm)", "L490": "B4 (490 nm)", "L510": "B5 (510 nm)",
         "L555": "B6 (555 nm)", "L620": "B7 (620 nm)", "L660": "B8 (660 nm)", "L680": "B9 (680 nm)", "L709": "B10 (709 nm)",
         "L745": "B11 (745 nm)", "L865": "B12 (865 nm)"}
EPIC = {"B317": "T(317.5) %", "B325": "T(325) %", "B340": "T(340) %", "B388": "T(388) %", "B443": "T(443) %", "B551": "T(551) %",
        "B680": "T(680) %", "B688": "T(687.75) %", "B764": "T(764) %", "B780": "T(779.5) %"}


def goci2(rng, root, platform):
    """GOCI-2: a CSV file with pairs of columns of different lengths."""
    path = root / "GOCI-II_SRF.csv"
    order = list(GOCI2)
    if rng.integers(2):
        rng.shuffle(order)
    curves = {b: samples(rng, 1e-3, lo=.35, hi=.9, level=float(rng.choice([1.0, 0.7]))) for b in order}
    texts = {b: ([f"{v:.7g}" for v in curves[b][0]], [f"{v:.7g}" for v in curves[b][1]]) for b in order}
    n = max(len(t[0]) for t in texts.values())
    lines = [",".join(f"wavelength {GOCI2[b]} nm,{GOCI2[b]}" for b in order)]
    for i in range(n):
        lines.append(",".join(f"{texts[b][0][i]},{texts[b][1][i]}" if i < len(texts[b][0]) else "," for b in order))
    path.write_text("\n".join(lines) + "\n")
    exp = {}
    for b in GOCI2:
        wvl, resp = (np.array([float(t) for t in x]) for x in texts[b])
        exp[b] = (wvl / 1000, resp / resp.max())
    return Made({f"{platform}-goci2": {"path": str(path)}}, exp, {b: path for b in GOCI2})


def _workbook(path, sheets):
    import openpyxl
    wb = openpyxl.Workbook()
    wb.remove(wb.active)
    for name, rows in sheets:
        ws = wb.create_sheet(name)
        for row in rows:
            ws.append(row)
    wb.save(path)


def epic(rng, root, platform):
    """EPIC: a workbook with pairs of columns of different lengths."""
    path = root / "EPIC_Filters.xlsx"
    order = list(EPIC)
    if rng.integers(2):
        rng.shuffle(order)
    curves = {b: samples(rng, 1e-3, lo=.3, hi=.8, level=float(rng.choice([1.0, 60.0])), n=rng.integers(3, 15)) for b in order}
    n = max(len(c[0]) for c in curves.values())
    rows = [["EPIC"], ["filters"], ["some"], ["text"]]
    rows.append([x for b in order for x in ("nm", EPIC[b])])
    rows.append([None] * (2 * len(order)))
    for i in range(n):
        rows.append([float(c[i]) if i < len(c) else None for b in order for c in curves[b]])
    _workbook(path, [("Info", [["x"]]), ("Data", rows)])
    return Made({f"{platform}-epic": {"path": str(path)}}, {b: (curves[b][0] / 1000, curves[b][1] / curves[b][1].max()) for b in EPIC},
                {b: path for b in EPIC})


MSI = {"B01": "B1", "B02": "B2", "B03": "B3", "B04": "B4", "B05": "B5", "B06": "B6", "B07": "B7", "B08": "B8", "B8A": "B8A",
       "B09": "B9", "B10": "B10", "B11": "B11", "B12": "B12"}


def msi(rng, root, platform):
    """MSI: one sheet per satellite, a column for each band."""
    path = root / "S2.xlsx"
    sheets, exp = [], {}
    for short in ("S2A", "S2B", "S2C"):
        n = int(rng.integers(25, 60))
        wvl = np.arange(n) + float(rng.integers(400, 2000))
        cols = {}
        for band, name in MSI.items():
            resp = np.zeros(n)
            a = int(rng.integers(0, n - 4))
            b = int(rng.integers(a + 3, n + 1))
            resp[a:b] = rng.uniform(0.05, 1, b - a)
            cols[name] = resp
            if short == "S2" + platform[-1]:
                sel = slice(max(a - 2, 0), b + 2)
                exp[band] = (wvl[sel] / 1000, resp[sel])
        order = list(cols)
        rng.shuffle(order)
        rows = [["SR_WL"] + [f"{short}_SR_AV_{o}" for o in order]]
        rows += [[float(wvl[i])] + [float(cols[o][i]) for o in order] for i in range(n)]
        sheets.append((f"Spectral Responses ({short})", rows))
    _workbook(path, sheets)
    return Made({f"{platform}-msi": {"path": str(path)}}, exp, {b: path for b in MSI})


OLI = {"B1": "CoastalAerosol", "B2": "Blue", "B3": "Green", "B4": "Red", "B5": "NIR", "B6": "SWIR1", "B7": "SWIR2", "B8": "Pan",
       "B9": "Cirrus"}


def oli(rng, root, platform):
    """OLI/TIRS: a sheet for each OLI band, TIRS bands in another workbook."""
    exp, files, sheets = {}, {}, []

    def one(lo, hi):
        n = int(rng.integers(4, 20))
        wvl, resp = samples(rng, 1e-3, n=n, lo=lo, hi=hi)
        resp[rng.random(n) < .2] = 0.0005
        resp[n // 2:n // 2 + 2] = 0.9
        keep = resp > 0.002
        return wvl, resp, (wvl[keep] / 1000, resp[keep])

    order = list(OLI)
    rng.shuffle(order)
    for band in order:
        wvl, resp, exp[band] = one(.4, 2.3)
        rows = [["Wavelength", "BA RSR [watts]", "BA StDev"]] + [[float(w), float(r), 0.1] for w, r in zip(wvl, resp)]
        sheets.append((OLI[band], rows))
        files[band] = root / "oli.xlsx"
    _workbook(root / "oli.xlsx", [("Cover", [["x"]])] + sheets)
    if platform == "Landsat-8":
        n = int(rng.integers(4, 20))
        wvl, _ = samples(rng, 1e-3, n=n, lo=10, hi=12)
        resps = rng.uniform(0.01, 1, (2, n))
        rows = [["wavelength [um]", "TIRS1 10.8um band average", "TIRS2 12.0um band average"]]
        rows += [[float(w), float(a), float(b)] for w, a, b in zip(wvl, *resps)]
        _workbook(root / "tirs.xlsx", [("TIRS BA RSR", rows)])
        exp["B10"], exp["B11"] = (wvl / 1000, resps[0]), (wvl / 1000, resps[1])
    else:
        sheets = []
        for band, name in (("B10", "Band 10 Band=Average RSR"), ("B11", "Band 11 Band-Average RSR")):
            wvl, resp, exp[band] = one(10, 12)
            sheets.append((f"TIRS Band {band[1:]} BA RSR", [["wavelength [um]", name]] + [[float(w), float(r)] for w, r in zip(wvl, resp)]))
        _workbook(root / "tirs.xlsx", sheets)
    files["B10"] = files["B11"] = root / "tirs.xlsx"
    return Made({f"{platform}-oli_tirs": {"path": str(root), "oli": "oli.xlsx", "tirs": "tirs.xlsx"}}, exp, files)


def msu_gsa(rng, root, platform):
    """MSU-GS/A: two instruments, as detectors, sharing the wavelengths."""
    path = root / "msugsa.xlsx"
    bands = {"vis": ["ch1", "ch2", "ch3"], "IR": ["ch4", "ch5", "ch6", "ch7", "ch8", "ch9", "ch10"]}
    exp, sheets = {}, []
    wvls = {"vis": samples(rng, n=rng.integers(4, 20), lo=.4, hi=.9)[0], "IR": samples(rng, n=rng.integers(4, 20), lo=3, hi=12)[0]}
    for det in (1, 2):
        for kind, chans in bands.items():
            wvl = wvls[kind]
            resp = {c: rng.uniform(0.01, 1, len(wvl)) for c in chans}
            rows = [["MSU"], ["text"], ["wl"] + chans]
            rows += [[float(w)] + [float(resp[c][i]) for c in chans] for i, w in enumerate(wvl)]
            sheets.append((f"MSU-{det} {kind}", rows))
            for c in chans:
                exp.setdefault(c, {})[f"det-{det}"] = (wvl, resp[c])
    rng.shuffle(sheets)
    _workbook(path, [(n, r) for n, r in sheets])
    exp = {b: exp[b] for b in _ch(10)}
    return Made({f"{platform}-msu-gsa": {"path": str(path)}}, exp, {b: path for b in exp})


def aatsr(rng, root, platform):
    """AATSR: sheets with both numbers in one cell."""
    path = root / "consolidatedsrfs.xls"
    bands = ["ir12", "ir11", "ir37", "v16", "v870", "v659", "v555"]
    exp, sheets = {}, [("Notes", {(0, 0): "text"})]
    for band in bands:
        wvl, resp = samples(rng, n=255 if rng.integers(6) == 0 else None)    # the sheets have room for 255
        cells = {(i, 0): f"header {i}" for i in range(3)}
        tw, tr = [_num(rng, v) for v in wvl], [_num(rng, v) for v in resp]
        cells.update({(i + 3, 0): f"{a}  {b}" for i, (a, b) in enumerate(zip(tw, tr))})
        sheets.append((("aatsr_" + band) + (" " if rng.integers(2) else ""), cells))
        exp[band] = (np.array([float(t) for t in tw]), np.array([float(t) for t in tr]))
    rng.shuffle(sheets)
    xls.write(path, [(n, c) for n, c in sheets])
    return Made({f"{platform}-aatsr": {"path": str(path)}}, exp, {b: path for b in bands})


def ahi(rng, root, platform):
    """AHI: one sheet per band."""
    path = root / "AHI.xls"
    exp, sheets = {}, []
    full = int(rng.integers(1, 50))
    for i in range(1, 17):
        wvl, resp = samples(rng, n=5448 if i == full else None)     # the sheets have room for 5448
        cells = {(r, 0): f"header {r}" for r in range(5)}
        for k, (w, r) in enumerate(zip(wvl, resp)):
            cells.update({(k + 5, 0): w, (k + 5, 1): 1e4 / w, (k + 5, 2): r, (k + 5, 3): 0.5})
        sheets.append((f"Band {i}", cells))
        exp[f"ch{i}"] = (wvl, resp)
    rng.shuffle(sheets)
    xls.write(path, [("Title", {(0, 0): "AHI"})] + [(n, c) for n, c in sheets])
    return Made({f"{platform}-ahi": {"path": str(path)}}, exp, {b: path for b in exp})


AVHRR1 = {"TIROS-N": "A101", "NOAA-6": "A102", "NOAA-8": "A103", "NOAA-10": "A104"}


def avhrr1(rng, root):
    """AVHRR/1: all satellites in one workbook, in Angstrom or nanometres."""
    path = root / "AVHRR1_SRF_only.xls"
    sheets, exp = [], {}
    for sat, code in AVHRR1.items():
        exp[sat] = {}
        for ch in range(1, 5):
            unit, scale = [("nm", 1e-3), ("Å", 1e-4)][int(rng.integers(2))]
            wvl, resp = samples(rng, scale, lo=0.9)
            cells = {(0, 0): f"# {sat}", (1, 0): f"Wavelength ({unit})", (0, 1): "x", (1, 1): "Response"}
            for k, (w, r) in enumerate(zip(wvl, resp)):
                cells.update({(k + 2, 0): w, (k + 2, 1): r})
            for k in range(int(rng.integers(3))):
                cells[(len(wvl) + 2 + k, 0)] = "a comment"
            sheets.append((f"{code}C00{ch}", cells))
            exp[sat][f"ch{ch}"] = (wvl * scale, resp)
    rng.shuffle(sheets)
    sheets = [(n, c) for n, c in sheets]
    sheets.insert(int(rng.integers(len(sheets) + 1)), ("Kleespies Data", {(0, 0): "text"}))
    xls.write(path, sheets)
    return path, exp


SEVIRI_BANDS = ["HRV", "VIS0.6", "VIS0.8", "NIR1.6", "IR3.9", "IR6.2", "IR7.3", "IR8.7", "IR9.7", "IR10.8", "IR12.0", "IR13.4"]
SEVIRI_SATS = ["Meteosat-8", "Meteosat-9", "Meteosat-10", "Meteosat-11"]


def seviri(rng, root):
    """SEVIRI: the layout of EUMETSAT's workbook."""
    path = root / "seviri.xls"
    sheets = [("Info", {(0, 0): "text"}), ("Requirements", {(0, 0): "text"})]
    exp = {s: {} for s in SEVIRI_SATS}
    for band in SEVIRI_BANDS:
        wvl, _ = samples(rng, n=101)
        cells = {(3, 0): "some text"}
        if band == "HRV":
            first, cols, ncols = 36, [1, 3, 5, 6], 8
        elif band.startswith("IR"):
            first, cols, ncols = 12, [1, 3, 5, 7], 9
        else:
            first, cols, ncols = 11, [1, 2, 3, 4], 5
        vals = rng.uniform(0, 1, (101, ncols))
        for i in range(101):
            cells[(first + i, 0)] = wvl[i]
            cells.update({(first + i, c): vals[i, c] for c in range(1, ncols)})
        if band == "HRV":       # the extended curves
            step = wvl[1] - wvl[0]
            for r in list(range(11, 36)) + list(range(137, 160)):
                cells[(r, 0)] = wvl[0] + step * (r - 36)
                cells.update({(r, c): 0.01 for c in (2, 4, 5, 7)})
        sheets.append((band + (" " if rng.integers(4) == 0 else ""), cells))
        for sat, col in zip(SEVIRI_SATS, cols):
            exp[sat][band] = (wvl, vals[:, col])
    xls.write(path, sheets)
    return path, exp


def seviri_shipped(path):
    """The workbook in the package, by its layout: all rows whose cells are numbers."""
    import xlrd
    exp = {s: {} for s in SEVIRI_SATS}
    for sheet in xlrd.open_workbook(str(path)).sheets():
        band = sheet.name.strip()
        if band not in SEVIRI_BANDS:
            continue
        if band == "HRV":
            cols = [1, 3, 5, 6]
        elif band.startswith("IR"):
            cols = [1, 3, 5, 7]
        else:
            cols = [1, 2, 3, 4]
        rows = [sheet.row_values(i) for i in range(10, sheet.nrows)]
        rows = [r for r in rows if all(isinstance(r[c], float) for c in [0] + cols)]
        arr = np.array([[r[c] for c in [0] + cols] for r in rows])
        for i, sat in enumerate(SEVIRI_SATS):
            exp[sat][band] = (arr[:, 0], arr[:, i + 1])
    return exp


# --- netCDF -------------------------------------------------------------------

def fci(rng, root, platform):
    """FCI: all bands in one file."""
    from netCDF4 import Dataset
    bands = list(tables.BANDNAMES["fci"].values())
    order = list(bands)
    if rng.integers(2):
        rng.shuffle(order)
    n = int(rng.integers(4, 40))
    wvl = np.stack([samples(rng, n=n)[0] for _ in order], axis=1)
    resp = rng.uniform(0.01, 1, wvl.shape)
    with Dataset(root / "fci.nc", "w") as ncf:
        ncf.createDimension("n", n)
        ncf.createDimension("c", len(order))
        ncf.createVariable("wavelength", "f8", ("n", "c"))[:] = wvl * 1e-6
        ncf.createVariable("srf", "f8", ("n", "c"))[:] = resp
        ids = ncf.createVariable("channel_id", str, ("c",))
        for i, b in enumerate(order):
            ids[i] = b
    return Made({f"{platform}-fci": {"path": str(root), "filename": "fci.nc"}},
                {b: (wvl[:, order.index(b)], resp[:, order.index(b)]) for b in bands}, {b: root / "fci.nc" for b in bands})


def olci(rng, root, platform):
    """OLCI: all bands in one file, in nanometres."""
    from netCDF4 import Dataset
    bands = [f"Oa{i:02d}" for i in range(1, 22)]
    n = int(rng.integers(4, 40))
    wvl = np.stack([samples(rng, 1e-3, n=n, lo=.4, hi=1.0)[0] for _ in bands])
    resp = rng.uniform(0.01, 1, wvl.shape)
    resp[rng.random(resp.shape) < 0.1 * rng.integers(3)] = float(rng.choice([0.0, -0.01, 1e-6]))
    resp[:, n // 2] = 0.9
    with Dataset(root / "olci.nc4", "w") as ncf:
        ncf.createDimension("b", 21)
        ncf.createDimension("n", n)
        ncf.createVariable("mean_spectral_response_function_wavelength", "f8", ("b", "n"))[:] = wvl
        ncf.createVariable("mean_spectral_response_function", "f8", ("b", "n"))[:] = resp
    return Made({f"{platform}-olci": {"path": str(root / "olci.nc4")}},
                {b: (wvl[i] * 1e-3, resp[i]) for i, b in enumerate(bands)}, {b: root / "olci.nc4" for b in bands})


def slstr(rng, root, platform):
    """SLSTR: a file per band."""
    from netCDF4 import Dataset
    conf, exp, files = {"path": str(root)}, {}, {}
    for i in range(1, 10):
        wvl, resp = samples(rng)
        name = f"SLSTR_S{i}.nc"
        with Dataset(root / name, "w") as ncf:
            ncf.createDimension("n", len(wvl))
            ncf.createVariable("wavelength", "f8", ("n",))[:] = wvl
            ncf.createVariable("response", "f8", ("n",))[:] = resp
        conf[f"ch{i}"] = name
        exp[f"ch{i}"] = (wvl, resp)
        files[f"ch{i}"] = root / name
    return Made({f"{platform}-slstr": conf}, exp, files)


def metimage(rng, root, platform):
    """METimage: groups for the wavelength ranges; unsorted, with duplicates; normalised."""
    from netCDF4 import Dataset
    exp = {}
    path = root / "EPS-SGA1_METIMAGE_SRF.nc"
    with Dataset(path, "w") as ncf:
        for alias, band in tables.BANDNAMES["VII"].items():
            nm = int(alias.split("_")[1])
            group = "LVWIR" if nm > 6000 else "SMWIR" if nm > 1000 else "VISNIR"
            grp = ncf.groups.get(group) or ncf.createGroup(group)
            wvl, resp = samples(rng, lo=nm * 1e-3, hi=nm * 1e-3 * 1.0001, level=float(rng.choice([1.0, 0.4])))
            wvl, resp = shuffled(rng, wvl, resp)
            grp.createDimension(f"n{nm}", len(wvl))
            if "two" not in grp.dimensions:
                grp.createDimension("two", 2)
            grp.createVariable(alias.replace("vii", "ISRF_cw"), "f8", (f"n{nm}", "two"))[:] = np.stack([wvl, resp], axis=1)
            exp[band] = {"det-1": (wvl, resp / resp.max())}
    return Made({f"{platform}-metimage": {"path": str(path)}}, exp, {b: path for b in exp})


def shuffled(rng, wvl, resp):
    """The same samples in another order, some of them repeated."""
    kind = int(rng.integers(4))
    if kind == 0:
        return wvl, resp
    if kind == 1:
        return wvl[::-1].copy(), resp[::-1].copy()
    idx = np.r_[np.arange(len(wvl)), rng.integers(0, len(wvl), int(rng.integers(1, 4)))]
    resp = np.r_[resp, rng.uniform(0.01, 0.5, len(idx) - len(wvl))]
    wvl = wvl[idx]
    if kind == 3:
        order = rng.permutation(len(idx))
        wvl, resp = wvl[order], resp[order]
    return wvl, resp


# --- several detectors in text files ---------------------------------------------

VIIRS_BANDS = [f"M{i}" for i in range(1, 17)] + [f"I{i}" for i in range(1, 6)] + ["DNB"]


def viirs(rng, root, platform):
    """VIIRS: detector by detector, in sections of files."""
    exp, files = {}, {}
    conf = {"rootdir": str(root), "tb2rad_lut_filename": "unused.npz"}
    nsec = int(rng.integers(1, 5))
    member = {b: int(rng.integers(nsec)) for b in VIIRS_BANDS}
    for s in range(nsec):
        bands = [b for b in VIIRS_BANDS if member[b] == s]
        if bands:
            conf[f"section{s + 1}"] = {"filename": f"part{s}/VIIRS_{{bandname}}_V{s}.txt", "bands": bands}
    for band in VIIRS_BANDS:
        ndet = int(rng.choice([1, 1, 2, 3]))
        wvl0, _ = samples(rng, 1e-3, n=rng.integers(3, 14))
        same = bool(rng.integers(2))
        five = platform == "Suomi-NPP" and bool(rng.integers(2))
        rows, exp[band] = [], {}
        for det in range(1, ndet + 1):
            n = len(wvl0) if same or rng.integers(2) else int(rng.integers(3, 14))
            wvl = wvl0 if same else samples(rng, 1e-3, n=n)[0]
            resp = rng.uniform(0.01, 1, len(wvl))
            wvl, resp = shuffled(rng, wvl, resp)
            tw, tr = [f"{v:.7g}" for v in wvl], [f"{v:.7g}" for v in resp]
            exp[band][f"det-{det}"] = (np.array([float(t) for t in tw]) * 1e-3, np.array([float(t) for t in tr]))
            for k, (w, r) in enumerate(zip(tw, tr)):
                if five:
                    rows.append(f"{band} {det} 1 {w} {r}")
                elif platform == "Suomi-NPP":
                    rows.append(f"{band} {det} {1 + k % 2} {w} 99.5 0.123 {r} 0 1")
                else:
                    rows.append(f"{band} {det} {1 + k % 2} {w} {r} 55.0 4.5 0 101")
        path = root / f"part{member[band]}" / f"VIIRS_{band}_V{member[band]}.txt"
        path.parent.mkdir(parents=True, exist_ok=True)
        head = [f"% header {i}" for i in range(int(rng.integers(0, 5)))]
        path.write_text("\n".join(head + rows) + "\n")
        files[band] = path
    return Made({f"{platform}-viirs": conf}, exp, files)


def modis_name(platform, num):
    """File name of a MODIS band."""
    if platform == "EOS-Terra":
        return f"rsr.{num}.inb.final"
    return f"{num:02d}.{'tv' if num in (5, 6, 7) or num >= 20 else 'amb'}.1pct.det"


def modis_scale(platform, num):
    """Unit of a MODIS file in micrometres."""
    return 1e-3 if platform == "EOS-Aqua" or num < 20 or num == 26 else 1.0


def modis_parse(platform, num, text):
    """What a MODIS file says: {det: (wavelength, response)}."""
    res = {}
    for line in text.splitlines():
        if line.startswith("#"):
            continue
        _, det, wvl, resp = line.split()
        if float(resp) == -99.0:
            continue
        res.setdefault(f"det-{int(det)}", []).append((float(wvl) * modis_scale(platform, num), float(resp)))
    return {d: (np.array([a for a, _ in v]), np.array([b for _, b in v])) for d, v in res.items()}


def modis(rng, root, platform):
    """MODIS: detectors in any order, samples without data, repeated and unordered wavelengths."""
    exp, files = {}, {}
    for num in range(1, 37):
        scale = modis_scale(platform, num)
        wvl0, _ = samples(rng, scale, n=rng.integers(3, 14))
        same = bool(rng.integers(2))
        rows = []
        for det in range(1, int(rng.integers(1, 5)) + 1):
            wvl = wvl0 if same else samples(rng, scale, n=rng.integers(3, 14))[0]
            resp = rng.uniform(0.01, 1, len(wvl))
            # valid, though not positive
            resp[rng.random(len(wvl)) < 0.15] = rng.choice([0.0, -0.002, -98.5])
            wvl, resp = shuffled(rng, wvl, resp)
            mine = [f"{num:3d} {det:4d} {w:.7g} {r:.7g}" for w, r in zip(wvl, resp)]
            if rng.integers(3) == 0:
                for _ in range(int(rng.integers(1, 4))):
                    mine.insert(int(rng.integers(len(mine) + 1)), f"{num} {det} {wvl[0] * 1.01:.7g} {rng.choice(['-99.0', '-99.000000', '-99'])}")
            rows.append(mine)
        if rng.integers(2):
            rows = [r for k in range(max(map(len, rows))) for m in rows for r in m[k:k + 1]]
        else:
            rows = [r for m in rows for r in m]
        text = "\n".join(["#| header"] * int(rng.integers(1, 4)) + rows) + "\n"
        files[str(num)] = root / modis_name(platform, num)
        files[str(num)].write_text(text)
        exp[str(num)] = modis_parse(platform, num, text)
    return Made({f"{platform}-modis": {"path": str(root)}}, exp, files)


AVHRR_PLATFORMS = {"Metop-A": "avhrr/3", "Metop-B": "avhrr/3", "Metop-C": "avhrr/3", "NOAA-19": "avhrr/3", "NOAA-15": "avhrr/3",
                   "NOAA-14": "avhrr/2", "NOAA-12": "avhrr/2", "NOAA-7": "avhrr/2", "NOAA-10": "avhrr/1", "TIROS-N": "avhrr/1"}
AVHRR_BANDS = {"avhrr/3": ["ch1", "ch2", "ch3a", "ch3b", "ch4", "ch5"], "avhrr/2": _ch(5), "avhrr/1": _ch(4)}

avhrr = per_band_text(lambda p: AVHRR_BANDS[AVHRR_PLATFORMS[p]], lambda p: AVHRR_PLATFORMS[p],
                      unit=lambda p, b: 1e-3 if AVHRR_PLATFORMS[p] == "avhrr/1" else 1.0, header=1)


def _percent(rng):
    return float(rng.choice([1.0, 100.0]))


# script: (generator, instrument in the file name, platforms of the script itself, further platforms)
TO_HDF5 = {
    "abi_rsr": (per_band_text(_ch(16), "abi", unit=1.0, header=2, column=2), "abi", ["GOES-16", "GOES-17", "GOES-18", "GOES-19"], []),
    "ami_reader": (per_band_text(_ch(16), "ami", header=4, wavenumber=True), "ami", ["GEO-KOMPSAT-2A"], []),
    "msu_gs_reader": (per_band_text(_ch(10), "msu-gs", header=4, wavenumber=True), "msugs", ["Electro-L-N2"], []),
    "slstr_rsr_txt": (per_band_text(_ch(9), "slstr", header=4, wavenumber=True), "slstr",
                      ["Sentinel-3A", "Sentinel-3B", "Sentinel-3C", "Sentinel-3D"], []),
    "avhrr_rsr": (avhrr, "avhrr", ["Metop-C"], [p for p in AVHRR_PLATFORMS if p != "Metop-C"]),
    "cocts_rsr": (cocts, "cocts", ["HY-1C"], []),
    "agri_rsr": (per_band_text(lambda p: _ch(14 if p == "FY-4A" else 15), "agri", unit=_agri_unit, header=1, sep="\t",
                               post=_fraction_and_cut, level=_percent, floor=0.0), "agri", ["FY-4B"], ["FY-4A"]),
    "ghi_rsr": (per_band_text(_ch(7), "ghi", unit=_agri_unit, header=1, sep="\t", post=_fraction_and_cut, level=_percent,
                              floor=0.0), "ghi", ["FY-4B"], []),
    "mersi1_rsr": (mersi1, "mersi1", ["FY-3A", "FY-3B", "FY-3C"], []),
    "mersi2_rsr": (per_band_text(_ch(25), "mersi-2"), "mersi2", ["FY-3D"], []),
    "mersi3_rsr": (per_band_text(_ch(25), "mersi3"), "mersi3", ["FY-3F"], []),
    "mersirm_rsr": (per_band_text(_ch(8), "mersi-rm", header=1), "mersirm", ["FY-3G"], []),
    "virr_rsr": (per_band_text(lambda p: _ch(10) if p == "FY-3B" else _ch(2) + _ch(10, 6), "virr"), "virr", ["FY-3B", "FY-3C"], []),
    "goci2_rsr": (goci2, "goci2", ["GK-2B"], []),
    "epic_reader": (epic, "epic", ["DSCOVR"], []),
    "msi_reader": (msi, "msi", ["Sentinel-2A", "Sentinel-2B", "Sentinel-2C"], []),
    "oli_tirs_reader": (oli, "oli_tirs", ["Landsat-8", "Landsat-9"], []),
    "msu_gsa_reader": (msu_gsa, "msugsa", ["Arctica-M-N1"], []),
    "aatsr_reader": (aatsr, "aatsr", ["Envisat"], []),
    "fci_rsr": (fci, "fci", ["Meteosat-12", "MTG-I1"], []),
    "olci_rsr": (olci, "olci", ["Sentinel-3B"], ["Sentinel-3A"]),
    "slstr_rsr": (slstr, "slstr", ["Sentinel-3B"], ["Sentinel-3A"]),
    "ahi_reader": (ahi, "ahi", ["Himawari-8", "Himawari-9"], []),
    "metimage_rsr": (metimage, "metimage", ["Metop-SG-A1"], []),
    "viirs_rsr": (viirs, "viirs", ["NOAA-21"], ["NOAA-20", "Suomi-NPP"]),
    "modis_rsr": (modis, "modis", ["EOS-Terra", "EOS-Aqua"], []),
}
SORTING = {"metimage_rsr", "viirs_rsr", "modis_rsr"}


def file_name(script, platform):
    """Name of the converted file."""
    inst = TO_HDF5[script][1]
    if script == "avhrr_rsr":
        inst = AVHRR_PLATFORMS[platform].replace("/", "")
    return f"rsr_{inst}_{platform}.h5"


def remove(made, rng):
    """Remove the original file of one band; returns the bands that came from it."""
    bands = list(made.files)
    gone = made.files[bands[int(rng.integers(len(bands)))]]
    os.remove(gone)
    return [b for b, f in made.files.items() if f == gone]
