"""P06: band lookup."""
import numpy as np

from pyspectral.rsr_reader import RelativeSpectralResponse, RSRDict
from pyspectral.utils import get_bandname_from_wavelength
from vp import data
from vp.core import Suite
from vp.tables import BANDNAMES, INSTRUMENTS

SUITE = Suite(
    "P06", "exploration",
    "A case builds a response set of an instrument with a random subset of its standard bands (plus foreign names), "
    "and queries names, aliases of all instruments, near-miss names and wavelengths at, just inside and just outside "
    "the tolerance, against a reference lookup over the documented alias tables; distinct by (instrument, bands, "
    "query signature).",
    needs=["names_found", "aliases_found", "missing_reported", "wavelength_none", "wavelength_single",
           "wavelength_several", "boundary_queries"],
    assumptions=["Wavelength tolerances up to 2 micrometre (the code never reports a band further away)."])

INSTRS = sorted(set(BANDNAMES) - {"generic", "VII"}) + ["unknown", "virr", "olci", "msi", "epic", "avhrr/1"]
ALIASES = sorted({a for t in BANDNAMES.values() for a in t} | {s for t in BANDNAMES.values() for s in t.values()})


def _ref_lookup(instr, stored, key):
    if key in stored:
        return key
    own = BANDNAMES.get(instr, {})
    if key in own:
        return own[key] if own[key] in stored else None
    gen = BANDNAMES["generic"]
    if key in gen:
        return gen[key] if gen[key] in stored else None
    return None


def _bands(rng, instr):
    table = BANDNAMES.get(instr, BANDNAMES["generic"])
    std = sorted(set(table.values()))
    k = int(rng.integers(1, min(12, len(std)) + 1))
    names = [str(x) for x in rng.choice(std, k, replace=False)]
    if rng.integers(3) == 0:
        names += [x for x in ("extra", "ch99", "Oa01") if rng.integers(2)]
    if rng.integers(2):
        # names which the generic table gives to what the instrument's own table calls otherwise
        gen = BANDNAMES["generic"]
        clash = sorted({(table[a], gen[a]) for a in table if a in gen and table[a] != gen[a]})
        for i in rng.permutation(len(clash))[:2]:
            names += [x for x in clash[i] if x not in names and rng.integers(3)]
    return names


def _make(rng, instr, names):
    res = {}
    for i, name in enumerate(names):
        cw = float(rng.uniform(0.4, 14))
        wvl = np.linspace(cw - 0.05, cw + 0.05, 5)
        res[name] = {"det-1": {"wavelength": wvl, "response": np.array([0, .5, 1, .5, 0.]),
                               "central_wavelength": cw}}
    return res


@SUITE.case(quick=1300, thorough=12000)
def names(mon, rng, scratch):
    """Names and aliases, through the dictionary and through files."""
    instr = str(rng.choice(INSTRS))
    stored = _bands(rng, instr)
    bands = _make(rng, instr, stored)
    via_file = bool(rng.integers(2))
    if via_file:
        data.use_config(scratch)
        data.write_rsr(scratch / "f.h5", bands, sensor=instr)
        obj = RelativeSpectralResponse(filename=scratch / "f.h5")
        rsr = obj.rsr
        mon.check(obj.instrument == instr, "instrument", got=obj.instrument)
    else:
        rsr = RSRDict(instr)
        rsr.update(bands)
    # another instrument's responses, used in turn
    other = RSRDict(str(rng.choice(INSTRS)))
    other.update(_make(rng, other.instrument, _bands(rng, other.instrument)))
    mon.ctx(instrument=instr, stored=stored, via_file=via_file, other=other.instrument)
    queries = list(ALIASES) + ["", "ch", "CH1", "ch01", "nothing", "Ch1", "ir_108", "VIS0.6 ", "ch37", "37", "0", "C00"]
    for name in stored:
        # look-alikes of what is there
        queries += [name.lower(), name.upper(), name + " ", " " + name, name[:-1], name + "0", "0" + name, name.swapcase(), "ch" + name,
                    name.replace("ch", ""), name.replace(".", ""), name.replace("_", "-")]
    for key in queries:
        if rng.integers(8) == 0:
            other.get(key)
            mon.check(rsr.instrument == instr, "the responses keep their instrument", got=rsr.instrument)
            mon.ev("others_used")
        want = _ref_lookup(instr, stored, key)
        sentinel = object()
        got = rsr.get(key, sentinel)
        if want is None:
            mon.check(got is sentinel, "an undefined band is reported as missing, not resolved to another", key=key)
            mon.check(rsr.get(key) is None, "the default default is None", key=key)
            mon.raises(KeyError, "item access of an undefined band raises", rsr.__getitem__, key)
            mon.ev("missing_reported")
        else:
            item = rsr[key]
            cw = bands[want]["det-1"]["central_wavelength"]
            mon.check(item["det-1"]["central_wavelength"] == cw and got["det-1"]["central_wavelength"] == cw,
                      "a name or alias gives its band, both ways of access agree", key=key, want=want,
                      got=item["det-1"]["central_wavelength"], expected=cw)
            mon.ev("names_found" if key == want else "aliases_found")
    return (instr, tuple(stored), via_file)


@SUITE.case(quick=2, thorough=2)
def whole_table(mon, rng, scratch):
    """Every alias of every instrument that flies, and of the generic table, resolves as documented."""
    flying = {i for v in INSTRUMENTS.values() for i in (v if isinstance(v, list) else [v])}
    instrs = sorted(set(BANDNAMES) | flying | {x.replace("/", "").replace("-", "") for x in flying} |
                    {x.replace("/", "-") for x in flying})
    for instr in instrs:
        table = {**BANDNAMES["generic"], **BANDNAMES.get(instr, {})} if instr != "generic" else BANDNAMES["generic"]
        names = sorted(set(table.values()))
        rsr = RSRDict(instr)
        for i, name in enumerate(names):
            rsr[name] = i
        for alias in table:
            want = _ref_lookup(instr, names, alias)
            mon.check(rsr[alias] == names.index(want), "documented alias", instrument=instr, alias=alias,
                      got=names[rsr[alias]], want=want)
            mon.ev("aliases_found")
    return "table"


def _expected(mon, instr, got, want, bands):
    """A reported name denotes the wanted band: its stored name, or the alias table's name for it."""
    table = BANDNAMES.get(instr, BANDNAMES["generic"])
    return got == want or got == table.get(want, want)


@SUITE.case(quick=1600, thorough=20000)
def wavelengths(mon, rng, scratch):
    """Search by wavelength."""
    instr = str(rng.choice(INSTRS))
    stored = _bands(rng, instr)
    bands = _make(rng, instr, stored)
    # exactly representable positions give exact boundary queries
    dyadic = bool(rng.integers(2))
    for name in stored:
        for d in list(bands[name]):
            if dyadic:
                bands[name][d]["central_wavelength"] = float(rng.integers(3, 120)) / 8
        if rng.integers(3) == 0:
            # other detectors do not count
            bands[name]["det-2"] = dict(bands[name]["det-1"], central_wavelength=float(rng.uniform(0.4, 14)))
    data.use_config(scratch)
    via = str(rng.choice(["method", "function", "function_dict", "converted"]))
    if via in ("method", "converted"):
        data.write_rsr(scratch / "f.h5", bands, sensor=instr)
        obj = RelativeSpectralResponse(filename=scratch / "f.h5")
        if via == "converted":
            obj.convert()
        ask = lambda w, **kw: obj.get_bandname_from_wavelength(w, **kw)  # noqa: E731
    else:
        rsr = RSRDict(instr) if via == "function" else {}
        rsr.update(bands)
        ask = lambda w, **kw: get_bandname_from_wavelength(instr, w, rsr, **kw)  # noqa: E731
    cws = {n: bands[n]["det-1"]["central_wavelength"] for n in stored}
    mon.ctx(instrument=instr, via=via, central=cws)
    queries = []
    for _ in range(14):
        name = stored[rng.integers(len(stored))]
        if dyadic:
            eps = float(rng.choice([0.125, 0.25, 0.5, 1.0, 1.5]))
            sgn = float(rng.choice([-1, 1]))
            w = cws[name] + sgn * eps
            which = rng.integers(4)
            if which == 0:
                queries.append((w, eps, "boundary"))
            elif which == 1:
                queries.append((w, float(np.nextafter(eps, 9)), "boundary"))
            elif which == 2:
                queries.append((float(np.nextafter(w, cws[name])), eps, "boundary"))
            else:
                queries.append((cws[name], eps, "exact"))
        else:
            eps = float(rng.choice([0.1, 0.05, 0.3, 1.0, 0.001]))
            w = cws[name] + float(rng.choice([0.0, 0.99, -0.99, 1.01, -1.01, 0.3])) * eps
            queries.append((w, eps, "near"))
    queries.append((float(rng.uniform(20, 30)), 0.1, "far"))
    queries.append((-3.0, 0.1, "far"))
    # a tolerance of nothing: no band, not even one exactly there
    queries.append((cws[stored[rng.integers(len(stored))]], 0.0, "boundary"))
    queries.append((cws[stored[0]], float(np.float32(1e-9)), "exact"))
    for w, eps, kind in queries:
        want = [n for n in stored if abs(cws[n] - w) < eps]
        kw = {} if eps == 0.1 and rng.integers(2) else {"epsilon": eps}
        if kind == "boundary":
            mon.ev("boundary_queries")
        mon.ctx(query=w, epsilon=eps)
        many = ask(w, multiple_bands=True, **kw)
        if not want:
            mon.check(many is None and ask(w, **kw) is None, "no band within the tolerance gives none", got=many)
            mon.ev("wavelength_none")
        elif len(want) == 1:
            one = ask(w, **kw)
            mon.check(isinstance(one, str) and _expected(mon, instr, one, want[0], bands),
                      "the only band within the tolerance", got=one, want=want[0])
            mon.check(many == one, "asking for several gives the unique one too", got=many)
            mon.ev("wavelength_single")
        else:
            mon.raises(AttributeError, "an ambiguous wavelength is an error", ask, w, **kw)
            mon.check(isinstance(many, list) and len(many) == len(want) and
                      all(any(_expected(mon, instr, g, x, bands) for g in many) for x in want) and
                      all(any(_expected(mon, instr, g, x, bands) for x in want) for g in many),
                      "several bands within the tolerance are all returned when requested", got=many, want=want)
            mon.ev("wavelength_several")
    return (instr, via, dyadic, tuple(sorted(cws.values())))
