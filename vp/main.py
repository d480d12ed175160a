"""Run the monitors of one property: python -m vp.main P01 [--replay FILE]."""
import importlib
import json
import logging
import os
import sys
import time
import types
import warnings
from collections import Counter
from pathlib import Path


def _prepare_import():
    repo = os.environ["VP_REPO"]
    if not os.path.exists(os.path.join(repo, "pyspectral", "version.py")):
        mod = types.ModuleType("pyspectral.version")
        mod.version = mod.__version__ = "0.0.0"
        sys.modules["pyspectral.version"] = mod
    import pyspectral
    if not os.path.abspath(pyspectral.__file__).startswith(os.path.abspath(repo) + os.sep):
        print(f"ERROR: pyspectral imported from {pyspectral.__file__}, not {repo}")
        sys.exit(3)


def main():
    """Run one property's suite."""
    args = sys.argv[1:]
    pid = args[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    evdir = Path(os.environ["VP_EVIDENCE"])
    evdir.mkdir(parents=True, exist_ok=True)
    t0 = time.time()
    warnings.simplefilter("ignore")
    logging.raiseExceptions = False
    # pyspectral logs warnings and errors on purpose under hostile workloads
    logging.getLogger().addHandler(logging.NullHandler())
    _prepare_import()
    from vp import core
    mod = importlib.import_module(f"vp.props.{pid.lower()}")
    suite = mod.SUITE
    os.environ.pop("PSP_CONFIG_FILE", None)

    if "--replay" in args:
        rep = json.loads(Path(args[args.index("--replay") + 1]).read_text())
        rec = core.run_case(suite, rep["family"], rep["index"], rep["seed"], rep["tier"],
                            os.environ["VP_SCRATCH"])
        print(json.dumps(rec.get("violation"), indent=1))
        if "violation" in rec:
            print(rec["violation"]["where"])
        sys.exit(1 if "violation" in rec else 0)

    only = args[args.index("--family") + 1] if "--family" in args else None
    recs, lines, broken, planned = core.run_suite(suite, tier, seed, only)

    events, checks, distinct = Counter(), Counter(), {}
    keys = set()
    for rec in recs:
        events.update(rec["events"])
        checks.update(rec["checks"])
        for kind, vals in rec["distinct"].items():
            distinct.setdefault(kind, set()).update(vals)
        if rec.get("key") is not None:
            keys.add((rec["family"], rec["key"]))
    violations = [r for r in recs if "violation" in r]
    inconcl = [r["inconclusive"] for r in recs if "inconclusive" in r]
    known = _known_findings(pid)
    new, old = [], []
    for rec in sorted(violations, key=lambda r: (r["family"], r["index"])):
        (old if _matches(rec, known) else new).append(rec)

    per_family = Counter(r["family"] for r in recs)
    samples, seen_fam = [], set()
    for rec in recs:
        if rec.get("key") and rec["family"] not in seen_fam:
            seen_fam.add(rec["family"])
            samples.append({"family": rec["family"], "index": rec["index"], "case": rec["key"]})
    by_file = Counter(f for f, _ in lines)
    evidence = {
        "property": pid, "tier": tier, "seed": seed, "level": suite.level,
        "coverage": {
            "evaluations": len(recs),
            "distinct_nontrivial": len(keys),
            "rule": suite.rule,
            "samples": samples[:12],
            "cases_per_family": dict(per_family),
            "oracle_verdicts": int(sum(checks.values())),
            "verdicts_by_oracle": dict(checks.most_common(60)),
            "events_observed": dict(events),
            "distinct_observed": {k: len(v) for k, v in distinct.items()},
            "pyspectral_lines_executed": dict(by_file),
        },
        "assumptions": suite.assumptions,
        "wall_s": round(time.time() - t0, 2),
        "violations": len(new),
    }
    (evdir / f"{pid}.json").write_text(json.dumps(evidence, indent=1))

    for rec in old:
        print(f"KNOWN-FINDING: property={pid} {rec['violation']['what']}")
    if new:
        repdir = evdir / "replay"
        repdir.mkdir(exist_ok=True)
        for rec in new[:3]:
            path = repdir / f"{pid}-{rec['family']}-{rec['index']}-s{seed}.json"
            path.write_text(json.dumps({"property": pid, "family": rec["family"], "index": rec["index"],
                                        "seed": seed, "tier": tier, **rec["violation"]}, indent=1))
            print(f"  {rec['family']}[{rec['index']}]: {rec['violation']['what']}")
            print("  witness: " + json.dumps(rec["violation"]["witness"])[:1500])
            if "unexpected" in rec["violation"]["what"]:
                print(rec["violation"]["where"][-900:])
            print(f"VIOLATION property={pid} replay={path}")
        sys.exit(1)
    problems = list(broken) + inconcl[:3]
    if len(recs) < planned and not only:
        problems.append(f"only {len(recs)} of {planned} cases were run")
    if not only:
        problems += [f"monitor saw no '{kind}' event" for kind in suite.needs if not events.get(kind)]
    if not checks:
        problems.append("no oracle verdict at all")
    if problems:
        print("INCONCLUSIVE: " + "; ".join(problems))
        sys.exit(3)
    print(f"{pid} held: {len(recs)} executions, {len(keys)} distinct non-trivial, "
          f"{sum(checks.values())} verdicts, {evidence['wall_s']} s")
    sys.exit(0)


def _known_findings(pid):
    path = Path(os.environ["VP_HERE"]) / "known_findings.json"
    if not path.exists():
        return []
    return [f for f in json.loads(path.read_text()).get("findings", []) if f["property"] == pid]


def _matches(rec, known):
    for f in known:
        if f["family"] == rec["family"] and f["what"] == rec["violation"]["what"] and \
                all(rec["violation"]["witness"].get(k) == v for k, v in f.get("witness", {}).items()):
            return True
    return False


if __name__ == "__main__":
    main()
