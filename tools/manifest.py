"""Regenerate MANIFEST.json from the suites (run with /opt/venv/bin/python, PYTHONPATH=/repo:/verif)."""
import importlib
import json
import os
from pathlib import Path

os.environ.setdefault("VP_REPO", "/repo")
here = Path(__file__).resolve().parent.parent
TECH = {
    "P01": "differential runtime oracle: extended-precision Planck law over generated inputs",
    "P02": "round-trip and extended-precision inverse-Planck oracle over generated inputs",
    "P03": "dask scheduler monitor (refuses early compute, observes block touches, shuffles task order) with in-memory oracle",
    "P04": "read-back monitor of generated HDF5 files against what was stored",
    "P05": "file-selection monitor (audit hook on opened files) against a fixed platform/instrument table",
    "P06": "exhaustive alias plus generated wavelength-search monitor against table and brute-force oracle",
    "P07": "pairing monitor on converted samples against independent arithmetic",
    "P08": "definition oracles on generated response curves",
    "P09": "write/read-back monitor of converted files",
    "P10": "independent band-integration oracle, monotonicity and inversion monitors",
    "P11": "table and lookup oracle at and around every step boundary",
    "P12": "file-operation audit, concurrent processes with delays, kill at every line of the writer; fresh-cache oracle",
    "P13": "published-coefficient oracle over all satellites, bands and aliases",
    "P14": "per-pixel formula and mask oracle on hostile scenes",
    "P15": "consistency monitor between reflectance and emissive part over call histories",
    "P16": "independent multilinear-interpolation oracle on generated tables",
    "P17": "range, relaxation and reduction invariants monitored on generated scenes",
    "P18": "configuration monitor over file/environment histories and threads",
    "P19": "network and file-operation monitor (every request and file change observed) against a decision oracle",
    "P20": "fault injection: cut or corrupt transfer at any byte, failing file operation n, full disk, kill at line n, hostile archives",
    "P21": "formula oracle on plain, masked and lazy arrays with input fingerprints",
    "P22": "fine-grid integration oracle and scaling-law monitors",
    "P23": "environment/file/network monitor around nested managers, exceptions and failing entry operations",
    "P24": "argument and result fingerprints over histories and delayed threads",
    "P25": "conversion monitor: generated and shipped agency files against what they contain",
    "P27": "figure and output monitor of the command-line tools against the stored responses",
    "P28": "strict log-record monitor and level-independence oracle over operations, situations and helper histories",
    "P29": "process-state monitor (descriptors, threads, temporary files, settings, memory) around operations and failures",
    "P26": "type monitor on declared, block and computed results in mixed precisions",
}
NOTE = {
    "exploration": "The real code of the working tree is run on seeded random and boundary workloads; every execution is judged by an "
                   "independent oracle. Held on everything explored, no claim beyond it. ",
    "fault_enumeration": "The real code of the working tree is run with faults injected at enumerated or sampled points (n-th file "
                         "operation, byte of the transfer, executed line); every execution is judged by an oracle on the observed state. ",
}
checks, na = [], []
for line in (here / "properties.jsonl").read_text().splitlines():
    pid = json.loads(line)["id"]
    try:
        suite = importlib.import_module(f"vp.props.{pid.lower()}").SUITE
    except ModuleNotFoundError:
        na.append({"property": pid, "reason": "Its monitor is not finished."})
        continue
    checks.append({"property": pid, "quick_cmd": f"./check {pid} quick", "thorough_cmd": f"./check {pid} thorough",
                   "evidence_file": f"evidence/{pid}.json", "technique": TECH[pid], "level": suite.level,
                   "level_note": NOTE[suite.level] + "Assumes: " + (" ".join(suite.assumptions) or "nothing further.")})
(here / "MANIFEST.json").write_text(json.dumps({
    "version": 1, "setup_cmd": "/opt/venv/bin/python -m compileall -q vp >/dev/null; true", "checks": checks, "not_applicable": na,
    "notes": "No hooks in /repo: the monitors use the interpreter's own audit hooks and sys.monitoring. ./check ID [quick|thorough] "
             "[--replay FILE]; VERIF_SEED selects the cases."}, indent=1) + "\n")
