"""Try a planted bug: python3 tools/seed.py ID [ID ...] [--check] [--all-checks]

In a scratch copy of /repo: the patch applies, changes original lines, the stable tests pass,
demo.sh tells the two trees apart, and (--check) the property's own quick check reports it.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
BASE = json.loads(Path("/opt/vp/BASELINE.json").read_text())


def sh(cmd, cwd, timeout=900, env=None):
    res = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env)
    return res.returncode, res.stdout + res.stderr


def demo(folder, tree):
    lay = tempfile.mkdtemp(prefix="seed_demo_")
    shutil.copytree(folder, lay, dirs_exist_ok=True)
    for f in list(Path(lay).glob("*.diff")) + [Path(lay) / "meta.json"]:
        f.unlink()
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PSP_CONFIG_FILE")}
    rc, out = sh(f"bash {lay}/demo.sh", tree, 300, env)
    shutil.rmtree(lay)
    return rc, out


def attempt(sid, check=True):
    folder = VERIF / "seeded" / sid
    meta = json.loads((folder / "meta.json").read_text())
    tree = tempfile.mkdtemp(prefix=f"seed_{sid}_")
    lines = []
    try:
        shutil.copytree(REPO, tree, dirs_exist_ok=True, ignore=shutil.ignore_patterns("__pycache__"))
        rc, out = demo(folder, tree)
        lines.append(f"demo unchanged rc={rc}" + ("" if rc == 0 else " BAD " + out[-600:]))
        rc, out = sh(f"git apply {folder}/patch.diff", tree)
        if rc:
            return sid, [f"BAD patch: {out}"]
        removed = [l[1:] for l in (folder / "patch.diff").read_text().splitlines()
                   if l.startswith("-") and not l.startswith("---")]
        orig = set()
        files = sh("git diff --name-only", tree)[1].split()
        for f in files:
            orig |= set(sh(f"git show 69de6bd:{f}", REPO)[1].splitlines())
        n = sum(l in orig and l.strip() != "" for l in removed)
        lines.append(f"{n} of {len(removed)} changed lines original" + ("" if n else " BAD"))
        test = ("export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg; "
                "unset PSP_CONFIG_FILE PYTHONPATH; w=$(mktemp -d); export XDG_DATA_HOME=$w/data MPLCONFIGDIR=$w/mpl; "
                "python -m pytest -q -p no:cacheprovider --basetemp=$w/pt --timeout=300 -o junit_family=xunit2 "
                "--junitxml=$w/j.xml pyspectral/tests > $w/log; tail -4 $w/log; "
                "python -c 'import pyspectral; print(pyspectral.__file__)'; "
                f"/usr/bin/python3 /opt/vp/results.py {tree}/out.json junit:$w/j.xml; rm -rf $w")
        rc, out = sh(test, tree)
        assert tree in out, out
        res = json.loads(Path(tree, "out.json").read_text())
        os.remove(os.path.join(tree, "out.json"))
        passed = set(res.get("passed", res.get("pass", [])))
        stable = set(BASE.get("stable", BASE.get("passed", BASE.get("pass", []))))
        missing = stable - passed
        lines.append(f"tests: {len(stable)} stable, missing {sorted(missing)[:4]}" + (" BAD" if missing or not stable else ""))
        rc, out = demo(folder, tree)
        lines.append(f"demo patched rc={rc}" + (" BAD" if rc == 0 else "") + " | " + out.strip()[-200:].replace("\n", " / "))
        if check:
            pid = meta["property"]
            env = dict(os.environ, VP_REPO=tree, VP_EVIDENCE=tree + "/.ev", VERIF_SEED="1", VP_WORKERS="4")
            rc, out = sh(f"{VERIF}/check {pid} quick", VERIF, 900, env)
            hit = rc == 1 and f"VIOLATION property={pid}" in out
            lines.append(f"check {pid}: rc={rc} " + ("CAUGHT " if hit else "MISSED ") + out.strip()[:300].replace("\n", " / "))
    finally:
        shutil.rmtree(tree, ignore_errors=True)
    return sid, lines


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(p.name for p in (VERIF / "seeded").iterdir())
    with ThreadPoolExecutor(4) as pool:
        for sid, lines in pool.map(lambda i: attempt(i, "--check" in sys.argv), ids):
            bad = any("BAD" in l for l in lines)
            print(("XX " if bad else "ok ") + sid)
            for line in lines:
                print("    " + line)
            sys.stdout.flush()
