"""Mutation sweep over the code under test: which small changes do neither the tests nor the monitors notice?

python3 tools/mutate.py FILE [FILE ...] [--sample N] [--seed S] [--jobs J] [--out OUT.jsonl]

Every mutant lives in a scratch copy of /repo; the stable tests run first (a mutant they kill is not of interest),
then the quick checks listed for the file, until one reports.  Survivors are written to OUT for a look: each is either
equivalent (it cannot be observed), outside the claims, or a hole in a monitor.
"""
import argparse
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path
from queue import Queue

VERIF = Path(__file__).resolve().parent.parent
REPO = Path("/repo")
STABLE = json.loads(Path("/opt/vp/BASELINE.json").read_text())
CHECKS = {
    "pyspectral/blackbody.py": "P01 P02 P03 P26 P24 P10",
    "pyspectral/radiance_tb_conversion.py": "P10 P11 P12 P13 P26 P03 P24 P14",
    "pyspectral/near_infrared_reflectance.py": "P14 P15 P12 P26 P03 P24 P11",
    "pyspectral/rayleigh.py": "P16 P17 P19 P20 P05 P26 P03 P24",
    "pyspectral/rsr_reader.py": "P04 P05 P06 P07 P19 P08 P24 P23",
    "pyspectral/utils.py": "P06 P07 P08 P09 P19 P20 P05 P03 P04 P22 P24 P25",
    "pyspectral/config.py": "P18 P23 P12",
    "pyspectral/atm_correction_ir.py": "P21 P03 P24 P26",
    "pyspectral/solar.py": "P22 P24 P26 P14",
    "pyspectral/testing.py": "P23",
    "pyspectral/raw_reader.py": "P25 P09",
    "pyspectral/bandnames.py": "P06",
    "bin/plot_rsr.py": "P27",
    "bin/composite_rsr_plot.py": "P27",
    "bin/find_wavelengths_for_satpy.py": "P27",
    "bin/download_rsr.py": "P19",
    "bin/download_atm_correction_luts.py": "P19",
}
CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="],
       ast.NotEq: ["=="], ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
BIN = {ast.Add: "-", ast.Sub: "+", ast.Mult: "/", ast.Div: "*", ast.Pow: "*", ast.BitAnd: "|", ast.BitOr: "&"}
STRIP = {"astype", "copy", "lower", "ravel", "replace", "strip", "expanduser", "clip", "item", "fspath", "filled",
         "resolve", "absolute", "abs", "nan_to_num", "asarray", "asanyarray", "basename", "dirname"}


class Mutator:
    def __init__(self, text):
        self.text = text
        self.starts = [0]
        for line in text.splitlines(True):
            self.starts.append(self.starts[-1] + len(line.encode()))
        self.raw = text.encode()
        self.found = []

    def pos(self, line, col):
        return self.starts[line - 1] + col

    def span(self, node):
        return self.pos(node.lineno, node.col_offset), self.pos(node.end_lineno, node.end_col_offset)

    def src(self, node):
        a, b = self.span(node)
        return self.raw[a:b].decode()

    def put(self, node, new, kind):
        a, b = self.span(node)
        old = self.raw[a:b].decode()
        if old != new:
            self.found.append({"kind": kind, "line": node.lineno, "a": a, "b": b, "old": old, "new": new})

    def walk(self, node, func=""):
        if isinstance(node, ast.If) and "__main__" in self.src(node.test):
            return
        if isinstance(node, (ast.FunctionDef, ast.ClassDef)):
            func = node.name
            if func.startswith("plot"):
                return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            return
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Call) and \
                self.src(node.value.func).split(".")[0] in ("LOG", "print", "logging"):
            return
        if isinstance(node, (ast.Import, ast.ImportFrom)):
            return
        if isinstance(node, ast.Raise):
            return
        self.here(node)
        for name, val in ast.iter_fields(node):
            if name in ("annotation", "returns", "type_comment"):
                continue
            for kid in (val if isinstance(val, list) else [val]):
                if isinstance(kid, ast.AST):
                    self.walk(kid, func)

    def here(self, node):
        if isinstance(node, ast.Compare) and len(node.ops) == 1:
            left, right = self.src(node.left), self.src(node.comparators[0])
            for new in CMP[type(node.ops[0])]:
                self.put(node, f"({left} {new} {right})", "compare")
        elif isinstance(node, ast.BinOp) and type(node.op) in BIN:
            left, right = self.src(node.left), self.src(node.right)
            if not isinstance(node.left, (ast.Constant, ast.JoinedStr)) or not isinstance(node.left.value, str):
                self.put(node, f"(({left}) {BIN[type(node.op)]} ({right}))", "arith")
        elif isinstance(node, ast.BoolOp):
            op = " or " if isinstance(node.op, ast.And) else " and "
            self.put(node, "(" + op.join(f"({self.src(v)})" for v in node.values) + ")", "bool")
            for v in node.values:
                self.put(node, "(" + self.src(v) + ")", "bool-drop")
        elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub, ast.Invert)):
            self.put(node, f"({self.src(node.operand)})", "unary")
        elif isinstance(node, ast.Constant):
            val = node.value
            if val is True or val is False:
                self.put(node, str(not val), "const")
            elif isinstance(val, int):
                self.put(node, str(val + 1), "const")
                if val > 0:
                    self.put(node, str(val - 1), "const")
            elif isinstance(val, float):
                self.put(node, repr(val * 1.01 if val else 0.01), "const")
            elif isinstance(val, str) and val and "{" not in val and self.src(node)[0] in "'\"":
                self.put(node, repr(val + "_x"), "string")
        elif isinstance(node, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(node, ast.While):
                self.put(node.test, "True", "cond")
            self.put(node.test, "False", "cond")
        elif isinstance(node, ast.Return) and node.value is not None:
            self.put(node, "return None", "return")
        elif isinstance(node, (ast.Assign, ast.AugAssign, ast.Expr)) or \
                isinstance(node, (ast.Continue, ast.Break)):
            self.put(node, "pass", "delete")
            if isinstance(node, ast.AugAssign):
                self.put(node, f"{self.src(node.target)} = {self.src(node.value)}", "aug")
        elif isinstance(node, ast.Call):
            if isinstance(node.func, ast.Attribute) and node.func.attr in STRIP:
                if self.src(node.func.value) in ("np", "os.path", "os", "da") and node.args:
                    self.put(node, f"({self.src(node.args[0])})", "strip")
                else:
                    self.put(node, f"({self.src(node.func.value)})", "strip")
            for kw in node.keywords:
                if kw.arg:
                    parts = [self.src(a) for a in node.args] + \
                            [self.src(k) for k in node.keywords if k is not kw]
                    self.put(node, f"{self.src(node.func)}({', '.join(parts)})", "kwdrop")
            if len(node.args) == 2 and not node.keywords and not any(isinstance(a, ast.Starred) for a in node.args):
                self.put(node, f"{self.src(node.func)}({self.src(node.args[1])}, {self.src(node.args[0])})", "argswap")
        elif isinstance(node, ast.Subscript) and isinstance(node.slice, ast.Slice):
            self.put(node, f"({self.src(node.value)})", "slice")
        elif isinstance(node, ast.ExceptHandler) and node.type is not None:
            self.put(node.type, "ZeroDivisionError", "except")

    def mutants(self):
        self.walk(ast.parse(self.text))
        good = []
        for m in self.found:
            new = (self.raw[:m["a"]] + m["new"].encode() + self.raw[m["b"]:]).decode()
            try:
                compile(new, "x", "exec")
            except (SyntaxError, ValueError):
                continue
            m["text"] = new
            good.append(m)
        return good


def sh(cmd, cwd, timeout, env):
    try:
        res = subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, timeout=timeout, env=env,
                             start_new_session=True)
        return res.returncode, res.stdout + res.stderr
    except subprocess.TimeoutExpired:
        return -9, "timeout"


def stable_ids():
    ids = STABLE.get("stable") or STABLE.get("passed") or STABLE.get("pass")
    return set(ids)


def trial(fname, m, tree, checks, workers):
    path = Path(tree, fname)
    orig = path.read_text()
    path.write_text(m["text"])
    env = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "PSP_CONFIG_FILE")}
    try:
        out = Path(tree, "out.json")
        out.unlink(missing_ok=True)
        test = ("export PATH=/opt/venv/bin:$PATH PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg; "
                "w=$(mktemp -d); export XDG_DATA_HOME=$w/data MPLCONFIGDIR=$w/mpl; "
                "timeout 120 python -m pytest -q -p no:cacheprovider --basetemp=$w/pt --timeout=60 "
                "-o junit_family=xunit2 --junitxml=$w/j.xml pyspectral/tests > $w/log 2>&1; "
                f"/usr/bin/python3 /opt/vp/results.py {tree}/out.json junit:$w/j.xml; rm -rf $w")
        if not fname.startswith("rsr_convert"):
            sh(test, tree, 200, env)
            try:
                res = json.loads(out.read_text())
                passed = set(res.get("passed", res.get("pass", [])))
            except (OSError, ValueError):
                passed = set()
            if stable_ids() - passed:
                return "tests", None
        for pid in checks:
            cenv = dict(os.environ, VP_REPO=str(tree), VP_EVIDENCE=f"{tree}/.ev", VERIF_SEED="1",
                        VP_WORKERS=str(workers), VP_FAILFAST="1")
            rc, txt = sh(f"{VERIF}/check {pid} quick", VERIF, 600, cenv)
            if rc == 1 and f"VIOLATION property={pid}" in txt:
                return pid, txt.strip().splitlines()[0][:160]
            if rc != 0:
                return f"rc{rc}-{pid}", txt.strip()[-300:]
        return "SURVIVED", None
    finally:
        path.write_text(orig)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("files", nargs="+")
    ap.add_argument("--sample", type=int, default=0)
    ap.add_argument("--seed", type=int, default=0)
    ap.add_argument("--jobs", type=int, default=4)
    ap.add_argument("--workers", type=int, default=2)
    ap.add_argument("--out", default="/tmp/mut/out.jsonl")
    ap.add_argument("--kinds", default="")
    ap.add_argument("--count", action="store_true")
    opt = ap.parse_args()
    todo = []
    rnd = random.Random(opt.seed)
    for fname in opt.files:
        ms = Mutator((REPO / fname).read_text()).mutants()
        if opt.kinds:
            ms = [m for m in ms if m["kind"] in opt.kinds.split(",")]
        if opt.sample and len(ms) > opt.sample:
            ms = rnd.sample(ms, opt.sample)
        todo += [(fname, m) for m in ms]
        print(fname, len(ms))
    if opt.count:
        return
    rnd.shuffle(todo)
    trees = Queue()
    top = tempfile.mkdtemp(prefix="mut_")
    for k in range(opt.jobs):
        shutil.copytree(REPO, f"{top}/t{k}", ignore=shutil.ignore_patterns("__pycache__", ".git"))
        trees.put(f"{top}/t{k}")

    def one(item):
        fname, m = item
        tree = trees.get()
        try:
            checks = CHECKS.get(fname, "P25").split()
            verdict, info = trial(fname, m, tree, checks, opt.workers)
        finally:
            trees.put(tree)
        rec = {k: v for k, v in m.items() if k not in ("text", "a", "b")}
        rec.update(file=fname, verdict=verdict, info=info)
        with open(opt.out, "a") as fp:
            fp.write(json.dumps(rec) + "\n")
        return verdict

    try:
        with ThreadPoolExecutor(opt.jobs) as pool:
            list(pool.map(one, todo))
    finally:
        shutil.rmtree(top, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
