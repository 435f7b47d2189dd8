#!/usr/bin/env python3
"""automut.py N SEED [FILTER]: N random mutants of the Python sources, each run through the checks that analyse the mutated
function (by the evidence of the last runs). Prints the survivors. Scratch copies only."""
import ast
import copy
import glob
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DIRS = ("dask-gateway/dask_gateway", "dask-gateway-server/dask_gateway_server")
FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)
EV = os.environ.get("EV", HERE + "/evidence")


def checks_of():
    m = {}
    for p in glob.glob(EV + "/C*.json"):
        d = json.load(open(p))
        if not isinstance(d, dict):
            continue
        for f in d["coverage"]["functions_analysed"]:
            m.setdefault(f, []).append((d["wall_s"], d["property"]))
    return {f: [c for w, c in sorted(v)] for f, v in m.items()}


def is_log(s):
    t = ast.unparse(s)
    return isinstance(s, ast.Expr) and (not isinstance(s.value, (ast.Call, ast.Await)) or ".log." in t or t.startswith(("logger.", "log.", "warnings.", "print")))


def sites(fn):
    """(description, function applying the mutation to a copy)"""
    out = []
    nodes = [x for x in ast.walk(fn)]
    for i, x in enumerate(nodes):
        for f in ("body", "orelse", "finalbody"):
            b = getattr(x, f, None)
            if isinstance(b, list):
                for j, s in enumerate(b):
                    if is_log(s) or isinstance(s, (*FUNCS, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Pass, ast.Global)):
                        continue
                    if isinstance(s, (ast.Expr, ast.AugAssign, ast.Continue, ast.Break, ast.Raise)) or isinstance(s, ast.Assign) and not isinstance(s.targets[0], ast.Name) or isinstance(s, ast.If) and not s.orelse:
                        out.append((f"delete: {ast.unparse(s)[:100]}", ("del", i, f, j)))
        if isinstance(x, (ast.If, ast.While, ast.IfExp)) and not isinstance(x.test, ast.Constant):
            out.append((f"negate: {ast.unparse(x.test)[:100]}", ("neg", i)))
        if isinstance(x, ast.Compare) and len(x.ops) == 1 and type(x.ops[0]) in (ast.Lt, ast.LtE, ast.Gt, ast.GtE):
            out.append((f"boundary: {ast.unparse(x)[:100]}", ("cmp", i)))
        if isinstance(x, ast.BoolOp):
            for j in range(len(x.values)):
                out.append((f"drop {j} of: {ast.unparse(x)[:100]}", ("drop", i, j)))
        if isinstance(x, ast.Constant) and isinstance(x.value, bool):
            out.append((f"flip: {x.value} line {x.lineno}", ("flip", i)))
        elif isinstance(x, ast.Constant) and isinstance(x.value, (int, float)):
            out.append((f"number: {x.value} line {x.lineno}", ("num", i)))
        if isinstance(x, ast.BinOp) and isinstance(x.op, (ast.Add, ast.Sub)):
            out.append((f"sign: {ast.unparse(x)[:100]}", ("sign", i)))
        if isinstance(x, ast.Call) and len(x.args) >= 2 and not is_log(ast.Expr(x)):
            out.append((f"swap args: {ast.unparse(x)[:100]}", ("swap", i)))
        if isinstance(x, ast.Call) and x.keywords and not is_log(ast.Expr(x)):
            for j in range(len(x.keywords)):
                out.append((f"drop kw {x.keywords[j].arg}: {ast.unparse(x)[:100]}", ("kw", i, j)))
        if isinstance(x, ast.Dict) and len(x.keys) > 1:
            for j in range(len(x.keys)):
                out.append((f"drop key {ast.unparse(x.keys[j]) if x.keys[j] else '**'}: {ast.unparse(x)[:80]}", ("key", i, j)))
        if isinstance(x, ast.Return) and x.value is not None and not isinstance(x.value, ast.Constant):
            out.append((f"return None: {ast.unparse(x)[:100]}", ("none", i)))
    return out


def apply(fn, m):
    x = [y for y in ast.walk(fn)][m[1]]
    k = m[0]
    if k == "del":
        b = getattr(x, m[2])
        b[m[3]] = ast.Pass()
    elif k == "neg":
        x.test = ast.UnaryOp(ast.Not(), x.test)
    elif k == "cmp":
        x.ops = [{ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt}[type(x.ops[0])]()]
    elif k == "drop":
        del x.values[m[2]]
        if len(x.values) == 1:
            x.values.append(copy.deepcopy(x.values[0]))
    elif k == "flip":
        x.value = not x.value
    elif k == "num":
        x.value = x.value + 1
    elif k == "sign":
        x.op = ast.Sub() if isinstance(x.op, ast.Add) else ast.Add()
    elif k == "swap":
        x.args[0], x.args[1] = x.args[1], x.args[0]
    elif k == "kw":
        del x.keywords[m[2]]
    elif k == "key":
        del x.keys[m[2]], x.values[m[2]]
    elif k == "none":
        x.value = ast.Constant(None)


def main():
    n, seed = int(sys.argv[1]), int(sys.argv[2])
    flt = sys.argv[3] if len(sys.argv) > 3 else ""
    by = checks_of()
    cand = []
    for d in DIRS:
        for root, _, files in os.walk("/repo/" + d):
            for f in sorted(files):
                p = os.path.join(root, f)
                if not f.endswith(".py") or f == "_version.py":
                    continue
                rel = os.path.relpath(p, "/repo")
                mod = rel.split("/", 1)[1][:-3].replace("/", ".")
                src = open(p).read()
                tree = ast.parse(src)

                def walk(node, pre):
                    for c in ast.iter_child_nodes(node):
                        if isinstance(c, ast.ClassDef):
                            walk(c, pre + "." + c.name)
                        elif isinstance(c, FUNCS):
                            q = pre + "." + c.name
                            if flt in q:
                                for desc, m in sites(c):
                                    cand.append((rel, q, c.lineno, desc, m))
                        elif isinstance(c, (ast.If, ast.Try)):
                            walk(c, pre)
                walk(tree, mod)
    random.Random(seed).shuffle(cand)
    print(len(cand), "candidates")

    def one(c):
        rel, q, line, desc, m = c
        ch = by.get(q, [])
        near = q.rsplit(".", 1)[0]
        ch = ch + sorted({k for f, ks in by.items() if f.startswith(near + ".") for k in ks} - set(ch))
        if not ch:
            return c, None, "no check"
        d = tempfile.mkdtemp(prefix="amut")
        try:
            for p in ("dask-gateway", "dask-gateway-server", "resources"):
                shutil.copytree("/repo/" + p, d + "/" + p, ignore=shutil.ignore_patterns("*.egg-info", "__pycache__"))
            tree = ast.parse(open(d + "/" + rel).read())
            fn = next(x for x in ast.walk(tree) if isinstance(x, FUNCS) and x.lineno == line and x.name == q.rsplit(".", 1)[1])
            apply(fn, m)
            open(d + "/" + rel, "w").write(ast.unparse(ast.fix_missing_locations(tree)))
            err = []
            for k in ch:
                try:
                    r = subprocess.run([sys.executable, HERE + "/check.py", k], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=d + "/ev"), capture_output=True, timeout=400).returncode
                except subprocess.TimeoutExpired:
                    r = 2
                if r == 1:
                    return c, k, ""
                if r == 2:
                    err.append(k)
            return c, None, "errors " + " ".join(err) if err else "quiet " + " ".join(ch)
        finally:
            shutil.rmtree(d)

    caught = 0
    with ThreadPoolExecutor(int(os.environ.get("P", "7"))) as ex:
        for c, k, note in ex.map(one, cand[:n]):
            if k:
                caught += 1
            else:
                print(f"SURVIVOR {c[1]}:{c[2]} | {c[3]} | {note}", flush=True)
    print("caught", caught, "of", min(n, len(cand)))


if __name__ == "__main__":
    main()
