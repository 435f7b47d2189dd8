#!/usr/bin/env python3
"""mut.py CHECK FILE OLD NEW: run one check on a scratch copy of /repo in which OLD is replaced by NEW."""
import os, shutil, subprocess, sys, tempfile
check, file, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix="mut")
try:
    for p in ("dask-gateway", "dask-gateway-server", "resources"):
        shutil.copytree("/repo/" + p, d + "/" + p, ignore=shutil.ignore_patterns("*.egg-info", "__pycache__"))
    f = d + "/" + file
    s = open(f).read()
    old, new = old.encode().decode("unicode_escape"), new.encode().decode("unicode_escape")
    if s.count(old) < 1:
        print("NOT FOUND", file=sys.stderr); sys.exit(3)
    open(f, "w").write(s.replace(old, new, 1))
    r = subprocess.run([sys.executable, "/verif/check.py", check], env=dict(os.environ, VERIF_REPO=d, VERIF_EVIDENCE_DIR=d + "/ev"))
    print("exit", r.returncode)
finally:
    shutil.rmtree(d)
