"""Plant a bug: seed(id, property, edits, demo, needs, breaks). Scratch copy of /repo under /tmp; writes /verif/seeded/<id>/."""
import json
import os
import shutil
import stat
import subprocess
import sys

COPY = "/tmp/seedcopy"
SH = '''#!/bin/bash
export PYTHONPATH="$PWD/dask-gateway:$PWD/dask-gateway-server" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def seed(id, prop, edits, demo, needs, breaks, sh_text=SH, checks=None):
    if not os.path.exists(COPY):
        sh(f"cp -a /repo {COPY}")
    sh("git checkout -q -- . && git clean -fdq", cwd=COPY)
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if sh("git rev-parse HEAD", cwd=COPY).stdout.strip() != head:
        shutil.rmtree(COPY)
        sh(f"cp -a /repo {COPY}")
    d = f"/verif/seeded/{id}"
    os.makedirs(d, exist_ok=True)
    with open(d + "/demo.sh", "w") as f:
        f.write(sh_text)
    os.chmod(d + "/demo.sh", 0o755)
    if demo is not None:
        with open(d + "/demo.py", "w") as f:
            f.write(demo)
    r0 = sh(f"timeout 280 bash {d}/demo.sh", cwd=COPY)
    for file, old, new in edits:
        p = f"{COPY}/{file}"
        s = open(p).read()
        assert s.count(old) >= 1, (file, old)
        open(p, "w").write(s.replace(old, new, 1))
    diff = sh("git diff", cwd=COPY).stdout
    with open(d + "/patch.diff", "w") as f:
        f.write(diff)
    r1 = sh(f"timeout 280 bash {d}/demo.sh", cwd=COPY)
    with open(d + "/meta.json", "w") as f:
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, f, indent=1)
        f.write("\n")
    ck = []
    for c in checks or [prop]:
        r = subprocess.run([sys.executable, "/verif/check.py", c], capture_output=True, text=True, cwd="/verif",
                           env=dict(os.environ, VERIF_REPO=COPY, VERIF_EVIDENCE_DIR="/tmp/seed_ev"))
        ck.append(f"{c}:{r.returncode}")
    print(f"{id}: demo clean={r0.returncode} patched={r1.returncode} checks={' '.join(ck)}")
    if r0.returncode or not r1.returncode:
        print((r0.stdout + r0.stderr)[-800:], "----", (r1.stdout + r1.stderr)[-400:])
    sh("git checkout -q -- .", cwd=COPY)
