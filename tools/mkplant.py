"""Helper: build /verif/seeded/<id>/ from (file, old, new) edits.  usage: see tools/plants/*.py"""
import json, os, subprocess, tempfile, shutil

S = os.environ.get("PLANT_DIR", "/verif/seeded")


def plant(id, prop, edits, needs, breaks, demo):
    d = tempfile.mkdtemp(prefix="mkplant-")
    try:
        subprocess.check_call(["git", "clone", "-q", os.environ.get("PLANT_REPO", "/repo"), d + "/r"])
        for f, old, new in edits:
            p = f"{d}/r/src/probnum/{f}"
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old))
            open(p, "w").write(s.replace(old, new))
        diff = subprocess.check_output(["git", "-C", d + "/r", "diff"], text=True)
    finally:
        shutil.rmtree(d)
    os.makedirs(f"{S}/{id}", exist_ok=True)
    open(f"{S}/{id}/patch.diff", "w").write(diff)
    open(f"{S}/{id}/demo.py", "w").write(demo.lstrip("\n"))
    open(f"{S}/{id}/demo.sh", "w").write('#!/bin/bash\nexport OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYKEOPS_VERBOSE=0 PYTHONDONTWRITEBYTECODE=1\n'
        'KEOPS_CACHE_FOLDER=$(mktemp -d); export KEOPS_CACHE_FOLDER; trap \'rm -rf "$KEOPS_CACHE_FOLDER"\' EXIT\n'
        'PYTHONPATH=/repo/src /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(f"{S}/{id}/meta.json", "w"), indent=1)
    print("planted", id)
