"""Determinism proof: the event-log hash of every run must not depend on worker count, order, hash seed or process.

usage: determinism.py N [PROP...]    (VERIF_REPO selects the tree)
"""
import concurrent.futures as cf
import json
import os
import random
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import env  # noqa: E402
from sim.meta import META  # noqa: E402


def job(args):
    prop, idx, hashseed = args
    d = tempfile.mkdtemp(prefix="verif-det-")
    try:
        jin, jout = os.path.join(d, "in"), os.path.join(d, "out")
        json.dump(dict(kind="hashes", prop=prop, indices=idx, seed=1, tier="quick"), open(jin, "w"))
        e = env.child_env(d)
        e["PYTHONHASHSEED"] = str(hashseed)
        subprocess.run([env.PYTHON, "-m", "sim.worker", jin, jout], cwd=HERE, env=e, check=True, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        return json.load(open(jout))
    finally:
        import shutil
        shutil.rmtree(d, True)


def main():
    n = int(sys.argv[1])
    props = sys.argv[2:] or sorted(META)
    bad = 0
    for prop in props:
        idx = list(range(n))
        layouts = []
        rng = random.Random(prop)
        for workers, hs in ((2, 0), (5, 17), (8, 4242)):
            order = idx[:]
            if workers != 2:
                rng.shuffle(order)
            layouts.append([(prop, order[w::workers], hs + w) for w in range(workers)])
        res = []
        with cf.ThreadPoolExecutor(8) as ex:
            for lay in layouts:
                got = {}
                for part in ex.map(job, lay):
                    for i, status, cls, h in part:
                        got[i] = (status, cls, h)
                res.append(got)
        diff = [i for i in idx if len({r[i] for r in res}) != 1]
        bad += len(diff)
        print(prop, "runs", n, "x", len(layouts), "divergent", len(diff), diff[:10], flush=True)
        for i in diff[:3]:
            print("   ", i, [r[i] for r in res])
    return bool(bad)


if __name__ == "__main__":
    sys.exit(main())
