#!/usr/bin/env python3
"""Development aid: run N seeds in parallel without stopping, print violation classes.
usage: survey.py PROP N [SCENARIO] [SEED]"""
import collections
import json
import os
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from sim import env  # noqa: E402

if len(sys.argv) > 1 and sys.argv[1] == "--slice":
    prop, n, only, seed, w, W = sys.argv[2], int(sys.argv[3]), sys.argv[4], int(sys.argv[5]), int(sys.argv[6]), int(sys.argv[7])
    from sim.worker import Ctx, derive, execute, load, scenario_for

    mod = load(prop)
    out = []
    for i in range(w, n, W):
        name = scenario_for(mod, i) if only == "-" else only
        ctx = Ctx(seed=derive(seed, prop, i))
        t0 = time.time()
        r = execute(mod, name, ctx)
        bad = r[0] in ("violation", "error")
        out.append([i, name, r[0], r[1], str(r[2])[-1500:] if bad else "", ctx.faults, ctx.probes, time.time() - t0,
                    [f"{l}={v}" for l, v in ctx.decisions][:70] if bad else []])
    print("@@" + json.dumps(out, default=str))
    sys.exit(0)

prop, n = sys.argv[1], int(sys.argv[2])
only = sys.argv[3] if len(sys.argv) > 3 else "-"
seed = sys.argv[4] if len(sys.argv) > 4 else "1"
W = int(os.environ.get("VERIF_WORKERS", "8"))
ps = [subprocess.Popen([env.PYTHON, __file__, "--slice", prop, str(n), only, seed, str(w), str(W)], env=env.child_env(),
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True) for w in range(W)]
rows = []
for p in ps:
    o, e = p.communicate()
    got = [l for l in o.splitlines() if l.startswith("@@")]
    if not got:
        print(e[-3000:])
        continue
    rows += json.loads(got[0][2:])
rows.sort()
c = collections.Counter((r[1], r[2], r[3]) for r in rows)
shown = collections.Counter()
F, P = collections.Counter(), collections.Counter()
for r in rows:
    F.update(r[5]), P.update(r[6])
    if r[4]:
        shown[r[3]] += 1
        if shown[r[3]] <= int(os.environ.get("SHOW", "1")):
            print("---", r[0], r[3]), print(r[4]), print(" ".join(r[8]))
for k, v in sorted(c.items(), key=str):
    print(v, k)
print(dict(F), dict(P))
T = collections.defaultdict(list)
for r in rows:
    T[r[1]].append(r[7])
print({k: (len(v), round(sum(v) / len(v), 3), round(max(v), 2)) for k, v in T.items()})
print("cpu s", round(sum(r[7] for r in rows), 1), "max", round(max(r[7] for r in rows), 2), "mean", round(sum(r[7] for r in rows) / len(rows), 4))
