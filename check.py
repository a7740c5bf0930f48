#!/usr/bin/env python3
"""Entry point of every check:  check.py C01 [--replay FILE]

exit 0: held on everything explored; exit 1 + VIOLATION line; exit 2: error of the check.
"""
import argparse
import hashlib
import json
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim import env  # noqa: E402
from sim.meta import META  # noqa: E402


def spawn(job, scratch, tag):
    jf = os.path.join(scratch, f"{tag}.job.json")
    of = os.path.join(scratch, f"{tag}.out.json")
    with open(jf, "w") as fh:
        json.dump(job, fh)
    err = open(os.path.join(scratch, f"{tag}.err"), "w")
    p = subprocess.Popen([env.PYTHON, "-m", "sim.worker", jf, of], cwd=HERE, env=env.child_env(scratch),
                         stdout=err, stderr=err)
    return p, of, os.path.join(scratch, f"{tag}.err")


def finish(p, of, ef, timeout):
    try:
        p.wait(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.wait()
        return None, "worker timed out"
    if p.returncode != 0 or not os.path.exists(of):
        return None, open(ef).read()[-4000:]
    return json.load(open(of)), None


def known_findings():
    path = os.path.join(HERE, "known_findings.jsonl")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line and not line.startswith("#") and not line.startswith("fixed:"):
                out.append(json.loads(line))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--runs", type=int, default=None)
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VERIF_WORKERS", "8")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--no-evidence", action="store_true")
    a = ap.parse_args()
    scratch = tempfile.mkdtemp(prefix=f"verif-{a.prop}-")
    try:
        return replay(a, scratch) if a.replay else explore(a, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def replay(a, scratch):
    rep = json.load(open(a.replay))
    job = dict(kind="replay", prop=rep["property"], scenario=rep["scenario"], decisions=rep["decisions"], tier=rep["tier"])
    out, err = finish(*spawn(job, scratch, "replay"), timeout=600)
    if out is None:
        print(err, file=sys.stderr)
        return 2
    print(json.dumps(out, indent=1))
    if out["status"] == "violation":
        same = out["cls"] == rep["violation"]["class"]
        print(f"VIOLATION property={rep['property']} replay={a.replay}" + ("" if same else "  (different class)"))
        return 1
    return 0 if out["status"] in ("ok", "discard") else 2


def explore(a, scratch):
    meta = META[a.prop]
    t0 = time.time()
    total = a.runs or meta["runs"][a.tier]
    cap = meta["cap"][a.tier]
    known = [k for k in known_findings() if k["property"] == a.prop]
    W = max(1, a.workers)
    procs = [spawn(dict(kind="slice", prop=a.prop, tier=a.tier, seed=a.seed, start=w, stride=W, total=total,
                        cap=cap, known=known), scratch, f"w{w}") for w in range(W)]
    results, errors, failed_early = {}, [], False
    deadline = time.time() + cap + 300
    pending = dict(enumerate(procs))
    while pending:
        for w in list(pending):
            p, of, ef = pending[w]
            if p.poll() is not None:
                out, err = finish(p, of, ef, 5)
                del pending[w]
                if out is None:
                    errors.append(err)
                else:
                    results[w] = out
                    if out.get("failure"):
                        failed_early = True
        if failed_early and pending:
            # give the other workers a moment, then stop: one violation is enough
            t_stop = time.time() + 3
            while time.time() < t_stop and any(p.poll() is None for p, _, _ in pending.values()):
                time.sleep(0.1)
            for w in list(pending):
                p, of, ef = pending.pop(w)
                if p.poll() is None:
                    p.kill()
                    p.wait()
                else:
                    out, err = finish(p, of, ef, 5)
                    if out is not None:
                        results[w] = out
        if time.time() > deadline:
            for w in list(pending):
                p, of, ef = pending.pop(w)
                p.kill()
                p.wait()
                errors.append("worker exceeded the wall limit")
        time.sleep(0.1)

    res = list(results.values())
    fails = sorted((r["failure"] for r in res if r.get("failure")), key=lambda f: f["run"])
    errors += [r["error"] for r in res if r.get("error")]
    for k in known:
        hits = sum(r["known"].get(k["class"], 0) for r in res)
        print(f"KNOWN-FINDING: property={a.prop} {k['what']} [class={k['class']} hits={hits}]")

    code = 0
    rep_path = None
    if fails:
        code, rep_path = report(a, scratch, fails)
    elif errors:
        print("ERROR of the check:\n" + "\n".join(str(e) for e in errors), file=sys.stderr)
        code = 2
    if not res:
        return 2 if code == 0 else code
    wall = time.time() - t0
    if not a.no_evidence:
        write_evidence(a, meta, res, wall, code, rep_path, total, W)
    ev = sum(r["evals"] for r in res)
    print(f"{a.prop}: {ev} simulated runs in {wall:.1f}s, exit {code}")
    return code


def report(a, scratch, fails):
    """Shrink, write the replay file, and confirm it in a fresh process."""
    for n, f in enumerate(fails[:3]):
        out, err = finish(*spawn(dict(kind="shrink", prop=a.prop, tier=a.tier, failure=f, budget=45), scratch, f"s{n}"),
                          timeout=300)
        best = dict(f)
        if out and out.get("ok"):
            best.update(decisions=out["decisions"], labels=out["labels"], events=out["events"], msg=out["msg"])
        for cand in (best, f):
            conf, err = finish(*spawn(dict(kind="replay", prop=a.prop, scenario=cand["scenario"], decisions=cand["decisions"],
                                           tier=a.tier), scratch, f"c{n}"), timeout=200)
            if conf and conf["status"] == "violation" and conf["cls"] == f["cls"]:
                os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
                tag = hashlib.sha256(json.dumps([f["cls"], cand["decisions"]]).encode()).hexdigest()[:10]
                path = os.path.join(HERE, "replays", f"{a.prop}-{tag}.json")
                with open(path, "w") as fh:
                    json.dump(dict(property=a.prop, tier=a.tier, scenario=cand["scenario"], verif_seed=a.seed, run=f["run"],
                                   run_seed=f["seed"], violation={"class": f["cls"], "message": conf["msg"]},
                                   decisions=cand["decisions"],
                                   trace=[f"{l}={v}" for l, v in zip(cand["labels"], cand["decisions"])],
                                   events=conf["events"], log_hash=conf["hash"],
                                   original_decisions=len(f["decisions"])), fh, indent=1)
                print(f"{f['cls']}: {conf['msg']}"[:3000])
                print(f"run={f['run']} seed={f['seed']} decisions {len(f['decisions'])} -> {len(cand['decisions'])}")
                print(f"VIOLATION property={a.prop} replay={path}")
                return 1, path
    print("ERROR: a violation did not replay in a fresh process: " + str(fails[0]["cls"]) + "\n" + str(fails[0]["msg"]), file=sys.stderr)
    return 2, None


def write_evidence(a, meta, res, wall, code, rep_path, total, W):
    def merge(key):
        d = {}
        for r in res:
            for k, v in r[key].items():
                d[k] = d.get(k, 0) + v
        return dict(sorted(d.items()))

    ev = sum(r["evals"] for r in res)
    hashes = set(h for r in res for h in r["hashes"])
    nontriv = set(h for r in res for h in r["nontrivial"])
    sched = set(h for r in res for h in r["sched"])
    sim_wall = max(1e-9, max(r["wall"] for r in res))
    cov = dict(
        evaluations=ev, distinct_nontrivial=len(nontriv), rule=meta["rule"],
        samples=[s for r in res for s in r["samples"]][:3],
        distinct_runs=len(hashes), distinct_interleavings=len(sched),
        interleaving_measure="distinct hashes of the recorded sequence of scheduling decisions / step outcomes",
        discarded=sum(r["discards"] for r in res), planned_runs=total, completed_all_planned=sum(r["done"] for r in res) == total,
        runs_per_hour=int(ev / sim_wall * 3600), seeds_per_hour=int(ev / sim_wall * 3600), workers=W,
        simulated_time=dict(value=round(sum(r["simtime"] for r in res), 3), unit=meta["time_unit"]),
        simulated_steps=sum(r["steps"] for r in res),
        faults_injected=merge("faults"), probes=merge("probes"), scenarios=merge("scen"),
        known_finding_hits=merge("known"), real_components=meta["real"], stubbed_components=meta["stub"],
        replay=rep_path,
    )
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{a.prop}.json"), "w") as fh:
        json.dump(dict(property=a.prop, tier=a.tier, seed=a.seed, level="exploration", coverage=cov,
                       assumptions=meta["assumptions"], wall_s=round(wall, 2), violations=1 if code == 1 else 0), fh, indent=1, default=str)


if __name__ == "__main__":
    sys.exit(main())
