#!/usr/bin/env python3
"""check.py PROPERTY [--replay FILE] [--runs N] [--workers N]

Runs the simulations of one property (VERIF_SEED, VERIF_TIER) against /repo's working tree.
exit 0: held on everything explored; exit 1 + "VIOLATION property=<id> replay=<path>"; anything else: harness error."""
import argparse
import collections
import concurrent.futures
import importlib.util
import json
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from sim.rng import derive  # noqa: E402
from sim import specs  # noqa: E402

PY = "/opt/venv/bin/python"


def worker_env(hashseed, spec):
    e = {k: v for k, v in os.environ.items() if k not in ("PYTHONPATH", "LD_PRELOAD", "PYTHONWARNINGS")}
    e.update(PYTHONHASHSEED=str(hashseed), SVDSUITE_SIM="1", PYTHONDONTWRITEBYTECODE="1", PYTHONPATH=HERE, TZ="UTC",
             LC_ALL="C.UTF-8", PYTHONUTF8="0")
    from sim import build
    e["LD_PRELOAD"] = build.faultfs()
    return e


def start(args, hashseed, spec):
    return subprocess.Popen([PY, "-m", "sim.worker"] + [str(a) for a in args], cwd=HERE, env=worker_env(hashseed, spec),
                            stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)


def one(args, hashseed, spec, timeout):
    p = start(args, hashseed, spec)
    try:
        out, err = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        out, err = p.communicate()
        return [json.loads(x) for x in out.decode().splitlines() if x.endswith("}")], "wall timeout", -1
    return [json.loads(x) for x in out.decode().splitlines()], err.decode(errors="replace")[-3000:], p.returncode


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--replay")
    ap.add_argument("--runs", type=int)
    ap.add_argument("--start", type=int, default=0)
    ap.add_argument("--workers", type=int)
    ap.add_argument("--digests")
    a = ap.parse_args()
    prop = a.prop
    spec = specs.SPECS[prop]
    if a.replay:
        return replay(prop, spec, a.replay)
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    runs = a.runs or spec[tier]
    workers = a.workers or min(8, os.cpu_count() or 1)
    t0 = time.monotonic()
    limit = 780 if tier == "quick" else 6 * 3600
    size = spec.get("batch", max(1, min(50, runs // 32 or 1)))
    print(f"# {prop} seed={seed} tier={tier} runs={runs} workers={workers}", flush=True)
    batches = [(b, s, min(size, a.start + runs - s)) for b, s in enumerate(range(a.start, a.start + runs, size))]

    known = [k for k in specs.known(HERE) if k.get("property") == prop and k.get("status") == "known"]
    results, errors, found = [], [], []
    hashseeds = set()

    def job(b):
        n, s, c = b
        if found or errors or time.monotonic() - t0 > limit:
            return None
        hs = derive(seed, "hash", prop, s // size) % (1 << 32)
        hashseeds.add(hs)
        out, err, rc = one(["run", prop, seed, tier, s, c], hs, spec, limit - (time.monotonic() - t0) + 60)
        for o in out:
            o["hashseed"] = hs
        bad = [o for o in out if "bad" in o]
        if bad:
            found.append(True)
        if rc != 0 or len(out) != c or any("error" in o for o in out):
            if not bad:
                errors.append((b, rc, err, [o for o in out if "error" in o][:1]))
        return out

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        for r in ex.map(job, batches):
            if r:
                results += r
    for k in known:
        out, err, rc = one(["exec", prop, os.path.join(HERE, k["replay"])], k.get("hashseed", 1), spec, 200)
        if out and out[0].get("bad") and specs.matches(k, out[0]["bad"]):
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    seen = [o for o in results if "bad" in o and any(specs.matches(k, o["bad"]) for k in known)]
    bads = [o for o in results if "bad" in o and o not in seen]
    wall = time.monotonic() - t0
    skipped = runs - len(results)
    if a.digests:
        with open(a.digests, "w") as f:
            for o in sorted(results, key=lambda o: o["i"]):
                f.write(json.dumps([o["i"], o.get("digest"), o.get("steps"), o.get("sig"), o.get("bad")]) + "\n")
    evidence(prop, spec, seed, tier, results, wall, bads, hashseeds, skipped)
    if bads:
        bads.sort(key=lambda o: o["i"])
        for k, o in enumerate(bads[:6]):
            if report(prop, spec, seed, o, last=k + 1 == len(bads[:6])):
                return 1
    if errors:
        print("HARNESS-ERROR", json.dumps(errors)[:6000])
        return 2
    if skipped:
        print(f"HARNESS-ERROR wall limit: {skipped} runs not done")
        return 2
    print(f"# {prop}: {len(results)} runs held, {wall:.1f} s")
    return 0


def report(prop, spec, seed, o, last):
    """minimise, replay in a fresh process, print; False: it did not replay (and is not the last one we try)"""
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", f"{prop}-{seed}-{o['i']}.json")
    rep = {"property": prop, "seed": seed, "run": o["i"], "hashseed": o["hashseed"], "class": o["bad"]["class"],
           "bad": o["bad"], "scenario": o["sc"], "minimised": False}

    def save():
        with open(path, "w") as f:
            json.dump(rep, f, indent=1)
    save()
    raw = json.loads(json.dumps(rep))
    if not os.environ.get("SIM_NOMIN"):
        secs = 30 if os.environ.get("VERIF_TIER", "quick") == "quick" else 240
        out, err, rc = one(["minimise", prop, path, secs], o["hashseed"], spec, secs + 200)
        if out and out[0].get("bad") and out[0]["bad"]["class"] == rep["class"]:
            rep.update(scenario=out[0]["scenario"], bad=out[0]["bad"], minimised=True, tried=out[0]["tried"],
                       kept=out[0]["kept"])
            save()
    out, err, rc = one(["exec", prop, path], rep["hashseed"], spec, 300)
    if not (out and out[0].get("bad") and out[0]["bad"]["class"] == rep["class"]):
        rep = raw
        save()
        out, err, rc = one(["exec", prop, path], rep["hashseed"], spec, 300)
        if not (out and out[0].get("bad") and out[0]["bad"]["class"] == rep["class"]):
            if not last:
                return False
            # the code under test depends on something behind no seam; what was seen was seen
            print("# the replay did not reproduce it:", json.dumps(out)[:300], err[-300:])
    print("# class:", rep["bad"]["class"])
    for d in rep["bad"].get("detail", [])[:12]:
        print("#  ", str(d)[:600])
    print(f"VIOLATION property={prop} replay={path}")
    return True


def replay(prop, spec, path):
    with open(path) as f:
        rep = json.load(f)
    out, err, rc = one(["exec", prop, os.path.abspath(path)], rep["hashseed"], spec, 300)
    if not out or out[0].get("error"):
        print("HARNESS-ERROR", out, err)
        return 2
    bad = out[0]["bad"]
    if bad:
        print("# class:", bad["class"])
        for d in bad.get("detail", [])[:12]:
            print("#  ", str(d)[:600])
        print(f"VIOLATION property={prop} replay={os.path.abspath(path)}")
        return 1
    print("# not reproduced: the property holds on this scenario")
    return 0


def evidence(prop, spec, seed, tier, results, wall, bads, hashseeds, skipped):
    stats = collections.Counter()
    for o in results:
        for k, v in (o.get("stats") or {}).items():
            stats[k] += v
    sigs = {o["sig"] for o in results if o.get("sig")}
    steps = sum(o.get("steps") or 0 for o in results)
    samples = [o["sample"] for o in results if o.get("sample")][:3]
    cov = {
        "evaluations": len(results), "distinct_nontrivial": len(sigs), "rule": spec["rule"],
        "samples": samples or [{"run": o["i"]} for o in results[:2]],
        "runs_per_hour": round(len(results) / wall * 3600) if wall else 0, "seeds": len(results),
        "interpreter_hash_seeds": len(hashseeds),
        "simulated_time": {"unit": "executed lines of the code under test (it reads no clock)", "steps": steps},
        "faults_and_probes_fired": {k: stats[k] for k in sorted(stats)},
        "distinct_measure": spec["measure"], "real_code": spec["real"], "stubs": spec["stub"],
    }
    zero = [p for p in spec.get("probes", []) if not stats.get(p)]
    cov["probes_never_hit"] = zero
    ev = {"property": prop, "tier": tier, "seed": seed, "level": spec["level"], "coverage": cov,
          "assumptions": spec["assume"], "wall_s": round(wall, 2), "violations": len(bads)}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


if __name__ == "__main__":
    sys.exit(main())
