"""Runs a property's seeded search on all cores, reports violations with a replay file, writes the evidence."""
import collections
import json
import multiprocessing
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def engine_of(prop):
    from . import engines
    return engines.ENGINES[prop]


def _work(job):
    """Runs all variants of one seed.  Returns a summary (picklable)."""
    prop, seed, tier = job
    eng = engine_of(prop)
    out = dict(seed=seed, runs=0, digests=[], faults=collections.Counter(), probes=collections.Counter(), sim_time=0.0, steps=0,
               switches=0, preempts=0, violation=None, error=None, sample=None, nontrivial=0, units=collections.Counter())
    try:
        for sc, r in eng.runs(seed, tier):
            out["runs"] += 1
            nt = eng.nontrivial(sc, r)
            if nt:
                out["digests"].append(r.digest)
            out["faults"].update(r.faults)
            out["probes"].update(r.probes)
            out["sim_time"] += r.sim_time
            out["steps"] += r.steps
            out["switches"] += r.switches
            out["preempts"] += r.preempts
            if nt and out["sample"] is None:
                out["sample"] = eng.describe(sc, r)
            if r.violation is not None:
                out["violation"] = (sc, r.violation, r.digest)
                break
    except Exception:
        out["error"] = traceback.format_exc()
    return out


def run_check(prop, tier, seed, workers=None, verbose=True):
    t0 = time.monotonic()
    from . import loader
    eng = engine_of(prop)
    loader.preload()
    eng.prepare(tier)
    plan = eng.seeds(tier, seed)
    deadline = t0 + (480 if tier == "quick" else 6 * 3600)
    if os.environ.get("DST_BUDGET_S"):
        deadline = t0 + float(os.environ["DST_BUDGET_S"])
    workers = workers or int(os.environ.get("DST_WORKERS", os.cpu_count() or 1))
    agg = dict(runs=0, digests=set(), faults=collections.Counter(), probes=collections.Counter(), sim_time=0.0, steps=0, switches=0,
               preempts=0, samples=[], seeds=0)
    found = None
    error = None
    # Determinism: a few seeds are executed twice, in different processes.
    twice = plan[:eng.recheck]
    jobs = [(prop, s, tier) for s in plan] + [(prop, s, tier) for s in twice]
    firsts = {}
    mismatch = []
    ctx = multiprocessing.get_context("fork")
    pool = ctx.Pool(workers)
    stopped = False
    try:
        for out in pool.imap_unordered(_work, jobs, chunksize=eng.chunk):
            if out["error"] is not None:
                error = error or (out["seed"], out["error"])
                continue
            if out["seed"] in firsts:
                if firsts[out["seed"]] != (out["digests"], out["runs"]):
                    mismatch.append(out["seed"])
                continue
            if out["seed"] in twice:
                firsts[out["seed"]] = (out["digests"], out["runs"])
            agg["seeds"] += 1
            for k in ("runs", "sim_time", "steps", "switches", "preempts"):
                agg[k] += out[k]
            agg["faults"].update(out["faults"])
            agg["probes"].update(out["probes"])
            agg["digests"].update(out["digests"])
            if out["sample"] is not None and len(agg["samples"]) < 3:
                agg["samples"].append(out["sample"])
            if out["violation"] is not None:
                found = out["violation"]
                break
            if time.monotonic() > deadline:
                stopped = True
                break
    finally:
        pool.terminate()
        pool.join()
    rc = 0
    lines = []
    if found is not None:
        rc = 1
        lines = report(prop, eng, found)
    elif error is not None:
        print(f"HARNESS-ERROR property={prop} seed={error[0]}\n{error[1]}", file=sys.stderr)
        rc = 2
    elif mismatch:
        print(f"HARNESS-ERROR property={prop}: seeds {mismatch[:5]} did not replay identically", file=sys.stderr)
        rc = 2
    elif stopped and agg["seeds"] < 0.3 * len(plan):
        print(f"HARNESS-ERROR property={prop}: only {agg['seeds']} of {len(plan)} seeds finished in time", file=sys.stderr)
        rc = 2
    else:
        miss = [k for k in eng.required_probes if not agg["probes"].get(k)]
        if miss and agg["seeds"] == len(plan):
            # A search that no longer reaches its target decides nothing.
            print(f"HARNESS-ERROR property={prop}: never reached {miss}", file=sys.stderr)
            rc = 2
    wall = time.monotonic() - t0
    cov = dict(
        evaluations=agg["runs"], distinct_nontrivial=len(agg["digests"]), rule=eng.rule, samples=agg["samples"],
        seeds=agg["seeds"], seeds_planned=len(plan), stopped_early=stopped, seeds_run_twice_identical=len(twice) if not mismatch else 0,
        runs_per_hour=int(agg["runs"] / wall * 3600) if wall > 0 else 0, seeds_per_hour=int(agg["seeds"] / wall * 3600) if wall > 0 else 0,
        simulated_time=round(agg["sim_time"], 3), simulated_time_unit=getattr(eng, "time_unit", "seconds"), intercepted_calls=agg["steps"], context_switches=agg["switches"],
        preemptions=agg["preempts"], faults_injected=dict(sorted(agg["faults"].items())), probes=dict(sorted(agg["probes"].items())),
        distinct_measure=eng.distinct_measure, real_components=eng.real, stubbed_components=eng.stubs, workers=workers)
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, assumptions=eng.assumptions,
              wall_s=round(wall, 3), violations=1 if rc == 1 else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for line in lines:
        print(line)
    if verbose and rc == 0:
        print(f"{prop} {tier}: {agg['runs']} simulated runs from {agg['seeds']} seeds, {len(agg['digests'])} distinct non-trivial, "
              f"faults {dict(sorted(agg['faults'].items()))}, {wall:.1f} s: held")
    return rc


def report(prop, eng, found):
    """Minimises in this process, writes the replay file, confirms it in a fresh process."""
    import subprocess
    sc, (cls, msg), digest = found
    n = 0
    try:
        small, r, n = eng.shrink(sc, cls)
        if r.violation is None or r.violation[0] != cls:
            small, r = sc, eng.run(dict(sc, keep_log=True))
    except Exception:
        print(traceback.format_exc(), file=sys.stderr)
        small, r = sc, None
    d = os.path.join(HERE, "replays")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, f"{prop}-{abs(hash_text(json.dumps(small, sort_keys=True, default=str))) % 10 ** 10:010d}.json")
    v = r.violation if r is not None and r.violation is not None else (cls, msg)
    log = [x.replace("\n", "\\n") for x in (r.log if r is not None else [])]
    doc = dict(property=prop, violation=v[0], message=v[1], scenario=small, digest=r.digest if r is not None else digest,
               original_seed=sc.get("seed"), shrink_runs=n, trace=log[-400:])
    with open(path, "w") as f:
        json.dump(doc, f, indent=1, default=str)
    conf = "not confirmed"
    try:
        q = subprocess.run([sys.executable, os.path.join(HERE, "check.py"), "replay", path], capture_output=True, text=True, timeout=300)
        conf = "reproduced exactly" if q.returncode == 1 and "REPRODUCED" in q.stdout else f"exit {q.returncode}"
    except Exception as e:
        conf = repr(e)
    return [f"violation class: {v[0]}", f"what: {v[1]}", f"faults: {small.get('faults', [])}  ({n} shrinking runs; replay in a fresh process: {conf})",
            f"VIOLATION property={prop} replay={path}"]


def hash_text(s):
    import hashlib
    return int.from_bytes(hashlib.blake2b(s.encode(), digest_size=8).digest(), "big")


def replay(path):
    from . import loader
    with open(path) as f:
        doc = json.load(f)
    loader.preload()
    eng = engine_of(doc["property"])
    eng.prepare("quick")
    r = eng.run(dict(doc["scenario"], keep_log=True))
    if r.violation is None:
        print(f"the scenario holds on this tree (expected: {doc['violation']})")
        return 0
    same = r.violation[0] == doc["violation"] and r.digest == doc["digest"]
    for line in r.log[-60:]:
        print("  ", line[:200])
    print(f"violation class: {r.violation[0]}\nwhat: {r.violation[1]}")
    print("REPRODUCED exactly (same event digest)" if same else "violated, but not by the identical execution")
    print(f"VIOLATION property={doc['property']} replay={path}")
    return 1
