"""Greedy minimisation of a failing scenario, keeping the class of the violation."""
import copy
import time


def candidates(sc):
    """Simpler scenarios, most drastic first."""
    ph = sc.get("phases", [])
    for i in range(len(ph)):
        if len(ph) > 1:
            c = copy.deepcopy(sc)
            del c["phases"][i]
            yield c
    for i in range(len(sc.get("faults", []))):
        c = copy.deepcopy(sc)
        del c["faults"][i]
        yield c
    for i, p in enumerate(ph):
        for j in range(len(p["procs"])):
            if len(p["procs"]) > 1:
                c = copy.deepcopy(sc)
                del c["phases"][i]["procs"][j]
                yield c
            ops = p["procs"][j]["ops"]
            for k in range(len(ops)):
                if len(ops) > 1:
                    c = copy.deepcopy(sc)
                    del c["phases"][i]["procs"][j]["ops"][k]
                    yield c
                op = ops[k]
                if isinstance(op.get("problems"), list) and len(op["problems"]) > 1:
                    for m in range(len(op["problems"])):
                        c = copy.deepcopy(sc)
                        del c["phases"][i]["procs"][j]["ops"][k]["problems"][m]
                        yield c
                for key, vals in (("shots", (1, 2, 5)), ("min_shots", (1, 2)), ("max_shots", (1, 2, 5)), ("max_batch", (None,)),
                                  ("max_std", (None,)), ("min_errors", (1,))):
                    if key in op and not any(op[key] == v for v in vals):
                        for v in vals:
                            if v is None or (op[key] is not None and v < op[key]):
                                c = copy.deepcopy(sc)
                                c["phases"][i]["procs"][j]["ops"][k][key] = v
                                yield c
    for f in sorted(sc.get("files", {})):
        c = copy.deepcopy(sc)
        del c["files"][f]
        yield c
        lines = sc["files"][f].split("\n")
        if len(lines) > 3:
            for keep in (lines[:1] + lines[len(lines) // 2:], lines[:-2] + lines[-1:]):
                c = copy.deepcopy(sc)
                c["files"][f] = "\n".join(keep)
                yield c
    s = sc.get("schedule")
    if s:
        for n in (0, len(s) // 2, len(s) - 1):
            c = copy.deepcopy(sc)
            c["schedule"] = s[:n]
            yield c
    for i, f in enumerate(sc.get("faults", [])):
        if isinstance(f[3], int) and f[3] > 1:
            for v in (0, 1, f[3] // 2):
                c = copy.deepcopy(sc)
                c["faults"][i][3] = v
                yield c


def shrink(sc, run, cls, *, cands=candidates, budget_s=60.0, max_runs=400):
    """Returns (smallest scenario found, its result, number of runs)."""
    t_end = time.monotonic() + budget_s
    n = 0
    best, best_r = sc, None
    if "phases" in sc:
        # Make the schedule explicit first, so that dropping things does not reshuffle it.
        r = run(dict(sc, keep_log=True))
        n += 1
        if r.violation and r.violation[0] == cls:
            best_r = r
            c = dict(sc, schedule=r.picks)
            r2 = run(dict(c, keep_log=True))
            if r2.violation and r2.violation[0] == cls:
                best, best_r = c, r2
    progress = True
    while progress and n < max_runs and time.monotonic() < t_end:
        progress = False
        for c in cands(best):
            if n >= max_runs or time.monotonic() > t_end:
                break
            n += 1
            try:
                r = run(dict(c, keep_log=True))
            except Exception:
                continue
            if r.violation and r.violation[0] == cls:
                if "phases" in c and c.get("schedule"):
                    c = dict(c, schedule=r.picks[:len(c["schedule"])])
                best, best_r = c, r
                progress = True
                break
    if best_r is None:
        best_r = run(dict(best, keep_log=True))
    return best, best_r, n
