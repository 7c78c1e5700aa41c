"""Scenario generators and oracles of the pipeline properties C01-C10."""
import copy
import itertools
import json
import os
import random

import numpy as np

from . import kernel, world
from .kernel import SimBug, SimKilled, mix, real_open
from .world import HEADER, Violation, World, gen_problems, ref_parse


class Result:
    def __init__(self):
        self.violation = None       # (class, message)
        self.digest = ""
        self.picks = []
        self.trace = []
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.switches = 0
        self.preempts = 0
        self.log = []
        self.batches = 0
        self.kills = 0


# ------------------------------------------------------------------------------------------------ execution
def run_scenario(sc) -> Result:
    r = Result()
    w = World(sc)
    try:
        with w:
            try:
                SETUP.get(sc["prop"], lambda w: None)(w)
                for phase in sc["phases"]:
                    run_phase(w, phase)
                FINAL.get(sc["prop"], final_reads)(w)
            except Violation as v:
                r.violation = (v.cls, v.msg)
            finally:
                s = w.sim
                r.digest = s.digest.hexdigest()
                r.picks, r.trace = list(s.picks), s.trace
                r.faults, r.probes = dict(s.faults_fired), dict(s.probes)
                r.sim_time, r.steps = s.now - 1000.0, s.step
                r.switches, r.preempts = s.context_switches, s.preempts
                r.log = s.log
                r.batches = sum(p.user.get("announced_batches", 0) for p in s.procs)
    finally:
        pass
    return r


def run_phase(w, phase):
    procs = [w.spawn(spec) for spec in phase["procs"]]
    w.run_phase(procs)
    if w.sim.power_loss:
        w.power_loss(phase.get("power_seed", 0))
    elif phase.get("durable"):
        w.sim.mark_all_durable()
    for p in procs:
        check_outcome(w, p)
    w.check_all_files(f"after the phase of {[p.name for p in procs]}")
    after = PHASE.get(w.sc["prop"])
    if after is not None:
        after(w, procs)


def check_outcome(w, p):
    """A process that met no fault ends normally."""
    fired = p.user.get("fired", [])
    real = [f for f in fired if f[0] not in ("stall", "clock", "shortok", "child_slow")]
    if p.exc is None or isinstance(p.exc, SimKilled):
        return
    if not real and not p.user.get("may_fail"):
        e = p.exc
        raise Violation(f"unexpected-exception-{type(e).__name__}", f"{p.name} failed although nothing went wrong: {type(e).__name__}: {e}"[:400])


def final_reads(w):
    """After all faults: every file is readable and gives the totals of its records."""
    files = [os.path.relpath(q, w.work) for q in w.known_files() if os.path.exists(q)]
    if not files:
        return
    w.sc = dict(w.sc, faults=[])
    p = w.spawn(dict(name="final-read", ops=[{"op": "read", "files": [f]} for f in files] +
                     ([{"op": "read", "files": files}] if len(files) > 1 else [])))
    w.run_phase([p])
    check_outcome(w, p)


# ------------------------------------------------------------------------------------------------ generators
def gen_collect(rng, nprob, file, *, heavy=False, discard_p=0.1, maxprob=4):
    problems = [rng.randrange(nprob) for _ in range(rng.choice([1, 1, 2, 3, maxprob]))]
    min_shots = rng.choice([1, 2, 5, 10, 25])
    max_shots = rng.choice([min_shots, min_shots * 2, min_shots * 3 + 1, min_shots * 7, max(1, min_shots - 1)])
    return dict(op="collect", file=file, problems=problems, discard=rng.random() < discard_p, min_shots=min_shots,
                max_shots=max_shots, max_batch=rng.choice([None, None, max(1, max_shots // 3), min_shots, 2 ** 15]),
                min_errors=rng.choice([1, 3, 10, 1000]), max_std=rng.choice([None, None, 1, 0.2, 0.05]))


def gen_fraction(rng, nprob, file, *, discard_p=0.1):
    return dict(op="fraction", file=file, problems=[rng.randrange(nprob) for _ in range(rng.choice([1, 2, 3]))],
                shots=rng.choice([1, 3, 10, 64]), discard=rng.random() < discard_p)


def gen_any_collect(rng, nprob, file, **kw):
    kw.pop("maxprob", None) if False else None
    if rng.random() < 0.2:
        return gen_fraction(rng, nprob, file, discard_p=kw.get("discard_p", 0.1))
    return gen_collect(rng, nprob, file, **kw)


def record_text(rng, prob, fraction=False):
    d = prob["desc"]
    shots = rng.choice([1, 10, 1000, 10 ** 8])
    row = [d["data_width"], d["data_height"], d["rounds"], d["noise"], d["circuit_style"],
           "-" if fraction else d["preserved_observable"], d["code_distance"], d["num_qubits"], shots,
           rng.randrange(shots + 1), rng.choice([0.5, 12.25, 1e-05, 3.0000000000000004, 123456.789]),
           "detection_fraction" if fraction else d["decoder"], 2]
    return ",".join(str(x) for x in row)


def gen_file(rng, probs, kind):
    head = ",".join(HEADER)
    rows = [record_text(rng, rng.choice(probs), rng.random() < 0.2) for _ in range(rng.choice([0, 1, 2, 5]))]
    text = "\n".join([head] + rows) + "\n"
    if kind == "empty":
        return ""
    if kind == "header":
        return head + "\n"
    if kind == "nonl":
        return text[:-1]
    if kind == "torn":
        t = record_text(rng, rng.choice(probs))
        cut = rng.choice([rng.randrange(1, len(t)), len(t) - 1, len(t) - 2, t.rindex(",") + 1, t.rindex(",")])
        return text + t[:max(1, cut)]
    if kind == "tornmid":
        t = record_text(rng, rng.choice(probs))
        return text + t[:rng.randrange(1, len(t) - 1)] + "\n" + record_text(rng, rng.choice(probs)) + "\n"
    if kind == "tornhead":
        return head[:rng.randrange(1, len(head) + 1)]
    if kind == "twohead":
        return text + head + "\n" + record_text(rng, rng.choice(probs)) + "\n"
    return text


def gen_sched(rng):
    m = rng.choice(["random", "random", "pct", "rr"])
    return {"mode": m, "p": rng.choice([0.05, 0.2, 0.5, 0.9]) if m == "random" else rng.choice([0.02, 0.1, 0.3])}


def base(prop, seed, rng, **kw):
    sc = dict(prop=prop, seed=seed, sched=gen_sched(rng), faults=[], files={}, phases=[],
              stdout_line_buffered=rng.random() < 0.5)
    sc.update(kw)
    return sc


def proc(name, *ops):
    return dict(name=name, ops=list(ops))


def gen_C01(seed):
    rng = random.Random(mix(seed, "gen", "C01"))
    probs = gen_problems(rng, rng.choice([1, 2, 3, 5]))
    sc = base("C01", seed, rng, problems=probs)
    n = len(probs)
    files = ["a.csv"] + (["sub/b.csv"] if rng.random() < 0.3 else [])
    for f in files:
        if rng.random() < 0.3 or "/" in f:
            sc["files"][f] = gen_file(rng, probs, rng.choice(["full", "full", "header", "empty", "nonl"]))
    for k in range(rng.choice([1, 2, 2, 3, 4])):
        procs = []
        for q, f in enumerate(files if rng.random() < 0.5 else [rng.choice(files)]):
            ops = [gen_any_collect(rng, n, f if rng.random() < 0.95 else None) for _ in range(rng.choice([1, 1, 2]))]
            procs.append(proc(f"p{k}.{q}", *ops))
        ph = dict(procs=procs)
        sc["phases"].append(ph)
        if rng.random() < 0.3:
            sc["phases"].append(dict(procs=[proc(f"r{k}", dict(op="read", files=files))]))
    if rng.random() < 0.06:
        u = worker_spec(rng)
        sc["phases"].append(dict(procs=[proc("w", dict(u, file="a.csv"))]))
    return sc, dict(kinds=["kill", "kill", "kill", "interrupt", "epipe", "enomem", "child_exit", "stall"], per=[1, 1, 2, 3])


def worker_spec(rng):
    """A worker of the paper's script on one of the small problems, with the description the problem must have."""
    w = _worker_problem(rng)
    if rng.random() < 0.35:
        # Limits left at their defaults, scaled down.
        del w["max_errors"]
        w["case_reduction"] = rng.choice([10 ** 6, 3 * 10 ** 6, 10 ** 7, 4 * 10 ** 6])
        w["max_shots"] = None
        if rng.random() < 0.5:
            w["max_batch"] = None
    return w


def worker_limits(op):
    """The documented limits of a worker's command line."""
    cr = op.get("case_reduction") or 1
    return dict(min_shots=25, max_shots=op["max_shots"] if op.get("max_shots") is not None else 10 ** 8 // cr,
                min_errors=op["max_errors"] if op.get("max_errors") is not None else 10 ** 3 // cr,
                max_batch=op["max_batch"] if op.get("max_batch") is not None else 2 ** 15, max_std=1)


def _worker_problem(rng):
    noises = [0.0001, 0.0002, 0.0003, 0.0005, 0.0007, 0.0010, 0.0015, 0.0020, 0.0030, 0.0050, 0.0070, 0.0100, 0.0150, 0.0200, 0.0300]
    styles, obs, us, decs = ["SI1000", "SD6", "EM3_v2"], ["V", "H"], [1, 2, 3, 4, 5], ["internal", "internal_correlated"]
    d, p, s, o = rng.randrange(2), rng.randrange(15), rng.randrange(3), rng.randrange(2)
    u = 0
    if rng.random() < 0.4:
        di = rng.choice([0, 0, 0, 1])
        dist, name, ob = [3, 7][di], ["SD6", "SI1000"][s % 2], "XZ"[o]
        return dict(op="worker", problem_id=900 + (((d * 5 + di) * 15 + p) * 2 + s % 2) * 2 + o, surface=[name.lower(), ob, dist],
                    max_shots=rng.choice([10, 60]), max_errors=rng.choice([2, 100]), max_batch=rng.choice([7, 32]),
                    expect=[dist, dist, 3 * dist, noises[p], f"surface_{name}", ob, dist, 2 * dist * dist - 1, decs[d]])
    pid = ((d * 15 + p) * 5 + u) * 6 + s * 2 + o
    W, H = 4 * us[u], 6 * us[u]
    nq = W * H if styles[s] == "EM3_v2" else int(W * H * 2.5)
    key = [W, H, us[u] * 12, noises[p], f"honeycomb_{styles[s]}", obs[o], min(W, H // 3 * 2), nq, decs[d]]
    return dict(op="worker", problem_id=pid, max_shots=rng.choice([10, 60]), max_errors=rng.choice([2, 100]),
                max_batch=rng.choice([7, 32]), expect=key)


def gen_C02(seed):
    rng = random.Random(mix(seed, "gen", "C02"))
    probs = gen_problems(rng, rng.choice([1, 2, 3]), decoders=("pymatching",) if rng.random() < 0.7 else ("pymatching", "internal"))
    sc = base("C02", seed, rng, problems=probs)
    n = len(probs)
    if rng.random() < 0.5:
        sc["files"]["a.csv"] = gen_file(rng, probs, rng.choice(["full", "header", "empty", "nonl", "torn", "torn", "tornmid", "tornhead"]))
    for k in range(rng.choice([1, 2, 2, 3])):
        ops = [gen_any_collect(rng, n, "a.csv", discard_p=0.08, maxprob=3)]
        sc["phases"].append(dict(procs=[proc(f"p{k}", *ops)], power_seed=rng.randrange(1 << 30), durable=rng.random() < 0.4))
        if rng.random() < 0.4:
            sc["phases"].append(dict(procs=[proc(f"r{k}", dict(op="read", files=["a.csv"]))]))
    # A fault-free recovery run always comes last.
    sc["phases"].append(dict(procs=[proc("rec", gen_any_collect(rng, n, "a.csv", discard_p=0.0, maxprob=2))]))
    sc["nofault"] = ["rec"]
    return sc, dict(kinds=["power", "power", "power", "short", "full", "eio", "enospc", "kill"], per=[1, 1, 2, 3],
                    calls={"power": None})


def gen_C03(seed):
    rng = random.Random(mix(seed, "gen", "C03"))
    probs = gen_problems(rng, rng.choice([1, 2]), decoders=("pymatching",))
    sc = base("C03", seed, rng, problems=probs)
    n = len(probs)
    what = rng.choice(["collect", "collect", "read", "aggregate"])
    if what == "collect":
        if rng.random() < 0.6:
            sc["files"]["a.csv"] = gen_file(rng, probs, rng.choice(["full", "header", "empty", "nonl", "torn", "tornhead"]))
        sc["phases"].append(dict(procs=[proc("p", gen_any_collect(rng, n, "a.csv", discard_p=0.3))]))
        kinds = ["enospc", "edquot", "eio", "eacces", "emfile", "epipe", "short", "full"]
    else:
        names = ["d/a.csv", "d/e/b.csv", "d/e/f/c.csv", "x.csv"]
        for f in names[:rng.choice([1, 2, 4])] + (["x.csv"] if rng.random() < 0.5 else []):
            rows = [record_text(rng, rng.choice(probs)) for _ in range(rng.choice([1, 3, 200]))]
            sc["files"][f] = "\n".join([",".join(HEADER)] + rows) + "\n"
        if what == "read":
            sc["phases"].append(dict(procs=[proc("p", dict(op="read", files=sorted(sc["files"])))]))
        else:
            sc["phases"].append(dict(procs=[proc("p", dict(op="aggregate", paths=["d"] + [f for f in sc["files"] if f == "x.csv"]))]))
        kinds = ["eio", "eio_read", "eacces", "emfile"] + (["epipe"] if what == "aggregate" else [])
    return sc, dict(kinds=kinds, per=[1, 1, 1, 2], sweep=True)


def phase_C03(w, procs):
    for p in procs:
        errs = p.user.get("io_errors", [])
        if errs and p.exc is None:
            raise Violation("error-swallowed", f"{p.name} met {errs[0]} and still reported success")


def gen_C04(seed):
    rng = random.Random(mix(seed, "gen", "C04"))
    probs = gen_problems(rng, rng.choice([1, 2, 4]), decoders=("pymatching",) if rng.random() < 0.7 else ("pymatching", "internal"))
    sc = base("C04", seed, rng, problems=probs)
    n = len(probs)
    k = rng.choice([None, None, None, "empty", "full", "header", "nonl", "torn"])
    if k:
        sc["files"]["a.csv"] = gen_file(rng, probs, k)
    for ph in range(rng.choice([1, 1, 2])):
        procs = [proc(f"p{ph}.{q}", gen_any_collect(rng, n, "a.csv", discard_p=0.0, maxprob=2))
                 for q in range(rng.choice([2, 2, 3, 4]))]
        sc["phases"].append(dict(procs=procs))
    return sc, dict(kinds=["kill", "kill", "interrupt", "stall"], per=[0, 1, 1, 2, 3])


def gen_C05(seed):
    rng = random.Random(mix(seed, "gen", "C05"))
    probs = gen_problems(rng, rng.choice([1, 2, 4]), decoders=("pymatching",))
    sc = base("C05", seed, rng, problems=probs)
    n = len(probs)
    names = ["d/a.csv", "d/sub/a.csv", "d/sub/deep/c.csv", "d/z.csv", "x.csv"]
    if rng.random() < 0.5:
        names += ["d/run.1.csv", "d/EM3 v2 (0.001).csv", "d/sub.d/a.csv", "d/other/b.csv", "d/sub/deep2/c.csv", "d/x.csv", "d/A.csv", "d/.h.csv", "d/.sub/h.csv"]
    chosen = sorted(rng.sample(names, rng.choice([1, 2, 3, 5])))
    for f in chosen:
        sc["files"][f] = gen_file(rng, probs, rng.choice(["full", "full", "full", "header", "empty", "nonl", "torn", "tornmid", "twohead"]))
        if rng.random() < 0.15:
            rows = [record_text(rng, rng.choice(probs), rng.random() < 0.2) for _ in range(150)]
            sc["files"][f] = "\n".join([",".join(HEADER)] + rows) + "\n"
    if rng.random() < 0.4:
        sc["files"]["d/notes.txt"] = "not,data\n"
        sc["files"]["d/sub/a.csv.bak"] = gen_file(rng, probs, "full")
    paths = (["d"] if any(f.startswith("d/") for f in chosen) else []) + (["x.csv"] if "x.csv" in chosen else [])
    rng.shuffle(paths)
    readers = [proc("agg", dict(op="aggregate", paths=paths, save="agg1.csv"))]
    if rng.random() < 0.5:
        readers.append(proc("rd", dict(op="read", files=rng.sample(chosen, len(chosen)))))
    writers = []
    if rng.random() < 0.7:
        grow = rng.sample(chosen, min(len(chosen), rng.choice([1, 1, 2])))
        writers = [proc(f"c{q}", gen_any_collect(rng, n, f, discard_p=0.0, maxprob=2)) for q, f in enumerate(grow)]
    sc["phases"].append(dict(procs=readers + writers))
    # Quiescent: aggregate the files, then aggregate the aggregate.
    sc["phases"].append(dict(procs=[proc("agg2", dict(op="aggregate", paths=paths, save="again/agg2.csv"))]))
    sc["phases"].append(dict(procs=[proc("agg3", dict(op="aggregate", paths=["again"], save="agg3.csv"),
                                         dict(op="read", files=["agg3.csv"]))]))
    return sc, dict(kinds=["stall", "kill"], per=[0, 0, 1], only_prefix="c")


def final_C05(w):
    p2 = next((p for p in w.sim.procs if p.name == "agg2"), None)
    p3 = next((p for p in w.sim.procs if p.name == "agg3"), None)
    if p2 is not None and p3 is not None and p2.exc is None and p3.exc is None:
        if not world.same_totals(p2.user["agg"], p3.user["agg"]):
            raise Violation("not-idempotent", "aggregating the aggregated data changes it: " +
                            world.diff_totals(p3.user["agg"], p2.user["agg"]))
        if not world.same_totals(p3.user["read"], p2.user["agg"]):
            raise Violation("wrong-totals", "reading the aggregated data gives other totals: " +
                            world.diff_totals(p3.user["read"], p2.user["agg"]))
    final_reads(w)


# ------------------------------------------------------------------------------------------------ C06
def gen_C06(seed):
    rng = random.Random(mix(seed, "gen", "C06"))
    probs = gen_problems(rng, rng.choice([1, 2, 3]), decoders=("pymatching",))
    stub = rng.random() < 0.7
    sc = base("C06", seed, rng, problems=probs, stub_counts=stub)
    big = rng.random() < 0.5 and stub
    hi = 10 ** rng.randrange(1, 9) if big else rng.choice([1, 2, 7, 30, 100, 300])
    max_shots = rng.randrange(1, hi + 1)
    min_shots = rng.choice([1, max(1, max_shots // rng.choice([1, 2, 3, 10, 1000])), rng.randrange(1, max_shots + 1),
                            max_shots + rng.choice([0, 1, 100])])
    mb = rng.choice([None, max(1, max_shots // rng.choice([1, 2, 3, 10, 40])), max(1, min_shots // 2), min_shots, 2 * min_shots,
                     max_shots * 2])
    op = dict(op="collect", file=rng.choice(["a.csv", None]), problems=[rng.randrange(len(probs)) for _ in range(rng.choice([1, 2, 3]))],
              discard=False, min_shots=min_shots, max_shots=max_shots, max_batch=mb,
              min_errors=rng.choice([0, 1, 5, 9, 10, 11, 1000, 10 ** 6, max(1, int(max_shots * 0.1))]),
              max_std=rng.choice([None, 1, 0.5, 0.1, 0.01, 0.001, 1e-05]))
    if (max_shots / min(mb or max_shots, max_shots)) > 400:
        op["max_batch"] = max(1, max_shots // 40)
    op2 = None
    if rng.random() < 0.08:
        # The defaults of the paper's script: limits come from its command line.
        w = worker_spec(rng)
        op2 = dict(w, file=None)
        if w.get("case_reduction") is None:
            op2.update(max_shots=rng.choice([25, 26, 100, 10 ** 5]), max_errors=rng.choice([1, 10, 50]),
                       max_batch=rng.choice([10, 25, 64, 2 ** 15]))
        else:
            op2["case_reduction"] = rng.choice([1, 10, 1000, 10 ** 4, 10 ** 6, 10 ** 7])
            if op2.get("max_batch") is not None:
                op2["max_batch"] = 10 ** 7
        sc["stub_counts"] = True
    # Error rates of the stubbed outcomes: from never to always, sometimes right at the 48% rule, sometimes changing.
    sc["rates"] = [rng.choice([0.0, 1e-4, 0.01, 0.05, 0.2, 0.45, 0.48, 0.5, 0.6, 1.0]) for _ in range(6)]
    sc["exact"] = rng.random() < 0.5
    sc["phases"] = [dict(procs=[proc("p", op2 or op)])]
    return sc, dict(kinds=["stall", "clock"], per=[0, 1])


def setup_C06(w):
    sc = w.sc
    if not sc.get("stub_counts"):
        return
    w.check_truth = False

    def stub(p):
        def sample_decode_count_correct(*, circuit, model_circuit=None, num_shots, decoder):
            q = kernel.current_proc()
            w.sim.syscall(q, "sample", "stub", num_shots)
            k = q.user.setdefault("nstub", 0)
            q.user["nstub"] += 1
            rate = sc["rates"][mix(w.seed, "rate", k // 3) % len(sc["rates"])]
            rs = np.random.Generator(np.random.PCG64(mix(w.seed, "stub", k)))
            if sc["exact"]:
                errs = int(num_shots * rate) + int(rs.integers(0, 2)) * (rate > 0)
            else:
                errs = int(rs.binomial(num_shots, rate))
            errs = max(0, min(num_shots, errs))
            q.user.setdefault("asked", []).append((world.uid_of(circuit), num_shots, num_shots - errs))
            w.sim.now += 0.01
            return np.int64(num_shots - errs) if mix(w.seed, "np", k) & 1 else num_shots - errs
        return sample_decode_count_correct

    orig_load = w.spawn

    def spawn(spec):
        p = orig_load(spec)
        main = p.main

        def main2(q):
            d = q.modules.load("decoding")
            d.sample_decode_count_correct = stub(q)
            return main(q)
        p.main = main2
        return p
    w.spawn = spawn

    def on_batch(w, p, pend, rec, line):
        pass
    w.on_batch = on_batch


def batches_of(w, p):
    """[(uid or key, shots, correct)] in order, as asked of the sampler."""
    if w.sc.get("stub_counts"):
        return p.user.get("asked", [])
    out = []
    return p.user.get("hist", out)


def check_stopping(w, p, op, problems, batches):
    """The batch sequence the documented rules prescribe for the outcomes that were produced.

    Exactly at a limit rounding may go either way.  Which way the code went shows in the problem of the next batch, unless
    that is the same problem repeated: then both readings are tried.
    """
    todo, first = [()], None
    for _ in range(64):
        if not todo:
            break
        asked = []
        try:
            return _check_stopping(p, op, problems, batches, todo.pop(), asked, todo)
        except Violation as v:
            first = first or v
    raise first


def _check_stopping(p, op, problems, batches, chosen, asked, todo):
    mb = op["max_batch"] if op.get("max_batch") is not None else op["max_shots"]
    std = op["max_std"] if op.get("max_std") is not None else 1
    lo, hi, want_errs = op["min_shots"], op["max_shots"], op["min_errors"]
    i = 0
    for at, uid in enumerate(problems):
        tot = errs = n = 0
        while True:
            if i >= len(batches):
                raise Violation("stopped-early", f"{p.name} stopped problem {uid} after {n} batches, {tot} shots and {errs} errors "
                                                 f"(limits {lo}..{hi}, {want_errs} errors)")
            u, shots, correct = batches[i]
            i += 1
            n += 1
            if uid is not None and u != uid:
                raise Violation("stopped-early" if tot == 0 or n > 1 else "order",
                                f"batch {i} is for problem {u} but problem {uid} is not finished: {n - 1} batches, {tot} shots, "
                                f"{errs} errors (limits {lo}..{hi}, {want_errs} errors, std {std})")
            if not 0 < shots:
                raise Violation("empty-batch", f"batch {i} asks for {shots} shots")
            if shots > mb:
                raise Violation("batch-too-large", f"batch {i} has {shots} shots, the limit is {mb}")
            tot += shots
            errs += shots - correct
            if tot > hi:
                raise Violation("too-many-shots", f"{tot} shots of problem {uid} taken, the maximum is {hi}")
            bound = np.log2(hi) + hi / mb + 2
            if n > bound:
                raise Violation("too-many-batches", f"{n} batches for problem {uid}, the bound is {bound:.2f}")
            pr = errs / tot
            done = tot >= hi
            near = False
            if tot >= lo:
                dev = np.sqrt(pr * (1 - pr) / tot)
                near = abs(dev - std) < 1e-12 * max(1, std) or abs(errs - 0.48 * tot) < 1e-9 * max(1, tot)
                done = done or (errs >= want_errs and dev <= std) or (errs >= 10 and errs >= tot * 0.48)
            if near and tot < hi:
                # At the boundary rounding may go either way: follow what the code did.
                done = i >= len(batches) or (uid is not None and len(problems) > 1 and batches[i][0] != uid)
                if not done and uid in problems[at + 1:at + 2]:
                    done = chosen[len(asked)] if len(asked) < len(chosen) else False
                    if len(asked) >= len(chosen):
                        todo.append((*asked, True))
                    asked.append(done)
            if done:
                break
    if i != len(batches):
        raise Violation("did-not-stop", f"{len(batches) - i} more batches after every problem was finished "
                                        f"(limits {lo}..{hi}, {want_errs} errors, std {std})")


def phase_C06(w, procs):
    for p in procs:
        if p.exc is not None:
            continue
        spec = next(s for ph in w.sc["phases"] for s in ph["procs"] if s["name"] == p.name)
        op = spec["ops"][0]
        b = batches_of(w, p)
        if op["op"] == "worker":
            op = dict(op, **worker_limits(op))
            b = [(None, s, c) for _, s, c in b]
            check_stopping(w, p, op, [None], b)
        else:
            uids = [w.sc["problems"][k]["uid"] for k in op["problems"]]
            # Adjacent repetitions of one problem cannot be told apart by uid: the rules separate them.
            check_stopping(w, p, op, uids, b)
        # What is announced is what was asked for.
        recs = [(r[0][1], r[0][2]) for r in p.user.get("records", [])]
        if recs != [(s, c) for _, s, c in b]:
            raise Violation("wrong-records", f"announced batches {recs[:6]} differ from the sampled ones {b[:6]}")
        w.sim.probe("stopping_rule_checked")
        w.sim.probe("batches_checked", len(b))


def record_hist(w, p, pend, rec, line):
    if pend:
        r = [w.batch_result(x, p.user["mode"] == "fraction") for x in pend]
        if all(x is not None for x in r):
            p.user.setdefault("hist", []).append((pend[0]["uid"], sum(x[0] for x in r), sum(x[1] for x in r)))


_setup_C06_stub = setup_C06


def setup_C06(w):
    if w.sc.get("stub_counts"):
        _setup_C06_stub(w)
    else:
        w.on_batch = record_hist


# ------------------------------------------------------------------------------------------------ C07
def gen_C07(seed):
    rng = random.Random(mix(seed, "gen", "C07"))
    probs = gen_problems(rng, rng.choice([1, 2, 3]), min_obs=1)
    sc = base("C07", seed, rng, problems=probs, sample_time=rng.choice([0.01, 1.0, 100.0, 5000.0]),
              maker_time=rng.choice([0.0, 0.5, 30.0]))
    n = len(probs)
    for q in range(rng.choice([1, 1, 2, 3])):
        sc["phases"].append(dict(procs=[proc(f"p{q}.{j}", gen_any_collect(rng, n, "a.csv" if rng.random() < 0.8 else None, discard_p=0.0))
                                        for j in range(rng.choice([1, 1, 2]))]))
    return sc, dict(kinds=["clock", "clock", "stall", "child_slow"], per=[0, 1, 2, 4])


def setup_C07(w):
    def on_batch(w, p, pend, rec, line):
        sec = rec[3]
        prev = p.user.get("prev_t", p.user["t_begin"])
        p.user["prev_t"] = w.sim.now
        need = 0.0
        if pend and pend[0].get("t0") is not None:
            end = max([b["t1"] for b in pend] + [b["call"]["t_end"] for b in pend if b["call"] is not None and b["call"].get("t_end")])
            need = end - min(b["t0"] for b in pend)
        span = w.sim.now - prev
        if not sec >= need - 1e-6:
            raise Violation("time-too-short", f"recorded {sec} s, but sampling and decoding of the batch took {need} s")
        if not sec <= span + 1e-6:
            raise Violation("time-too-long", f"recorded {sec} s, but only {span} s passed since the previous record")
        w.sim.probe("time_checked")
        if w.sim.faults_fired.get("clock"):
            w.sim.probe("time_checked_after_clock_change")
    w.on_batch = on_batch
    run = w.sim.decoder

    def timed(p, *a):
        try:
            return run(p, *a)
        finally:
            d = p.user.get("decodes")
            if d:
                d[-1]["t_end"] = w.sim.now
    w.sim.decoder = timed


# ------------------------------------------------------------------------------------------------ C08, C09, C10
def gen_decode_problems(rng, count, *, min_obs=0, wide=False):
    probs = gen_problems(rng, count, min_obs=min_obs)
    for p in probs:
        if rng.random() < 0.3:
            n = rng.choice([11, 64, 65, 130] if not wide else [11, 64, 65, 130, 300])
            p["dets"] = n
            p["maps"] = [sorted(j for j in range(p["obs"]) if rng.random() < 0.5) for _ in range(n)]
        elif rng.random() < 0.04:
            n = p["dets"] = rng.choice([1024, 1025, 4099])
            p["p"] = 0.01
            p["maps"] = [sorted(j for j in range(p["obs"]) if rng.random() < 0.5) for _ in range(n)]
        if p["obs"] and rng.random() < 0.12:
            p["obs"] = rng.choice([8, 9, 17, 33])
            p["maps"] = [sorted(j for j in range(p["obs"]) if rng.random() < 0.3) for _ in p["maps"]]
        if min_obs == 0 and rng.random() < 0.15:
            p["obs"] = 0
            p["maps"] = [[] for _ in p["maps"]]
        if p["obs"] and rng.random() < 0.15:
            # The last observable cannot be flipped by any error.
            p["maps"] = [[j for j in m if j != p["obs"] - 1] for m in p["maps"]]
    return probs


def batch_size(rng, prob, sizes):
    """Sometimes as large as the collection script's largest batches."""
    if prob["dets"] > 500:
        return rng.choice([1, 3, 20])
    if rng.random() < 0.04 and prob["dets"] * prob["p"] + prob["obs"] <= 3:
        return rng.choice([2049, 4097, 10007, 2 ** 15, 2 ** 15 + 1])
    return rng.choice(sizes)


def same_shape_model(rng, prob, uid):
    m = copy.deepcopy(prob)
    m["uid"] = uid
    m["p"] = rng.choice([0.02, 0.25])
    m["maps"] = [sorted(j for j in range(m["obs"]) if rng.random() < 0.5) for _ in m["maps"]]
    return m


def gen_C08(seed):
    rng = random.Random(mix(seed, "gen", "C08"))
    probs = gen_decode_problems(rng, rng.choice([1, 2, 3]))
    base_n = len(probs)
    for i in range(base_n):
        probs.append(same_shape_model(rng, probs[i], 2000 + i))
    sc = base("C08", seed, rng, problems=probs, sample_time=0.01)
    procs = []
    for q in range(rng.choice([1, 2, 2, 3])):
        ops = []
        for _ in range(rng.choice([1, 2, 3])):
            i = rng.randrange(base_n)
            ops.append(dict(op="decode", problem=i, model=base_n + i if rng.random() < 0.4 else None,
                            decoder=rng.choice(["internal", "internal_correlated"]), shots=batch_size(rng, probs[i], [1, 2, 3, 10, 33, 100, 257])))
        procs.append(proc(f"p{q}", *ops))
    sc["phases"] = [dict(procs=procs)]
    return sc, dict(kinds=["stall", "kill", "interrupt"], per=[0, 0, 1])


def setup_C08(w):
    def on_batch(w, p, pend, rec, line):
        op, r, model = rec
        call = pend[-1]["call"] if pend else None
        if len(pend) != 1 or pend[0]["shots"] != op["shots"]:
            raise Violation("wrong-shots", f"{op['shots']} shots asked for, sampled {[b['shots'] for b in pend]}")
        if call is None:
            raise Violation("decoder-not-used", f"{p.name} returned {r} without calling the decoder")
        b = pend[0]
        check_decoder_input(w, p, b, call, model, op["decoder"])
        want = int(np.count_nonzero(np.all(call["preds"] == b["obs"], axis=1)))
        if r != want:
            raise Violation("answers-misread", f"{p.name} counted {r} successes, the decoder's answers give {want}")
        w.sim.probe("decodes_checked")
    w.on_batch = on_batch


def check_decoder_input(w, p, b, call, model, decoder):
    if call.get("error"):
        raise Violation("bad-decoder-input", f"the decoder of {p.name} refused its input: {call['error']}")
    if call["correlated"] != (decoder == "internal_correlated") or not call["correlated_all"]:
        raise Violation("wrong-mode", f"decoder={decoder!r} was started with {call['argv'][1:]}")
    dem = model.detector_error_model(decompose_errors=True)
    if call["dem"] != dem and not call["dem"].approx_equals(dem, atol=1e-12):
        raise Violation("wrong-model", f"the decoder of {p.name} was not given the error model of the model circuit")
    if call["dets"].shape != b["det"].shape or not np.array_equal(call["dets"], b["det"]):
        raise Violation("wrong-events", f"the decoder of {p.name} was not given the sampled detection events "
                                        f"(shape {call['dets'].shape} for {b['det'].shape})")


def phase_C08(w, procs):
    """Decoders that ran must have been given their own process's shots, even if the process was stopped later."""
    for p in procs:
        for call in p.user.get("decodes", []):
            if call.get("error") and not p.user.get("fired") and call["fault"] is None:
                raise Violation("bad-decoder-input", f"the decoder of {p.name} refused its input: {call['error']}")


def gen_C09(seed):
    rng = random.Random(mix(seed, "gen", "C09"))
    probs = gen_decode_problems(rng, rng.choice([1, 2]), min_obs=1)
    for p in probs:
        p["desc"]["decoder"] = rng.choice(["internal", "internal", "internal_correlated"])
    sc = base("C09", seed, rng, problems=probs, sample_time=0.01)
    if rng.random() < 0.06:
        sc["decoder_present"] = False
    if rng.random() < 0.5:
        ops = [dict(op="decode", problem=rng.randrange(len(probs)), model=None, decoder=rng.choice(["internal", "internal_correlated"]),
                    shots=rng.choice([1, 2, 10, 50])) for _ in range(rng.choice([1, 2]))]
    else:
        ops = [gen_collect(rng, len(probs), "a.csv", discard_p=0)]
    sc["phases"] = [dict(procs=[proc("p", *ops)])]
    return sc, dict(kinds=["child_exit", "child_signal", "child_trunc", "child_garble", "child_noout", "child_nostart",
                           "child_partial_exit", "child_empty", "enospc", "eio", "eacces", "emfile", "short", "full"],
                    per=[1, 1, 1, 2], sweep=True)


CHILD_FAIL = ("child_exit", "child_signal", "child_nostart", "child_partial_exit")
CHILD_BAD = ("child_trunc", "child_garble", "child_noout", "child_empty")


def phase_C09(w, procs):
    sim = w.sim
    for p in procs:
        if isinstance(p.exc, SimKilled):
            continue
        fired = [f[0] for f in p.user.get("fired", [])]
        bad_child = [k for k in fired if k in CHILD_FAIL + CHILD_BAD]
        missing = not w.sc.get("decoder_present", True)
        if (bad_child or missing) and p.exc is None:
            raise Violation("failure-counted", f"the decoder failed ({(bad_child or ['missing'])[0]}) but {p.name} reported success")
        # Errors while removing the temporary directory come after the exchange.
        errs = [e for e in p.user.get("io_errors", []) if e[1] not in ("listdir", "unlink", "rmdir")]
        if errs and p.exc is None:
            raise Violation("failure-counted", f"{p.name} met {errs[0]} while exchanging files and still reported success")
        if p.exc is None:
            continue
        calls = p.user.get("decodes", [])
        only_child = not errs
        if only_child and bad_child and bad_child[-1] in CHILD_FAIL:
            check_repro(w, p, calls)
        # Nothing private is left behind (unless the clean-up itself was hit by a fault).
        if not any(e[1] in ("listdir", "close_r", "stat", "unlink", "rmdir") for e in p.user.get("io_errors", [])) and not p.dead:
            left = []
            with kernel.outside():
                for d, dirs, files in os.walk(sim.root + "/tmp"):
                    left += [sim.rel(os.path.join(d, f)) for f in files + dirs]
            if left:
                raise Violation("temporary-files-left", f"{left[:4]} left behind after {type(p.exc).__name__}")
            sim.probe("temp_clean_checked")


def check_repro(w, p, calls):
    import stim
    b = (p.user.get("pending") or [None])[-1]
    if b is None:
        return
    circuit = b["circuit"]
    out = {}
    for name in ("repro.dem", "repro.dets", "repro.stim"):
        path = w.work + "/" + name
        if not os.path.exists(path):
            raise Violation("no-repro", f"the decoder process failed but {name} was not left in the working directory")
        out[name] = w.read_file(path).decode()
    try:
        ok = stim.DetectorErrorModel(out["repro.dem"]).approx_equals(circuit.detector_error_model(decompose_errors=True), atol=1e-12)
    except ValueError:
        ok = False
    if not ok:
        raise Violation("wrong-repro", "repro.dem is not the error model of the failing case")
    try:
        ok = stim.Circuit(out["repro.stim"]) == circuit
    except ValueError:
        ok = False
    if not ok:
        raise Violation("wrong-repro", "repro.stim is not the circuit of the failing case")
    lines = [x.split() for x in out["repro.dets"].split("\n") if x.strip()]
    want = [["shot"] + [f"D{k}" for k in np.nonzero(row)[0]] for row in b["det"]]
    if [[x[0]] + sorted(x[1:]) for x in lines] != [[x[0]] + sorted(x[1:]) for x in want]:
        raise Violation("wrong-repro", "repro.dets does not hold the shots of the failing case")
    w.sim.probe("repro_checked")


def final_C09(w):
    final_reads(w)


def gen_C10(seed):
    rng = random.Random(mix(seed, "gen", "C10"))
    probs = gen_decode_problems(rng, rng.choice([1, 2, 3]), wide=True)
    base_n = len(probs)
    for i in range(base_n):
        probs.append(same_shape_model(rng, probs[i], 2000 + i))
    # A model circuit that does not fit.
    bad = copy.deepcopy(probs[0])
    bad["uid"] = 3000
    if rng.random() < 0.5:
        bad["dets"] += 1
        bad["maps"] = bad["maps"] + [[]]
    else:
        bad["obs"] += 1
    probs.append(bad)
    sc = base("C10", seed, rng, problems=probs, sample_time=0.01)
    procs = []
    for q in range(rng.choice([1, 1, 2])):
        ops = []
        for _ in range(rng.choice([1, 2, 4])):
            i = rng.randrange(base_n)
            ops.append(dict(op="decode", problem=i, model=base_n + i if rng.random() < 0.4 else None,
                            decoder=rng.choice(["pymatching", "pymatching", "internal", "internal_correlated"]),
                            shots=batch_size(rng, probs[i], [1, 2, 5, 33, 100, 256, 1025])))
        procs.append(proc(f"p{q}", *ops))
    if rng.random() < 0.15:
        procs.append(proc("bad", dict(op="decode", problem=0, model=2 * base_n, shots=5,
                                      decoder=rng.choice(["pymatching", "internal"]))))
    if rng.random() < 0.15:
        procs.append(proc("unknown", dict(op="decode", problem=0, model=None, shots=5,
                                          decoder=rng.choice(["", "pymatching2", "PyMatching", "correlated", "internal_", "mwpm"]))))
    sc["phases"] = [dict(procs=procs)]
    return sc, dict(kinds=["child_exit", "enomem", "stall", "interrupt"], per=[0, 0, 1])


def setup_C10(w):
    def on_batch(w, p, pend, rec, line):
        op, r, model = rec
        if p.name in ("bad", "unknown"):
            return
        n = sum(b["shots"] for b in pend)
        if n != op["shots"] or any(b["uid"] != w.sc["problems"][op["problem"]]["uid"] for b in pend):
            raise Violation("wrong-shots", f"{op['shots']} shots of circuit {op['problem']} asked for; sampled "
                                           f"{[(b['uid'], b['shots']) for b in pend]}")
        if any(b["stale"] for b in pend):
            raise Violation("not-fresh", f"{p.name} sampled the same seeded shots of circuit {op['problem']} a second time")
        res = [w.batch_result(b) for b in pend]
        if any(x is None for x in res):
            raise Violation("undecoded-batch", f"{p.name} returned a count although the decoder gave no answer")
        want = sum(x[1] for x in res)
        if not (isinstance(r, (int, np.integer)) and not isinstance(r, bool)) or int(r) != want:
            raise Violation("wrong-count", f"{p.name} returned {r!r} for {op}; {want} of {n} shots are predicted correctly")
        w.sim.probe("counts_checked")
    w.on_batch = on_batch
    orig = w.spawn

    def spawn(spec):
        p = orig(spec)
        if spec["name"] in ("bad", "unknown"):
            p.user["may_fail"] = True
        return p
    w.spawn = spawn


def phase_C10(w, procs):
    for p in procs:
        if p.name in ("bad", "unknown") and p.exc is None:
            raise Violation("not-refused", "a count was returned for " +
                            ("a model circuit that does not fit" if p.name == "bad" else "an unknown decoder name"))
        if p.name in ("bad", "unknown"):
            w.sim.probe("refusals_checked")


GEN = dict(C01=gen_C01, C02=gen_C02, C03=gen_C03, C04=gen_C04, C05=gen_C05, C06=gen_C06, C07=gen_C07, C08=gen_C08, C09=gen_C09,
           C10=gen_C10)
def setup_C09(w):
    if w.sc.get("decoder_present", True):
        return
    orig = w.spawn

    def spawn(spec):
        p = orig(spec)
        p.user["may_fail"] = spec["name"] == "p"
        return p
    w.spawn = spawn


# ------------------------------------------------------------------------------------------------ C18, C21
def line_of(d, shots, correct, sec):
    return ",".join(str(x) for x in [d["data_width"], d["data_height"], d["rounds"], d["noise"], d["circuit_style"], d["preserved_observable"],
                                     d["code_distance"], d["num_qubits"], shots, correct, sec, d["decoder"], 2])


def gen_C18(seed):
    rng = random.Random(mix(seed, "gen", "C18"))
    probs = gen_problems(rng, rng.choice([1, 2, 3, 5]), decoders=("pymatching",))
    sc = base("C18", seed, rng, problems=probs)
    files = ["a.csv", "b.csv"][:rng.choice([1, 1, 2])]
    for f in files:
        rows = []
        for _ in range(rng.choice([1, 2, 4, 8])):
            n = max(1, int(10 ** rng.uniform(0, 8.3)))
            e = rng.choice([0, n, 1, min(n, int(10 ** rng.uniform(0, 8))), rng.randrange(n + 1), n - min(n, int(10 ** rng.uniform(0, 3)))])
            rows.append(line_of(rng.choice(probs)["desc"], n, n - min(n, e), round(rng.uniform(0, 1000), 3)))
        sc["files"][f] = "\n".join([",".join(HEADER)] + rows) + "\n"
    for k in range(rng.choice([1, 1, 2])):
        procs = [proc(f"r{k}", *[dict(op="read", files=files) for _ in range(rng.choice([1, 2, 3]))])]
        for q in range(rng.choice([0, 1, 1, 2])):
            procs.append(proc(f"c{k}.{q}", gen_collect(rng, len(probs), rng.choice(files + ["new.csv"]), discard_p=0.0)))
        if any(o.get("file") == "new.csv" for p in procs for o in p["ops"]):
            files = files + ["new.csv"] * ("new.csv" not in files)
        sc["phases"].append(dict(procs=procs, power_seed=rng.randrange(1 << 30), durable=rng.random() < 0.3))
    return sc, dict(kinds=["kill", "kill", "interrupt", "stall", "power"], per=[0, 1, 1, 2])


SCRIPTS = ["main_render_threshold_figure", "main_render_lambda_figure", "main_render_detection_fraction_figure", "plot_data"]


def figure_problems(rng, script):
    """Families of recorded problems like the ones the figures are made for, with their statistics."""
    noises = rng.sample([0.0001, 0.0002, 0.0005, 0.001, 0.0015, 0.002, 0.003, 0.005, 0.01, 0.02, 0.03], rng.choice([1, 2, 3, 5]))
    if rng.random() < 0.5:
        # Strengths next to one another, and ones with many digits.
        noises = sorted({*noises, *(round(p * (1 + rng.choice([0.1, 0.01, 1e-4, 1e-6])), 14) for p in rng.sample(noises, rng.choice([1, len(noises)])))})
    styles = ["surface_SD6", "surface_SI1000", "honeycomb_SD6", "honeycomb_SI1000", "honeycomb_EM3_v2", "honeycomb_PC3", "honeycomb_EM3"]
    cell = rng.choice([1, 3, 3, 5])
    mixed = rng.random() < 0.4
    out = []
    for style in rng.sample(styles, rng.choice([1, 2, 3])):
        surf = style.startswith("surface")
        decs = ["-"] if script == SCRIPTS[2] else rng.choice([["internal"], ["internal_correlated"], ["internal", "internal_correlated"], ["pymatching"]])
        obs = ["-"] if script == SCRIPTS[2] else list("XZ" if surf else "HV")
        if len(obs) == 2 and rng.random() < 0.25:
            obs = [rng.choice(obs)]
        for dist in rng.sample([3, 7, 11, 15, 19] if surf else [4, 8, 12, 16, 20], rng.choice([1, 2, 3, 4, 5])):
            u = dist // 4
            w, h, nq = (dist, dist, 2 * dist * dist - 1) if surf else (4 * u, 6 * u, (24 if "EM3" in style else 60) * u * u)
            # (The last cell may be a partial one.)
            rounds = [cell * dist - rng.choice([0, 0, rng.randrange(dist)])]
            if script == SCRIPTS[1] and mixed:
                rounds = [rng.choice([1, 2, 7, 30, 100, rounds[0]])]
            if script in ("plot_data", "main_render_threshold_figure") and rng.random() < 0.5:
                rounds = rng.sample([1, 7, 30, 100, rounds[0]], rng.choice([1, 1, 2]))
            for p, r in itertools.product(noises, rounds):
                for o in obs:
                    for dec in decs:
                        if rng.random() < 0.12:
                            continue
                        out.append(dict(data_width=w, data_height=h, rounds=r, noise=p, circuit_style=style, preserved_observable=o, code_distance=dist,
                                        num_qubits=nq, decoder="detection_fraction" if dec == "-" else dec))
    return out


def gen_C21(seed):
    rng = random.Random(mix(seed, "gen", "C21"))
    script = rng.choice(SCRIPTS + ["main_render_lambda_figure", "plot_data"])
    descs = figure_problems(rng, script)
    twin = None
    if script == SCRIPTS[1] and descs and rng.random() < 0.08:
        # Two experiments of one distance: the fits have room for one.
        d = rng.choice(descs)
        twin = dict(d, **rng.choice([dict(rounds=d["rounds"] + 1), dict(data_height=d["data_height"] + 6)]))
        descs.append(twin)
    sc = base("C21", seed, rng)
    names = rng.choice([("d/a.csv", "d/b.csv", "x.csv", "y.csv"), ("d/a.csv", "e/a.csv", "a.csv", "e/b.csv"), ("d/a.csv", "e/a.csv", "f/a.csv", "b.csv"),
                        ("d/.a.csv", "d/A b.csv", "d/run.1.csv", ".x.csv")])
    files = [f for f in names if rng.random() < 0.6] or [names[-1]]
    rows = {f: [] for f in files}
    law = {}
    for d in descs:
        # Error rates that fall (or do not fall) with the distance, with sampling noise.
        g = (d["circuit_style"], d["noise"], d["decoder"])
        law.setdefault(g, (rng.choice([1e-3, 0.01, 0.1, 0.3]), rng.choice([0.02, 0.1, 0.3, 0.8, -0.05, 0.0]), rng.choice([100, 10 ** 4, 10 ** 6, 10 ** 8])))
        amp, sl, n = law[g]
        n = max(10, int(n * rng.choice([1, 1, 0.1, 0.37])))
        cells = -(-d["rounds"] // d["code_distance"])
        p1 = min(0.5, amp * 2.718281828 ** (-sl * d["code_distance"]))
        tot = (1 - (1 - 2 * p1) ** cells) / 2
        e = max(0, min(n, int(n * tot * rng.uniform(0.8, 1.25)) + rng.choice([0, 0, 1])))
        e = rng.choice([e] * 12 + [0, n])
        parts = [(n, n - e)]
        if rng.random() < 0.4 and n > 20:
            a = rng.randrange(1, n)
            ea = min(e, a, rng.randrange(e + 1))
            ea = max(ea, e - (n - a))
            parts = [(a, a - ea), (n - a, (n - a) - (e - ea))]
        for s, c in parts:
            rows[rng.choice(files)].append(line_of(d, s, c, round(rng.uniform(0, 100), 3)))
    for f in files:
        rng.shuffle(rows[f])
        sc["files"][f] = "\n".join([",".join(HEADER)] + rows[f]) + ("\n" if rng.random() < 0.85 else "")
    sc["files"]["gen/keep"] = ""
    sc["files"]["d/notes.txt"] = "not,data\n"
    paths = files if script == "plot_data" else sorted({f.split("/")[0] for f in files if "/" in f}) + [f for f in files if "/" not in f]
    rng.shuffle(paths)
    op = dict(op="figure", script=script, paths=paths)
    if twin is not None:
        op["ambiguous"] = True
    if script == "plot_data" and rng.random() < 0.5:
        op["kw"] = rng.choice([dict(focus_on_threshold=False), dict(marker_offset=3), dict(legend=False), dict(show=True)])
    # Live collectors on the same problems (and detection fractions for their figure).
    some = [dict(d) for d in rng.sample(descs, min(len(descs), 3))]
    sc["problems"] = []
    for k, d in enumerate(some):
        if script == SCRIPTS[2]:
            d = dict(d, decoder="pymatching", preserved_observable="H")
        sc["problems"].append(dict(uid=1000 + k, desc=d, dets=rng.choice([1, 3, 5]), obs=1, p=0.1, maps=[[0]] * 5, hidden=rng.choice([0.02, 0.2, 0.5])))
    for pr in sc["problems"]:
        pr["maps"] = pr["maps"][:pr["dets"]]
    procs = [proc("fig", dict(op))]
    for q in range(rng.choice([0, 1, 1, 2]) if sc["problems"] else 0):
        g = gen_fraction if script == SCRIPTS[2] else gen_collect
        procs.append(proc(f"c{q}", g(rng, len(sc["problems"]), rng.choice(files), discard_p=0.0)))
    sc["phases"].append(dict(procs=procs, power_seed=rng.randrange(1 << 30), durable=rng.random() < 0.3))
    sc["phases"].append(dict(procs=[proc("fin", dict(op))]))
    sc["nofault"] = ["fin"]
    return sc, dict(kinds=["kill", "stall", "power", "eio", "eio_read", "eacces", "emfile"], per=[1, 1, 2])


def phase_C21(w, procs):
    for p in procs:
        # (What a collector beside it does about errors is C03's and C09's business.)
        errs = p.user.get("io_errors", []) if p.name in ("fig", "fin") else []
        if errs and p.exc is None:
            raise Violation("error-swallowed", f"{p.name} met {errs[0]} and still reported success")


SETUP = dict(C09=setup_C09, C06=setup_C06, C07=setup_C07, C08=setup_C08, C10=setup_C10)
GEN.update(C18=gen_C18, C21=gen_C21)
PHASE = dict(C21=phase_C21, C03=phase_C03, C06=phase_C06, C08=phase_C08, C09=phase_C09, C10=phase_C10)
FINAL = dict(C05=final_C05, C09=final_C09, C21=lambda w: None, C06=lambda w: None if w.sc.get("stub_counts") else final_reads(w))


# ------------------------------------------------------------------------------------------------ fault placement
def place_faults(rng, sc, spec, trace):
    """Chooses faults at calls that actually occur (biased towards calls that change state)."""
    out = []
    nofault = set(sc.get("nofault", []))
    pts = [t for t in trace if t[0] not in nofault and t[0] != "final-read" and
           (spec.get("only_prefix") is None or t[0].startswith(spec["only_prefix"]))]
    if not pts:
        return out
    for _ in range(rng.choice(spec["per"])):
        kind = rng.choice(spec["kinds"])
        applies = kernel.FAULT_APPLIES[kind]
        cand = [t for t in pts if t[2] in applies]
        if not cand:
            continue
        # First the kind of call, then one of its occurrences: rare calls get their share.
        calls = sorted({t[2] for t in cand})
        heavy = [c for c in calls if c in kernel.MUTATING or c in ("stdout", "popen", "sample")]
        call = rng.choice(heavy if heavy and rng.random() < 0.7 else calls)
        name, step, _ = rng.choice([t for t in cand if t[2] == call])
        arg = None
        if kind in ("short", "shortok", "full", "child_trunc", "child_garble", "child_exit", "child_signal", "child_partial_exit"):
            arg = rng.choice([0, 1, 2, 7, rng.randrange(200), rng.randrange(10 ** 6)])
        elif kind == "stall":
            arg = rng.choice([0.5, 30, 3600, 86400])
        elif kind == "child_slow":
            arg = rng.choice([5, 600, 7200])
        elif kind == "clock":
            arg = {"step": rng.choice([-1e6, -3600, -30, -0.5, 0.5, 30, 3600, 1e6]), "rate": rng.choice([1.0, 1.0, 0.9, 1.0005, 1.1])}
        out.append([name, step, kind, arg])
    return out


def variants(prop, seed, count):
    """Yields the scenarios of one seed: fault-free first, then with faults placed on the observed calls."""
    sc, spec = GEN[prop](seed)
    yield sc
    first = yield None
    rng = random.Random(mix(seed, "faults", prop))
    for k in range(count - 1):
        v = copy.deepcopy(sc)
        v["variant"] = k + 1
        if rng.random() < 0.5:
            v["seed"] = mix(seed, "variant", k) >> 1
        v["faults"] = place_faults(rng, v, spec, first.trace)
        yield v
