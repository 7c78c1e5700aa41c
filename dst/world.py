"""The simulated world of the data pipeline: problems, ground truth, ledger of records, workload operations."""
import csv
import io
import itertools
import math
import os
import random

import numpy as np
import stim

from . import decoder_stub, figures, kernel, loader
from .kernel import Sim, SimBug, SimKilled, mix, real_open

HEADER = ["data_width", "data_height", "rounds", "noise", "circuit_style", "preserved_observable", "code_distance",
          "num_qubits", "num_shots", "num_correct", "total_processing_seconds", "decoder", "version"]


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(msg)
        self.cls = cls
        self.msg = msg


# ------------------------------------------------------------------------------------------------ problems
def make_circuit(prob) -> stim.Circuit:
    """A tiny memory experiment: detector i fires iff error i occurred, flipping the observables in maps[i].

    prob["uid"] is stored in a qubit coordinate so that the simulator can tell which circuit is sampled.
    """
    c = stim.Circuit()
    c.append("QUBIT_COORDS", [0], [float(prob["uid"])])
    n = prob["dets"]
    if n:
        c.append("X_ERROR", range(n), prob.get("p", 0.1))
        c.append("M", range(n))
    else:
        c.append("M", [0])
    for i in range(n):
        c.append("DETECTOR", [stim.target_rec(i - n)], [i, 0, 0])
    for j in range(prob["obs"]):
        c.append("OBSERVABLE_INCLUDE", [stim.target_rec(i - n) for i in range(n) if j in prob["maps"][i]], j)
    return c


def uid_of(circuit: stim.Circuit):
    for inst in circuit:
        if inst.name == "QUBIT_COORDS":
            a = inst.gate_args_copy()
            if len(a) == 1:
                return int(a[0])
        break
    return None


def matching_prediction(prob, det: np.ndarray) -> np.ndarray:
    """What any minimum weight matching decoder must answer for make_circuit(prob)."""
    out = np.zeros((det.shape[0], prob["obs"]), dtype=np.bool_)
    for i in range(prob["dets"]):
        for j in prob["maps"][i]:
            out[:, j] ^= det[:, i]
    return out


def desc_key(d, *, fraction=False):
    return (int(d["data_width"]), int(d["data_height"]), int(d["rounds"]), float(d["noise"]), d["circuit_style"],
            "-" if fraction else d["preserved_observable"], int(d["code_distance"]), int(d["num_qubits"]),
            "detection_fraction" if fraction else d["decoder"])


def obj_key(k):
    return (k.data_width, k.data_height, k.rounds, float(k.noise), k.circuit_style, k.preserved_observable,
            k.code_distance, k.num_qubits, k.decoder)


def gen_problems(rng: random.Random, count: int, *, decoders=("pymatching", "internal", "internal_correlated"),
                 min_obs=0, fixed=None):
    """Problems that often differ in a single field only."""
    noises = [0.001, 0.0001, 1e-05, 0.0015, 0.03, 0.1 + 0.2, 1 / 3, 2.5e-07, 0.001 + 1e-16, 0.00100001, 0.0]
    base = dict(data_width=rng.choice([2, 4, 12]), data_height=rng.choice([6, 12, 30]), rounds=rng.choice([1, 12, 334]),
                noise=rng.choice(noises), circuit_style=rng.choice(["honeycomb_SD6", "honeycomb_EM3_v2", "surface_SI1000"]),
                preserved_observable=rng.choice("HVXZ"), code_distance=rng.choice([2, 4, 10]),
                num_qubits=rng.choice([24, 60, 241]), decoder=rng.choice(decoders))
    out = []
    seen = set()
    tries = 0
    while len(out) < count and tries < 200:
        tries += 1
        d = dict(base)
        for _ in range(rng.choice([0, 1, 1, 1, 2]) if out else 0):
            f = rng.choice(sorted(base))
            if f == "noise":
                d[f] = rng.choice(noises)
            elif f == "circuit_style":
                d[f] = rng.choice(["honeycomb_SD6", "honeycomb_EM3", "honeycomb_EM3_v2", "surface_SD6", "surface_SI1000"])
            elif f == "preserved_observable":
                d[f] = rng.choice("HVXZ")
            elif f == "decoder":
                d[f] = rng.choice(decoders)
            else:
                d[f] = rng.choice([d[f] + 1, d[f] * 2, d[f] * 10, max(1, d[f] // 2)])
        if desc_key(d) in seen:
            continue
        seen.add(desc_key(d))
        n = rng.choice([0, 1, 1, 2, 3, 5, 9]) if min_obs == 0 else rng.choice([1, 1, 2, 3, 5, 9])
        obs = rng.choice([0, 1, 1, 1, 2, 3]) if min_obs == 0 else rng.choice([1, 1, 1, 2, 3])
        out.append(dict(uid=1000 + len(out), desc=d, dets=n, obs=obs, p=rng.choice([0.01, 0.1, 0.3]),
                        maps=[sorted(j for j in range(obs) if rng.random() < 0.6) for _ in range(n)],
                        hidden=rng.choice([0.0, 0.02, 0.2, 0.5, 1.0])))
    return out


# ------------------------------------------------------------------------------------------------ reference file reader
class Parsed:
    def __init__(self):
        self.records = []      # (key, shots, correct, seconds)
        self.maybe = None      # a last record that only lacks its newline
        self.torn = 0
        self.garbage = None
        self.lines = 0


def parse_record(fields, header=None):
    row = dict(zip(header or HEADER, fields))
    key = desc_key(row)
    return key, int(row["num_shots"]), int(row["num_correct"]), float(row["total_processing_seconds"])


def ref_parse(data: bytes) -> Parsed:
    """Independent reading of an output file: whole records only."""
    r = Parsed()
    text = data.decode("utf-8", "replace").replace("\r\n", "\n")
    *lines, tail = text.split("\n")
    r.lines = len(lines)
    header = None
    for k, line in enumerate(lines + [tail]):
        is_tail = k == len(lines)
        if line == "":
            continue
        fields = next(csv.reader([line]))
        if header is None:
            if is_tail:
                return r                    # cut inside the header
            if sorted(fields) != sorted(HEADER):
                r.garbage = f"first line is not the header: {line[:100]!r}"
                return r
            header = fields
            continue
        if fields == header:
            continue
        if len(fields) < len(header) or fields[-1] == "":
            r.torn += 1
            continue
        try:
            if len(fields) != len(header):
                raise ValueError(len(fields))
            rec = parse_record(fields, header)
        except ValueError:
            r.garbage = f"line {k} is not a record: {line[:200]!r}"
            return r
        if is_tail:
            r.maybe = rec
        else:
            r.records.append(rec)
    return r


def totals(records):
    t = {}
    for key, s, c, sec in records:
        a = t.setdefault(key, [0, 0, []])
        a[0] += s
        a[1] += c
        a[2].append(sec)
    return {k: (a[0], a[1], math.fsum(a[2])) for k, a in t.items()}


def same_totals(got, want, *, seconds=True):
    if set(got) != set(want):
        return False
    for k in got:
        if got[k][0] != want[k][0] or got[k][1] != want[k][1]:
            return False
        if seconds and not math.isclose(got[k][2], want[k][2], rel_tol=1e-9, abs_tol=1e-9):
            return False
    return True


def diff_totals(got, want):
    out = []
    for k in sorted(set(got) | set(want), key=repr):
        if got.get(k) != want.get(k):
            out.append(f"{k}: got {got.get(k)}, expected {want.get(k)}")
    return "; ".join(out[:3])


# ------------------------------------------------------------------------------------------------ the world
# Properties that take the success count of a batch as given (C01, C04, C08 and C10 recompute it).
TAKES_COUNTS = {"C02", "C03", "C05", "C06", "C07", "C09", "C18", "C21"}


class World:
    def __init__(self, scenario):
        self.sc = scenario
        self.sim = Sim(scenario)
        self.seed = self.sim.seed
        self.probs = {p["uid"]: p for p in scenario.get("problems", [])}
        self.announced = {}        # path -> list of (key, shots, correct, seconds) that must be in it
        self.reads = []
        self.sample_no = 0
        self.streams = set()       # explicitly seeded streams of shots already used
        self.on_batch = None       # extra per-announcement check of a property
        self.calls = []            # decoder invocations
        self.check_truth = True

    def __enter__(self):
        self.sim.__enter__()
        s = self.sim
        s.sampler = self.sample
        s.on_stdout_line = self.on_line
        if self.sc.get("prop") in TAKES_COUNTS:
            loader._Finder.on_exec = self.tap_counts
        if self.sc.get("prop") == "C21":
            figures.install()
        s.decoder = lambda p, args, shell, cwd, f: decoder_stub.run(s, p, args, shell, cwd, f, self.on_decoder_call)
        self.work = s.root + "/work"
        if self.sc.get("decoder_present", True):
            with real_open(self.work + "/internal_decoder.binary", "wb") as f:
                f.write(b"#!stub\n")
            s.durable[self.work + "/internal_decoder.binary"] = 7
        for rel, content in self.sc.get("files", {}).items():
            path = self.work + "/" + rel
            os.makedirs(os.path.dirname(path), exist_ok=True)
            with real_open(path, "wb") as f:
                f.write(content.encode())
            s.durable[path] = len(content.encode())
            if not path.endswith(".csv"):
                continue
            pr = ref_parse(content.encode())
            self.announced[path] = list(pr.records) + ([pr.maybe] if pr.maybe else [])
        return self

    def __exit__(self, *a):
        loader._Finder.on_exec = None
        figures.uninstall()
        self.sim.__exit__(*a)

    def tap_counts(self, module):
        """Notes what the counting function returned, for properties that are not about counting."""
        f = getattr(module, "sample_decode_count_correct", None)
        if module.__name__ != "decoding" or f is None:
            return

        def sample_decode_count_correct(*a, **kw):
            p = kernel.current_proc()
            n = len(p.user.get("pending") or [])
            r = f(*a, **kw)
            new = (p.user.get("pending") or [])[n:]
            for b in new:
                b["counted"] = 0
            if new:
                new[0]["counted"] = r
            return r
        module.sample_decode_count_correct = sample_decode_count_correct

    # ------------------------------------------------------------ seams
    def sample(self, p, circuit, shots, stream=None):
        """Draws shots with known hidden logical flips."""
        uid = uid_of(circuit)
        self.sample_no += 1
        rs = np.random.Generator(np.random.PCG64(mix(self.seed, "sample", p.name, p.user.setdefault("nsample", 0))))
        p.user["nsample"] += 1
        stale = False
        if stream is not None:
            rs = np.random.Generator(np.random.PCG64(mix(self.seed, "stream", uid, *stream)))
            stale = (uid, *stream) in self.streams
            self.streams.add((uid, *stream))
        nd, no = circuit.num_detectors, circuit.num_observables
        prob = self.probs.get(uid)
        det = rs.random((shots, nd)) < (0.3 if nd < 50 else 0.05)
        hidden_p = prob["hidden"] if prob is not None else self.sc.get("hidden", 0.2)
        t0 = self.sim.now
        self.sim.now += 0.001 + float(rs.random()) * self.sc.get("sample_time", 1.0)
        hidden = (rs.random((shots, no)) < hidden_p) & (rs.random((shots, 1)) < 0.8)
        if prob is not None:
            decoder = p.user.get("decoder_of", {}).get(uid, prob["desc"]["decoder"])
        else:
            decoder = p.user.get("cur_decoder", "internal")
        mprob = p.user.get("model_prob") or prob
        if decoder == "pymatching" and mprob is not None:
            obs = matching_prediction(mprob, det) ^ hidden
        else:
            obs = decoder_stub.predict(det, no, decoder == "internal_correlated") ^ hidden
        b = dict(uid=uid, shots=shots, det=det, obs=obs, decoder=decoder, preds=None, t0=t0, t1=self.sim.now, call=None,
                 circuit=circuit, n=p.user["nsample"], stale=stale)
        if decoder == "pymatching" and mprob is not None:
            b["preds"] = matching_prediction(mprob, det)
        p.user.setdefault("pending", []).append(b)
        return det, obs

    def on_decoder_call(self, p, info):
        self.calls.append(info)
        info["proc"] = p.name
        info["t0"] = self.sim.now
        p.user.setdefault("decodes", []).append(info)
        pend = p.user.get("pending") or []
        if pend:
            pend[-1]["call"] = info

    def batch_result(self, b, fraction=False):
        """(shots, correct) the code has to record for a sampled batch; None if it was not (correctly) decoded."""
        if fraction:
            return b["det"].size, int(b["det"].size - np.count_nonzero(b["det"]))
        preds = b["preds"]
        if preds is None:
            c = b["call"]
            if c is None or not c["ok"] or c.get("preds") is None:
                return None
            preds = c["preds"]
        if preds.shape != b["obs"].shape:
            return None
        if "counted" in b:
            return b["shots"], b["counted"]
        return b["shots"], int(np.count_nonzero(np.all(preds == b["obs"], axis=1)))

    # ------------------------------------------------------------ announcements
    def file_of(self, p):
        return p.user.get("out")

    def read_file(self, path):
        try:
            with real_open(path, "rb") as f:
                return f.read()
        except FileNotFoundError:
            return b""

    def on_line(self, p, line):
        mode = p.user.get("mode")
        if mode == "aggregate":
            p.user.setdefault("agg_lines", []).append(line)
            return
        if mode not in ("collect", "fraction"):
            return
        if line == "":
            return
        if line == ",".join(HEADER):
            p.user["header_printed"] = True
            return
        if self.sc.get("prop") == "C01" and not p.user.get("header_printed"):
            raise_later(p, Violation("no-header", f"the printed records are not a readable data file: no header before {line[:120]!r}"))
            return
        fields = next(csv.reader([line]))
        try:
            if len(fields) != len(HEADER):
                raise ValueError()
            rec = parse_record(fields)
        except ValueError:
            raise_later(p, Violation("malformed-announcement", f"printed record is malformed: {line[:200]!r}"))
            return
        p.user.setdefault("records", []).append((rec, self.sim.now))
        try:
            self.check_announcement(p, rec, line)
        except Violation as v:
            raise_later(p, v)

    def check_announcement(self, p, rec, line):
        key, shots, correct, seconds = rec
        fraction = p.user["mode"] == "fraction"
        pend = p.user.get("pending") or []
        p.user["pending"] = []
        p.user["announced_batches"] = p.user.get("announced_batches", 0) + 1
        path = p.user.get("out")
        if self.check_truth:
            if not pend:
                raise Violation("phantom-batch", f"a record was announced without sampling: {line[:200]!r}")
            uids = {b["uid"] for b in pend}
            if len(uids) > 1:
                raise Violation("misattributed", f"one record covers several circuits {sorted(uids, key=str)}: {line[:200]!r}")
            prob = self.probs.get(pend[0]["uid"])
            want = desc_key(prob["desc"], fraction=fraction) if prob is not None else p.user.get("expect_key")
            if want is not None and key != want:
                raise Violation("misattributed", f"record announced for {key}, but the sampled circuit belongs to {want}")
            res = [self.batch_result(b, fraction) for b in pend]
            if any(r is None for r in res):
                raise Violation("undecoded-batch", f"a record was announced although its batch was not decoded: {line[:200]!r}")
            tot = (sum(r[0] for r in res), sum(r[1] for r in res))
            if tot != (shots, correct):
                raise Violation("wrong-counts", f"announced {shots} shots and {correct} successes, "
                                                f"but {tot[0]} were sampled and {tot[1]} decoded correctly")
        if self.on_batch is not None:
            self.on_batch(self, p, pend, rec, line)
        if path is not None:
            self.discarded(p, path)
            self.announced.setdefault(path, []).append(rec)
            self.check_file(path, f"when {p.name} announced {line[:120]!r}")

    def check_file(self, path, when):
        """Everything announced is in the file, and nothing else."""
        pr = ref_parse(self.read_file(path))
        if pr.garbage:
            raise Violation("corrupt-file", f"{self.sim.rel(path)} is corrupt {when}: {pr.garbage}")
        have = list(pr.records) + ([pr.maybe] if pr.maybe is not None else [])
        left = [h for h in have]
        for rec in self.announced.get(path, []):
            m = next((h for h in left if h[:3] == rec[:3] and math.isclose(h[3], rec[3], rel_tol=1e-9, abs_tol=1e-12)), None)
            if m is None:
                raise Violation("announced-not-in-file",
                                f"{when}, the record {rec} announced earlier is not in {self.sim.rel(path)}")
            left.remove(m)
        # What remains must be batches in flight: sampled and decoded, but not announced.
        inflight = []
        for q in self.sim.procs:
            if q.user.get("out") == path or path in q.user.get("outs", ()):
                for o in q.user.get("old_pending", []) + [(q.user.get("mode"), path, q.user.get("pending") or [])]:
                    mode, opath, pend = o
                    if opath != path or not pend:
                        continue
                    k = self.inflight_record(q, mode, pend)
                    if k is not None:
                        inflight.append(k)
        inflight += [tuple(x) for x in self.sim.scenario_state.get(("extra", path), [])]
        for h in left:
            if h[:3] in inflight:
                inflight.remove(h[:3])
            elif self.check_truth:
                raise Violation("alien-record", f"{when}, {self.sim.rel(path)} has a record that no batch produced "
                                                f"(or produced only once): {h}")
        return pr

    # ------------------------------------------------------------ operations run inside a simulated process
    def begin(self, p, mode, out):
        if p.user.get("pending") and p.user.get("out"):
            p.user.setdefault("old_pending", []).append((p.user.get("mode"), p.user.get("out"), p.user["pending"]))
        p.user["pending"] = []
        p.user["header_printed"] = False
        p.user["mode"] = mode
        p.user["out"] = out
        if out is not None:
            p.user.setdefault("outs", []).append(out)
        p.user["t_begin"] = self.sim.now
        p.user["records"] = []

    def abspath(self, rel):
        return None if rel is None else os.path.normpath(self.work + "/" + rel)

    def discard(self, p, path):
        """The code was told to throw previous data away: until it has done so, the old records may be there."""
        st = self.sim.scenario_state
        extra = st.get(("extra", path), []) + [r[:3] for r in self.announced.get(path, [])]
        self.announced[path] = []
        for q in self.sim.procs:
            for mode, opath, pend in q.user.get("old_pending", []) + (
                    [(q.user.get("mode"), q.user.get("out"), q.user.get("pending") or [])] if q.done else []):
                if opath == path and pend:
                    k = self.inflight_record(q, mode, pend)
                    if k is not None:
                        extra.append(k)
            q.user["old_pending"] = [o for o in q.user.get("old_pending", []) if o[1] != path]
            if q.done and q.user.get("out") == path:
                q.user["pending"] = []
        st[("extra", path)] = extra
        p.user["discarding"] = path

    def discarded(self, p, path):
        if p.user.pop("discarding", None) == path:
            self.sim.scenario_state.pop(("extra", path), None)

    def inflight_record(self, q, mode, pend):
        fr = mode == "fraction"
        res = [self.batch_result(b, fr) for b in pend]
        if any(r is None for r in res):
            return None
        prob = self.probs.get(pend[0]["uid"])
        k = desc_key(prob["desc"], fraction=fr) if prob is not None else q.user.get("expect_key")
        return k, sum(r[0] for r in res), sum(r[1] for r in res)

    def op_collect(self, p, op):
        cd = p.modules.load("collect_data")
        self.begin(p, "collect", self.abspath(op["file"]))
        problems = [self.decoding_problem(cd, self.sc["problems"][i]) for i in op["problems"]]
        if op.get("discard") and op["file"] is not None:
            self.discard(p, p.user["out"])
        kw = {}
        if op.get("max_batch") is not None:
            kw["max_batch"] = op["max_batch"]
        if op.get("max_std") is not None:
            kw["max_sample_std_dev"] = op["max_std"]
        cd.collect_simulated_experiment_data(
            problems, min_shots=op["min_shots"], max_shots=op["max_shots"], min_seen_logical_errors=op["min_errors"],
            out_path=op["file"], discard_previous_data=bool(op.get("discard")), **kw)
        self.end_collect(p)

    def op_fraction(self, p, op):
        cd = p.modules.load("collect_data")
        self.begin(p, "fraction", self.abspath(op["file"]))
        problems = [self.decoding_problem(cd, self.sc["problems"][i]) for i in op["problems"]]
        if op.get("discard") and op["file"] is not None:
            self.discard(p, p.user["out"])
        cd.collect_detection_fraction_data(problems, shots=op["shots"], out_path=op["file"],
                                           discard_previous_data=bool(op.get("discard")))
        self.end_collect(p)

    def end_collect(self, p):
        """A collector returned normally: every batch it sampled has been announced and recorded."""
        if p.user.get("pending"):
            raise_later(p, Violation("silent-loss", f"{p.name} returned normally but never announced a sampled batch"))
        if p.user.get("out") is not None:
            self.discarded(p, p.user["out"])
            self.quiet_check(p, p.user["out"], f"after {p.name} returned")
        p.user["mode"] = None

    def quiet_check(self, p, path, when):
        try:
            self.check_file(path, when)
        except Violation as v:
            raise_later(p, v)

    def decoding_problem(self, cd, prob):
        d = prob["desc"]
        desc = cd.DecodingProblemDesc(**d)

        def maker():
            q = kernel.current_proc()
            if q is not None and q.dead:
                raise SimKilled()
            self.sim.now += self.sc.get("maker_time", 0.0)
            return make_circuit(prob)
        return cd.DecodingProblem(desc, maker)

    def op_read(self, p, op):
        cd = p.modules.load("collect_data")
        self.begin(p, "read", None)
        with kernel.outside():
            names = [f for f in op["files"] if os.path.exists(self.abspath(f))]
        paths = [self.abspath(f) for f in names]
        before = {q: ref_parse(self.read_file(q)) for q in paths}
        data = cd.read_recorded_data(*names)
        after = {q: ref_parse(self.read_file(q)) for q in paths}
        got = {obj_key(k): (v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in data.data.items()}
        p.user["read"] = got
        self.reads.append(dict(proc=p.name, paths=paths, got=got, before=before, after=after))
        try:
            self.check_snapshot(p.name, "read", paths, got, before, after)
            self.check_analysis(p, data, got)
        except Violation as v:
            raise_later(p, v)

    def check_analysis(self, p, data, got):
        """Grouping, merging and filtering what was read conserve the statistics."""
        if self.sc.get("prop") == "C18":
            return self.check_estimates(p, data, got)
        if self.sc.get("prop") != "C05":
            return
        rng = random.Random(mix(self.seed, "analysis", p.name, len(self.reads)))
        f = rng.choice(["noise", "decoder", "circuit_style", "preserved_observable", "rounds", "data_width", "data_height", "code_distance", "num_qubits"])
        blank = {"noise": 0.0, "decoder": "x", "circuit_style": "x", "preserved_observable": "x"}.get(f, 1)
        key = rng.choice([lambda e: getattr(e, f), lambda e: e.with_changes(**{f: blank}),
                          lambda e: (e.circuit_style, e.preserved_observable, e.decoder), lambda e: 0])
        plain = lambda k: obj_key(k) if hasattr(k, "data_width") else k
        view = lambda d: {obj_key(k): (v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in d.items()}
        want = {}
        for k in data.data:
            want.setdefault(plain(key(k)), {})[obj_key(k)] = got[obj_key(k)]
        groups = data.grouped_by(key)
        if {plain(k): view(g.data) for k, g in groups.items()} != want:
            raise Violation("grouping", f"grouping by {f} loses or mixes up statistics")
        merged = data.merged_by(key)
        m = {plain(k): (v.num_shots, v.num_correct, v.total_processing_seconds) for k, v in merged.items()}
        w = {k: tuple(sum(x[i] for x in g.values()) for i in range(3)) for k, g in want.items()}
        if not same_totals(m, w):
            raise Violation("merging", f"merging by {f} loses or mixes up statistics: {diff_totals(m, w)}")
        for k, v in merged.items():
            if v.num_errors != v.num_shots - v.num_correct or (v.num_shots and not math.isclose(
                    v.logical_error_rate, (v.num_shots - v.num_correct) / v.num_shots, abs_tol=1e-12)):
                raise Violation("error-rate", f"{v.num_shots} shots and {v.num_correct} successes reported as {v.num_errors} errors, "
                                              f"rate {v.logical_error_rate}")
        if data.data:
            pick = rng.choice(sorted(got, key=repr))
            part = view(data.filter(lambda e: obj_key(e) == pick or key(e) == 0).data)
            if part != {k: v for k, v in got.items() if k == pick or any(key(e) == 0 and obj_key(e) == k for e in data.data)}:
                raise Violation("filtering", "filtering loses or mixes up statistics")
        if view(data.data) != got:
            raise Violation("analysis-side-effect", f"grouping, merging or filtering changed the data: {diff_totals(view(data.data), got)}")
        self.sim.probe("analyses_checked")

    def check_snapshot(self, who, what, paths, got, before, after):
        """Totals equal those of some prefix of each file between `before` and `after`."""
        ranges = []
        for q in paths:
            b, a = before[q], after[q]
            if a.garbage or b.garbage:
                raise Violation("corrupt-file", f"{self.sim.rel(q)}: {a.garbage or b.garbage}")
            options = []
            base = b.records
            recs = a.records if len(a.records) >= len(base) else base
            for n in range(len(base), len(recs) + 1):
                options.append(recs[:n])
            if a.maybe is not None:
                options.append(recs + [a.maybe])
            ranges.append(options)
        self.sim.probe("read_totals_checked")
        n = math.prod(len(o) for o in ranges)
        if n > 1:
            self.sim.probe("read_of_growing_file")
        if n > 5000:
            return
        import itertools
        for combo in itertools.product(*ranges):
            if same_totals(got, totals([r for c in combo for r in c])):
                if n > 1 and any(0 < len(c) - len(o[0]) for c, o in zip(combo, ranges)):
                    self.sim.probe("read_saw_new_records")
                return
        want = totals([r for o in ranges for r in o[0]])
        raise Violation("wrong-totals", f"{what} by {who} of {[self.sim.rel(q) for q in paths]} disagrees with the records "
                                        f"in the file(s): {diff_totals(got, want)}")

    def check_estimates(self, p, data, got):
        """Intervals and remaining work reported for what was read."""
        rng = random.Random(mix(self.seed, "estimates", p.name, len(self.reads)))
        for k, v in data.data.items():
            n, correct, sec = got[obj_key(k)]
            e = n - correct
            ratio = rng.choice([1e-3, 1e-3, 1e-2, 0.1, 0.5, 0.9, 1e-6, 1e-12])
            lo, hi = v.likely_error_rate_bounds(desired_ratio_vs_max_likelihood=ratio)
            a, b = figures.interval(n, e, ratio)
            step = 2 / (100 * n) + 1e-9
            if not (abs(lo - a) <= step and abs(hi - b) <= step):
                raise Violation("wrong-interval", f"interval of {e} errors in {n} shots at ratio {ratio} is {lo}..{hi} instead of {a}..{b}")
            if not lo <= e / n + 1e-15 or not e / n <= hi + 1e-15:
                raise Violation("wrong-interval", f"interval {lo}..{hi} of {e} errors in {n} shots does not contain the observed rate")
            if v.num_errors != e or not math.isclose(v.logical_error_rate, e / n, rel_tol=1e-12):
                raise Violation("wrong-rate", f"{n} shots with {correct} successes: {v.num_errors} errors, rate {v.logical_error_rate}")
            self.sim.probe("intervals_checked")
            ms = rng.choice([n, n + 1, max(0, n - 1), 2 * n, 10 ** 8])
            me = rng.choice([e, e + 1, max(0, e - 1), 2 * e + 1, 10 ** 6])
            br = rng.choice([0.48, 1.0, 0.05, e / n, 2.0])
            w = v.remaining_work(max_shots=ms, max_errors=me, threshold_circuit_breaker=br)
            done = n >= ms or e >= me or (e / n >= br and n >= 10)
            times = [(ms - n) * sec / n] + ([(me - e) * sec / e] if e else [])
            want = (True, 0, 0, 0) if done else (False, ms - n, me - e, min(times))
            have = (bool(w.finished), w.remaining_shots, w.remaining_errors, w.remaining_time)
            if have[:3] != want[:3] or not math.isclose(have[3], want[3], rel_tol=1e-9, abs_tol=1e-9):
                raise Violation("wrong-remaining-work", f"{n} shots, {e} errors, {sec} s with limits {ms}, {me}, {br}: {have} instead of {want}")
            self.sim.probe("remaining_work_checked")

    def op_figure(self, p, op):
        """Renders figures from recorded data; what they show must be what was recorded."""
        import sys
        self.begin(p, "figure", None)
        script = op["script"]
        if op.get("ambiguous"):
            p.user["may_fail"] = True
        m = p.modules.load("plotting" if script == "plot_data" else script)
        cd = p.modules.load("collect_data")
        files = self.dir_files(op["paths"])
        p.user["streams"] = []
        p.user["figs"] = []
        if script == "plot_data":
            data = cd.read_recorded_data(*op["paths"])
            m.plot_data(data, title="T", out_path="gen/plot.png", **op.get("kw", {}))
        else:
            p.argv = [script + ".py", *op["paths"]]
            sys.argv = p.argv
            m.main()
        sys.stdout.flush()
        p.user["mode"] = None
        try:
            self.check_figures(p, op, files)
        except Violation as v:
            raise_later(p, v)

    def check_figures(self, p, op, files):
        seen = {}
        for path, chunks in p.user.pop("streams"):
            seen[path] = b"".join(chunks)
        missing = [f for f in files if f not in seen]
        if missing:
            raise Violation("file-ignored", f"{op['script']} did not read {[self.sim.rel(f) for f in missing]}")
        parsed = [ref_parse(b) for f, b in sorted(seen.items()) if f.endswith(".csv")]
        if any(q.garbage for q in parsed):
            raise Violation("corrupt-file", f"a data file is corrupt: {[q.garbage for q in parsed if q.garbage][0]}")
        base = [r for q in parsed for r in q.records]
        maybe = [q.maybe for q in parsed if q.maybe is not None]
        cands = [totals(base + [m for m, use in zip(maybe, bits) if use]) for bits in itertools.product([1, 0], repeat=len(maybe))]
        try:
            n = figures.check_saved(op["script"], p.user["figs"], cands)
        except figures.Mismatch as e:
            raise Violation(e.cls, e.msg[:1500])
        self.sim.probe("figures_checked", n)
        self.sim.probe("figure_problems_shown", len(cands[0]))

    def dir_files(self, paths):
        """The data files named directly or lying in the named directories."""
        out = []
        with kernel.outside():
            for rel in paths:
                a = self.abspath(rel)
                out.extend([a + "/" + f for f in os.listdir(a) if f.endswith(".csv")] if os.path.isdir(a) else [a])
        return sorted(out)

    def op_aggregate(self, p, op):
        import sys
        m = p.modules.load("aggregate_csv_data")
        self.begin(p, "aggregate", None)
        p.user["agg_lines"] = []
        files = self.tree_files(op["paths"])
        before = {q: ref_parse(self.read_file(q)) for q in files}
        p.argv = ["aggregate_csv_data.py", *op["paths"]]
        sys.argv = p.argv
        m.main()
        sys.stdout.flush()
        # Files created meanwhile may or may not be included.
        files2 = self.tree_files(op["paths"])
        after = {q: ref_parse(self.read_file(q)) for q in files2}
        for q in files2:
            if q not in before:
                before[q] = Parsed()
        text = "\n".join(p.user["agg_lines"]) + "\n"
        p.user["agg_text"] = text
        p.user["mode"] = None
        try:
            pr = ref_parse(text.encode())
            if pr.garbage or pr.torn:
                raise Violation("aggregate-malformed", f"aggregated output is malformed: {pr.garbage or text[:200]!r}")
            keys = [r[0] for r in pr.records]
            if len(set(keys)) != len(keys):
                raise Violation("aggregate-split", "aggregated output has several records for one problem")
            got = totals(pr.records)
            p.user["agg"] = got
            self.check_snapshot(p.name, "aggregation", files2, got, before, after)
        except Violation as v:
            raise_later(p, v)
        if op.get("save"):
            path = self.abspath(op["save"])
            with kernel.outside():
                os.makedirs(os.path.dirname(path), exist_ok=True)
                with real_open(path, "wb") as f:
                    f.write(text.encode())
            self.announced[path] = list(pr.records)

    def tree_files(self, paths):
        out = []
        with kernel.outside():
            for rel in paths:
                a = self.abspath(rel)
                if os.path.isdir(a):
                    for d, dirs, files in os.walk(a):
                        out.extend(os.path.join(d, f) for f in files if f.endswith(".csv"))
                else:
                    out.append(a)
        return sorted(out)

    def op_worker(self, p, op):
        """One worker of the paper's collection script, started from its command line."""
        import sys
        m = p.modules.load("main_collect_all")
        self.begin(p, "collect", self.abspath(op["file"]))
        sdir = "-"
        if op.get("surface"):
            sdir = "surf"
            rel = "/{}_{}/d{}_p0.0.stim".format(*op["surface"])
            dst = self.work + "/" + sdir + rel
            if not os.path.exists(dst):
                os.makedirs(os.path.dirname(dst), exist_ok=True)
                with real_open(loader.SRC + "/paper/surface_code_circuits" + rel, "rb") as f:
                    text = f.read()
                with real_open(dst, "wb") as f:
                    f.write(text)
                self.sim.durable[dst] = len(text)
        argv = ["main_collect_all.py", "--surface_code_problems_directory", sdir, "--problem_id", str(op["problem_id"])]
        for k, name in [("max_shots", "max_shots"), ("max_errors", "max_errors"), ("max_batch", "max_batch_size"), ("case_reduction", "case_reduction")]:
            if op.get(k) is not None:
                argv += ["--" + name, str(op[k])]
        if op["file"] is not None:
            argv += ["--out_file", op["file"]]
        p.argv = argv
        sys.argv = argv
        p.user["expect_key"] = tuple(op["expect"])
        p.user["cur_decoder"] = op["expect"][-1]
        m.main()
        self.end_collect(p)

    def op_decode(self, p, op):
        dec = p.modules.load("decoding")
        self.begin(p, "decode", None)
        prob = self.sc["problems"][op["problem"]]
        circuit = make_circuit(prob)
        model = None
        p.user["model_prob"] = None
        p.user["decoder_of"] = {prob["uid"]: op["decoder"]}
        if op.get("model") is not None:
            mp = self.sc["problems"][op["model"]]
            model = make_circuit(mp)
            p.user["model_prob"] = mp
        kw = dict(circuit=circuit, num_shots=op["shots"], decoder=op["decoder"])
        if model is not None:
            kw["model_circuit"] = model
        r = dec.sample_decode_count_correct(**kw)
        p.user.setdefault("decode_results", []).append((op, r))
        if self.on_batch is not None:
            try:
                self.on_batch(self, p, p.user.get("pending") or [], (op, r, model if model is not None else circuit), None)
            except Violation as v:
                raise_later(p, v)

    # ------------------------------------------------------------ running
    def proc_main(self, ops):
        def main(p):
            for op in ops:
                getattr(self, "op_" + op["op"])(p, op)
        return main

    def spawn(self, spec):
        return self.sim.spawn(spec["name"], self.proc_main(spec["ops"]), faults=self.sc.get("faults", []))

    def run_phase(self, procs):
        """Runs processes side by side; raises the first violation seen by any of them."""
        self.sim.run(procs)
        for p in procs:
            v = p.user.get("violation")
            if v is not None:
                raise v
        if self.sim.probes.get("deadlock"):
            raise Violation("deadlock", "processes wait for each other for ever")
        if self.sim.probes.get("step_limit") or any(isinstance(p.exc, kernel.StepLimit) for p in procs):
            raise Violation("no-progress", "a process does not end within the step limit")

    def check_all_files(self, when):
        for path in sorted(set(self.announced) | {o for p in self.sim.procs for o in p.user.get("outs", [])}):
            self.check_file(path, when)

    def power_loss(self, k):
        pre = {}
        for path in self.known_files():
            pre[path] = ref_parse(self.read_file(path))
        self.sim.apply_power_loss(k)
        for path in self.known_files():
            pr = ref_parse(self.read_file(path))
            if pr.garbage:
                raise Violation("corrupt-file", f"{self.sim.rel(path)} is corrupt after a power loss: {pr.garbage}")
            # Records that survived whole are what must be readable from now on.
            self.announced[path] = list(pr.records)
            self.sim.scenario_state[("extra", path)] = [pr.maybe[:3]] if pr.maybe is not None else []
        for q in self.sim.procs:
            q.user["pending"] = []
            q.user["old_pending"] = []

    def known_files(self):
        return sorted(set(self.announced) | {o for p in self.sim.procs for o in p.user.get("outs", [])})


def raise_later(p, v):
    """Remembers a violation; the process carries on (the code under test must not be able to swallow it)."""
    if p.user.get("violation") is None:
        p.user["violation"] = v
