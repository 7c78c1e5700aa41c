"""Simulated executions of the generated circuits and of noisy random circuits: properties C11 to C16."""
import collections
import hashlib
import random
import warnings

import numpy as np
import stim

from . import faults, loader, programs, quantum
from .honeycomb_ref import Ref
from .kernel import mix

STYLES = ["SD6", "PC3", "EM3", "EM3_v2", "SI1000"]
SURFACE = [("SD6", "X"), ("SD6", "Z"), ("SI1000", "X"), ("SI1000", "Z")]
NOISES = [0.0001, 0.0003, 0.001, 0.002, 0.005]
LOW = [0.0001, 0.0002, 0.0005, 0.001]
warnings.filterwarnings("ignore", category=DeprecationWarning)


class QResult:
    def __init__(self):
        self.violation = None
        self.digest = ""
        self.faults = {}
        self.probes = {}
        self.sim_time = 0.0
        self.steps = 0
        self.switches = 0
        self.preempts = 0
        self.log = []
        self.picks = []
        self._h = hashlib.blake2b(digest_size=16)

    def note(self, *xs):
        for x in xs:
            self._h.update(x if isinstance(x, bytes) else str(x).encode())
            self._h.update(b"|")
        self.digest = self._h.hexdigest()

    def say(self, text):
        self.log.append(text)
        self.note(text)

    def probe(self, k, n=1):
        self.probes[k] = self.probes.get(k, 0) + int(n)

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + int(n)

    def fail(self, cls, msg):
        if self.violation is None:
            self.violation = (cls, msg)
            self.say(f"VIOLATED {cls}: {msg}")


class Broken(Exception):
    """The code under test failed on a supported input."""


class quiet:
    def __enter__(self):
        self.c = warnings.catch_warnings()
        self.c.__enter__()
        warnings.simplefilter("ignore")

    def __exit__(self, *a):
        return self.c.__exit__(*a)


class Repo:
    """A freshly loaded set of the repository's modules."""

    def __init__(self):
        self.ms = loader.ModuleSet()

    def __enter__(self):
        self.ms.activate()
        return self

    def __exit__(self, *a):
        self.ms.deactivate()

    def mod(self, name):
        return self.ms.load(name)

    def call(self, what, f):
        """Calls repository code; its exceptions are findings, not harness errors."""
        try:
            with quiet():
                return f()
        except (MemoryError, KeyboardInterrupt):
            raise
        except Exception as e:
            raise Broken(f"{what}: {type(e).__name__}: {str(e)[:300]}")

    def circuit(self, cfg, noise=None):
        p = cfg["noise"] if noise is None else noise
        if cfg["style"].startswith("surface_"):
            m = self.mod("main_collect_all")
            d = loader.SRC + "/paper/surface_code_circuits"
            return self.call(f"surface code circuit {cfg}", lambda: m.surface_code_circuit(d, cfg["style"][8:], p, cfg["obs"], cfg["d"]))
        lay = self.mod("honeycomb_layout").HoneycombLayout
        return self.call(f"circuit of {cfg}", lambda: lay(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"],
                                                          obs=cfg["obs"], noise=p).make_circuit())


def sub_rounds(rng, style, size, cap):
    hi = max(3, min(420, cap // size))
    k = rng.random()
    n = rng.randrange(1, 13) if k < 0.4 else rng.randrange(1, 40) if k < 0.75 else rng.randrange(1, hi + 1)
    n = max(1, min(n, hi))
    if style == "SI1000":
        n = max(3, n - n % 3)
    return n


def honeycomb_config(rng, cap, styles=STYLES, max_w=10, max_h=24):
    style = rng.choice(styles)
    if rng.random() < 0.04:
        # Up to the sizes of the paper's largest experiments, few sub-rounds.
        w, h = rng.choice([(12, 18), (16, 24), (20, 30), (4, 36), (20, 6), (14, 30), (12, 36), (26, 6), (36, 12), (4, 54), (2, 66)])
        n = rng.choice([1, 2, 3, 4, 5, 6, 7, 9])
        return dict(style=style, obs=rng.choice("VH"), w=w, h=h, n=max(3, n - n % 3) if style == "SI1000" else n, noise=rng.choice(NOISES))
    while True:
        w = 2 * rng.choice([1, 1, 2, 2, 3, 3, 4, 5])
        h = 6 * rng.choice([1, 1, 1, 2, 2, 3, 4])
        if w <= max_w and h <= max_h and w * h * 3 <= cap:
            break
    return dict(style=style, obs=rng.choice("VH"), w=w, h=h, n=sub_rounds(rng, style, w * h, cap), noise=rng.choice(NOISES))


def surface_config(rng, ds):
    s, o = rng.choice(SURFACE)
    return dict(style="surface_" + s, obs=o, d=rng.choice(ds), noise=rng.choice(NOISES))


def smaller_configs(cfg):
    if "w" in cfg:
        for w in (2, cfg["w"] - 2):
            if 2 <= w < cfg["w"]:
                yield dict(cfg, w=w)
        for h in (6, cfg["h"] - 6):
            if 6 <= h < cfg["h"]:
                yield dict(cfg, h=h)
        st = 3 if cfg["style"] == "SI1000" else 1
        for n in (st, cfg["n"] // 2 // st * st, cfg["n"] - 3, cfg["n"] - st):
            if 0 < n < cfg["n"]:
                yield dict(cfg, n=n)
    elif cfg["d"] > 3:
        yield dict(cfg, d=3)


def guarded(f):
    def run(sc):
        r = QResult()
        r.note(repr(sorted((k, v) for k, v in sc.items() if k != "keep_log")))
        try:
            with Repo() as repo:
                f(sc, repo, r)
        except Broken as e:
            r.fail("crash", str(e))
        return r
    return run


def execute(circuit, seed, mode, r):
    ex = quantum.Execution(circuit.num_qubits, quantum.coins(seed, mode)).run(circuit)
    r.steps += ex.ops
    r.sim_time += ex.ticks
    r.probe("random_outcomes_decided", ex.free)
    r.note(np.packbits(np.array(ex.record, dtype=np.bool_)).tobytes())
    return ex


# ------------------------------------------------------------------------------------------------ C11
def gen_c11(seed, tier):
    rng = random.Random(seed)
    cap = {"quick": 6000, "thorough": 40000}[tier]
    if rng.random() < 0.12:
        cfg = surface_config(rng, [3, 3, 7, 7, 11, 15, 19] if tier == "quick" else [3, 7, 11, 15, 19])
    else:
        cfg = honeycomb_config(rng, cap)
    modes = ["zeros", "ones"] + ["random"] * (4 if tier == "quick" else 8)
    yield dict(prop="C11", seed=seed, cfg=cfg, modes=modes)


@guarded
def run_c11(sc, repo, r):
    cfg = sc["cfg"]
    c = repo.circuit(cfg)
    r.note(str(c))
    want = 0 if cfg["style"].startswith("surface_") else {"V": 0, "H": 1}[cfg["obs"]]
    got = sorted({int(op.gate_args_copy()[0]) for op in quantum.flat(c) if op.name == "OBSERVABLE_INCLUDE"})
    if got != [want]:
        return r.fail("observable", f"{cfg}: annotates observables {got} instead of [{want}]")
    if c.num_detectors == 0 and cfg.get("n", 9) > 3:
        return r.fail("no-detectors", f"{cfg}: there are no detectors")
    recs = [execute(c, mix(sc["seed"], i), m, r).record for i, m in enumerate(sc["modes"])]
    det, obs = quantum.events(c, recs)
    r.probe("parities_compared", det.size + obs.size)
    r.fault("random_outcomes", len(recs))
    bad = np.nonzero((det != det[0]).any(axis=0))[0]
    if len(bad):
        return r.fail("random-detector", f"{cfg}: detectors {bad[:8].tolist()} (of {c.num_detectors}) differ between fault-free executions")
    if (obs != obs[0]).any():
        return r.fail("random-observable", f"{cfg}: the logical observable differs between fault-free executions")


# ------------------------------------------------------------------------------------------------ C12
def gen_c12(seed, tier):
    rng = random.Random(seed)
    cfg = honeycomb_config(rng, {"quick": 3500, "thorough": 20000}[tier])
    yield dict(prop="C12", seed=seed, cfg=cfg, modes=["random", rng.choice(["zeros", "ones", "random"])], flips=300 if tier == "quick" else 2000)


@guarded
def run_c12(sc, repo, r):
    cfg = sc["cfg"]
    c = repo.circuit(cfg)
    r.note(str(c))
    ref = Ref(cfg["w"], cfg["h"], cfg["n"], cfg["obs"])
    try:
        mapping = quantum.map_measurements(c, ref)
        cum = cfg["style"] == "PC3"
        exs = [execute(c, mix(sc["seed"], i), m, r) for i, m in enumerate(sc["modes"])]
        outs = quantum.to_outcomes(mapping, ref, [e.record for e in exs], cum)
    except ValueError as e:
        return r.fail("wrong-measurements", f"{cfg}: {e}")
    for e, o in zip(exs, outs):
        msg, free = ref.check_outcomes(o)
        r.probe("outcomes_checked", ref.num_outcomes)
        if msg:
            return r.fail("impossible-outcome", f"{cfg}: {msg}")
        if free != e.free:
            return r.fail("wrong-randomness", f"{cfg}: {e.free} outcomes were random, the protocol has {free} random ones")
    # (Without its noise: some noise models replace an operation by several.)
    if not programs.one_use_per_moment(repo.circuit(cfg, noise=0)):
        return r.fail("time-step", f"{cfg}: a qubit is used twice in one time step")
    # Requests for which there is no such experiment are refused.
    rng = random.Random(mix(sc["seed"], "impossible"))
    ok = dict(cfg, w=2 * rng.randrange(1, 4), h=6 * rng.randrange(1, 4), n=3 * rng.randrange(1, 5))
    no = rng.choice([dict(w=ok["w"] + 1), dict(h=ok["h"] + rng.randrange(1, 6)), dict(h=3), dict(n=0), dict(style="SI1000", n=ok["n"] + rng.choice([1, 2])),
                     dict(obs=rng.choice(["X", "", "v", "VH"])), dict(style=rng.choice(["", "sd6", "EM3_v3", "PC4"]))])
    bad = dict(ok, **no)
    r.fault("impossible_request")
    try:
        repo.circuit(bad)
    except Broken:
        pass
    else:
        return r.fail("accepted", f"no honeycomb memory experiment has {no}, but {bad} gave a circuit")
    # Corrupted records: every wrong outcome must raise exactly the comparisons of the protocol that contain it.
    rng = random.Random(mix(sc["seed"], "flips"))
    nm = len(mapping)
    idx = list(range(nm)) if nm <= sc["flips"] else sorted(rng.sample(range(nm), sc["flips"]))
    fl = np.zeros((len(idx) + 40 + 96, nm), dtype=np.bool_)
    for i, k in enumerate(idx):
        fl[i, k] = True
    for i in range(len(idx), len(idx) + 40):
        for k in range(rng.choice([2, 2, 3, 5, 10])):
            fl[i, rng.randrange(nm)] ^= True
    # The last ones corrupt half of the record at random: which of them a comparison notices identifies it.
    fl[len(idx) + 40:] = np.random.default_rng(rng.getrandbits(63)).integers(0, 2, size=(96, nm)).astype(np.bool_)
    r.fault("corrupted_result", int(fl.sum()))
    det, obs = quantum.events(c, fl)
    fo = quantum.to_outcomes(mapping, ref, fl, cum)
    rd = np.asarray((ref.mat @ fo.T.astype(np.int32)) % 2).T
    ro = fo[:, sorted(ref.observable)].sum(axis=1) % 2
    r.probe("corruptions_checked", len(fl))
    if len(ref.dets) != c.num_detectors:
        return r.fail("detectors", f"{cfg}: {c.num_detectors} detectors, the protocol has {len(ref.dets)} comparisons")
    a, b = det.sum(axis=1), rd.sum(axis=1)
    bad = np.nonzero(a != b)[0]
    if len(bad):
        k = np.nonzero(fl[bad[0]])[0].tolist()
        return r.fail("detectors", f"{cfg}: flipping results {[mapping[x] for x in k[:4]]} raises {a[bad[0]]} detection events instead of {b[bad[0]]}")
    where = c.get_detector_coordinates()
    got = collections.Counter((np.packbits(det[-96:, i]).tobytes(), tuple(where.get(i, ()))) for i in range(len(ref.dets)))
    want = collections.Counter((np.packbits(rd[-96:, i].astype(np.bool_)).tobytes(), ref.places[i]) for i in range(len(ref.dets)))
    r.probe("detectors_identified", len(ref.dets))
    if got != want:
        k = sorted((want - got).items())[0][0][0]
        return r.fail("detectors", f"{cfg}: no detector placed at {[p for s, p in want if s == k]} is the protocol's comparison completed there; "
                                   f"the one noticing the same wrong results is at {[p for s, p in got if s == k]}")
    o = obs[:, {"V": 0, "H": 1}[cfg["obs"]]] if obs.shape[1] == {"V": 1, "H": 2}[cfg["obs"]] else None
    if o is None:
        return r.fail("observable", f"{cfg}: {obs.shape[1]} observables")
    bad = np.nonzero(o != ro)[0]
    if len(bad):
        k = np.nonzero(fl[bad[0]])[0].tolist()
        return r.fail("observable", f"{cfg}: flipping results {[mapping[x] for x in k[:4]]} {'flips' if o[bad[0]] else 'does not flip'} the reported "
                                    f"observable, unlike the protocol's")


# ------------------------------------------------------------------------------------------------ C13
def distance(cfg):
    if "d" in cfg:
        return cfg["d"]
    if cfg["style"].startswith("EM3"):
        return cfg["w"] // 2 if cfg["obs"] == "V" else cfg["h"] // 3
    return cfg["w"] if cfg["obs"] == "V" else cfg["h"] // 2


def gen_c13(seed, tier):
    rng = random.Random(seed)
    cap = {"quick": 1500, "thorough": 6000}[tier]
    while True:
        if rng.random() < 0.12:
            cfg = surface_config(rng, [3, 3, 3, 3, 7, 7, 11, 15 if tier == "thorough" else 7])
        else:
            cfg = honeycomb_config(rng, cap)
        if distance(cfg) >= 2:
            break
    yield dict(prop="C13", seed=seed, cfg=cfg, limit=20000 if tier == "quick" else 80000, randoms=200)


def single_faults(c, rng, limit, r):
    """Executions hit by one fault each, struck in a random time window if there are too many."""
    f = faults.Faulty(c)
    picks = [(s, k) for s, (_, g) in enumerate(f.sites) for k in range(len(g))]
    if len(picks) > limit:
        a = rng.randrange(len(picks) - limit + 1)
        if rng.random() < 0.3:
            a = rng.choice([0, len(picks) - limit])
        picks = picks[a:a + limit]
    det, obs, _ = f.run([[x] for x in picks])
    r.fault("single_physical_fault", len(picks))
    r.steps += len(f.ops)
    r.sim_time += f.ticks
    return f, picks, det, obs


@guarded
def run_c13(sc, repo, r):
    from scipy.sparse import csr_matrix
    from scipy.sparse.csgraph import breadth_first_order
    cfg = sc["cfg"]
    d = distance(cfg)
    c = repo.circuit(cfg)
    r.note(str(c))
    rng = random.Random(mix(sc["seed"], "c13"))
    k = 0 if "d" in cfg else {"V": 0, "H": 1}[cfg["obs"]]
    if c.num_observables != k + 1:
        return r.fail("observable", f"{cfg}: {c.num_observables} observables")
    if "shot" in sc:
        f = faults.Faulty(c)
        shots = [[tuple(x) for x in sc["shot"]]]
        if any(s >= len(f.sites) or q >= len(f.sites[s][1]) for s, q in shots[0]):
            return
        return confirm(cfg, c, f, shots, k, d, r)
    f, picks, det, obs = single_faults(c, rng, sc["limit"], r)
    r.probe("fault_free_sites", 0 if f.sites else 1)
    if not f.sites:
        return r.fail("no-faults", f"{cfg}: the noisy circuit has no fault sites")
    # Distinct symptoms -> one representative fault.
    rows = faults.sparse_rows(det)
    sym = {}
    for i, s in enumerate(rows):
        sym.setdefault((s, bool(obs[i, k])), i)
    r.probe("distinct_single_fault_symptoms", len(sym))
    D = c.num_detectors
    N = D + 1           # D is the boundary
    ed = {}
    for (s, o), i in sym.items():
        if len(s) == 0 and o:
            return confirm(cfg, c, f, [[picks[i]]], k, d, r)
        if 1 <= len(s) <= 2:
            a, b = (s[0], s[1]) if len(s) == 2 else (s[0], D)
            ed[a, b, o] = i
    src, dst = [], []
    for a, b, o in ed:
        for par in (0, 1):
            src += [a + N * par, b + N * (par ^ o)]
            dst += [b + N * (par ^ o), a + N * par]
    if not ed:
        return
    g = csr_matrix((np.ones(len(src), dtype=np.int8), (src, dst)), shape=(2 * N, 2 * N))
    live = sorted({x for a, b, _ in ed for x in (a, b)})
    starts = live if len(live) <= 400 else sorted(rng.sample(live, 400))
    best = None

    def path(pred, a, b):
        out = []
        while b != a:
            q = pred[b]
            x, y, o = q % N, b % N, (q >= N) != (b >= N)
            i = ed.get((x, y, o), ed.get((y, x, o)))
            out.append(i)
            b = q
        return out

    dist_from = {}
    for v in starts:
        order, pred = breadth_first_order(g, v, directed=True, return_predecessors=True)
        dist = np.full(2 * N, -1, dtype=np.int32)
        dist[v] = 0
        for x in order[1:]:
            dist[x] = dist[pred[x]] + 1
        dist_from[v] = (dist, pred)
        dv = dist[v + N]
        if dv > 0 and (best is None or dv < best[0]):
            best = (int(dv), path(pred, v, v + N))
    r.probe("chains_searched", len(starts))
    # Faults with three or four symptoms, closed by two chains.
    hyper = [(s, o, i) for (s, o), i in sym.items() if 3 <= len(s) <= 4 and all(x in dist_from for x in s)]
    if len(hyper) > 3000:
        hyper = rng.sample(hyper, 3000)
    for s, o, i in hyper:
        q = list(s) + [D] * (4 - len(s))
        for (a, b), (x, y) in (((q[0], q[1]), (q[2], q[3])), ((q[0], q[2]), (q[1], q[3])), ((q[0], q[3]), (q[1], q[2]))):
            d1, p1 = dist_from[a]
            d2, p2 = dist_from[x]
            for o1 in (0, 1):
                o2 = 1 ^ o ^ o1
                u, v = int(d1[b + N * o1]), int(d2[y + N * o2])
                if u >= 0 and v >= 0 and (best is None or 1 + u + v < best[0]):
                    best = (1 + u + v, [i] + path(p1, a, b + N * o1) + path(p2, x, y + N * o2))
    r.probe("hyper_faults_closed", len(hyper))
    if best is not None:
        r.note(best[0])
        r.probe("undetected_chains_found_at_or_above_distance", best[0] >= d)
        # The shortest chain found, executed in full.
        if confirm(cfg, c, f, [[picks[i] for i in best[1]]], k, d, r):
            return
    # Random clusters of fewer faults than the distance.
    shots = []
    if d > 2:
        by_det = {}
        for i, s in enumerate(rows):
            for x in s[:2]:
                by_det.setdefault(x, []).append(i)
        for _ in range(sc["randoms"]):
            i = rng.randrange(len(picks))
            sh = [i]
            cur = set(rows[i])
            while len(sh) < d - 1 and cur:
                x = rng.choice(sorted(cur))
                j = rng.choice(by_det.get(x, [i]))
                if j in sh:
                    break
                sh.append(j)
                cur ^= set(rows[j])
            shots.append([picks[i] for i in sh])
        confirm(cfg, c, f, shots, k, d, r)


def confirm(cfg, c, f, shots, k, d, r):
    det, obs, _ = f.run(shots)
    r.fault("multiple_physical_faults", len(shots))
    for i, sh in enumerate(shots):
        if len(sh) < d and not det[i].any() and obs[i, k]:
            r.shot = sh
            r.fail("undetected", f"{cfg}: {len(sh)} fault(s) flip the observable undetected, the fault distance is {d}: {f.describe(sh)}")
            return True
    return False


# ------------------------------------------------------------------------------------------------ C14
def gen_c14(seed, tier):
    rng = random.Random(seed)
    cap = {"quick": 2000, "thorough": 8000}[tier]
    while True:
        if rng.random() < 0.12:
            cfg = surface_config(rng, [3, 3, 3, 7, 7, 11 if tier == "thorough" or rng.random() < 0.5 else 3])
        else:
            cfg = honeycomb_config(rng, cap)
        if distance(cfg) >= 3:
            break
    cfg["noise"] = rng.choice(LOW)
    yield dict(prop="C14", seed=seed, cfg=cfg, limit=6000 if tier == "quick" else 40000)


class FixedSampler:
    """Hands out prepared shots in order; after the last one, fault-free shots."""

    def __init__(self, det, obs):
        self.det, self.obs, self.at = det, obs, 0

    def sample(self, shots, *, prepend_observables=False, append_observables=False, separate_observables=False, bit_packed=False):
        a, b = self.at, self.at + int(shots)
        self.at = b
        det, obs = (np.concatenate([m[a:b], np.zeros((max(0, b - max(a, len(m))), m.shape[1]), dtype=np.bool_)]) for m in (self.det, self.obs))
        pack = (lambda m: np.packbits(m, axis=1, bitorder="little")) if bit_packed else (lambda m: m)
        if separate_observables:
            return pack(det), pack(obs)
        return pack(np.concatenate(([obs] if prepend_observables else []) + [det] + ([obs] if append_observables else []), axis=1))

    def sample_bit_packed(self, shots, *, prepend_observables=False, append_observables=False):
        return self.sample(shots, prepend_observables=prepend_observables, append_observables=append_observables, bit_packed=True)


class with_shots:
    def __init__(self, det, obs):
        self.s = FixedSampler(det, obs)

    def __enter__(self):
        self.real = stim.Circuit.compile_detector_sampler
        stim.Circuit.compile_detector_sampler = lambda circuit, *a, **k: self.s
        return self.s

    def __exit__(self, *a):
        stim.Circuit.compile_detector_sampler = self.real


@guarded
def run_c14(sc, repo, r):
    cfg = sc["cfg"]
    c = repo.circuit(cfg)
    r.note(str(c))
    rng = random.Random(mix(sc["seed"], "c14"))
    dec = repo.mod("decoding")
    f = faults.Faulty(c)
    if "shot" in sc:
        picks = [tuple(sc["shot"])]
        if picks[0][0] >= len(f.sites) or picks[0][1] >= len(f.sites[picks[0][0]][1]):
            return
    else:
        picks = f.choose(rng, sc["limit"])
    det, obs, _ = f.run([[x] for x in picks])
    r.fault("single_physical_fault", len(picks))
    r.steps += len(f.ops)
    r.sim_time += f.ticks
    first = {}
    for i in range(len(picks)):
        first.setdefault((det[i].tobytes(), obs[i].tobytes()), i)
    idx = sorted(first.values())
    r.probe("distinct_symptoms", len(idx))

    def correct(rows):
        """Success count reported for executions hit by these faults, plus one without any fault."""
        d = np.concatenate([det[rows], np.zeros((1, det.shape[1]), dtype=np.bool_)])
        o = np.concatenate([obs[rows], np.zeros((1, obs.shape[1]), dtype=np.bool_)])
        with with_shots(d, o) as s:
            n = repo.call("sample_decode_count_correct", lambda: dec.sample_decode_count_correct(circuit=c, num_shots=len(d), decoder="pymatching"))
        if s.at != len(d):
            raise Broken(f"{s.at} shots sampled instead of {len(d)}")
        r.probe("decoded", len(d))
        return int(n), len(d)

    n, m = correct(idx)
    r.note(n, m)
    if n != m:
        # Locate one of them.
        bad = idx
        while len(bad) > 1:
            h = bad[:len(bad) // 2]
            n2, m2 = correct(h)
            bad = h if n2 != m2 else bad[len(bad) // 2:]
        n2, m2 = correct(bad)
        r.shot = list(picks[bad[0]])
        r.fail("mispredicted", f"{cfg}: {m - n} of {m} executions with at most one fault are decoded wrongly, e.g. {f.describe([picks[bad[0]]])} "
                               f"(the fault distance is {distance(cfg)})")


# ------------------------------------------------------------------------------------------------ C23
TASKS = ["repetition_code:memory", "surface_code:rotated_memory_x", "surface_code:rotated_memory_z", "surface_code:unrotated_memory_z"]
MARGIN = 0.02           # difference of log likelihoods below which two explanations count as equally likely


def gen_c23(seed, tier):
    rng = random.Random(seed)
    cap = {"quick": 1300, "thorough": 5000}[tier]

    def one():
        if rng.random() < 0.35:
            t = rng.choice(TASKS)
            ps = [rng.choice([0, 0.0003, 0.002, 0.01, 0.04]) for _ in range(4)]
            if not any(ps):
                ps[0] = 0.005
            return dict(style="stim", task=t, d=rng.choice([3, 5, 7, 9] if "rep" in t else [3, 3, 5]), n=rng.choice([1, 2, 3, 5, 9, 30][:6 if "rep" in t else 4]), ps=ps)
        while True:
            cfg = surface_config(rng, [3, 3, 7]) if rng.random() < 0.15 else honeycomb_config(rng, cap)
            if distance(cfg) >= 3:
                break
        cfg["noise"] = rng.choice(NOISES + LOW + [0.01, 0.02])
        return cfg

    cfg = one()
    parts = [cfg]
    if cfg["style"] == "stim" and rng.random() < 0.4:
        while True:
            b = one()
            if b["style"] == "stim":
                break
        parts.append(b)
    model = None
    if rng.random() < 0.3:
        model = [dict(p, ps=[x * rng.choice([0.1, 0.5, 3]) for x in p["ps"]]) if "ps" in p else dict(p, noise=rng.choice(NOISES + [0.01])) for p in parts]
    yield dict(prop="C23", seed=seed, parts=parts, model=model, shots=70 if tier == "quick" else 300)


def memory_circuit(repo, parts):
    """The experiments run one after the other, each with its own observable."""
    out = stim.Circuit()
    for k, p in enumerate(parts):
        if p["style"] == "stim":
            a, b, m, res = p["ps"]
            c = stim.Circuit.generated(p["task"], distance=p["d"], rounds=p["n"], after_clifford_depolarization=a, before_round_data_depolarization=b,
                                       before_measure_flip_probability=m, after_reset_flip_probability=res)
        else:
            c = repo.circuit(p)
        if k:
            c = stim.Circuit(str(c).replace("OBSERVABLE_INCLUDE(0)", f"OBSERVABLE_INCLUDE({k})"))
        out += c
    return out


class Explanations:
    """Exact weights of the likeliest explanations of detection events, one per set of flipped observables."""

    def __init__(self, dem):
        self.N = dem.num_detectors + 1
        self.D = dem.num_detectors
        parts = {}
        self.obs = set()
        for ins in dem.flattened():
            if ins.type != "error":
                continue
            p = ins.args_copy()[0]
            comp = [[]]
            for t in ins.targets_copy():
                if t.is_separator():
                    comp.append([])
                else:
                    comp[-1].append(t)
            for ts in comp:
                ds, os = set(), set()
                for t in ts:
                    (ds if t.is_relative_detector_id() else os).symmetric_difference_update({t.val})
                key = (tuple(sorted(ds)), frozenset(os))
                q = parts.get(key, 0.0)
                parts[key] = p * (1 - q) + q * (1 - p)
                self.obs |= os
        self.bits = {o: i for i, o in enumerate(sorted(self.obs))}
        self.K = 1 << len(self.bits)
        self.usable = self.K <= 4
        self.edges = {}
        for (ds, os), p in parts.items():
            if not ds:
                continue
            if len(ds) > 2 or p >= 0.5 or p <= 0:
                self.usable = False
                return
            e = (ds[0], ds[1] if len(ds) == 2 else self.D)
            m = sum(1 << self.bits[o] for o in os)
            if any((*e, x) in self.edges for x in range(self.K)):
                self.usable = False         # two faults with the same events flip different observables: distance two
            self.edges[(*e, m)] = float(np.log((1 - p) / p))

    def prepare(self, starts):
        from scipy.sparse import csr_matrix
        from scipy.sparse.csgraph import dijkstra
        N, K = self.N, self.K
        a, b, w = [], [], []
        for (x, y, m), v in self.edges.items():
            for c in range(K):
                a += [x + N * c, y + N * c]
                b += [y + N * (c ^ m), x + N * (c ^ m)]
                w += [v, v]
        g = csr_matrix((w, (a, b)), shape=(N * K, N * K))
        self.at = {v: i for i, v in enumerate(starts)}
        self.dist = dijkstra(g, indices=starts) if starts else np.zeros((0, N * K))

    def between(self, a, b):
        return self.dist[self.at[a], b::self.N]

    def weights(self, events):
        """Array over sets of flipped observables."""
        K = self.K
        x = [[c ^ k for k in range(K)] for c in range(K)]
        memo = {}

        def plus(u, v):
            return np.array([(u + v[x[c]]).min() for c in range(K)])

        def go(left):
            if not left:
                z = np.full(K, np.inf)
                z[0] = 0
                return z
            if left not in memo:
                a, rest = left[0], left[1:]
                best = plus(self.between(a, self.D), go(rest))
                for i, b in enumerate(rest):
                    best = np.minimum(best, plus(self.between(a, b), go(rest[:i] + rest[i + 1:])))
                memo[left] = best
            return memo[left]
        return go(tuple(events))


def fault_histories(f, rng, n, rows, picks):
    """Fault sets of various sizes: clusters of faults with common events, spread-out faults, mixtures."""
    by_det = {}
    for i, s in enumerate(rows):
        for x in s[:4]:
            by_det.setdefault(x, []).append(i)
    out = []
    for _ in range(n):
        sh = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            i = rng.randrange(len(picks))
            sh.append(i)
            cur = set(rows[i])
            for _ in range(rng.choice([0, 1, 1, 2, 3, 4, 6])):
                if not cur:
                    break
                j = rng.choice(by_det.get(rng.choice(sorted(cur)), [i]))
                if j not in sh:
                    sh.append(j)
                    cur ^= set(rows[j])
        out.append([picks[i] for i in sorted(set(sh))])
    return out


@guarded
def run_c23(sc, repo, r):
    c = memory_circuit(repo, sc["parts"])
    m = memory_circuit(repo, sc["model"]) if sc["model"] else c
    r.note(str(c), str(m))
    rng = random.Random(mix(sc["seed"], "c23"))
    dec = repo.mod("decoding")
    f = faults.Faulty(c)
    if not f.sites:
        return
    with quiet():
        ex = Explanations(m.detector_error_model(decompose_errors=True))
    if not ex.usable:
        return r.probe("skipped_ambiguous_error_model")
    if "shot" in sc:
        hist = [[tuple(x) for x in sc["shot"]]]
        if any(s >= len(f.sites) or q >= len(f.sites[s][1]) for s, q in hist[0]):
            return
    else:
        picks = f.choose(rng, 1500)
        det1, _, _ = f.run([[x] for x in picks])
        hist = fault_histories(f, rng, sc["shots"], faults.sparse_rows(det1), picks)
    det, _, _ = f.run(hist)
    r.fault("multiple_physical_faults", len(hist))
    r.steps += len(f.ops)
    r.sim_time += f.ticks
    rows = faults.sparse_rows(det)
    keep = [i for i in range(len(hist)) if len(rows[i]) <= 9]
    ex.prepare(sorted({x for i in keep for x in rows[i]}))
    truth = np.zeros((len(hist), c.num_observables), dtype=np.bool_)
    idx = []
    why = {}
    for i in keep:
        w = ex.weights(rows[i])
        o = np.argsort(w, kind="stable")
        if not np.isfinite(w[o[0]]):
            r.probe("inexplicable_events")
            continue
        if len(w) > 1 and w[o[1]] - w[o[0]] < MARGIN:
            r.probe("equally_likely_explanations")
            continue
        for obs, b in ex.bits.items():
            truth[i, obs] = o[0] >> b & 1
        why[i] = (int(o[0]), [round(float(x), 3) for x in w])
        idx.append(i)
        r.probe("histories_flipping_an_observable_likeliest", o[0] != 0)

    def agree(rs):
        with with_shots(det[rs], truth[rs]) as s:
            n = repo.call("sample_decode_count_correct", lambda: dec.sample_decode_count_correct(
                circuit=c, model_circuit=m if sc["model"] else None, num_shots=len(rs), decoder="pymatching"))
        if s.at != len(rs):
            raise Broken(f"{s.at} shots sampled instead of {len(rs)}")
        return int(n)

    if not idx:
        return
    n = agree(idx)
    r.probe("predictions_compared", len(idx))
    r.note(n)
    if n != len(idx):
        bad = idx
        while len(bad) > 1:
            h = bad[:len(bad) // 2]
            bad = h if agree(h) != len(h) else bad[len(bad) // 2:]
        i = bad[0]
        r.shot = [list(x) for x in hist[i]]
        r.fail("unlikely-explanation", f"{sc['parts']}, model {sc['model'] or 'the same'}: {len(idx) - n} of {len(idx)} histories are not decoded to the likeliest "
                                       f"explanation, e.g. faults {f.describe(hist[i])} with events {list(rows[i])}: the likeliest observable flips are "
                                       f"{why[i][0]:b} (weights of all classes {why[i][1]})")


# ------------------------------------------------------------------------------------------------ C15
def noise_model(repo, sc):
    """(the code's noise model, what it prescribes, its name)"""
    m = repo.mod("noise").NoiseModel
    if sc["model"] != "custom":
        name = f"{sc['model']}({sc['p']})"
        return repo.call(f"NoiseModel.{name}", lambda: getattr(m, sc["model"])(sc["p"])), programs.spec_of(sc["model"], sc["p"]), name
    t = sc["spec"]
    return repo.call("NoiseModel", lambda: m(
        idle=t["idle"], measure_reset_idle=t["extra"], noisy_gates=dict(t["gates"]), any_clifford_1=t["any1"],
        any_clifford_2=t["any2"], use_correlated_parity_measurement_errors=t["corr"])), t, f"NoiseModel({t})"


def gen_noise_case(rng, noises, **kw):
    """A noise model and circuits to apply it to (the same model object to all of them)."""
    sc = dict(model=rng.choice(programs.MODELS + ["custom"] * 3), p=rng.choice(noises))
    if sc["model"] == "custom":
        sc["spec"] = programs.gen_spec(rng)
    spec = sc.get("spec") or programs.spec_of(sc["model"], sc["p"])
    kw = {k: v() for k, v in kw.items()}
    sc["progs"] = [programs.gen_program(rng, spec, **kw) for _ in range(rng.choice([1, 1, 2]))]
    # Optionally name the qubits that can idle, and the helper qubit.
    sc["qs"] = rng.choice([None, None, None, rng.randrange(1 << 30)])
    sc["ancilla"] = rng.choice([None, None, None, 0, 1, 5])
    return sc


def apply_noise(repo, sc, model, name, c):
    """(noisy circuit, qubits exposed to idle faults or None)"""
    kw = {}
    idlers = None
    if sc.get("qs") is not None:
        rng = random.Random(sc["qs"])
        idlers = {q for q in range(c.num_qubits + 2) if rng.random() < 0.6}
        kw["qs"] = set(idlers)
    if sc.get("ancilla") is not None:
        kw["ancilla"] = c.num_qubits + sc["ancilla"]
    return repo.call(f"{name}.noisy_circuit", lambda: model.noisy_circuit(c, **kw)), idlers


def gen_c15(seed, tier):
    rng = random.Random(seed)
    for i in range(40):
        yield dict(prop="C15", seed=mix(seed, i) >> 1,
                   **gen_noise_case(rng, NOISES + [0], final=lambda: rng.random() < 0.6))
    cfg = honeycomb_config(rng, 1200 if tier == "quick" else 8000)
    if rng.random() < 0.1:
        cfg = surface_config(rng, [3, 7])
    yield dict(prop="C15", seed=mix(seed, "g") >> 1, cfg=cfg)


def same_behaviour(what, orig, noisy, seed, r):
    """Fault-free executions of both, with the same random outcomes."""
    if noisy.num_measurements != orig.num_measurements or noisy.num_detectors != orig.num_detectors or \
            noisy.num_observables != orig.num_observables:
        return r.fail("shape", f"{what}: {noisy.num_measurements} measurements, {noisy.num_detectors} detectors and {noisy.num_observables} "
                               f"observables instead of {orig.num_measurements}, {orig.num_detectors} and {orig.num_observables}")
    if noisy.num_ticks != orig.num_ticks:
        return r.fail("shape", f"{what}: {noisy.num_ticks} time steps instead of {orig.num_ticks}")
    for i, mode in enumerate(("random", "random", "ones")):
        a = execute(orig, mix(seed, i), mode, r)
        b = execute(noisy, mix(seed, i), mode, r)
        if a.record != b.record:
            k = next(k for k, (x, y) in enumerate(zip(a.record, b.record)) if x != y)
            return r.fail("record", f"{what}: result {k} of {len(a.record)} is {int(b.record[k])} instead of {int(a.record[k])} without any fault")
        r.probe("results_compared", len(a.record))
        # The state left behind.
        n = orig.num_qubits
        if n <= 40:
            for ps in a.sim.canonical_stabilizers():
                if b.sim.peek_observable_expectation(ps) != 1:
                    return r.fail("state", f"{what}: the final state differs without any fault ({ps} is not stabilized)")
            r.probe("states_compared")
    # Same detectors and observables, of any record.
    rng = random.Random(mix(seed, "ev"))
    if orig.num_measurements:
        rec = np.array([[rng.random() < 0.5 for _ in range(orig.num_measurements)] for _ in range(8)], dtype=np.bool_)
        for x, y, k in zip(quantum.events(orig, rec), quantum.events(noisy, rec), ("detector", "observable")):
            if (x != y).any():
                return r.fail("annotations", f"{what}: the {k}s combine other results than in the original circuit")
    if orig.get_detector_coordinates() != noisy.get_detector_coordinates():
        return r.fail("annotations", f"{what}: detector coordinates differ")
    if orig.get_final_qubit_coordinates() != noisy.get_final_qubit_coordinates():
        return r.fail("annotations", f"{what}: qubit coordinates differ")


@guarded
def run_c15(sc, repo, r):
    if "cfg" in sc:
        cfg = sc["cfg"]
        noisy = repo.circuit(cfg)
        orig = repo.circuit(cfg, noise=0)
        r.note(str(noisy))
        if faults.Faulty(orig).num_faults:
            return r.fail("noise-at-zero", f"{cfg} at error rate 0 has faults")
        return same_behaviour(str(cfg), orig, noisy, sc["seed"], r)
    model, spec, name = noise_model(repo, sc)
    for i, prog in enumerate(sc["progs"]):
        c = stim.Circuit(programs.program_text(prog))
        if not programs.one_use_per_moment(c):
            continue
        text = str(c)
        noisy, idlers = apply_noise(repo, sc, model, name, c)
        r.note(str(noisy))
        r.log.append(f"original:\n{text}\nnoisy:\n{noisy}")
        if str(c) != text:
            return r.fail("input-changed", f"{name}: the given circuit was modified")
        r.fault("noise_model_applied")
        if programs.no_noise(spec) and faults.Faulty(noisy).num_faults:
            return r.fail("noise-at-zero", f"{name} adds faults to circuit {i}")
        same_behaviour(f"{name} circuit {i}", c, noisy, mix(sc["seed"], i), r)
        if r.violation:
            return


# ------------------------------------------------------------------------------------------------ C16
def gen_c16(seed, tier):
    rng = random.Random(seed)
    for i in range(14):
        yield dict(prop="C16", seed=mix(seed, i) >> 1,
                   **gen_noise_case(rng, NOISES + [0.01, 0.03, 0], max_moments=lambda: rng.choice([1, 2, 3, 5])))
    k = rng.random()
    cfg = honeycomb_config(rng, 400 if tier == "quick" else 1500, max_w=4, max_h=12)
    if k < 0.12:
        cfg = surface_config(rng, [3])
    yield dict(prop="C16", seed=mix(seed, "g") >> 1, cfg=cfg)


def same_noise(what, orig, noisy, spec, idlers, seed, r):
    nm = orig.num_measurements
    if noisy.num_measurements != nm:
        return r.fail("shape", f"{what}: {noisy.num_measurements} measurements instead of {nm}")
    act = faults.Faulty(noisy)
    exp = programs.Prescribed(orig, spec, idlers)
    chans = []
    for f, ch in ((act, programs.channel_probs(noisy, act)),
                  (exp, [[(pr, s, k) for k, pr in enumerate(prs)] for s, prs in enumerate(exp.probs)])):
        picks = [(s, k) for c in ch for _, s, k in c]
        f.clean_resets = True
        _, _, rec = f.run([[x] for x in picks])
        r.fault("single_physical_fault", len(picks))
        r.steps += len(f.ops)
        it = iter(range(len(picks)))
        chans.append(([[(pr, next(it)) for pr, _, _ in c] for c in ch], rec))
    if nm == 0:
        return
    # Sets of results whose parity is compared: single results, random sets.
    rng = random.Random(mix(seed, "S"))
    cols = list(range(nm)) if nm <= 300 else sorted(rng.sample(range(nm), 300))
    S = np.zeros((nm, len(cols) + 160), dtype=np.float32)
    for j, k in enumerate(cols):
        S[k, j] = 1
    for j in range(len(cols), S.shape[1]):
        n = rng.choice([2, 2, 3, max(2, nm // 2)])
        for _ in range(n):
            S[rng.randrange(nm), j] = 1
    a = programs.log_spectrum(chans[0][0], chans[0][1], S)
    b = programs.log_spectrum(chans[1][0], chans[1][1], S)
    r.probe("exposures_compared", sum(len(c) for c, _ in chans))
    r.probe("result_statistics_compared", S.shape[1])
    tol = 1e-9 + 1e-9 * np.abs(b)
    bad = np.nonzero(np.abs(a - b) > tol)[0]
    if len(bad):
        j = bad[0]
        ks = np.nonzero(S[:, j])[0].tolist()
        pa, pb = (0.5 - 0.5 * float(np.exp(x[j])) for x in (a, b))
        return r.fail("exposure", f"{what}: the parity of results {ks[:6]} is flipped with probability {pa:.9g}, the noise model prescribes {pb:.9g}")


@guarded
def run_c16(sc, repo, r):
    if "cfg" in sc:
        cfg = sc["cfg"]
        noisy = repo.circuit(cfg)
        orig = repo.circuit(cfg, noise=0)
        r.note(str(noisy))
        if faults.Faulty(orig).num_faults:
            return r.fail("noise-at-zero", f"{cfg} at error rate 0 has faults")
        m = cfg["style"][8:] if "d" in cfg else programs.STYLE_MODEL[cfg["style"]]
        return same_noise(str(cfg), orig, noisy, programs.spec_of(m, cfg["noise"]), None, sc["seed"], r)
    model, spec, name = noise_model(repo, sc)
    for i, prog in enumerate(sc["progs"]):
        c = stim.Circuit(programs.program_text(prog))
        if not programs.one_use_per_moment(c):
            continue
        noisy, idlers = apply_noise(repo, sc, model, name, c)
        r.note(str(noisy))
        r.log.append(f"original:\n{c}\nnoisy:\n{noisy}")
        same_noise(f"{name} circuit {i}", c, noisy, spec, idlers, mix(sc["seed"], i), r)
        if r.violation:
            return
    # An operation without prescribed noise is refused.
    rng = random.Random(mix(sc["seed"], "refuse"))
    alien = [n for n in programs.C1 + programs.C2 + ["R", "RX", "RY", "M", "MX", "MY", "MPP", "S", "SWAP", "X"] if programs.rate(spec, n) is None]
    if alien:
        n = rng.choice(alien)
        t = "X0*Z1" if n == "MPP" else "0 1"
        c = stim.Circuit(f"R 0 1 2\nTICK\n{n} {t}\nTICK\nM 2")
        if rng.random() < 0.3:
            c = stim.Circuit(f"R 0 1 2\nTICK\nREPEAT 2 {{\n{n} {t}\nTICK\n}}\nM 2")
        try:
            repo.call(name, lambda: model.noisy_circuit(c))
        except Broken:
            r.probe("unsupported_operations_refused")
        else:
            r.fail("accepted", f"{name} accepts {n}, for which it prescribes no noise")


# ------------------------------------------------------------------------------------------------ minimising
def candidates(sc):
    if "cfg" in sc and "shot" not in sc:
        for cfg in smaller_configs(sc["cfg"]):
            if sc["prop"] in ("C13", "C14") and distance(cfg) < (2 if sc["prop"] == "C13" else 3):
                continue
            yield dict(sc, cfg=cfg)
    if "parts" in sc and "shot" in sc:
        for i in range(len(sc["shot"])):
            if len(sc["shot"]) > 1:
                yield dict(sc, shot=sc["shot"][:i] + sc["shot"][i + 1:])
    elif "parts" in sc:
        if len(sc["parts"]) > 1:
            for i in range(len(sc["parts"])):
                yield dict(sc, parts=[sc["parts"][i]], model=sc["model"] and [sc["model"][i]])
        if sc["model"]:
            yield dict(sc, model=None)
        for i, p in enumerate(sc["parts"]):
            smaller = [q for q in smaller_configs(p) if distance(q) >= 3] if p["style"] != "stim" else \
                [dict(p, **{k: v}) for k, v in (("n", 1), ("n", p["n"] // 2), ("d", 3)) if 0 < v < p[k]]
            for q in smaller:
                same = {k: v for k, v in q.items() if k not in ("noise", "ps")}
                yield dict(sc, parts=sc["parts"][:i] + [q] + sc["parts"][i + 1:],
                           model=sc["model"] and sc["model"][:i] + [dict(sc["model"][i], **same)] + sc["model"][i + 1:])
    if "modes" in sc and len(sc["modes"]) > 2:
        yield dict(sc, modes=sc["modes"][:2])
        yield dict(sc, modes=sc["modes"][:-1])
    if "progs" in sc:
        for k in ("qs", "ancilla"):
            if sc.get(k) is not None:
                yield dict(sc, **{k: None})
        for i in range(len(sc["progs"])):
            if len(sc["progs"]) > 1:
                yield dict(sc, progs=sc["progs"][:i] + sc["progs"][i + 1:])
        for i, p in enumerate(sc["progs"]):
            for q in programs.cut_program(p):
                if q:
                    yield dict(sc, progs=sc["progs"][:i] + [q] + sc["progs"][i + 1:])


GEN = {"C11": gen_c11, "C12": gen_c12, "C13": gen_c13, "C14": gen_c14, "C15": gen_c15, "C16": gen_c16, "C23": gen_c23}
RUN = {"C11": run_c11, "C12": run_c12, "C13": run_c13, "C14": run_c14, "C15": run_c15, "C16": run_c16, "C23": run_c23}
