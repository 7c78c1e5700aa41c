"""C17: circuits and problem lists must not depend on the process, its hash seed, earlier work in it, or interleaving.

A scenario runs in its own interpreter (with the scenario's hash seed) as one or more simulated threads, switched at calls of
repository functions by a seeded scheduler.  The reference is the same request made alone in a fresh module set.
"""
import hashlib
import json
import os
import random
import subprocess
import sys
import tempfile
import threading

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def digest(text):
    return hashlib.blake2b(text.encode(), digest_size=12).hexdigest()


# ------------------------------------------------------------------------------------------------ the requests
def perform(load, op):
    """Executes one request with the currently active modules; returns a digest (or "" for history-only requests)."""
    kind = op[0]
    if kind == "circuit":
        cfg = op[1]
        lay = load("honeycomb_layout").HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"],
                                                       obs=cfg["obs"], noise=cfg["noise"])
        text = str(lay.make_circuit())
        return digest(text) + "/" + digest(text if not op[2] else str(lay.make_circuit()))
    if kind == "query":
        cfg = op[1]
        lay = load("honeycomb_layout").HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"],
                                                       obs=cfg["obs"], noise=cfg["noise"])
        d = lay.as_decoder_problem_desc("pymatching")
        return digest(repr(sorted(vars(d).items())) if hasattr(d, "__dict__") else repr(d))
    m = load("main_collect_all")
    from . import loader
    d = loader.SRC + "/paper/surface_code_circuits"
    ps = m.honeycomb_problems() + m.surface_code_problems(d)
    if kind == "list":
        return digest(repr([tuple(getattr(p.desc, k) for k in FIELDS) for p in ps]))
    if kind == "script":
        # The problems as the paper's script itself makes them, with the stored surface code circuits found by default.
        q = script_problem(m, op[1])
        return digest(str(q.circuit_maker())) + "/" + repr(tuple(getattr(q.desc, k) for k in FIELDS))
    if kind == "problem":
        p = ps[op[1] % len(ps)]
        return digest(str(p.circuit_maker())) + "/" + repr(tuple(getattr(p.desc, k) for k in FIELDS))
    raise ValueError(kind)


_script = threading.local()


def script_problem(m, k):
    """What collect_data hands to the collector for one problem number."""
    def capture(problems, **kw):
        _script.got = list(problems)
    if hasattr(m, "collect_simulated_experiment_data"):
        m.collect_simulated_experiment_data = capture
    _script.got = None
    m.collect_data(surface_dir=None, problem_id=k, case_reduction=1, out_path=None, max_shots=1)
    if not _script.got or len(_script.got) != 1:
        raise RuntimeError("the script did not collect exactly one problem")
    return _script.got[0]


FIELDS = ["data_width", "data_height", "code_distance", "num_qubits", "rounds", "noise", "circuit_style", "preserved_observable", "decoder"]


# ------------------------------------------------------------------------------------------------ child interpreter
class Baton:
    """Runs threads one at a time; at calls of repository functions a seeded choice may pass the turn."""

    def __init__(self, seed, src, rate):
        self.rng = random.Random(seed)
        self.src = src
        self.rate = rate
        self.locks = []
        self.alive = []
        self.switches = 0
        self.points = 0
        self.me = threading.local()
        self.trace = []
        self.explicit = None

    def profile(self, frame, event, arg):
        if event != "call" or not frame.f_code.co_filename.startswith(self.src):
            return
        self.points += 1
        if self.explicit is not None:
            sw = self.points in self.explicit
        else:
            sw = self.rng.random() < self.rate
        if sw:
            others = [i for i in self.alive if i != self.me.i]
            if others:
                self.trace.append(self.points)
                self.switches += 1
                self.hand(self.rng.choice(others) if self.explicit is None else others[self.points % len(others)], wait=True)

    def hand(self, to, wait):
        i = self.me.i
        self.locks[to].release()
        if wait:
            self.locks[i].acquire()

    def run(self, bodies):
        n = len(bodies)
        self.locks = [threading.Lock() for _ in range(n)]
        for l in self.locks:
            l.acquire()
        self.alive = list(range(n))
        done = threading.Semaphore(0)
        out = [None] * n

        def go(i):
            self.me.i = i
            self.locks[i].acquire()
            sys.setprofile(self.profile)
            try:
                out[i] = bodies[i]()
            except BaseException as e:
                out[i] = e
            sys.setprofile(None)
            self.alive.remove(i)
            if self.alive:
                self.locks[self.rng.choice(self.alive)].release()
            done.release()

        ts = [threading.Thread(target=go, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self.locks[0].release()
        for _ in range(n):
            if not done.acquire(timeout=200):
                raise RuntimeError("simulated threads are stuck")
        return out


def child():
    sc = json.load(sys.stdin)
    answer, sys.stdout = sys.stdout, sys.stderr
    from . import loader
    loader.preload()
    import warnings
    warnings.simplefilter("ignore")
    ms = loader.ModuleSet()
    ms.activate()
    res = dict(threads=[], switches=0, points=0)
    if len(sc["threads"]) > 1:
        # Imports hold locks of the interpreter: done before the threads start.
        for n in ("honeycomb_layout", "honeycomb_circuit", "main_collect_all"):
            ms.load(n)

    def body(ops):
        def f():
            out = []
            for op in ops:
                try:
                    out.append(perform(ms.load, op))
                except Exception as e:
                    out.append(f"!{type(e).__name__}: {str(e)[:200]}")
            return out
        return f

    if len(sc["threads"]) == 1:
        outs = [body(sc["threads"][0])()]
    else:
        b = Baton(sc["seed"], loader.SRC, sc["rate"])
        if sc.get("switch_points") is not None:
            b.explicit = set(sc["switch_points"])
        outs = b.run([body(t) for t in sc["threads"]])
        res.update(switches=b.switches, points=b.points, switch_points=b.trace)
    for o in outs:
        if isinstance(o, BaseException):
            raise o
        res["threads"].append(o)
    json.dump(res, answer)


# ------------------------------------------------------------------------------------------------ parent
def config(rng, n_max=40):
    style = rng.choice(["SD6", "PC3", "EM3", "EM3_v2", "SI1000"])
    n = rng.randrange(1, n_max)
    if style == "SI1000":
        n = max(3, n - n % 3)
    return dict(style=style, obs=rng.choice("VH"), w=2 * rng.choice([1, 2, 2, 3]), h=6 * rng.choice([1, 1, 2]), n=n,
                noise=rng.choice([0.0001, 0.001, 0.003]))


def gen(seed, tier):
    rng = random.Random(seed)
    base = config(rng)

    def near():
        """The same experiment with one parameter changed, or another one."""
        c = dict(base)
        k = rng.choice(["same", "style", "obs", "w", "h", "n", "noise", "any"])
        o = config(rng)
        if k == "any":
            return o
        if k in c:
            c[k] = o[k]
        if c["style"] == "SI1000":
            c["n"] = max(3, c["n"] - c["n"] % 3)
        return c

    threads = []
    nt = rng.choice([1, 1, 2, 2, 3])
    for _ in range(nt):
        ops = []
        for _ in range(rng.randrange(2, 6)):
            k = rng.random()
            if k < 0.62:
                ops.append(["circuit", near(), rng.random() < 0.3])
            elif k < 0.78:
                ops.append(["query", near()])
            elif k < 0.86:
                ops.append(["list"])
            elif k < 0.95:
                ops.append(["problem", small_problem(rng)])
            else:
                ops.append(["script", small_problem(rng)])
        threads.append(ops)
    yield dict(prop="C17", seed=seed, hashseed=rng.choice([0, 1, rng.randrange(2, 2 ** 32 - 1)]), threads=threads, rate=rng.choice([0.002, 0.02, 0.2]),
               cwd=rng.choice([".", ".", "/", "/usr", "scratch"]), lang=rng.choice(["C", "C.UTF-8", "tr_TR.UTF-8"]))


def small_problem(rng):
    """Number of a problem whose circuit is small enough to generate often (per decoder: 15 noises x 5 sizes x 3 styles x 2 observables)."""
    k = rng.random()
    if k < 0.75:
        return rng.choice([0, 450]) + 30 * rng.randrange(15) + rng.choice([0, 0, 6]) + rng.randrange(6)
    return 900 + rng.choice([0, 300]) + 60 * rng.choice([0, 0, 1]) + rng.randrange(60)


_refs = {}


def reference(op):
    from . import loader
    from .qprops import quiet
    if op[0] == "script":
        op = ["problem", op[1]]
    key = json.dumps(op[:2])
    if key not in _refs:
        ms = loader.ModuleSet()
        ms.activate()
        try:
            with quiet():
                try:
                    _refs[key] = perform(ms.load, op if op[0] != "circuit" else [op[0], op[1], False])
                except Exception as e:
                    _refs[key] = f"!{type(e).__name__}: {str(e)[:200]}"
        finally:
            ms.deactivate()
    return _refs[key]


def run(sc):
    from .qprops import QResult
    r = QResult()
    r.note(json.dumps({k: v for k, v in sc.items() if k != "keep_log"}, sort_keys=True))
    env = dict(os.environ, PYTHONHASHSEED=str(sc["hashseed"]), LC_ALL=sc.get("lang", "C.UTF-8"))
    with tempfile.TemporaryDirectory(prefix="dst17-") as scratch:
        cwd = {".": HERE, "scratch": scratch}.get(sc.get("cwd", "."), sc.get("cwd", "."))
        q = subprocess.run([sys.executable, "-c", f"import sys; sys.path[0] = {HERE!r}; from dst import c17; c17.child()"], input=json.dumps(sc),
                           capture_output=True, text=True, cwd=cwd, env=env, timeout=280)
    if q.returncode != 0:
        raise RuntimeError(f"child failed: {q.stderr[-2000:]}")
    res = json.loads(q.stdout)
    r.note(q.stdout)
    r.switches = res["switches"]
    r.preempts = res["switches"]
    r.switch_points = res.get("switch_points", [])
    r.fault("hash_seed_changed", sc["hashseed"] != 0)
    r.fault("other_working_directory", sc.get("cwd", ".") != ".")
    r.fault("preempted_between_calls", res["switches"])
    for t, (ops, outs) in enumerate(zip(sc["threads"], res["threads"])):
        for i, (op, got) in enumerate(zip(ops, outs)):
            want = reference(op)
            r.steps += 1
            r.log.append(f"thread {t} request {i} {op}: {got} (alone: {want})")
            r.probe("requests_compared")
            if op[0] == "circuit" and not want.startswith("!"):
                want = want.split("/")[0]
                if op[2]:
                    r.probe("generated_twice")
                if got.split("/")[0] != want:
                    return r.fail("context", f"thread {t} request {i}: the circuit of {op[1]} differs from the one generated alone "
                                             f"(hash seed {sc['hashseed']}, {res['switches']} switches)" + (f": {got}" if got[0] == "!" else "")) or r
                if got.split("/")[1] != want:
                    return r.fail("context", f"thread {t} request {i}: generating {op[1]} twice gives two circuits") or r
            elif want.startswith("!"):
                return r.fail("crash", f"{op}: {want[1:]}") or r
            elif got != want:
                return r.fail("context", f"thread {t} request {i} {op}: {got} instead of {want} (hash seed {sc['hashseed']})") or r
            if op[0] in ("problem", "script"):
                describe_problem(op[1], r)
                if r.violation:
                    return r
            if op[0] == "query":
                describe_layout(op[1], r)
                if r.violation:
                    return r
            if op[0] == "list":
                problem_list(r)
                if r.violation:
                    return r
    return r


_described = {}


def problem_list(r):
    """All problem numbers name different problems."""
    if "list" not in _described:
        from .qprops import QResult, Repo
        x = QResult()
        with Repo() as repo:
            from . import loader
            m = repo.mod("main_collect_all")
            ps = m.honeycomb_problems() + m.surface_code_problems(loader.SRC + "/paper/surface_code_circuits")
            seen = {}
            for i, p in enumerate(ps):
                k = tuple(getattr(p.desc, f) for f in FIELDS)
                if k in seen:
                    x.fail("duplicate", f"problems {seen[k]} and {i} are the same: {k}")
                seen[k] = i
        _described["list"] = x.violation
    if _described["list"]:
        r.fail(*_described["list"])


def describe_problem(k, r):
    """The description of problem k against the circuit it produces."""
    if k not in _described:
        from .qprops import QResult
        x = QResult()
        _check_description(k, x)
        _described[k] = x.violation
    r.probe("descriptions_checked")
    if _described[k]:
        r.fail(*_described[k])


def describe_layout(cfg, r):
    """The description of any layout against the circuit it produces."""
    key = json.dumps(cfg, sort_keys=True)
    if key not in _described:
        from .qprops import QResult, Repo
        x = QResult()
        with Repo() as repo:
            lay = repo.mod("honeycomb_layout").HoneycombLayout(data_width=cfg["w"], data_height=cfg["h"], sub_rounds=cfg["n"], style=cfg["style"],
                                                               obs=cfg["obs"], noise=cfg["noise"])
            pr = lay.as_decoder_problem("internal_correlated")
            c = pr.circuit_maker()
            if str(c) != str(lay.make_circuit()):
                x.fail("description", f"{cfg}: the problem's circuit is not the layout's")
            have = tuple(getattr(pr.desc, f) for f in FIELDS)
            if getattr(pr.desc, "decoder", None) != getattr(lay.as_decoder_problem_desc("internal_correlated"), "decoder", None):
                x.fail("description", f"{cfg}: two descriptions")
        want = (cfg["w"], cfg["h"], honeycomb_distance(cfg["w"], cfg["h"]), len(c.get_final_qubit_coordinates()), -(-cfg["n"] // 3), cfg["noise"],
                "honeycomb_" + cfg["style"], cfg["obs"], "internal_correlated")
        if have != want:
            x.fail("description", f"{cfg}: described as {dict(zip(FIELDS, have))}, the circuit is of {dict(zip(FIELDS, want))}")
        _described[key] = x.violation
    r.probe("layout_descriptions_checked")
    if _described[key]:
        r.fail(*_described[key])


_distances = {}


def honeycomb_distance(w, h):
    """The fewest single-qubit errors between perfect operations that flip either observable undetected."""
    if (w, h) not in _distances:
        import stim
        from .qprops import Repo
        found = []
        with Repo() as repo:
            for obs in "VH":
                lay = repo.mod("honeycomb_layout").HoneycombLayout(data_width=w, data_height=h, sub_rounds=12, style="EM3", obs=obs, noise=0)
                c = stim.Circuit()
                whole = lay.make_circuit()
                data = sorted(whole.get_final_qubit_coordinates())
                for op in whole.flattened():
                    c.append(op)
                    if op.name == "TICK":
                        c.append("DEPOLARIZE1", data, 0.001)
                found.append(len(c.shortest_graphlike_error()))
        _distances[w, h] = min(found)
    return _distances[w, h]


def _check_description(k, r):
    import stim
    from . import loader, quantum
    from .qprops import Repo
    with Repo() as repo:
        m = repo.mod("main_collect_all")
        d = loader.SRC + "/paper/surface_code_circuits"
        ps = m.honeycomb_problems() + m.surface_code_problems(d)
        p = ps[k % len(ps)]
        de = p.desc
        c = p.circuit_maker()
        who = f"problem {k % len(ps)} ({de.circuit_style} {de.data_width}x{de.data_height} noise {de.noise} {de.preserved_observable})"
        style = de.circuit_style
        area = de.data_width * de.data_height
        used = set()
        for op in quantum.flat(c):
            if op.name not in quantum.ANNOT and op.name not in quantum.NOISE:
                used |= {t.value for t in op.targets_copy() if not t.is_combiner}
        if style.startswith("honeycomb_"):
            qubits = len(c.get_final_qubit_coordinates())
            subs, rest = divmod(c.num_measurements - area, area // 2)
            rounds = -(-subs // 3)
            lay = repo.mod("honeycomb_layout").HoneycombLayout
            distance = honeycomb_distance(de.data_width, de.data_height)
            other = lay(data_width=de.data_width, data_height=de.data_height, sub_rounds=subs, style=style[10:], obs=de.preserved_observable,
                        noise=de.noise).make_circuit()
        else:
            qubits = len(used)
            rounds, rest = divmod(c.num_measurements - area, area - 1)
            distance = len(c.shortest_graphlike_error()) if de.data_width < 10 else de.data_width
            other = m.surface_code_circuit(d, style[8:], de.noise, de.preserved_observable, de.data_width)
        if rest or rounds != de.rounds:
            return r.fail("description", f"{who}: described as {de.rounds} rounds, the circuit measures {rounds} (remainder {rest})")
        if qubits != de.num_qubits:
            return r.fail("description", f"{who}: described with {de.num_qubits} qubits, the circuit uses {qubits}")
        if distance != de.code_distance:
            return r.fail("description", f"{who}: described with code distance {de.code_distance}, it is {distance}")
        if str(other) != str(c):
            return r.fail("description", f"{who}: the circuit is not the one of the described experiment")


def candidates(sc):
    ts = sc["threads"]
    for i in range(len(ts)):
        if len(ts) > 1:
            yield dict(sc, threads=ts[:i] + ts[i + 1:])
    for i, t in enumerate(ts):
        for j in range(len(t)):
            if len(t) > 1:
                yield dict(sc, threads=ts[:i] + [t[:j] + t[j + 1:]] + ts[i + 1:])
    if sc.get("cwd", ".") != ".":
        yield dict(sc, cwd=".")
    if sc["hashseed"] != 0:
        yield dict(sc, hashseed=0)
    sp = sc.get("switch_points")
    if sp:
        yield dict(sc, switch_points=[])
        yield dict(sc, switch_points=sp[:len(sp) // 2])
        yield dict(sc, switch_points=sp[len(sp) // 2:])
        for i in range(min(len(sp), 6)):
            yield dict(sc, switch_points=sp[:i] + sp[i + 1:])
