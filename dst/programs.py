"""Random circuits over the operations a noise model accepts, and an independent description of the noise each model prescribes."""
import random

import numpy as np
import stim

from . import faults as F
from .quantum import flat

C1 = ["C_XYZ", "C_ZYX", "H", "H_YZ", "I"]
C2 = ["CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ"]
RESETS = {"R": "Z", "RX": "X", "RY": "Y"}
MEASURES = {"M": "Z", "MX": "X", "MY": "Y"}
MODELS = ["SD6", "PC3", "EM3_v1", "EM3_v2", "SI1000"]
STYLE_MODEL = {"SD6": "SD6", "PC3": "PC3", "EM3": "EM3_v1", "EM3_v2": "EM3_v2", "SI1000": "SI1000"}


# ------------------------------------------------------------------------------------------------ noise models
def spec_of(model, p):
    """What a noise model prescribes: strengths of named gates, of all other one- and two-qubit gates, and of idling."""
    def s(gates, idle=p, extra=0, any1=None, any2=None, corr=False):
        return dict(gates=gates, idle=idle, extra=extra, any1=any1, any2=any2, corr=corr)
    if model == "SD6":
        return s({"CX": p, "R": p, "M": p}, any1=p)
    if model == "PC3":
        return s({"R": p, "M": p}, any1=p, any2=p)
    if model == "EM3_v1":
        return s({"R": p, "M": p, "MPP": p}, any1=p)
    if model == "EM3_v2":
        return s({"R": p / 2, "M": p / 2, "MPP": p}, any1=0, any2=0, corr=True)
    if model == "SI1000":
        return s({"CZ": p, "R": 2 * p, "M": 5 * p}, any1=p / 10, idle=p / 10, extra=2 * p)
    raise ValueError(model)


def gen_spec(rng: random.Random):
    """A noise model put together by a user."""
    st = [0, 0.001, 0.002, 0.003, 0.005, 0.008, 0.013, 0.021]
    pick = lambda: rng.choice(st)
    maybe = lambda: pick() if rng.random() < 0.6 else None
    gates = {"M": pick(), "R": pick()}
    for n in ("RX", "RY", "MX", "MY", "MPP"):
        if rng.random() < 0.5:
            gates[n] = pick()
    for n in C1 + C2:
        if rng.random() < 0.2:
            gates[n] = pick()
    # (Whether a parity measurement counts as a measurement for the additional idle fault is left open.)
    extra = 0 if "MPP" in gates else rng.choice([0, pick()])
    return dict(gates=gates, idle=pick(), extra=extra, any1=maybe(), any2=maybe(), corr=rng.random() < 0.5)


def rate(spec, name):
    """Strength prescribed for an operation; None if the model does not support it."""
    if name in spec["gates"]:
        return spec["gates"][name]
    if name in C1:
        return spec["any1"]
    if name in C2:
        return spec["any2"]
    return None


def no_noise(spec):
    return not any([*spec["gates"].values(), spec["idle"], spec["extra"], spec["any1"], spec["any2"]])


# ------------------------------------------------------------------------------------------------ random programs
def gen_program(rng: random.Random, spec, *, max_moments=7, final=True):
    """Nested list: strings are instructions, ["REPEAT", n, body] are loops.  Every qubit is used at most once per moment."""
    nq = rng.choice([1, 2, 3, 4, 5, 6, 8])
    span = rng.choice([nq, nq, nq + 3, 3 * nq + 2])
    pool = sorted(rng.sample(range(span), nq))
    parity = rate(spec, "MPP") is not None
    c1 = [n for n in C1 if rate(spec, n) is not None]
    c2 = [n for n in C2 if rate(spec, n) is not None]
    resets = [n for n in RESETS if rate(spec, n) is not None]
    measures = [n for n in MEASURES if rate(spec, n) is not None]
    state = dict(m=0)
    prog = []
    if rng.random() < 0.5:
        for q in pool:
            if rng.random() < 0.8:
                prog.append(f"QUBIT_COORDS({rng.randrange(9)}, {rng.randrange(9) / 2}) {q}")

    def emit_moment(out, pool):
        left = [q for q in pool if rng.random() < rng.choice([0.3, 0.7, 1.0])]
        rng.shuffle(left)
        items = []      # (name, target text)
        kinds = (["c1", "c1"] if c1 else []) + ["R", "M"] + (["c2"] * 3 if c2 else []) + (["MPP"] * 4 if parity else [])
        while left:
            k = rng.choice(kinds)
            q = left.pop()
            if k in ("c2", "MPP") and left:
                r = left.pop()
                if k == "c2":
                    items.append((rng.choice(c2), f"{q} {r}"))
                else:
                    a, b = ("!" if rng.random() < 0.15 else "" for _ in range(2))
                    items.append(("MPP", f"{a}{rng.choice('XYZ')}{q}*{b}{rng.choice('XYZ')}{r}"))
            elif k == "R":
                items.append((rng.choice(resets), str(q)))
            elif k == "M" or not c1:
                items.append((rng.choice(measures), ("!" if rng.random() < 0.15 else "") + str(q)))
            else:
                items.append((rng.choice(c1), str(q)))
        # Fuse some of the items of the same name into one instruction.
        groups = []
        for n, t in items:
            for g in groups:
                if g[0] == n and rng.random() < 0.7:
                    g[1].append(t)
                    break
            else:
                groups.append((n, [t]))
        rng.shuffle(groups)
        for n, ts in groups:
            out.append(f"{n} " + " ".join(ts))
            if n in MEASURES or n == "MPP":
                state["m"] += len(ts)
            annotate(out)

    def annotate(out):
        while rng.random() < 0.25:
            k = rng.choice(["DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "DETECTOR"])
            if k == "SHIFT_COORDS":
                out.append(f"SHIFT_COORDS(0, {rng.randrange(3)}, 1)")
                continue
            n = min(state["m"], rng.choice([0, 1, 1, 2, 3]))
            recs = " ".join(f"rec[-{r}]" for r in rng.sample(range(1, state["m"] + 1), n)) if n else ""
            if k == "DETECTOR":
                out.append(f"DETECTOR({rng.randrange(5)}, {rng.randrange(5)}, 0) {recs}".strip())
            elif recs:
                out.append(f"OBSERVABLE_INCLUDE({rng.randrange(3)}) {recs}")

    def block(out, depth, moments):
        sub = pool if rng.random() < 0.5 else sorted(rng.sample(pool, rng.randrange(1, len(pool) + 1)))
        done = 0
        while done < moments:
            done += 1
            if depth < 2 and rng.random() < 0.22:
                body = []
                reps = rng.choice([1, 2, 2, 3, 3, 5])
                m0 = state["m"]
                block(body, depth + 1, rng.choice([1, 1, 2, 3]))
                if not body:
                    continue
                state["m"] += (state["m"] - m0) * (reps - 1)
                if rng.random() < 0.6:
                    out.append("TICK")
                out.append(["REPEAT", reps, body])
                if rng.random() < 0.5:
                    out.append("TICK")
                continue
            emit_moment(out, sub if depth else pool)
            annotate(out)
            if rng.random() < 0.93 or depth == 0:
                out.append("TICK")
            else:
                break
            if rng.random() < 0.06:
                out.append("TICK")

    block(prog, 0, rng.randrange(1, max_moments + 1))
    if final:
        prog.append("TICK")
        for n in c1:
            ts = [q for q in pool if rng.random() < 0.35]
            if ts:
                prog.append(f"{n} " + " ".join(map(str, ts)))
                prog.append("TICK")
        prog.append("M " + " ".join(map(str, pool)))
    return prog


def program_text(prog, indent=""):
    out = []
    for x in prog:
        if isinstance(x, str):
            out.append(indent + x)
        else:
            out.append(f"{indent}REPEAT {x[1]} {{")
            out.append(program_text(x[2], indent + "    "))
            out.append(indent + "}")
    return "\n".join(out)


def one_use_per_moment(circuit):
    """Whether no qubit is used twice between two TICKs or loop boundaries."""
    for ops in moments(circuit):
        seen = set()
        for op in ops:
            if op.name in F.ANNOT or F.is_noise(op):
                continue
            for t in op.targets_copy():
                if t.is_combiner:
                    continue
                if t.value in seen:
                    return False
                seen.add(t.value)
    return True


def moments(circuit):
    """Lists of instructions of each time step, in execution order; a step ends at a TICK and where a loop body begins or ends."""
    cur = []

    def go(c):
        nonlocal cur
        for op in c:
            if isinstance(op, stim.CircuitRepeatBlock):
                if cur:
                    yield cur
                    cur = []
                body = op.body_copy()
                for _ in range(op.repeat_count):
                    yield from go(body)
                    if cur:
                        yield cur
                        cur = []
            else:
                cur.append(op)
                if op.name == "TICK":
                    yield cur
                    cur = []
    yield from go(circuit)
    if cur:
        yield cur


def cut_program(prog):
    """Smaller programs (for minimising)."""
    n = len(prog)
    for size in (n // 2, n // 4, 1):
        if size >= 1:
            for i in range(0, n, size):
                yield prog[:i] + prog[i + size:]
    for i, x in enumerate(prog):
        if isinstance(x, list):
            yield prog[:i] + x[2] + prog[i + 1:]
            if x[1] > 1:
                yield prog[:i] + [["REPEAT", x[1] - 1, x[2]]] + prog[i + 1:]
            for b in cut_program(x[2]):
                if b:
                    yield prog[:i] + [["REPEAT", x[1], b]] + prog[i + 1:]
        else:
            w = x.split()
            if len(w) > 2 and w[0] not in C2:
                for k in range(1, len(w)):
                    yield prog[:i] + [" ".join(w[:k] + w[k + 1:])] + prog[i + 1:]


# ------------------------------------------------------------------------------------------------ prescribed noise
class Prescribed(F.Faulty):
    """The original circuit with the faults its noise model prescribes, as channels with known effects."""

    def __init__(self, circuit, spec, idlers=None):
        """idlers: qubits exposed to idle faults; all by default."""
        self.circuit = circuit
        self.ops = []
        self.sites = []
        self.probs = []
        qubits = set()
        for op in flat(circuit):
            if op.name not in F.ANNOT:
                qubits |= {x.value for x in op.targets_copy() if not x.is_combiner}
        if idlers is not None:
            qubits &= set(idlers)

        def channel(comps):
            """comps: [(probability, component)]; takes effect where it is added."""
            if sum(pr for pr, _ in comps) > 0:
                self.sites.append((len(self.ops), [c for _, c in comps]))
                self.probs.append([pr for pr, _ in comps])

        def dep1(q, pr):
            channel([(pr / 3, (("P", q, c),)) for c in "XYZ"])

        def dep2(a, b, pr):
            channel([(pr / 15, tuple(("P", q, c) for q, c in ((a, x), (b, y)) if c != "I")) for x, y in F.P15])

        for ops in moments(circuit):
            used, mr = set(), set()
            post = []
            for op in ops:
                n = op.name
                if n == "TICK":
                    continue
                if n in F.ANNOT:
                    self.ops.append(op)
                    continue
                ts = op.targets_copy()
                qs = [x.value for x in ts if not x.is_combiner]
                used |= set(qs)
                pr = rate(spec, n)
                if n in MEASURES:
                    for q in qs:
                        channel([(pr, (("P", q, "Z" if MEASURES[n] == "X" else "X"),))])
                    self.ops.append(None)
                    self.ops.append(op)
                    mr |= set(qs)
                elif n in RESETS:
                    self.ops.append(op)
                    post += [(lambda q=q, n=n, pr=pr: channel([(pr, (("P", q, "Z" if RESETS[n] == "X" else "X"),))])) for q in qs]
                    mr |= set(qs)
                elif n == "MPP":
                    for k, g in enumerate(op.target_groups()):
                        a, b = g[0].value, g[1].value
                        # A flipped result: a Pauli anticommuting with the parity just before, undone just after.
                        f = ("P", a, "Z" if g[0].pauli_type == "X" else "X")
                        one = stim.CircuitInstruction("MPP", [g[0], stim.target_combiner(), g[1]])
                        if pr == 0:
                            self.ops.append(one)
                        elif not spec["corr"]:
                            dep2(a, b, pr)
                            self.ops.append(None)
                            self.sites.append((len(self.ops), [(("R", 0),)]))
                            self.probs.append([pr])
                            self.ops.append(one)
                        else:
                            # With probability pr: a uniformly random element of all Paulis on the pair times {flip, no flip}.
                            comps = []
                            for x in "IXYZ":
                                for y in "IXYZ":
                                    pl = tuple(("P", q, c) for q, c in ((a, x), (b, y)) if c != "I")
                                    comps.append((pr / 32, pl, False))
                                    comps.append((pr / 32, pl, True))
                            self.ops.append(one)
                            # Site position: both the result flip (at the measurement) and the Pauli (right after it).
                            self.sites.append((len(self.ops) - 1, [(("R", 0),) * fl + (("A",) + tuple(pl),) for _, pl, fl in comps]))
                            self.probs.append([c[0] for c in comps])
                            self.ops.append(None)
                elif n in C1:
                    self.ops.append(op)
                    post += [(lambda q=q, pr=pr: dep1(q, pr)) for q in qs]
                elif n in C2:
                    self.ops.append(op)
                    post += [(lambda a=a, b=b, pr=pr: dep2(a, b, pr)) for a, b in zip(qs[::2], qs[1::2])]
                else:
                    raise ValueError(n)
            if used:
                for f in post:
                    f()
                for q in sorted(qubits - used):
                    dep1(q, spec["idle"])
                if mr:
                    for q in sorted(qubits - mr):
                        dep1(q, spec["extra"])
                self.ops.append(None)
        self.num_faults = sum(len(g) for _, g in self.sites)


def channel_probs(circuit, faulty):
    """Probabilities of the components of every site of a noisy circuit; exclusive chains become one channel.

    Returns a list of channels, each a list of (probability, site, component).
    """
    out = []
    site = 0
    chain = 1.0
    for op in flat(circuit):
        gs = F.groups_of(op)
        if not gs:
            continue
        a = op.gate_args_copy()
        for g in gs:
            if op.name == "DEPOLARIZE1":
                pr = [a[0] / 3] * 3
            elif op.name == "DEPOLARIZE2":
                pr = [a[0] / 15] * 15
            elif op.name in ("PAULI_CHANNEL_1", "PAULI_CHANNEL_2"):
                pr = [x for x in a if x > 0]
            else:
                pr = [a[0]]
            if op.name == "ELSE_CORRELATED_ERROR":
                out[-1].append((chain * a[0], site, 0))
                chain *= 1 - a[0]
            else:
                out.append([(x, site, k) for k, x in enumerate(pr)])
                chain = 1 - a[0]
            site += 1
    assert site == len(faulty.sites)
    return out


def log_spectrum(channels, flips, S):
    """log of the expectation of (-1)^(parity of each record set in S) under independent channels [(prob, row), ...]."""
    rows = [r for ch in channels for _, r in ch]
    if not rows:
        return np.zeros(S.shape[1])
    probs = np.array([p for ch in channels for p, _ in ch])
    starts = np.cumsum([0] + [len(ch) for ch in channels])[:-1]
    total = np.zeros(S.shape[1])
    fl = flips.astype(np.float32)
    # In blocks of channels, to bound the memory.
    bounds = list(range(0, len(channels), 2000)) + [len(channels)]
    ends = list(starts) + [len(rows)]
    for lo, hi in zip(bounds, bounds[1:]):
        a, b = ends[lo], ends[hi]
        par = (fl[rows[a:b]] @ S) % 2
        v = -2.0 * probs[a:b, None] * par
        s = np.add.reduceat(v, np.array(starts[lo:hi]) - a, axis=0)
        total += np.log1p(s).sum(axis=0)
    return total
