"""Seeded execution of stim circuits: every random outcome and every physical fault is decided by the caller."""
import numpy as np
import stim

ANNOT = {"DETECTOR", "OBSERVABLE_INCLUDE", "SHIFT_COORDS", "QUBIT_COORDS", "TICK"}
NOISE1 = {"DEPOLARIZE1", "X_ERROR", "Y_ERROR", "Z_ERROR"}
NOISE2 = {"DEPOLARIZE2"}
NOISE = NOISE1 | NOISE2 | {"E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2"}
MEAS = {"M": "Z", "MZ": "Z", "MX": "X", "MY": "Y", "MR": "Z", "MRZ": "Z", "MRX": "X", "MRY": "Y"}


def flat(circuit, limit=2_000_000):
    """Instructions in execution order."""
    def go(c):
        for op in c:
            if isinstance(op, stim.CircuitRepeatBlock):
                body = op.body_copy()
                for _ in range(op.repeat_count):
                    yield from go(body)
            else:
                yield op
    return go(circuit)


class Execution:
    """Runs instructions on a stabilizer state; random measurement outcomes come from coin()."""

    def __init__(self, num_qubits, coin):
        self.sim = stim.TableauSimulator()
        self.sim.set_num_qubits(num_qubits)
        self.n = num_qubits
        self.coin = coin
        self.record = []
        self.free = 0
        self.ops = 0
        self.resets = {}
        self.ticks = 0

    def measure(self, basis, q, key=None):
        s = self.sim
        if basis == "Z":
            v = s.peek_z(q)
        elif basis == "X":
            v = s.peek_x(q)
        else:
            v = s.peek_y(q)
        if v != 0:
            return v < 0
        b = bool(self.coin(2 * len(self.record) if key is None else key))
        self.free += 1
        (s.postselect_z if basis == "Z" else s.postselect_x if basis == "X" else s.postselect_y)(q, desired_value=b)
        return b

    def measure_pauli(self, ps):
        v = self.sim.peek_observable_expectation(ps)
        if v != 0:
            return v < 0
        b = bool(self.coin(2 * len(self.record)))
        self.free += 1
        self.sim.postselect_observable(ps, desired_value=b)
        return b

    def do(self, op):
        name = op.name
        if name in ANNOT or name in NOISE:
            self.ticks += name == "TICK"
            return
        self.ops += 1
        if name in MEAS:
            basis = MEAS[name]
            for t in op.targets_copy():
                r = self.measure(basis, t.value)
                self.record.append(r != t.is_inverted_result_target)
                if name.startswith("MR") and r:
                    # Reset: undo the -1 result.
                    {"Z": self.sim.x, "X": self.sim.z, "Y": self.sim.x}[basis](t.value)
        elif name == "MPP":
            for g in op.target_groups():
                ps = stim.PauliString(self.n)
                inv = False
                for t in g:
                    ps[t.value] = t.pauli_type
                    inv ^= t.is_inverted_result_target
                self.record.append(self.measure_pauli(ps) != inv)
        elif name in ("R", "RX", "RY", "RZ"):
            # A reset measures and corrects: the discarded outcome is random too.
            basis = {"R": "Z", "RZ": "Z", "RX": "X", "RY": "Y"}[name]
            for t in op.targets_copy():
                k = self.resets.get(t.value, 0)
                self.resets[t.value] = k + 1
                if self.measure(basis, t.value, 2 * (k * 100003 + t.value) + 1):
                    {"Z": self.sim.x, "X": self.sim.z, "Y": self.sim.x}[basis](t.value)
        else:
            self.sim.do(op)

    def run(self, circuit):
        for op in flat(circuit):
            self.do(op)
        return self


def coins(seed, mode="random"):
    """Decides the outcome of the random measurement with the given number (record index or reset count)."""
    if mode == "zeros":
        return lambda key: 0
    if mode == "ones":
        return lambda key: 1

    def f(key):
        z = (seed * 0x9E3779B97F4A7C15 + (key + 1) * 0xD1B54A32D192ED03) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & 0xFFFFFFFFFFFFFFFF
        z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & 0xFFFFFFFFFFFFFFFF
        return (z >> 31) & 1
    return f


def converter(circuit):
    return circuit.compile_m2d_converter(skip_reference_sample=True)


def events(circuit, records):
    """(detectors, observables) parities of an array of records."""
    return converter(circuit).convert(measurements=np.asarray(records, dtype=np.bool_), separate_observables=True)


# ------------------------------------------------------------------------------------------------ mapping to the protocol
def map_measurements(circuit, ref):
    """For every measurement of a generated circuit: ("e", type, j) or ("d", qubit); raises ValueError if it is neither.

    Works on what the instructions do: an ancilla measurement stands for the edge whose two data qubits were coupled to it
    since its last measurement or reset.
    """
    coords = {}
    touched = {}
    out = []
    letter = {}
    data_index = None
    for op in flat(circuit):
        name = op.name
        if name == "QUBIT_COORDS":
            a = op.gate_args_copy()
            for t in op.targets_copy():
                coords[t.value] = (a[0], a[1])
            continue
        if name in ANNOT or name in NOISE:
            continue
        if data_index is None:
            data_index = {i: q for i, q in coords.items() if q in ref.qi}
            if len(data_index) != len(ref.qubits) or len(set(data_index.values())) != len(ref.qubits):
                raise ValueError("the annotated data qubits are not those of the lattice")
        ts = op.targets_copy()
        if name == "MPP":
            for g in op.target_groups():
                ls = {t.pauli_type for t in g}
                pair = frozenset(data_index.get(t.value) for t in g)
                if len(g) != 2 or len(ls) != 1:
                    raise ValueError(f"unexpected parity measurement {g}")
                ty = "XYZ".index(ls.pop())
                if pair not in ref.by_pair[ty]:
                    raise ValueError(f"{pair} is not an edge of type {'XYZ'[ty]}")
                out.append(("e", ty, ref.by_pair[ty][pair]))
        elif name in MEAS:
            for t in ts:
                q = t.value
                if q in data_index:
                    out.append(("d", data_index[q]))
                    continue
                us = touched.get(q, [])
                pair = frozenset(data_index.get(u) for u, _ in us)
                if q in coords and coords[q] in ref.by_center:
                    ty, j = ref.by_center[coords[q]]
                    if pair != frozenset(ref.edges[ty][j][:2]):
                        raise ValueError(f"the ancilla at {coords[q]} was coupled to {sorted(pair, key=str)}")
                    out.append(("e", ty, j))
                else:
                    ls = {l for _, l in us}
                    if len(ls) != 1:
                        raise ValueError(f"helper {q} coupled in bases {ls}")
                    ty = "XYZ".index(ls.pop())
                    if pair not in ref.by_pair[ty]:
                        raise ValueError(f"{pair} is not an edge of type {'XYZ'[ty]}")
                    out.append(("e", ty, ref.by_pair[ty][pair]))
                touched[q] = []
        elif name in ("R", "RX", "RY"):
            for t in ts:
                touched[t.value] = []
        elif len(ts) >= 2 and name in ("CX", "CY", "CZ", "XCX", "XCY", "XCZ", "YCX", "YCY", "YCZ", "ZCX", "CNOT"):
            for i in range(0, len(ts), 2):
                a, b = ts[i].value, ts[i + 1].value
                l = {"CX": "Z", "CNOT": "Z", "ZCX": "Z", "CZ": "Z", "CY": "Z"}.get(name, name[0])
                if b not in data_index:
                    touched.setdefault(b, []).append((a, l))
                if a not in data_index:
                    touched.setdefault(a, []).append((b, l))
    return out


def to_outcomes(mapping, ref, records, cumulative):
    """Array (shots, outcomes) of protocol outcomes from raw records.  cumulative: ancillas are not reset in between."""
    records = np.asarray(records, dtype=np.bool_)
    res = np.zeros((records.shape[0], ref.num_outcomes), dtype=np.bool_)
    seen = np.zeros(ref.num_outcomes, dtype=np.int64)
    count = {}
    last = {}
    for i, m in enumerate(mapping):
        if m[0] == "d":
            x = ref.data_base + ref.qi[m[1]]
            res[:, x] = records[:, i]
        else:
            k = m[1] + 3 * count.get(m[1:], 0)
            count[m[1:]] = count.get(m[1:], 0) + 1
            if k >= ref.n:
                raise ValueError(f"edge {m} is measured more often than {ref.n} sub-rounds allow")
            x = ref.base[k] + m[2]
            v = records[:, i]
            if cumulative and m[1:] in last:
                v = v ^ last[m[1:]]
            if cumulative:
                last[m[1:]] = records[:, i]
            res[:, x] = v
        seen[x] += 1
    bad = np.nonzero(seen != 1)[0]
    if len(bad):
        raise ValueError(f"{len(bad)} outcomes of the protocol are not measured exactly once (first: number {bad[0]} of {ref.num_outcomes})")
    return res
