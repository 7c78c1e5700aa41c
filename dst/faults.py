"""Physical faults of a noisy circuit: where they can strike, and what executions hit by chosen faults report."""
import itertools

import numpy as np
import stim

from .quantum import ANNOT, MEAS, flat

P15 = [a + b for a in "IXYZ" for b in "IXYZ"][1:]
SINGLE = {"X_ERROR": "X", "Y_ERROR": "Y", "Z_ERROR": "Z"}
MEASURES = set(MEAS) | {"MPP", "MXX", "MYY", "MZZ"}


def groups_of(op):
    """Number of fault sites of one instruction and the fault components of each site: [[component, ...], ...].

    A component is a tuple of ("P", qubit, letter) and ("R", k) (flip of the k-th result of this instruction);
    ("A", ("P", qubit, letter), ...) strikes right after the instruction.
    """
    name = op.name
    ts = op.targets_copy()
    if name == "DEPOLARIZE1":
        return [[(("P", t.value, c),) for c in "XYZ"] for t in ts]
    if name == "DEPOLARIZE2":
        out = []
        for i in range(0, len(ts), 2):
            a, b = ts[i].value, ts[i + 1].value
            out.append([tuple(("P", q, c) for q, c in ((a, x), (b, y)) if c != "I") for x, y in P15])
        return out
    if name in SINGLE:
        return [[(("P", t.value, SINGLE[name]),)] for t in ts]
    if name in ("E", "CORRELATED_ERROR", "ELSE_CORRELATED_ERROR"):
        return [[tuple(("P", t.value, t.pauli_type) for t in ts)]]
    if name == "PAULI_CHANNEL_1":
        a = op.gate_args_copy()
        return [[(("P", t.value, c),) for c, p in zip("XYZ", a) if p > 0] for t in ts]
    if name == "PAULI_CHANNEL_2":
        a = op.gate_args_copy()
        out = []
        for i in range(0, len(ts), 2):
            x, y = ts[i].value, ts[i + 1].value
            out.append([tuple(("P", q, c) for q, c in ((x, l[0]), (y, l[1])) if c != "I") for l, p in zip(P15, a) if p > 0])
        return out
    if name in MEASURES and op.gate_args_copy() and op.gate_args_copy()[0] > 0:
        n = len(op.target_groups())
        return [[(("R", k),)] for k in range(n)]
    return []


def is_noise(op):
    return op.name.endswith("ERROR") or op.name in ("E", "DEPOLARIZE1", "DEPOLARIZE2", "PAULI_CHANNEL_1", "PAULI_CHANNEL_2",
                                                    "ELSE_CORRELATED_ERROR", "CORRELATED_ERROR", "HERALDED_ERASE", "HERALDED_PAULI_CHANNEL_1")


class Faulty:
    """A noisy circuit with all its fault sites in execution order."""

    LANES = 512

    def __init__(self, circuit):
        self.circuit = circuit
        self.ops = []           # (instruction without noise argument or None, is measurement)
        self.sites = []         # (position, components)
        for op in flat(circuit):
            gs = groups_of(op)
            i = len(self.ops)
            if gs:
                self.sites.extend((i, g) for g in gs)
            if is_noise(op):
                self.ops.append(None)
            elif op.name in MEASURES and op.gate_args_copy():
                self.ops.append(stim.CircuitInstruction(op.name, op.targets_copy()))
            else:
                self.ops.append(op)
        self.ticks = sum(op is not None and op.name == "TICK" for op in self.ops)
        self.num_faults = sum(len(g) for _, g in self.sites)

    def choose(self, rng, limit):
        """List of (site, component index): all of them, or a random selection of about `limit`."""
        if self.num_faults <= limit:
            return [(s, k) for s, (_, g) in enumerate(self.sites) for k in range(len(g))]
        out = set()
        while len(out) < limit:
            s = rng.randrange(len(self.sites))
            out.add((s, rng.randrange(len(self.sites[s][1]))))
        return sorted(out)

    clean_resets = False        # drop the trivial part of errors on qubits that were just reset

    def clean(self, sim, op):
        xs, zs, _, _, _ = sim.to_numpy(output_xs=True, output_zs=True)
        basis = {"R": "Z", "RX": "X", "RY": "Y"}[op.name]
        m = np.zeros_like(xs)
        for t in op.targets_copy():
            m[t.value] = (zs if basis == "Z" else xs)[t.value]
        if m.any():
            sim.broadcast_pauli_errors(pauli=basis, mask=m)

    def run(self, shots):
        """shots: list of lists of (site, component).  Returns (detector flips, observable flips, record flips), rows = shots."""
        if len(shots) > self.LANES:
            parts = [self.run(shots[i:i + self.LANES]) for i in range(0, len(shots), self.LANES)]
            return tuple(np.concatenate([p[k] for p in parts]) for k in range(3))
        B = max(1, len(shots))
        sim = stim.FlipSimulator(batch_size=B, disable_stabilizer_randomization=True, num_qubits=self.circuit.num_qubits)
        at = {}
        for lane, sh in enumerate(shots):
            for s, k in sh:
                pos, g = self.sites[s]
                at.setdefault(pos, []).append((lane, g[k]))
        NQ = self.circuit.num_qubits

        def apply(items):
            for letter in "XYZ":
                m = None
                for lane, q in items[letter]:
                    if m is None:
                        m = np.zeros((NQ, B), dtype=np.bool_)
                    m[q, lane] ^= True
                if m is not None:
                    sim.broadcast_pauli_errors(pauli=letter, mask=m)

        pending = {"X": [], "Y": [], "Z": []}
        dirty = False
        for i, op in enumerate(self.ops):
            hit = at.get(i)
            if op is None:
                for lane, comp in hit or ():
                    dirty = True
                    for _, q, c in comp:
                        pending[c].append((lane, q))
                continue
            if dirty:
                apply(pending)
                pending = {"X": [], "Y": [], "Z": []}
                dirty = False
            if hit is None:
                sim.do(op)
                if self.clean_resets and op.name in ("R", "RX", "RY"):
                    self.clean(sim, op)
                continue
            # Result flips: an anticommuting Pauli before and after the measurement.
            gs = op.target_groups()
            items = {"X": [], "Y": [], "Z": []}
            after = {"X": [], "Y": [], "Z": []}
            for lane, comp in hit:
                for c in comp:
                    if c[0] == "A":
                        for _, q, l in c[1:]:
                            after[l].append((lane, q))
                        continue
                    t = gs[c[1]][0]
                    b = t.pauli_type if op.name == "MPP" else MEAS[op.name]
                    items["Z" if b == "X" else "X"].append((lane, t.value))
            if op.name.startswith("MR"):
                raise NotImplementedError("noisy measure-reset")
            apply(items)
            sim.do(op)
            apply(items)
            apply(after)
        return (sim.get_detector_flips().T, sim.get_observable_flips().T, sim.get_measurement_flips().T)

    def describe(self, shot):
        out = []
        for s, k in shot:
            pos, g = self.sites[s]
            out.append(f"step {pos}: " + "*".join(f"{c[2]}{c[1]}" if c[0] == "P" else f"result {c[1]} flipped" for c in g[k]))
        return "; ".join(out)


def sparse_rows(m):
    """Rows of a boolean matrix as sorted tuples of column numbers."""
    r, c = np.nonzero(m)
    out = [[] for _ in range(m.shape[0])]
    for a, b in zip(r.tolist(), c.tolist()):
        out[a].append(b)
    return [tuple(x) for x in out]
