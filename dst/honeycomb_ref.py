"""Executable reference of the ideal honeycomb memory protocol (written from the protocol, not from the code).

Torus of coord_width = 2*data_width by coord_height = data_height.  Hexes sit at (2c, 2r - c%2) and have one of three
categories; the edges of type t are the spokes leaving the hexes of category t; sub-round k measures all edges of
type k%3 in basis XYZ[k%3].
"""
import random

import numpy as np
import stim


class Ref:
    def __init__(self, data_width, data_height, sub_rounds, obs):
        self.W, self.H, self.n, self.obs = data_width, data_height, sub_rounds, obs
        cw, ch = 2 * data_width, data_height
        self.cw, self.ch = cw, ch
        wrap = lambda x, y: (x % cw, y % ch)
        self.hex_cat = {}
        for c in range(data_width):
            for r in range(data_height // 2):
                self.hex_cat[wrap(2 * c, 2 * r - c % 2)] = (-r - c % 2) % 3
        # Spokes: from a hex corner outwards to the corner of the next hex of the same category.
        spokes = [((1, -1), (2, -3)), ((1, 1), (2, 3)), ((1, 0), (4, 0))]
        self.edges = [[], [], []]          # per type: (qubit, qubit, center)
        qs = set()
        for (x, y), cat in self.hex_cat.items():
            for (dx, dy), (hx, hy) in spokes:
                a = (x + dx, y + dy)
                b = (x + hx - dx, y + hy - dy)
                self.edges[cat].append((wrap(*a), wrap(*b), wrap((a[0] + b[0]) / 2, (a[1] + b[1]) / 2)))
                qs |= {wrap(*a), wrap(*b)}
        for t in range(3):
            self.edges[t].sort(key=lambda e: e[2])
        self.qubits = sorted(qs)
        self.qi = {q: i for i, q in enumerate(self.qubits)}
        assert len(self.qubits) == data_width * data_height
        self.by_center = {e[2]: (t, j) for t in range(3) for j, e in enumerate(self.edges[t])}
        self.by_pair = [{frozenset(e[:2]): j for j, e in enumerate(self.edges[t])} for t in range(3)]
        # Edges around each hex, by type.
        corner = [(1, -1), (1, 0), (1, 1), (-1, 1), (-1, 0), (-1, -1)]
        self.hex_edges = {}
        self.hex_qubits = {}
        for (x, y), cat in self.hex_cat.items():
            cs = [wrap(x + dx, y + dy) for dx, dy in corner]
            mids = [wrap(x + (corner[i][0] + corner[(i + 1) % 6][0]) / 2, y + (corner[i][1] + corner[(i + 1) % 6][1]) / 2)
                    for i in range(6)]
            self.hex_qubits[x, y] = cs
            d = {0: [], 1: [], 2: []}
            for m in mids:
                t, j = self.by_center[m]
                d[t].append(j)
            assert len(d[cat]) == 0 and all(len(d[t]) == 3 for t in range(3) if t != cat)
            self.hex_edges[x, y] = d
        self.init_basis = self.obs_op(0)[0]
        self.final_basis = self.obs_op(self.n)[0]
        self._build()

    def obs_op(self, k):
        """(basis, qubits) of the preserved logical operator before sub-round k."""
        if self.obs == "V":
            pat = ["_ZZ", "_YY", "YY_", "XX_", "X_X", "Z_Z"][k % 6]
            qs = sorted(q for q in self.qubits if q[0] == 1)
        else:
            pat = ["XXXX", "X__X", "Z__Z", "_ZZ_", "_YY_", "YYYY"][k % 6]
            qs = sorted((q for q in self.qubits if q[1] in (0, 1)), key=lambda q: (q[0], (1 + q[1] + q[0] // 2) % 2))
        b, = set(pat) - {"_"}
        return b, [q for i, q in enumerate(qs) if pat[i % len(pat)] != "_"]

    def obs_edge(self, t, j):
        a, b, _ = self.edges[t][j]
        if self.obs == "V":
            return a[0] == b[0] == 1
        return a[1] in (0, 1) and b[1] in (0, 1)

    # Outcome numbering: ("e", k, j) for edge j of type k%3 in sub-round k, then ("d", q).
    def _build(self):
        n, E = self.n, [len(self.edges[t]) for t in range(3)]
        self.base = []
        tot = 0
        for k in range(n):
            self.base.append(tot)
            tot += E[k % 3]
        self.data_base = tot
        self.num_outcomes = tot + len(self.qubits)
        e = lambda k, j: self.base[k] + j
        B = "XYZ".index(self.init_basis)
        F = "XYZ".index(self.final_basis)
        dets = []
        at = []                            # per comparison: (x, y, sub-round that completes it; n for the data measurement)
        if B == 0:
            dets += [frozenset([e(0, j)]) for j in range(E[0])]
            at += [(*self.edges[0][j][2], 0) for j in range(E[0])]
        self.num_start = len(dets)

        def inferred(h, k):
            """Outcomes whose parity is plaquette h's value at sub-round k, or None."""
            c = self.hex_cat[h]
            if k < 0 or (k - 2) % 3 != c:
                return None
            first = [] if k == 0 else [e(k - 1, j) for j in self.hex_edges[h][(c + 1) % 3]]
            if k == 0 and (c + 1) % 3 != B:
                return None
            s = frozenset()
            for x in first + [e(k, j) for j in self.hex_edges[h][(c + 2) % 3]]:
                s ^= {x}
            return s

        def known(h, k):
            """Value of plaquette h known just before sub-round k (latest inference), or None."""
            c = self.hex_cat[h]
            kk = k - 1
            while kk >= 0 and (kk - 2) % 3 != c:
                kk -= 1
            s = inferred(h, kk) if kk >= 0 else None
            if s is not None:
                return s
            return frozenset() if c == B else None

        hexes = sorted(self.hex_cat)
        for k in range(n):
            for h in hexes:
                now = inferred(h, k)
                before = known(h, k) if now is not None else None
                if now is not None and before is not None:
                    dets.append(now ^ before)
                    at.append((*h, k))
        self.num_bulk = len(dets) - self.num_start
        dq = lambda q: self.data_base + self.qi[q]
        last = (n - 1) % 3
        if last == F:
            for j, (a, b, m) in enumerate(self.edges[F]):
                dets.append(frozenset([dq(a)]) ^ {dq(b)} ^ {e(n - 1, j)})
                at.append((*m, n))
        else:
            other = 3 - last - F
            for h in hexes:
                if self.hex_cat[h] == other:
                    before = known(h, n)
                    if before is not None:
                        s = frozenset(before)
                        for q in self.hex_qubits[h]:
                            s ^= {dq(q)}
                        for j in self.hex_edges[h][last]:
                            s ^= {e(n - 1, j)}
                        dets.append(s)
                        at.append((*h, n))
        for h in hexes:
            if self.hex_cat[h] == F:
                before = known(h, n)
                if before is not None:
                    s = frozenset(before)
                    for q in self.hex_qubits[h]:
                        s ^= {dq(q)}
                    dets.append(s)
                    at.append((*h, n))
        self.dets = dets
        self.places = [tuple(float(v) for v in p) for p in at]
        assert len(at) == len(dets)
        o = frozenset()
        for q in self.obs_op(n)[1]:
            o ^= {dq(q)}
        for k in range(n):
            for j in range(E[k % 3]):
                if self.obs_edge(k % 3, j):
                    o ^= {e(k, j)}
        self.observable = o
        import scipy.sparse as sp
        rows = [i for i, s in enumerate(dets) for _ in s]
        cols = [x for s in dets for x in sorted(s)]
        self.mat = sp.csr_matrix((np.ones(len(rows), dtype=np.int32), (rows, cols)), shape=(len(dets), self.num_outcomes))

    # ------------------------------------------------------------------ ideal execution
    def pauli(self, basis, qs):
        ps = stim.PauliString(len(self.qubits))
        for q in qs:
            ps[self.qi[q]] = basis
        return ps

    def check_outcomes(self, outcomes):
        """None if the ideal protocol can produce these outcomes, else a description.  Also returns the number of free ones."""
        sim = stim.TableauSimulator()
        sim.set_num_qubits(len(self.qubits))
        if self.init_basis == "X":
            sim.h(*range(len(self.qubits)))
        elif self.init_basis == "Y":
            sim.h_yz(*range(len(self.qubits)))
        free = 0
        for k in range(self.n):
            b = "XYZ"[k % 3]
            for j, (p, q, c) in enumerate(self.edges[k % 3]):
                ps = self.pauli(b, [p, q])
                want = bool(outcomes[self.base[k] + j])
                v = sim.peek_observable_expectation(ps)
                if v == 0:
                    sim.postselect_observable(ps, desired_value=want)
                    free += 1
                elif (v < 0) != want:
                    return f"sub-round {k}: edge at {c} reported {int(want)}, the protocol gives {int(v < 0)}", free
        for q in self.qubits:
            ps = self.pauli(self.final_basis, [q])
            want = bool(outcomes[self.data_base + self.qi[q]])
            v = sim.peek_observable_expectation(ps)
            if v == 0:
                sim.postselect_observable(ps, desired_value=want)
                free += 1
            elif (v < 0) != want:
                return f"final measurement of the data qubit at {q} reported {int(want)}, the protocol gives {int(v < 0)}", free
        return None, free

    def flips_from_start(self, paulis):
        """Outcome flips of the ideal protocol caused by Paulis {qubit: letter} on the freshly prepared data qubits."""
        f = np.zeros(self.num_outcomes, dtype=np.bool_)
        anti = lambda a, b: a != "I" and a != b
        for k in range(self.n):
            b = "XYZ"[k % 3]
            for j, (p, q, _) in enumerate(self.edges[k % 3]):
                f[self.base[k] + j] = anti(paulis.get(p, "I"), b) != anti(paulis.get(q, "I"), b)
        for q in self.qubits:
            f[self.data_base + self.qi[q]] = anti(paulis.get(q, "I"), self.final_basis)
        return f
