"""Stand-in for the qgate simulator, which is not installed here: its documented objects over a dense state.

Qreg, Reference, Gate(type) with set_qreg/set_ctrllist/set_adjoint, MultiQubitGate(type) with set_qreglist,
Measure(reference, qreg), the gate types with the matrices of the qgate documentation, the simulator factories cpu,
cuda and py with qubits.set_ordering, run, obs, qubits.states and qubits.create_sampling_pool."""
import math
import random
import sys
import types
from cmath import exp

import numpy as np


class Qreg:
    pass


class Reference:
    pass


class Gate:
    def __init__(self, gt):
        self.gt, self.qreg, self.ctrls, self.adjoint = gt, None, (), False

    def set_qreg(self, q):
        assert isinstance(q, Qreg)
        self.qreg = q

    def set_ctrllist(self, qs):
        self.ctrls = (qs,) if isinstance(qs, Qreg) else tuple(qs)
        assert all(isinstance(q, Qreg) for q in self.ctrls)

    def set_adjoint(self, flag):
        self.adjoint = flag


class MultiQubitGate(Gate):
    def set_qreglist(self, qs):
        self.qregs = tuple(qs)
        assert all(isinstance(q, Qreg) for q in self.qregs)


class Measure:
    def __init__(self, ref, qreg):
        assert isinstance(ref, Reference) and isinstance(qreg, Qreg)
        self.ref, self.outref, self.qreg = ref, ref, qreg


def _type(name, n_args, matrix):
    class GateType:
        def __init__(self, *args):
            if len(args) != n_args:
                raise TypeError(f'{name} takes {n_args} arguments, {len(args)} given')
            self.args = args

        def matrix(self):
            return np.array(matrix(*self.args), dtype=complex)
    GateType.__name__ = name
    return GateType


def _u(t, p, l):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return [[c, -exp(1j * l) * s], [exp(1j * p) * s, exp(1j * (p + l)) * c]]


R2 = math.sqrt(0.5)
TYPES = {
    'ID': (0, lambda: [[1, 0], [0, 1]]), 'X': (0, lambda: [[0, 1], [1, 0]]), 'Y': (0, lambda: [[0, -1j], [1j, 0]]),
    'Z': (0, lambda: [[1, 0], [0, -1]]), 'H': (0, lambda: [[R2, R2], [R2, -R2]]),
    'S': (0, lambda: [[1, 0], [0, 1j]]), 'T': (0, lambda: [[1, 0], [0, exp(0.25j * math.pi)]]),
    'RX': (1, lambda t: [[math.cos(t / 2), -1j * math.sin(t / 2)], [-1j * math.sin(t / 2), math.cos(t / 2)]]),
    'RY': (1, lambda t: [[math.cos(t / 2), -math.sin(t / 2)], [math.sin(t / 2), math.cos(t / 2)]]),
    'RZ': (1, lambda t: [[exp(-0.5j * t), 0], [0, exp(0.5j * t)]]),
    'U1': (1, lambda t: [[1, 0], [0, exp(1j * t)]]), 'U2': (2, lambda p, l: _u(math.pi / 2, p, l)), 'U': (3, _u),
    'ExpiI': (1, lambda t: [[exp(1j * t), 0], [0, exp(1j * t)]]), 'SWAP': (0, lambda: np.eye(2)),
}


class States:
    def __init__(self, owner):
        self.owner = owner

    def __getitem__(self, k):
        return self.owner.vec[k].copy()


class ObservationList:
    def __init__(self, ordering, obs, mask):
        self.ordering, self.obs, self.mask = list(ordering), [int(v) for v in obs], mask

    def histgram(self):
        out = {}
        for v in self.obs:
            assert 0 <= v < 1 << len(self.ordering), v
            out[v] = out.get(v, 0) + 1
        return out


class SamplingPool:
    def __init__(self, prob, empty_lanes, ordering):
        self.prob, self.empty, self.ordering = prob, empty_lanes, ordering

    def sample(self, n):
        vals = random.choices(range(len(self.prob)), weights=self.prob, k=n)
        lanes = [k for k in range(len(self.ordering)) if k not in self.empty]
        return ObservationList(self.ordering, [sum(1 << q for b, q in enumerate(lanes) if v >> b & 1) for v in vals],
                               sum(1 << k for k in self.empty))


class Qubits:
    def __init__(self):
        self.order, self.vec, self.touched = [], None, set()
        self.states = States(self)

    def set_ordering(self, qregs):
        self.order = list(qregs)
        assert len(set(map(id, self.order))) == len(self.order)
        self.vec = np.zeros(2 ** len(self.order), dtype=complex)
        self.vec[0] = 1

    def lane(self, q):
        return [k for k, x in enumerate(self.order) if x is q][0]

    def apply(self, m, q, ctrls=()):
        i = np.arange(len(self.vec))
        on = np.ones(len(i), dtype=bool)
        for c in ctrls:
            assert c is not q, 'control and target are the same qubit'
            on &= (i >> self.lane(c) & 1) == 1
        t = self.lane(q)
        i0 = i[on & ((i >> t & 1) == 0)]
        a, b = self.vec[i0].copy(), self.vec[i0 | 1 << t].copy()
        self.vec[i0] = m[0][0] * a + m[0][1] * b
        self.vec[i0 | 1 << t] = m[1][0] * a + m[1][1] * b
        self.touched.update([id(q)] + [id(c) for c in ctrls])

    def create_sampling_pool(self, ordering, factory=None):
        ordering = list(ordering)
        empty = [k for k, q in enumerate(ordering) if id(q) not in self.touched]
        lanes = [self.lane(q) for q in ordering if id(q) in self.touched]
        prob = np.zeros(1 << len(lanes))
        for k, a in enumerate(self.vec):
            prob[sum(1 << b for b, lane in enumerate(lanes) if k >> lane & 1)] += abs(a) ** 2
        return (factory or SamplingPool)(prob, empty, ordering)


class Observation:
    def __init__(self, value):
        self.int = value


class Simulator:
    def __init__(self, **prefs):
        self.prefs, self.qubits, self.values = prefs, Qubits(), {}

    def run(self, ops):
        for op in ops:
            if isinstance(op, Measure):
                lane = self.qubits.lane(op.qreg)
                one = (np.arange(len(self.qubits.vec)) >> lane & 1) == 1
                p = float(np.sum(abs(self.qubits.vec[one]) ** 2))
                bit = random.random() < p
                self.qubits.vec[one != bit] = 0
                self.qubits.vec /= np.linalg.norm(self.qubits.vec)
                self.values[id(op.ref)] = int(bit)
            elif isinstance(op, MultiQubitGate):
                assert type(op.gt).__name__ == 'SWAP' and len(op.qregs) == 2
                a, b = op.qregs
                for c, t in ((a, b), (b, a), (a, b)):
                    self.qubits.apply([[0, 1], [1, 0]], t, [c])
            else:
                m = op.gt.matrix()
                self.qubits.apply(m.conj().T if op.adjoint else m, op.qreg, op.ctrls)

    def obs(self, refs):
        return Observation(sum(self.values.get(id(r), 0) << k for k, r in enumerate(refs)))


def install():
    root = types.ModuleType('qgate')
    root.model = types.ModuleType('qgate.model')
    gt = root.model.gate_type = types.ModuleType('qgate.model.gate_type')
    for name, (n, f) in TYPES.items():
        setattr(gt, name, _type(name, n, f))
    for c in (Qreg, Reference, Gate, MultiQubitGate, Measure):
        setattr(root.model, c.__name__, c)
    root.simulator = types.ModuleType('qgate.simulator')
    for name in ('cpu', 'cuda', 'py'):
        setattr(root.simulator, name, Simulator)
    root.simulator.observation = types.ModuleType('qgate.simulator.observation')
    root.simulator.observation.ObservationList = ObservationList
    root.prefs = types.ModuleType('qgate.prefs')
    root.prefs.dynamic, root.prefs.static = 'dynamic', 'static'
    for name in ('', '.model', '.model.gate_type', '.simulator', '.simulator.observation', '.prefs'):
        obj = root
        for part in name.split('.')[1:]:
            obj = getattr(obj, part)
        sys.modules['qgate' + name] = obj
    return root
