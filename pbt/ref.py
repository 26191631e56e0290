"""Reference model, written independently of the code under test (numpy only).

Conventions (documented by Blueqat): qubit 0 is the least significant bit of the state index;
a key of a shots counter has the bit of qubit i at string position i.
"""
import cmath
import math

import numpy as np

SQ2 = 1 / math.sqrt(2)


def _c(rows):
    return np.array(rows, dtype=complex)


def rx(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return _c([[c, -1j * s], [-1j * s, c]])


def ry(t):
    c, s = math.cos(t / 2), math.sin(t / 2)
    return _c([[c, -s], [s, c]])


def rz(t):
    return _c([[cmath.exp(-0.5j * t), 0], [0, cmath.exp(0.5j * t)]])


def phase(t):
    return _c([[1, 0], [0, cmath.exp(1j * t)]])


def u3(t, p, l):
    # SU(2) form: rz(phi) ry(theta) rz(lambda)
    return rz(p) @ ry(t) @ rz(l)


I2 = np.eye(2, dtype=complex)
MX = _c([[0, 1], [1, 0]])
MY = _c([[0, -1j], [1j, 0]])
MZ = _c([[1, 0], [0, -1]])
MH = _c([[SQ2, SQ2], [SQ2, -SQ2]])
PAULI = {'I': I2, 'X': MX, 'Y': MY, 'Z': MZ}


def ctrl(u):
    """4x4 on (control, target): index = control + 2*target (first listed qubit least significant)."""
    m = np.eye(4, dtype=complex)
    for a in range(2):
        for b in range(2):
            m[1 + 2 * a, 1 + 2 * b] = u[a, b]
    return m


def rpp(p, t):
    """exp(-i t/2 P(x)P)"""
    pp = np.kron(p, p)
    return math.cos(t / 2) * np.eye(4) - 1j * math.sin(t / 2) * pp


SWAP = _c([[1, 0, 0, 0], [0, 0, 1, 0], [0, 1, 0, 0], [0, 0, 0, 1]])


def _ccx():
    m = np.eye(8, dtype=complex)
    m[[3, 7]] = m[[7, 3]]           # controls = bits 0 and 1, target = bit 2
    return m


def _cswap():
    m = np.eye(8, dtype=complex)
    m[[3, 5]] = m[[5, 3]]           # control = bit 0; swap bits 1 and 2
    return m


def cu1(l):
    # documented as the controlled phase gate; its decomposition carries the global phase e^{-il/4}
    return ctrl(phase(l)) * cmath.exp(-0.25j * l)


# name -> (canonical lower name, number of qubits, number of params, matrix(params))
GATES = {
    'i': ('i', 1, 0, lambda: I2),
    'x': ('x', 1, 0, lambda: MX),
    'y': ('y', 1, 0, lambda: MY),
    'z': ('z', 1, 0, lambda: MZ),
    'h': ('h', 1, 0, lambda: MH),
    't': ('t', 1, 0, lambda: phase(math.pi / 4)),
    'tdg': ('tdg', 1, 0, lambda: phase(-math.pi / 4)),
    's': ('s', 1, 0, lambda: phase(math.pi / 2)),
    'sdg': ('sdg', 1, 0, lambda: phase(-math.pi / 2)),
    'rx': ('rx', 1, 1, rx),
    'ry': ('ry', 1, 1, ry),
    'rz': ('rz', 1, 1, rz),
    'r': ('phase', 1, 1, phase),
    'phase': ('phase', 1, 1, phase),
    'u1': ('u1', 1, 1, rz),
    'u2': ('u2', 1, 2, lambda p, l: u3(math.pi / 2, p, l)),
    'u3': ('u3', 1, 3, u3),
    'cx': ('cx', 2, 0, lambda: ctrl(MX)),
    'cnot': ('cx', 2, 0, lambda: ctrl(MX)),
    'cy': ('cy', 2, 0, lambda: ctrl(MY)),
    'cz': ('cz', 2, 0, lambda: ctrl(MZ)),
    'ch': ('ch', 2, 0, lambda: ctrl(MH)),
    'crx': ('crx', 2, 1, lambda t: ctrl(rx(t))),
    'cry': ('cry', 2, 1, lambda t: ctrl(ry(t))),
    'crz': ('crz', 2, 1, lambda t: ctrl(rz(t))),
    'cr': ('cphase', 2, 1, lambda t: ctrl(phase(t))),
    'cphase': ('cphase', 2, 1, lambda t: ctrl(phase(t))),
    'cu1': ('cu1', 2, 1, cu1),
    'cu2': ('cu2', 2, 2, lambda p, l: ctrl(u3(math.pi / 2, p, l))),
    'cu3': ('cu3', 2, 3, lambda t, p, l: ctrl(u3(t, p, l))),
    'swap': ('swap', 2, 0, lambda: SWAP),
    'rxx': ('rxx', 2, 1, lambda t: rpp(MX, t)),
    'ryy': ('ryy', 2, 1, lambda t: rpp(MY, t)),
    'rzz': ('rzz', 2, 1, lambda t: rpp(MZ, t)),
    'ccx': ('ccx', 3, 0, _ccx),
    'toffoli': ('ccx', 3, 0, _ccx),
    'cswap': ('cswap', 3, 0, _cswap),
}
# gates without a method of circuits: appended as objects
OBJECTS = {'ccz': ('ccz', 3, 0, lambda: np.diag([1, 1, 1, 1, 1, 1, 1, -1]).astype(complex))}
GATE = {**GATES, **OBJECTS}
# non-unitary operations, one qubit each
OPS1 = {'m': 'measure', 'measure': 'measure', 'reset': 'reset'}


def n_args(name):
    return 0 if name in OPS1 else GATE[name][2]


def n_qubits_of(name):
    return 1 if name in OPS1 else GATE[name][1]


# ---------------------------------------------------------------- addresses
# JSON encoding of addresses: int | {"i": int} (numpy integer) | {"s":[start,stop,step]} | {"t":[...]}

def dec_target(t):
    if isinstance(t, dict):
        if 's' in t:
            return slice(*t['s'])
        if 'i' in t:
            return np.int64(t['i'])
        return tuple(dec_target(x) for x in t['t'])
    return t


def resolve1(t, n):
    """Qubits selected by an address of a one-qubit operation, by Python's own indexing rules."""
    reg = list(range(n))
    if isinstance(t, dict):
        if 's' in t:
            return reg[slice(*t['s'])]
        if 'i' in t:
            return [reg[t['i']]]
        out = []
        for x in t['t']:
            out += resolve1(x, n)
        return out
    return [reg[t]]


def resolve_pairs(t, n):
    a, b = t['t']
    a, b = resolve1(a, n), resolve1(b, n)
    if len(a) != len(b) or any(x == y for x, y in zip(a, b)):
        raise ValueError('not pairs of different qubits')
    return list(zip(a, b))


def resolve(name, t, n):
    """List of qubit tuples the operation is applied to, in order."""
    k = n_qubits_of(name)
    if k == 1:
        return [(q,) for q in resolve1(t, n)]
    if k == 2:
        return resolve_pairs(t, n)
    qs = tuple(q for x in t['t'] for q in resolve1(x, n))
    if len(qs) != 3 or len(set(qs)) != 3:
        raise ValueError('not three different qubits')
    return [qs]


def mentioned_max(t):
    """Largest non-negative index mentioned by an address (-1 if none)."""
    if isinstance(t, dict):
        if 's' in t:
            start, stop, _ = t['s']
            m = -1
            if start is not None:
                m = max(m, start)
            if stop is not None:
                m = max(m, stop - 1)
            return m
        if 'i' in t:
            return t['i']
        return max([mentioned_max(x) for x in t['t']], default=-1)
    return t


def final_n(n0, ops):
    n = n0
    for o in ops:
        n = max(n, mentioned_max(o[2]) + 1)
    return n


def dec_param(p):
    if isinstance(p, list):
        kind, v = p
        if kind == 'f64':
            return np.float64(v)
        if kind == 'f32':
            return np.float32(v)
        if kind == 'i64':
            return np.int64(v)
        raise ValueError(kind)
    return p


def num(p):
    return float(dec_param(p))


# ---------------------------------------------------------------- simulation

def zero_state(n):
    v = np.zeros(2 ** n, dtype=complex)
    v[0] = 1
    return v


def apply(v, mat, qubits, n):
    """Apply a 2^k x 2^k matrix (first listed qubit = least significant) to the state (or the
    columns of a matrix) v."""
    k = len(qubits)
    cols = v.reshape(2 ** n, -1)
    out = np.zeros_like(cols)
    idx = np.arange(2 ** n)
    local = np.zeros(2 ** n, dtype=int)
    for j, q in enumerate(qubits):
        local |= ((idx >> q) & 1) << j
    rest = idx.copy()
    for q in qubits:
        rest &= ~(1 << q)
    for b in range(2 ** k):
        src = rest.copy()
        for j, q in enumerate(qubits):
            if (b >> j) & 1:
                src |= 1 << q
        out += mat[local, b][:, None] * cols[src]
    return out.reshape(v.shape)


def gate_matrix(name, params):
    return GATE[name][3](*[num(p) for p in params])


def run_unitary(v, ops, n):
    """ops: [name, params, target] or [name, params, target, True] for the conjugate of the operation"""
    for o in ops:
        name, params, t = o[:3]
        m = gate_matrix(name, params)
        where = resolve(name, t, n)
        if len(o) > 3 and o[3]:
            m = m.conj().T
            where = where[::-1]
        for qs in where:
            v = apply(v, m, qs, n)
    return v


def state(n, ops):
    return run_unitary(zero_state(n), ops, n)


def unitary(n, ops):
    return run_unitary(np.eye(2 ** n, dtype=complex), ops, n)


def project(v, q, bit):
    idx = np.arange(len(v))
    return np.where(((idx >> q) & 1) == bit, v, 0)


def reset_branch(v, q, bit):
    """Unnormalised state after observing `bit` on q and setting q to |0>."""
    w = project(v, q, bit)
    if bit == 0:
        return w
    out = np.zeros_like(w)
    idx = np.arange(len(v))
    zero = ((idx >> q) & 1) == 0
    out[zero] = w[idx[zero] | (1 << q)]
    return out


def branches(n, ops, eps=1e-14, limit=4096, initial=None, bits=None):
    """All (creg bits, unnormalised state) reachable with probability > eps.

    Branches with equal classical bits are kept apart: they are different physical states.
    """
    cur = [(bits or (0,) * n, zero_state(n) if initial is None else initial)]
    for o in ops:
        name, params, t = o[:3]
        if name in OPS1:
            kind = OPS1[name]
            for (q,) in resolve(name, t, n):
                new = []
                for bits, v in cur:
                    for b in (0, 1):
                        w = project(v, q, b) if kind == 'measure' else reset_branch(v, q, b)
                        if np.vdot(w, w).real <= eps:
                            continue
                        nb = bits[:q] + (b,) + bits[q + 1:] if kind == 'measure' else bits
                        new.append((nb, w))
                cur = new
                if len(cur) > limit:
                    raise ValueError('too many branches')
        else:
            cur = [(bits, run_unitary(v, [o], n)) for bits, v in cur]
    return cur


def merged(n, ops, limit=600):
    """Like branches(), where equal states with equal bits are merged (long Clifford circuits)."""
    cur = [((0,) * n, zero_state(n))]
    for o in ops:
        new = {}
        for bits, v in cur:
            for b, w in branches(n, [o], initial=v, bits=bits, eps=1e-14 * np.vdot(v, v).real, limit=limit):
                p = np.vdot(w, w).real
                u = w / np.sqrt(p)
                key = (b, tuple(np.round(u + (1 + 1j), 6)))
                p0, _ = new.get(key, (0, None))
                new[key] = (p0 + p, u)
        if len(new) > limit:
            raise ValueError('too many branches')
        cur = [(b, u * np.sqrt(p)) for (b, _), (p, u) in new.items()]
    return cur


def distribution(n, ops, leaves=None):
    """Exact distribution of the counter keys."""
    d = {}
    for bits, v in branches(n, ops) if leaves is None else leaves:
        k = ''.join(map(str, bits))
        d[k] = d.get(k, 0.0) + np.vdot(v, v).real
    return d


# ---------------------------------------------------------------- comparing

def phase_aligned(a, b):
    """b multiplied by the unit complex number that best aligns it with a."""
    ip = np.vdot(b, a)
    if abs(ip) < 1e-300:
        return b
    return b * (ip / abs(ip))


def close(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.isfinite(a))) and \
        (a.size == 0 or float(np.max(np.abs(a - b))) <= tol)


def close_up_to_phase(a, b, tol):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and close(a, phase_aligned(a, b), tol)


def binom_tail(n, k, p):
    """Two-sided tail probability of observing a count at least as far out as k (exact, scipy)."""
    from scipy.stats import binom
    if p <= 0:
        return 1.0 if k == 0 else 0.0
    if p >= 1:
        return 1.0 if k == n else 0.0
    return min(1.0, 2 * min(binom.cdf(k, n, p), binom.sf(k - 1, n, p)))
