"""The Pauli Hamiltonian of a QUBO against the QUBO cost, over all assignments."""
import copy
import random

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp
import blueqat.vqe as vqe
from blueqat import wq

import bq
import paulis
from core import Subtest, require

ID = 'C18'
RULE = ('QUBO matrices of any triangle, as lists, tuples or integer/float arrays, compared at every bit '
        'assignment; non-trivial: an off-diagonal pair with two different non-zero entries, or only a lower '
        'triangle')


# Kinds of arrays whose entries are near the limits of the type.
NARROW = {'i8': np.int8, 'u8': np.uint8, 'bool': np.bool_, 'i16': np.int16, 'u32': np.uint32}
FIT = {'i8': lambda x: int(x) % 256 - 128, 'u8': lambda x: int(x) % 256, 'bool': lambda x: bool(x),
       'i8rows': lambda x: int(x) % 256 - 128, 'i16': lambda x: int(x * 4001) % 65536 - 32768,
       'u32': lambda x: int(x * 700000003) % 2 ** 32}
KINDS = ('list', 'tuple', 'rows', 'int', 'i32', 'F', 'np', 'np') * 2
ALL_KINDS = KINDS + tuple(FIT)


def dec(case):
    m = case['m']
    kind = case['kind']
    if kind == 'list':
        return [list(r) for r in m]
    if kind == 'tuple':
        return tuple(tuple(r) for r in m)
    if kind == 'rows':
        return [np.array(r, dtype=float) for r in m]
    if kind == 'int':
        return np.array([[int(x) for x in r] for r in m], dtype=np.int64)
    if kind == 'i32':
        return np.array([[int(x) for x in r] for r in m], dtype=np.int32)
    if kind in NARROW:
        return np.array(m, dtype=NARROW[kind])
    if kind == 'i8rows':
        return [np.array(r, dtype=np.int8) for r in m]
    if kind == 'F':
        return np.asfortranarray(np.array(m, dtype=float))
    return np.array(m, dtype=float)


def cost(m, bits):
    n = len(bits)
    return float(sum(float(m[i][j]) * bits[i] * bits[j] for i in range(n) for j in range(n)))


def assignments(n):
    for k in range(2 ** n):
        yield [(k >> i) & 1 for i in range(n)]


def deciding(n):
    """Assignments which determine a quadratic function: all with at most two ones, and some others."""
    yield [0] * n
    yield [1] * n
    for i in range(n):
        yield [int(k == i) for k in range(n)]
        yield [int(k > i) for k in range(n)]
        for j in range(i):
            yield [int(k in (i, j)) for k in range(n)]


def magnitude(m):
    return max(1.0, float(sum(abs(float(x)) for r in m for x in r)))


def unchanged(a, b):
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and np.array_equal(a, b)
    return len(a) == len(b) and all(np.array_equal(x, y) and type(x) is type(y) for x, y in zip(a, b))


def check(case, ctx):
    q = dec(case)
    keep = copy.deepcopy(q)
    n = len(case['m'])
    h = wq.pauli(q)
    require(unchanged(q, keep), 'the QUBO was changed to %s', q)
    d = paulis.from_library(h)
    tol = 1e-9 * magnitude(keep)
    require(all(l == 'Z' for k in d for _q, l in k), 'not diagonal: %r', h)
    require(all(i < n for k in d for i, _l in k), '%r acts on more than %d qubits', h, n)
    require(all(abs(c.imag) <= tol for c in d.values()), 'complex coefficients: %r', h)
    m = np.asarray(h.to_matrix(n))
    require(m.shape == (2 ** n, 2 ** n), 'matrix of shape %s', m.shape)
    require(np.count_nonzero(m - np.diag(np.diag(m))) == 0, 'matrix not diagonal: %r', h)
    for k, bits in enumerate(assignments(n)):
        want = cost(keep, bits)
        e = sum(c.real * (-1) ** sum(bits[i] for i, _l in key) for key, c in d.items())
        require(abs(e - want) <= tol, 'bits %s: %r has the energy %r, the QUBO %s costs %r', bits, h, e, keep, want)
        require(abs(m[k, k] - want) <= tol, 'bits %s: the matrix has %r, the QUBO costs %r', bits, m[k, k], want)
    off = [(keep[i][j], keep[j][i]) for i in range(n) for j in range(i)]
    ctx.label(case['kind'], case['shape'], f'{n} bits')
    ctx.interesting(any(a and b and a != b for a, b in off) or (off and all(not b for _a, b in off)
                                                                and any(a for a, _b in off)))


def check_large(case, ctx):
    """Problems whose variables have indices of two digits."""
    q = dec(case)
    keep = copy.deepcopy(q)
    n = len(case['m'])
    d = paulis.from_library(wq.pauli(q))
    tol = 1e-9 * magnitude(keep)
    require(unchanged(q, keep), 'the QUBO was changed to %s', q)
    require(all(l == 'Z' and i < n for k in d for i, l in k), 'unexpected operators: %s', d)
    require(all(len(k) <= 2 for k in d), 'terms of more than two qubits: %s', d)
    for bits in deciding(n):
        want = cost(keep, bits)
        e = sum(c.real * (-1) ** sum(bits[i] for i, _l in key) for key, c in d.items())
        require(abs(e - want) <= tol, 'bits %s: energy %r, cost %r of %s', bits, e, want, keep)
    ctx.label(case['kind'], case['shape'], f'{n} bits')
    ctx.interesting(len({tuple(r) for r in case['m']}) > 3)


class Diagonal(vqe.AnsatzBase):
    def __init__(self, h, n, bits):
        super().__init__(h, 0)
        self.n_qubits = n
        self.bits = bits

    def get_circuit(self, params):
        return bq.build_ops(self.n_qubits, [['x', [], i] for i, b in enumerate(self.bits) if b])


def check_energy(case, ctx):
    """The same energies through circuits that prepare the assignment."""
    q = dec(case)
    n = len(case['m'])
    bits = [int(b) for b in format(case['k'] % 2 ** n, f'0{n}b')[::-1]]
    want, tol = cost(q, bits), 1e-9 * magnitude(q)
    a = Diagonal(wq.pauli(q).to_expr(), n, bits)
    for s in (None, vqe.non_sampling_sampler, vqe.get_measurement_sampler(3), vqe.get_state_vector_sampler(3)):
        e = a.get_objective(s)([])
        require(abs(e - want) <= tol, 'bits %s of %s: energy %r, cost %r', bits, q, e, want)
    ctx.interesting(0 < sum(bits) < n)


def check_bad(case, ctx):
    rows = case['rows']
    n = len(rows)
    if all(len(r) == n for r in rows):
        return
    if case['np'] and len({len(r) for r in rows}) == 1:
        rows = np.array(rows)
    try:
        h = wq.pauli(rows)
    except Exception:
        ctx.interesting()
        return
    require(False, 'the non-square %s gave %r', rows, h)


def check_bit(case, ctx):
    n = case['n']
    for f in (bp.qubo_bit,):
        m = np.asarray(f(n).to_matrix(n + 2))
        want = np.diag([(k >> n) & 1 for k in range(2 ** (n + 2))])
        require(np.allclose(m, want, atol=1e-12), 'qubo_bit(%d) is %s', n, m)
        require(f(n).to_expr().n_qubits == n + 1, 'qubits of qubo_bit(%d)', n)
    ctx.interesting()


def check_hundred(case, ctx):
    """Many variables: the polynomial is compared, since it determines the energies."""
    n = case['n']
    q = np.zeros((n, n), dtype=float)
    for i, j, c in case['entries']:
        q[i % n, j % n] += c
    q = q if case['array'] else q.tolist()
    d = paulis.from_library(wq.pauli(q))
    want = {}
    for i in range(n):
        for j in range(n):
            c = float(q[i][j])
            if c and i == j:
                want = paulis.add(want, {(): c / 2, ((i, 'Z'),): -c / 2})
            elif c:
                a, b = sorted((i, j))
                want = paulis.add(want, {(): c / 4, ((a, 'Z'),): -c / 4, ((b, 'Z'),): -c / 4, ((a, 'Z'), (b, 'Z')): c / 4})
    for k in set(d) | set(want):
        require(abs(d.get(k, 0) - want.get(k, 0)) <= 1e-9 * 100 * n, '%s: coefficient %r, expected %r', k, d.get(k, 0),
                want.get(k, 0))
    for k in case['bits']:
        b = paulis.from_library(bp.qubo_bit(k).to_expr())
        require({w: c for w, c in b.items() if c} == {(): 0.5, ((k, 'Z'),): -0.5}, 'qubo_bit(%d) is %s', k, b)
    ctx.label(f'{n} bits')
    ctx.interesting(len(want) > 3)


@st.composite
def hundred(draw):
    n = draw(st.sampled_from([25, 32, 33, 40, 50, 63, 64, 65, 66, 70]))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    near = lambda: rng.choice([0, 1, n - 2, n - 1, rng.randrange(n)])       # noqa: E731
    return {'n': n, 'entries': [[near(), near(), paulis.quarter(rng)] for _ in range(rng.randint(1, 60))],
            'array': draw(st.booleans()), 'bits': draw(st.lists(st.integers(0, 3000), max_size=4))}


def check_qaoa(case, ctx):
    """The problem Opt.qaoa solves is the given QUBO."""
    q = dec(case)
    keep = copy.deepcopy(q)
    n = len(case['m'])
    o = wq.Opt()
    if case['add']:
        o.add(q)
    else:
        o.qubo = q
    r = o.qaoa(step=case['step']) if case['step'] != 2 else o.qaoa()
    require(len(r.params) == 2 * case['step'], '%s parameters for %s steps', len(r.params), case['step'])
    d = paulis.from_library(r.vqe.ansatz.hamiltonian)
    for bits in assignments(n):
        e = sum(c.real * (-1) ** sum(bits[i] for i, _l in key) for key, c in d.items())
        require(abs(e - cost(keep, bits)) <= 1e-9 * magnitude(keep), 'energy of %s is %r, cost %r', bits, e,
                cost(keep, bits))
    probs = r.get_probs()
    require(abs(sum(probs.values()) - 1) < 1e-9, 'probabilities %s', probs)
    require(unchanged(q, keep), 'the QUBO was changed')
    ctx.interesting(n > 1)


def entries():
    return st.one_of(st.integers(-9, 9), st.integers(-9, 9).map(lambda k: k / 4), st.floats(-5, 5, allow_nan=False),
                     st.just(0), st.integers(-10 ** 6, 10 ** 6))


@st.composite
def matrices(draw, max_n, kinds=ALL_KINDS, min_n=1):
    n = draw(st.integers(min_n, max_n))
    shape = draw(st.sampled_from(['upper', 'lower', 'full', 'full', 'symmetric', 'sparse']))
    e = entries()
    m = [[draw(e) if (shape == 'full' or (shape == 'sparse' and draw(st.booleans())) or
                      (shape in ('upper', 'symmetric') and j >= i) or (shape == 'lower' and j <= i)) else 0
          for j in range(n)] for i in range(n)]
    if shape == 'symmetric':
        m = [[m[min(i, j)][max(i, j)] for j in range(n)] for i in range(n)]
    kind = draw(st.sampled_from(kinds))
    if kind in ('int', 'i32'):
        m = [[int(x) for x in r] for r in m]
    if kind in FIT:
        m = [[FIT[kind](x) if x else 0 for x in r] for r in m]
    return {'m': m, 'kind': kind, 'shape': shape}


ROWS = st.lists(st.lists(st.integers(-3, 3), max_size=4), min_size=1, max_size=4)
RECT = st.tuples(st.integers(1, 4), st.integers(0, 4)).map(
    lambda s: [[i + j for j in range(s[1])] for i in range(s[0])])

SUBTESTS = [
    Subtest('costs', lambda tier: matrices(5 if tier == 'quick' else 8), check, 1600, 30000),
    Subtest('large', lambda tier: matrices(16 if tier == 'quick' else 24, min_n=9), check_large, 80, 1500),
    Subtest('many-variables', lambda tier: hundred(), check_hundred, 24, 500),
    Subtest('circuit-energies', lambda tier: st.builds(lambda m, k: {**m, 'k': k}, matrices(3),
                                                       st.integers(0, 7)), check_energy, 300, 5000),
    Subtest('not-square', lambda tier: st.builds(lambda r, b: {'rows': r, 'np': b}, st.one_of(ROWS, RECT),
                                                 st.booleans()), check_bad, 300, 3000),
    Subtest('bit', lambda tier: st.fixed_dictionaries({'n': st.integers(0, 6)}), check_bit, 7, 7, shards=1),
    Subtest('qaoa', lambda tier: st.builds(lambda m, s, a: {**m, 'step': s, 'add': a}, matrices(2),
                                           st.integers(1, 2), st.booleans()), check_qaoa, 24, 300),
]
ASSUMPTIONS = ['tolerance 1e-9 relative to the sum of the magnitudes of the entries']
