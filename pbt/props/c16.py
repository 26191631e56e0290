"""Energies and samplers of variational algorithms against exact expectation values."""
import math
import random
import warnings

import numpy as np
from hypothesis import assume, strategies as st

warnings.simplefilter('ignore')
import qiskit  # noqa: E402,F401
import qiskit_aer  # noqa: E402,F401

import blueqat.pauli as bp  # noqa: E402
import blueqat.vqe as vqe  # noqa: E402

import bq  # noqa: E402
import gen  # noqa: E402
import paulis  # noqa: E402
import ref  # noqa: E402
from core import Subtest, require  # noqa: E402

ID = 'C16'
RULE = ('user-defined ansatz classes over generated parametrised circuits in generic entangled states and '
        'Hermitian Hamiltonians (constants, repeated factors and repeated products included), compared with '
        '<psi|H|psi> of the reference; sampled tables against exact marginals (p < 1e-9 rejects); non-trivial: '
        'the Hamiltonian has an X or Y and a product of two or more qubits, or a requested order that is not '
        'ascending')

MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}
FORMATS = ['bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil']


def hamiltonian(case):
    """(library value, reference dictionary); coefficients are chosen so that it is Hermitian"""
    v, d, raw = bp.Expr.zero(), {}, []
    for ops, c in case['h']:
        key, k = paulis.canon(ops, 1 + 0j)
        t = bp.I.to_term()
        for l, q in ops:
            t = t * MAKE[l][q]
        t = t * (c if k == 1 else c / k)
        v = v + t
        raw.append(t)
        d = paulis.add(d, {key: c})
    kind = case['form']
    if kind == 'term' and len(raw) == 1:
        v = raw[0]
    elif kind == 'raw':
        v = bp.Expr(tuple(raw))
    elif kind == 'simplified':
        v = v.simplify()
    return v, d


def apply_word(key, v, n):
    for q, l in key:
        v = ref.apply(v, ref.PAULI[l], (q,), n)
    return v


def energy(d, n, ops):
    v = ref.state(n, ops)
    return sum(complex(c) * np.vdot(v, apply_word(k, v, n)) for k, c in d.items()).real if d else 0.0


def scale(d):
    return max(1.0, sum(abs(c) for c in d.values()))


def with_params(ops, slots, params):
    """Operations with the parameters of some rotations replaced."""
    out = [[o[0], list(o[1]), o[2]] for o in ops]
    for (i, j), p in zip(slots, params):
        out[i][1][j] = p
    return out


class Ansatz(vqe.AnsatzBase):
    def __init__(self, h, n, ops, slots):
        super().__init__(h, len(slots))
        require(self.n_qubits == h.n_qubits, 'the ansatz takes %r for %s qubits', h, self.n_qubits)
        self.n_qubits = max(n, self.n_qubits)
        self.spec = n, ops, slots
        self.asked = []

    def get_circuit(self, params):
        n, ops, slots = self.spec
        self.asked.append([float(p) for p in params])
        return bq.build_ops(n, with_params(ops, slots, [float(p) for p in params]))


def ham_n(d_or_v):
    return d_or_v.n_qubits


def check_energy(case, ctx):
    h, d = hamiltonian(case)
    shown = repr(h)
    n = max(case['n'], h.n_qubits)
    ops = case['ops']
    slots = [(i, j) for i, o in enumerate(ops) for j in range(len(o[1]))][:3]
    ansatz = Ansatz(h, n, ops, slots)
    require(ansatz.n_params == len(slots) and ansatz.hamiltonian is h, 'attributes of the ansatz')
    tol = 1e-7 * scale(d)

    def agrees(e, want, what):
        require(isinstance(e, (float, int, np.floating)) and abs(e - want) <= tol, '%s of %s in %s is %r, '
                'expected %r', what, shown, ops, e, want)

    # an explicit circuit
    c = bq.build_ops(n, ops)
    before = repr(c), c.n_qubits
    want = energy(d, n, ops)
    if case['ran']:
        c.run()
    agrees(ansatz.get_energy(c, vqe.non_sampling_sampler), want, 'exact-sampling energy')
    for f in case['formats']:
        ansatz.make_sparse(f) if f else ansatz.make_sparse()
        agrees(ansatz.get_energy_sparse(c), want, f'sparse energy ({f})')
        agrees(vqe.sparse_expectation(ansatz.sparse, ref.state(n, ops)), want, 'sparse_expectation')
    ansatz.make_sparse(make_method=lambda x: (x.to_expr() * 2).to_matrix(n, sparse='csr'))
    agrees(ansatz.get_energy_sparse(c) / 2, want, 'sparse energy (own method)')
    require((repr(c), c.n_qubits) == before, 'evaluating energies changed the circuit: %r', c)
    require(ref.close_up_to_phase(c.run(), ref.state(n, ops), 1e-8), 'the circuit runs differently afterwards')
    # objectives, for several parameter sets in any order
    objs = [Ansatz(h, n, ops, slots).get_objective(), Ansatz(h, n, ops, slots).get_objective(None),
            ansatz.get_objective(vqe.non_sampling_sampler)]
    for params in case['params']:
        p = params[:len(slots)]
        want = energy(d, n, with_params(ops, slots, p))
        for k, f in enumerate(objs):
            agrees(f(np.array(p) if case['np'] else p), want, f'objective {k} at {p}')
    ansatz.make_sparse()
    f = ansatz.get_objective()
    agrees(f(case['params'][0][:len(slots)]), energy(d, n, with_params(ops, slots, case['params'][0])),
           'objective after make_sparse')
    require(repr(h) == shown, 'the Hamiltonian was changed')
    # a circuit smaller than the Hamiltonian is extended by qubits in |0>
    m = case['small']
    few = [o for o in ops if ref.mentioned_max(o[2]) < m and bounded(o[2])]
    c = bq.build_ops(m, few)
    before = repr(c), c.n_qubits
    agrees(ansatz.get_energy(c, vqe.non_sampling_sampler), energy(d, n, few), 'energy in a small circuit')
    require((repr(c), c.n_qubits) == before, 'the small circuit was changed')
    ctx.label(case['form'], f'{len(d)} terms')
    ctx.interesting(any(l != 'Z' for k in d for _q, l in k) and any(len(k) > 1 for k in d))


def bounded(t):
    """Addresses by non-negative indices do not depend on the register size."""
    if isinstance(t, dict):
        return 't' in t and all(bounded(x) for x in t['t'])
    return t >= 0


def marginal(n, ops, meas):
    out = {}
    p = np.abs(ref.state(n, ops)) ** 2
    for i, x in enumerate(p):
        k = tuple((i >> q) & 1 for q in meas)
        out[k] = out.get(k, 0.0) + float(x)
    return out


def check_keys(table, meas):
    for k, v in table.items():
        require(isinstance(k, tuple) and len(k) == len(meas) and all(type(b) is int and b in (0, 1) for b in k),
                'key %r for qubits %s', k, meas)
        require(v >= 0, 'probability %r of %r', v, k)


def as_meas(meas, kind):
    return {'tuple': lambda: tuple(meas), 'list': lambda: list(meas), 'iter': lambda: iter(meas),
            'np': lambda: np.array(meas, dtype=int).tolist()}[kind]()


def check_marginal(case, ctx):
    n, ops, meas = case['n'], case['ops'], case['meas']
    c = bq.build_ops(n, ops)
    before = repr(c), c.n_qubits
    want = marginal(n, ops, meas)
    vec = c.run()
    copy = vec.copy()
    for what, table in (('expect', vqe.expect(vec, as_meas(meas, case['kind']))),
                        ('non_sampling_sampler', vqe.non_sampling_sampler(c, as_meas(meas, case['kind']))),
                        ('non_sampling_sampler again', vqe.non_sampling_sampler(c, as_meas(meas, 'tuple')))):
        check_keys(table, meas)
        for k in set(table) | set(want):
            require(abs(table.get(k, 0) - want.get(k, 0)) < 1e-9, '%s of qubits %s: %s, expected %s', what, meas,
                    table, want)
    require(np.array_equal(vec, copy), 'expect changed the vector')
    require((repr(c), c.n_qubits) == before, 'the circuit was changed')
    ctx.interesting(list(meas) != sorted(set(meas)))


def sampled(table, want, shots, meas, what):
    check_keys(table, meas)
    counts = {k: v * shots for k, v in table.items()}
    require(abs(sum(counts.values()) - shots) < 1e-6, '%s: probabilities add up to %s', what, sum(table.values()))
    for k in set(table) | set(want):
        x, p = counts.get(k, 0), min(1.0, want.get(k, 0.0))
        require(abs(x - round(x)) < 1e-6, '%s: %s of %s shots for %s', what, x, shots, k)
        require(round(x) == 0 or p > 1e-12, '%s: outcome %s of probability 0', what, k)
        require(ref.binom_tail(shots, int(round(x)), p if p < 1 - 1e-12 else 1.0) > 1e-10,
                '%s: outcome %s of qubits %s in %s of %s shots, exact probability %.5f', what, k, meas, x, shots,
                p)


def check_sampler(case, ctx):
    n, ops, meas, shots = case['n'], case['ops'], case['meas'], case['shots']
    c = bq.build_ops(n, ops)
    before = repr(c), c.n_qubits
    want = marginal(n, ops, meas)
    opts = dict(case['options'])
    samplers = [('measurement sampler', vqe.get_measurement_sampler(shots, opts) if opts or case['explicit']
                 else vqe.get_measurement_sampler(shots)),
                ('state vector sampler', vqe.get_state_vector_sampler(shots))]
    for what, s in samplers:
        for _round in range(2):
            sampled(s(c, as_meas(meas, case['kind'])), want, shots, meas, what)
            require((repr(c), c.n_qubits) == before, '%s changed the circuit: %r', what, c)
    require(opts == dict(case['options']), 'the run options were changed')
    require(ref.close_up_to_phase(c.run(), ref.state(n, ops), 1e-8), 'the circuit runs differently afterwards')
    ctx.interesting(list(meas) != sorted(set(meas)))


def check_measured(case, ctx):
    """Circuits which measure and reset qubits of their own."""
    n, ops, meas, shots = case['n'], case['ops'], case['meas'], case['shots']
    c = bq.build_ops(n, ops)
    before = repr(c), c.n_qubits
    want = {}
    for k, p in ref.distribution(n, ops + [['m', [], {'t': list(meas)}]]).items():
        k = tuple(int(k[q]) for q in meas)
        want[k] = want.get(k, 0.0) + p
    s = vqe.get_measurement_sampler(shots)
    for _round in range(2):
        sampled(s(c, as_meas(meas, case['kind'])), want, shots, meas, 'measurement sampler')
        require((repr(c), c.n_qubits) == before, 'the sampler changed the circuit: %r', c)
    ctx.label(*(o[0] for o in ops if o[0] in ref.OPS1))
    ctx.interesting(any(o[0] in ref.OPS1 and {q for (q,) in ref.resolve(o[0], o[2], n)} - set(meas) for o in ops))


def check_sampled_energy(case, ctx):
    h, d = hamiltonian(case)
    n = max(case['n'], h.n_qubits)
    ops, shots = case['ops'], case['shots']
    c = bq.build_ops(n, ops)
    ansatz = Ansatz(h, n, ops, [])
    want = energy(d, n, ops)
    # Hoeffding: each of the independent shots of a term adds at most |c|/shots
    bound = math.sqrt(2 * math.log(2e10) * sum(abs(x) ** 2 for x in d.values()) / shots) + 1e-9
    for what, s in (('measurement', vqe.get_measurement_sampler(shots)),
                    ('state vector', vqe.get_state_vector_sampler(shots))):
        for e in (ansatz.get_energy(c, s), ansatz.get_objective(s)([])):
            require(abs(e - want) <= bound, '%s energy of %r in %s with %s shots is %r, exact value %r', what, h,
                    ops, shots, e, want)
    big = max([abs(x) for k, x in d.items() if k], default=0)
    ctx.interesting(big > bound)


# ------------------------------------------------------------------ through Qiskit

class HexResult:
    """Counts the way IBM Q reports them: hexadecimal keys."""
    def __init__(self, counts):
        self.counts = counts

    def get_counts(self):
        return {hex(int(k, 2)): v for k, v in self.counts.items()}


class HexJob:
    def __init__(self, job):
        self.job = job

    def result(self):
        return HexResult(self.job.result().get_counts())


def qiskit_backend(seed, hexa):
    from qiskit.providers.basic_provider import BasicProvider
    be = BasicProvider().get_backend('basic_simulator')
    run = be.run
    seen = []

    def wrapped(qc, **kw):
        seen.append(kw.get('shots'))
        kw['seed_simulator'] = seed + len(seen)
        job = run(qc, **kw)
        return HexJob(job) if hexa else job
    be.run = wrapped
    return be, seen


def check_qiskit(case, ctx):
    n, ops, meas = case['n'], case['ops'], case['meas']
    shots = case['shots']
    c = bq.build_ops(n, ops)
    before = repr(c), c.n_qubits
    be, seen = qiskit_backend(case['seed'], case['hex'])
    s = vqe.get_qiskit_sampler(be, shots=shots) if shots else vqe.get_qiskit_sampler(be)
    table = s(c, as_meas(meas, case['kind']))
    shots = shots or 1024
    sampled(table, marginal(n, ops, meas), shots if meas else 1, meas, 'qiskit sampler')
    require(set(seen) <= {shots} and (seen or not meas), 'the backend was run with %s shots', seen)
    require((repr(c), c.n_qubits) == before, 'the circuit was changed')
    if case['h']:
        h, d = hamiltonian(case)
        m = max(n, h.n_qubits)
        want = energy(d, m, ops)
        bound = math.sqrt(2 * math.log(2e10) * sum(abs(x) ** 2 for x in d.values()) / shots) + 1e-9
        e = Ansatz(h, m, ops, []).get_energy(bq.build_ops(m, ops), s)
        require(abs(e - want) <= bound, 'energy of %r through Qiskit is %r, exact value %r', h, e, want)
    require((repr(c), c.n_qubits) == before, 'the circuit was changed')
    ctx.label('hex' if case['hex'] else 'bits')
    ctx.interesting(list(meas) != sorted(set(meas)))


# ------------------------------------------------------------------ generators

@st.composite
def hams(draw, n, max_terms=4):
    k = draw(st.integers(0, max_terms))
    terms = []
    for _ in range(k):
        if draw(st.integers(0, 3)):
            qs = draw(st.permutations(range(n)))[:draw(st.integers(0, n))]
            ops = [[draw(st.sampled_from('XYZ')), q] for q in qs]
        else:
            ops = draw(st.lists(st.tuples(st.sampled_from('XYZ'), st.integers(0, n - 1)).map(list), max_size=5))
        terms.append([ops, draw(st.one_of(st.integers(-8, 8).map(lambda k: k / 4), st.floats(-3, 3),
                                          st.floats(-3, 3)))])
    if len(terms) > 1 and not draw(st.integers(0, 3)):
        terms[1][0] = terms[0][0]
    return {'h': terms, 'form': draw(st.sampled_from(['expr', 'expr', 'raw', 'simplified', 'term']))}


ANGLE = gen.generic_angles()


@st.composite
def states(draw, n):
    ops = draw(gen.prep_ops(n)) if draw(st.integers(0, 3)) else []
    names = [g for g in gen.UNITARY if ref.n_qubits_of(g) <= n]
    return ops + draw(st.lists(gen.op(n, names, ANGLE), max_size=5))


@st.composite
def energies(draw, tier):
    n = draw(st.integers(1, 4 if tier == 'quick' else 5))
    c = draw(hams(n))
    c['n'] = n
    c['ops'] = draw(states(n))
    c['params'] = draw(st.lists(st.lists(st.floats(-3, 3), min_size=3, max_size=3), min_size=1, max_size=3))
    c['formats'] = draw(st.lists(st.sampled_from(FORMATS + [None]), max_size=2))
    c['np'], c['ran'] = draw(st.booleans()), draw(st.booleans())
    c['small'] = draw(st.integers(0, n))
    return c


@st.composite
def tables(draw, tier, max_shots=None):
    n = draw(st.integers(1, 5))
    q = st.integers(0, n - 1)
    meas = draw(st.one_of(st.lists(q, max_size=n, unique=True), st.permutations(range(n)),
                          st.just(list(range(n))), st.lists(q, max_size=4)))
    c = {'n': n, 'ops': draw(states(n)), 'meas': list(meas),
         'kind': draw(st.sampled_from(['tuple', 'list', 'iter', 'np']))}
    if max_shots:
        c['shots'] = draw(st.integers(1, max_shots))
        c['options'] = draw(st.sampled_from([{}, {}, {'backend': 'numpy'}]))
        c['explicit'] = draw(st.booleans())
    return c


@st.composite
def measured(draw, tier):
    c = draw(tables(tier, 300))
    n = c['n']
    c['ops'] = draw(gen.prep_ops(n)) + draw(st.lists(st.one_of(
        gen.op(n, ['m', 'measure', 'reset'], ANGLE), gen.op(n, ['h', 'x', 'ry', 'cx'] if n > 1 else ['h', 'x', 'ry'],
                                                            ANGLE)), min_size=1, max_size=5))
    assume(sum(len(ref.resolve(o[0], o[2], n)) for o in c['ops'] if o[0] in ref.OPS1) <= 7)
    return c


@st.composite
def sampled_energies(draw, tier):
    n = draw(st.integers(1, 3))
    c = draw(hams(n, 3))
    c.update(n=n, ops=draw(states(n)), shots=draw(st.integers(300, 900)))
    return c


@st.composite
def qiskit_cases(draw, tier):
    n = draw(st.integers(1, 3))
    c = draw(hams(n, 2))
    q = st.integers(0, n - 1)
    c.update(n=n, ops=draw(states(n)), meas=draw(st.one_of(st.lists(q, max_size=n, unique=True),
                                                            st.lists(q, max_size=3))),
             kind=draw(st.sampled_from(['tuple', 'iter'])), seed=draw(st.integers(0, 10 ** 6)),
             hex=draw(st.booleans()), shots=draw(st.sampled_from([None, 100, 500])))
    return c


@st.composite
def many_terms(draw, tier):
    """Hamiltonians of many terms on few qubits, and few terms on many qubits."""
    c = draw(energies('quick'))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    if draw(st.integers(0, 2)):
        c['h'] = paulis.random_sum(rng, c['n'], draw(paulis.sizes(50)), 5)
    else:
        n = c['n'] = draw(st.integers(5, 9))
        c['h'] = [[[[rng.choice('XYZ'), q] for q in rng.sample(range(n), rng.randint(1, n))], paulis.quarter(rng)]
                  for _ in range(draw(st.integers(1, 3)))]
        c['ops'] = [['u3', [rng.uniform(0.2, 1.2) for _ in range(3)], q] for q in range(n)] + \
            [['cz', [], {'t': [q, q + 1]}] for q in range(n - 1)]
    c['form'] = draw(st.sampled_from(['expr', 'raw', 'simplified']))
    c['formats'] = c['formats'][:1]
    c['params'] = c['params'][:1]
    return c


@st.composite
def many_qubits(draw, tier):
    """Tables of more than five qubits."""
    n = draw(st.integers(6, 10))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    ops = [['ry', [rng.uniform(0.3, 2.8)], q] for q in range(n)]
    ops += [['cx', [], {'t': rng.sample(range(n), 2)}] for _ in range(4)]
    meas = rng.sample(range(n), rng.randint(1, n)) if draw(st.booleans()) else \
        [rng.randrange(n) for _ in range(rng.randint(1, 12))]
    return {'n': n, 'ops': ops, 'meas': meas, 'kind': draw(st.sampled_from(['tuple', 'list', 'iter', 'np'])),
            'shots': draw(st.sampled_from([1, 50, 400, 1500])), 'options': {}, 'explicit': False}


SUBTESTS = [
    Subtest('many-terms', many_terms, check_energy, 120, 2000),
    Subtest('many-qubits', many_qubits, check_marginal, 60, 1000),
    Subtest('many-qubits-sampled', many_qubits, check_sampler, 40, 600),
    Subtest('energies', energies, check_energy, 1000, 30000),
    Subtest('exact-tables', tables, check_marginal, 600, 15000),
    Subtest('sampled-tables', lambda tier: tables(tier, 400), check_sampler, 400, 8000),
    Subtest('own-measurements', measured, check_measured, 300, 6000),
    Subtest('sampled-energies', sampled_energies, check_sampled_energy, 160, 3000),
    Subtest('qiskit-sampler', qiskit_cases, check_qiskit, 80, 1500),
]
ASSUMPTIONS = ['sampled values are compared with binomial and Hoeffding bounds that a correct sampler exceeds '
               'with probability below 1e-9 per comparison; the pseudo-random generators are seeded per case',
               'a user-defined ansatz announces the number of qubits of its circuits']
