"""Hermitian conjugate: the exact inverse, for every gate, address and order."""
import numpy as np
from hypothesis import strategies as st

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C06'
RULE = ('circuits over every gate and address form (chains of overlapping pairs included) applied to a '
        'generic entangled state: conjugate after circuit restores the state exactly, conjugate alone is '
        'the conjugate transpose of the reference unitary; non-trivial: the unitary is neither diagonal '
        'nor self-inverse or a gate list of >= 2 gates that do not commute')


def snapshot(c):
    return c.n_qubits, len(c.ops), repr(c)


def compare(v, exp, free):
    return (ref.close_up_to_phase if free else ref.close)(v, exp, 1e-9)


def with_prep(case, *parts):
    c = bq.build_ops(case['N'], case['prep'])
    for p in parts:
        c = c + p
    return c.run()


def check(case, ctx):
    n, ops = case['N'], case['ops']
    c = bq.build_ops(n, ops)
    if case['ran']:
        c.run()
    before = snapshot(c)
    list_before = list(c.ops)
    d = c.dagger(copy_backends=case['copy_backends'])
    require(snapshot(c) == before and all(a is b for a, b in zip(c.ops, list_before)),
            'dagger changed the circuit')
    require(isinstance(d, bq.Circuit) and d.n_qubits == n, '%s qubits, expected %s', d.n_qubits, n)
    free = simcheck.has_free_phase(ops)
    prep = ref.state(n, case['prep'])
    u = ref.unitary(n, ops)
    require(ref.close(with_prep(case, c, d), prep, 1e-9),
            'circuit followed by its conjugate is not the identity: %s', c)
    require(ref.close(with_prep(case, d, c), prep, 1e-9),
            'conjugate followed by the circuit is not the identity: %s', c)
    require(compare(with_prep(case, d), u.conj().T @ prep, free),
            'the conjugate is not the conjugate transpose: %s', c)
    v = d.run()
    require(compare(v, u.conj().T[:, 0], free), 'the conjugate run alone differs: %s', c)
    dd = d.dagger()
    require(compare(with_prep(case, dd), u @ prep, free), 'conjugate of the conjugate differs: %s', c)
    require(ref.close(with_prep(case, dd, d), prep, 1e-9), 'double conjugate is not the inverse of %s', d)
    # conjugate stays right after the original is extended
    c.x[0]
    d2 = c.dagger()
    exp = (ref.unitary(n, ops + [['x', [], 0]])).conj().T @ prep
    require(compare(with_prep(case, d2), exp, free), 'conjugate after appending differs')
    require(compare(with_prep(case, d), u.conj().T @ prep, free), 'appending changed the conjugate')
    w = u @ u
    ctx.interesting(not ref.close_up_to_phase(w, np.eye(2 ** n), 1e-6) and
                    not np.allclose(u, np.diag(np.diag(u)), atol=1e-6))
    for o in ops:
        ctx.label(o[0])


@st.composite
def cases(draw, max_n, max_ops, min_ops=1, names=gen.UNITARY):
    n = draw(st.integers(1, max_n))
    return {'N': n, 'prep': draw(gen.prep_ops(n)),
            'ops': draw(st.lists(gen.op(n, names, gen.angles()), min_size=min_ops,
                                 max_size=max_ops)),
            'ran': draw(st.booleans()), 'copy_backends': draw(st.booleans())}


@st.composite
def one_gate(draw):
    name = draw(st.sampled_from(gen.UNITARY))
    n = draw(st.integers(max(ref.n_qubits_of(name), 2), 4))
    return {'N': n, 'prep': draw(gen.prep_ops(n)), 'ops': [draw(gen.op(n, [name], gen.angles()))],
            'ran': False, 'copy_backends': False}


@st.composite
def chains(draw):
    n = draw(st.integers(3, 4))
    name = draw(st.sampled_from(gen.TWO_0 + gen.TWO_P))
    params = [draw(gen.generic_angles()) for _ in range(ref.n_args(name))]
    form = draw(st.sampled_from(['up', 'down', 'tuple']))
    if form == 'up':
        t = {'t': [{'s': [None, n - 1, None]}, {'s': [1, n, None]}]}
    elif form == 'down':
        t = {'t': [{'s': [n - 1, 0, -1]}, {'s': [n - 2, None, -1]}]}
    else:
        k = draw(st.integers(2, 3))
        prs = [draw(st.permutations(list(range(n))))[:2] for _ in range(k)]
        t = {'t': [{'t': [p[0] for p in prs]}, {'t': [p[1] for p in prs]}]}
    return {'N': n, 'prep': draw(gen.prep_ops(n)), 'ops': [[name, params, t]],
            'ran': draw(st.booleans()), 'copy_backends': draw(st.booleans())}


def check_measured(case, ctx):
    n, ops = case['N'], case['ops']
    c = bq.build_ops(n, ops)
    before = snapshot(c)
    has = any(o[0] in ref.OPS1 for o in ops)
    for kw in ({}, {'ignore_measurement': False}):
        try:
            d = c.dagger(**kw)
        except ValueError:
            require(has, 'dagger of a circuit without measurement raised')
        else:
            require(not has, 'dagger of a circuit with measurement or reset was made')
    d = c.dagger(ignore_measurement=True)
    require(snapshot(c) == before, 'dagger changed the circuit')
    require(d.n_qubits == n, '%s qubits, expected %s', d.n_qubits, n)
    gates = [o for o in ops if o[0] not in ref.OPS1]
    exp = ref.unitary(n, gates).conj().T @ ref.state(n, case['prep'])
    require(compare(with_prep(case, d), exp, simcheck.has_free_phase(ops)),
            'conjugate ignoring measurements differs from the conjugate of the gates: %s', c)
    c2 = bq.build_ops(n, gates)
    require(ref.close(with_prep(case, c2, d), ref.state(n, case['prep']), 1e-9), 'not the inverse')
    ctx.interesting(has and len(gates) >= 2)


def check_backend_options(case, ctx):
    """The conjugate keeps the default backend unless told otherwise."""
    n, ops = case['N'], case['ops']
    c = bq.build_ops(n, ops)
    c.set_default_backend('qasm_output')
    keep = case['keep']
    d = c.dagger(copy_default_backend=keep) if keep is not None else c.dagger()
    want = 'numpy' if keep is False else 'qasm_output'
    require(d.get_default_backend_name() == want, 'default backend of the conjugate is %s',
            d.get_default_backend_name())
    require(c.get_default_backend_name() == 'qasm_output', 'dagger changed the original')
    d.set_default_backend('sympy_unitary')
    require(c.get_default_backend_name() == 'qasm_output', 'shared default backend')
    v = d.run(backend='numpy')
    require(compare(v, ref.unitary(n, ops).conj().T[:, 0], simcheck.has_free_phase(ops)), 'state differs')
    ctx.interesting(keep is not None)


def check_growth(case, ctx):
    """Circuits whose register grew while gates were appended: addresses are those of the final one."""
    m = case['N']
    c = bq.build(case)
    require(c.n_qubits == m, '%s qubits, expected %s', c.n_qubits, m)
    d = c.dagger()
    require(d.n_qubits == m, '%s qubits, expected %s', d.n_qubits, m)
    prep = ref.state(m, case['prep'])
    v = (bq.build_ops(m, case['prep']) + c + d).run()
    require(ref.close(v, prep, 1e-9), 'not the inverse on a register that grew')
    d.x[0]
    require(c.n_qubits == m and len(c.ops) == len(case['ops']), 'the conjugate shares its gate list')
    ctx.interesting(case['n'] < m)


@st.composite
def grown(draw):
    c = draw(gen.circuit(1, 4, 5, min_ops=1))
    c['prep'] = draw(gen.prep_ops(c['N']))
    return c


@st.composite
def long_cases(draw, lengths=None):
    c = draw(gen.long_circuit(lengths=lengths))
    return {**c, 'prep': draw(gen.prep_ops(c['N'])), 'ran': draw(st.booleans()), 'copy_backends': draw(st.booleans())}


EXPLICIT = []
for _g in gen.UNITARY:
    _k = ref.n_qubits_of(_g)
    _p = [0.7, -1.1, 0.4][:ref.n_args(_g)]
    _prep = []
    for _q in range(3):
        _prep += [['u3', [0.5 + _q, 0.3 * _q - 1, 0.9], _q]]
    _prep += [['cx', [], {'t': [0, 1]}], ['cx', [], {'t': [1, 2]}], ['ry', [0.6], 0], ['rz', [1.1], 1]]
    for _t in ([1, {'s': [None, None, None]}] if _k == 1 else
               [{'t': [0, 2]}, {'t': [2, 0]}, {'t': [{'s': [0, 2, None]}, {'s': [1, 3, None]}]}] if _k == 2
               else [{'t': [0, 1, 2]}, {'t': [2, 0, 1]}]):
        EXPLICIT.append({'N': 3, 'prep': _prep, 'ops': [[_g, _p, _t]], 'ran': False,
                         'copy_backends': False})

SUBTESTS = [
    Subtest('one-gate', lambda tier: one_gate(), check, 700, 20000, explicit=EXPLICIT),
    Subtest('circuits', lambda tier: cases(4 if tier == 'quick' else 5, 7), check, 900, 25000),
    Subtest('overlapping-pairs', lambda tier: chains(), check, 400, 10000),
    Subtest('measurement', lambda tier: cases(3, 6, names=gen.UNITARY + gen.NONUNITARY * 5),
            check_measured, 500, 10000),
    Subtest('default-backend', lambda tier: st.builds(
        lambda c, k: {**c, 'keep': k}, cases(2, 3), st.sampled_from([None, True, False])),
        check_backend_options, 150, 2000),
    Subtest('long-circuits', lambda tier: long_cases(), check, 40, 800),
    Subtest('thousands-of-operations', lambda tier: long_cases(gen.THOUSANDS), check, 12, 300),
    Subtest('large-registers', lambda tier: st.builds(
        lambda c, r, k: {**c, 'ran': r, 'copy_backends': k}, gen.wide(5, 7), st.booleans(), st.booleans()),
        check, 60, 1200),
    Subtest('grown-register', lambda tier: grown(), check_growth, 300, 6000),
]
ASSUMPTIONS = ['the global phase of cu1 is unspecified, so for circuits with cu1 the comparison with the '
               'conjugate transpose is up to phase; the inverse law is exact for all']
