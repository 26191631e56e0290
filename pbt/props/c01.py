"""Statevector of the default simulator against an independent dense reference."""
import math

import numpy as np
from hypothesis import strategies as st

import bq
import gen
import ref
from core import Subtest, require

ID = 'C01'
RULE = ('circuits over the whole gate set (aliases included) with all address forms, angle kinds '
        'and register sizes, compared amplitude by amplitude with an independent dense simulator; '
        'non-trivial: >=2 qubits, >=3 gates of >=2 kinds and a state with >=2 non-zero amplitudes')


def _compare(case, v, exp):
    names = {o[0] for o in case['ops']}
    if 'cu1' in names:
        # the global phase of cu1 is not documented ("same as cphase", built from SU(2) u1 gates)
        ok = ref.close_up_to_phase(v, exp, 1e-9)
    else:
        ok = ref.close(v, exp, 1e-9)
    require(ok, 'state differs from the product of gate matrices\n got %s\n expected %s',
            np.round(v, 6), np.round(exp, 6))


def check_state(case, ctx):
    n = ref.final_n(case['n'], case['ops'])
    c = bq.build(case)
    require(c.n_qubits == n, 'register size %s, expected %s', c.n_qubits, n)
    v = c.run()
    exp = ref.state(n, case['ops'])
    require(v.shape == (2 ** n,), 'shape %s', v.shape)
    _compare(case, v, exp)
    for o in case['ops']:
        ctx.label(o[0])
    ctx.interesting(n >= 2 and len(case['ops']) >= 3 and len({o[0] for o in case['ops']}) >= 2
                    and int(np.sum(abs(exp) > 1e-9)) >= 2)


def check_gate_on_generic(case, ctx):
    """One gate applied to a generic entangled state: every matrix element is observable."""
    n = case['N']
    ops = case['prep'] + [case['op']]
    c = bq.build_ops(n, ops)
    v = c.run()
    _compare({'ops': ops}, v, ref.state(n, ops))
    ctx.label(case['op'][0])
    ctx.interesting()


@st.composite
def gate_on_generic(draw, max_n):
    name = draw(st.sampled_from(gen.UNITARY))
    n = draw(st.integers(ref.n_qubits_of(name), max_n))
    o = draw(gen.op(n, [name], gen.angles()))
    return {'N': n, 'prep': draw(gen.prep_ops(n)), 'op': o}


def check_ignore_global(case, ctx):
    n = ref.final_n(case['n'], case['ops'])
    v = bq.build(case).run(ignore_global=True)
    exp = ref.state(n, case['ops'])
    require(ref.close_up_to_phase(v, exp, 1e-9), 'ignore_global changed more than the phase')
    first = [x for x in v if abs(x) > 1e-10][0]
    # amplitudes below about 1e-7 may be taken for zeros
    if abs(first) > 1e-6:
        require(abs(first.imag) < 1e-9 * max(1, abs(first)) and first.real > 0,
                'first non-zero amplitude is %s, not real positive', first)
    first = [x for x in exp if abs(x) > 1e-6][0]
    ctx.interesting(abs(first.imag) > 1e-6 or first.real < 0)
    if n >= 1:
        # both simulators of the API agree on the meaning of the calling forms
        w = bq.build(case).run(None, 'statevector', True)
        require(ref.close(w, v, 1e-9), 'positional options differ from keyword options')


def check_long(case, ctx):
    """Norm and value after a long repetition of a block (accumulated error stays small)."""
    n, ops, k = case['N'], case['ops'], case['k']
    c = bq.Circuit(n)
    for _ in range(k):
        for o in ops:
            bq.append(c, o)
    v = c.run()
    u = np.linalg.matrix_power(ref.unitary(n, ops), k)
    exp = u[:, 0]
    require(abs(np.linalg.norm(v) - 1) < 1e-9, 'norm %r', np.linalg.norm(v))
    _compare({'ops': ops}, v, exp)
    ctx.interesting(n >= 2 and len(ops) >= 2)


def long_cases(tier):
    return st.builds(lambda c, k: {'N': c['N'], 'ops': c['ops'], 'k': k},
                     gen.circuit(1, 3, 4, min_ops=1, force_n=True), st.integers(10, 60))


def big(tier):
    hi = 8 if tier == 'quick' else 11
    return gen.circuit(5, hi, 12, force_n=True)


@st.composite
def sizes(draw, lo, hi):
    """Registers of every size, the gates reaching the lowest and highest qubits."""
    n = draw(st.integers(lo, hi))
    near = st.one_of(st.sampled_from([0, n - 1]), st.integers(0, n - 1))
    ops = []
    for _ in range(draw(st.integers(2, 7))):
        name = draw(st.sampled_from(gen.UNITARY))
        k = ref.n_qubits_of(name)
        qs = draw(st.lists(near, min_size=k, max_size=k, unique=True))
        ops.append([name, [draw(gen.generic_angles()) for _ in range(ref.n_args(name))],
                    qs[0] if k == 1 else {'t': qs}])
    return {'n': n, 'ops': ops, 'N': n}


EXPLICIT_SIZES = []
for _n in range(1, 15):
    _l = _n - 1
    _ops = [['ry', [0.4], {'s': [None, None, None]}], ['x', [], _l], ['u3', [0.9, 0.2, -1.3], 0]]
    if _n > 1:
        _ops += [['cx', [], {'t': [_l, 0]}], ['cu3', [0.8, -0.4, 1.2], {'t': [0, _l]}],
                 ['rzz', [0.7], {'t': [_l, _n // 2 - 1]}], ['swap', [], {'t': [0, _l]}]]
    if _n > 2:
        _ops += [['ccx', [], {'t': [0, _l, 1]}], ['cswap', [], {'t': [_l, 1, 0]}]]
    EXPLICIT_SIZES.append({'n': _n, 'ops': _ops, 'N': _n})

EXPLICIT_GATES = []
for _g in gen.UNITARY:
    _k = ref.n_qubits_of(_g)
    _p = [0.7, -1.1, 0.4][:ref.n_args(_g)]
    _prep = []
    for _q in range(3):
        _prep += [['u3', [0.5 + _q, 0.3 * _q - 1, 0.9], _q]]
    _prep += [['cx', [], {'t': [0, 1]}], ['cx', [], {'t': [1, 2]}], ['ry', [0.6], 0],
              ['rz', [1.1], 1]]
    for _t in ([0, 1, 2] if _k == 1 else
               [{'t': [0, 2]}, {'t': [2, 0]}, {'t': [1, 0]}] if _k == 2 else
               [{'t': [0, 1, 2]}, {'t': [2, 0, 1]}, {'t': [1, 2, 0]}]):
        EXPLICIT_GATES.append({'N': 3, 'prep': _prep, 'op': [_g, _p, _t]})

SUBTESTS = [
    Subtest('gate-on-generic-state', lambda tier: gate_on_generic(4), check_gate_on_generic,
            2400, 60000, explicit=EXPLICIT_GATES),
    Subtest('circuits', lambda tier: gen.circuit(0, 4 if tier == 'quick' else 5,
                                                 10 if tier == 'quick' else 16),
            check_state, 2400, 60000),
    Subtest('large-registers', big, check_state, 240, 4000),
    Subtest('register-sizes', lambda tier: sizes(1, 13) if tier == 'quick' else sizes(1, 17), check_state,
            160, 3000, explicit=EXPLICIT_SIZES),
    Subtest('gate-objects', lambda tier: gen.with_objects(5, 6), check_state, 300, 6000),
    Subtest('ignore-global-phase-faint', lambda tier: gen.faint(), check_ignore_global, 200, 4000),
    Subtest('ignore-global-phase', lambda tier: gen.circuit(0, 3, 6), check_ignore_global,
            1000, 20000),
    Subtest('long-circuits', long_cases, check_long, 160, 3000),
    Subtest('thousands-of-operations', lambda tier: gen.long_circuit(lengths=gen.THOUSANDS), check_state, 16, 300),
]
ASSUMPTIONS = ['float64 arithmetic; amplitudes are compared with tolerance 1e-9',
               'the global phase of cu1 is unspecified and not compared']
