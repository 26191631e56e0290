"""The compiled simulator, executed by the interpreter, against the reference."""
import warnings

import numpy as np
from hypothesis import strategies as st

import fake_numba

fake_numba.install()

from blueqat.backends.numba_backend import numba_backend_lazy  # noqa: E402

import bq  # noqa: E402
import gen  # noqa: E402
import ref  # noqa: E402
import simcheck  # noqa: E402
from core import Subtest, case_json, require  # noqa: E402
from props import c03, c04  # noqa: E402

ID = 'C25'
RULE = ('the circuits, measured circuits and histories of C01, C04 and C03 run on the compiled backend with its '
        'kernels interpreted (parallel loops in random order), every dtype and cache option; non-trivial: two or '
        'more qubits with a gate on a qubit which is neither the first nor the last, or a measurement or reset '
        'followed by gates, or a history which runs a circuit again')


def seed(case):
    fake_numba.ORDER.seed(case_json(case))


def check_states(case, ctx):
    seed(case)
    c = bq.build(case)
    n = case['N']
    want = ref.state(n, case['ops'])
    free = simcheck.has_free_phase(case['ops'])
    kw, tol = {}, 1e-9
    if case['dtype'] == 'c64':
        kw['dtype'], tol = np.complex64, 1e-4
    elif case['dtype'] == 'c128':
        kw['dtype'] = np.complex128
    if case['cache'] is not None:
        kw['enable_cache'] = case['cache']
    if case['ignore']:
        kw['ignore_global'] = True
    if case['how'] == 'default':
        c.set_default_backend('numba')
        run = c.run
    elif case['how'] == 'attribute':
        run = c.run_with_numba
    else:
        run = lambda **k: c.run(backend='numba', **k)  # noqa: E731
    for k in range(case['times']):
        v = run(**kw)
        require(isinstance(v, np.ndarray) and v.shape == (2 ** n,), 'returned %r', v)
        if 'dtype' in kw:
            require(v.dtype == kw['dtype'], 'dtype of the state is %s', v.dtype)
        close = ref.close_up_to_phase if free or case['ignore'] else ref.close
        require(close(v, want, tol), 'run %d of %r gives\n%s\nexpected\n%s', k, c, v, want)
        if case['ignore'] and n:
            first = next(k for k, x in enumerate(want) if abs(x) > 1e-10)
            # amplitudes below about 1e-7 may be taken for zeros
            require(abs(want[first]) < max(1e-6, tol) or (v[first].real > 0 and abs(v[first].imag) < min(tol, 1e-6)),
                    'the phase was not removed: %s', v)
        v[...] = 0.5
    if case['switch']:
        v = run(dtype=np.complex64)
        require((ref.close_up_to_phase if free else ref.close)(v, want, 1e-4), 'another dtype gives %s', v)
        v = run()
        require((ref.close_up_to_phase if free else ref.close)(v, want, 1e-9), 'after another dtype: %s', v)
    ctx.label(case['how'], *(o[0] for o in case['ops']))
    ctx.interesting(n >= 2 and any(0 < q < n - 1 or n == 2 for o in case['ops'] for qs in ref.resolve(o[0], o[2], n)
                                   for q in qs))


def check_shots(case, ctx):
    brs = simcheck.tree(case)
    if brs is None:
        return
    seed(case)
    c = bq.build(case)
    if case['cache']:
        c.make_cache(backend='numba')
    with simcheck.randomness(case['rand']):
        for _ in range(case['runs']):
            simcheck.check_one_shot(c, case, brs, backend='numba')
        simcheck.check_many_shots(c, case, brs, case['shots'], backend='numba')
        simcheck.check_one_shot(c, case, brs, backend='numba')
    ctx.interesting(c04.nontrivial(case, brs))


def check_counts(case, ctx):
    brs = simcheck.tree(case)
    if brs is None:
        return
    seed(case)
    dist = ref.distribution(case['n'], case['ops'])
    c = bq.build(case)
    if case['cache']:
        c.make_cache(backend='numba')
    counts = c.run(shots=case['total'], backend='numba')
    require(all(isinstance(k, str) and len(k) == case['n'] and set(k) <= {'0', '1'} for k in counts),
            'keys %s on %d qubits', list(counts), case['n'])
    simcheck.check_counts(counts, dist, case['total'])
    ctx.interesting(len(dist) >= 2 and any(k != k[::-1] for k in dist))


def check_history(case, ctx):
    seed(case)
    extra = {} if case.get('cache') is None else {'enable_cache': case['cache']}
    c03.check(case, ctx, 'numba', numba_backend_lazy, **extra)


def check_long(case, ctx):
    seed(case)
    c03.check_long(case, ctx, 'numba', numba_backend_lazy)


def check_interrupted(case, ctx):
    seed(case)
    simcheck.check_interrupted(case, ctx, backend='numba')


def check_rare(case, ctx):
    seed(case)
    simcheck.check_rare(case, ctx, backend='numba')


def check_kinds(case, ctx):
    """Every kind of result with the number of shots given and by default."""
    seed(case)
    n, kind, shots = case['n'], case['kind'], case['shots']
    brs = simcheck.tree(case)
    dist = ref.distribution(n, case['ops'])
    c = bq.build(case)
    kw = {} if shots is None else {'shots': shots}
    if kind is not None:
        kw['returns'] = kind
    if kind not in (None, 'statevector', 'shots', 'statevector_and_shots'):
        try:
            v = c.run(backend='numba', **kw)
        except ValueError:
            return
        require(False, 'returns=%r gives %r', kind, v)
    with warnings.catch_warnings(record=True) as caught:
        warnings.simplefilter('always')
        v = c.run(backend='numba', **kw)
    many = kind == 'statevector' and shots is not None and shots > 1
    require(bool(caught) == many, 'returns=%r, shots=%r: %d warnings', kind, shots, len(caught))
    vec = counts = None
    if kind == 'statevector_and_shots':
        vec, counts = v
    elif kind == 'shots' or kind is None and shots is not None:
        counts = v
    else:
        vec = v
    if counts is not None:
        simcheck.check_counts(counts, dist, 1024 if shots is None else shots)
    if vec is not None and shots != 0:
        require(any(ref.close(vec, w / np.linalg.norm(w), 1e-9) for _b, w in brs), 'impossible state %s', vec)
    ctx.label('%s, %s' % (kind, 'no shots given' if shots is None else 'shots given'))
    ctx.interesting(len(dist) > 1)


# ------------------------------------------------------------------ generators

@st.composite
def kinds(draw):
    n = draw(st.integers(1, 2))
    names = ['h', 'x', 't', 'ry', 'm', 'reset'] + ['cx'] * (n > 1)
    ops = draw(st.lists(gen.op(n, names, gen.generic_angles()), min_size=1, max_size=4))
    ops.append(['m', [], draw(gen.targets1(n))])
    return {'n': n, 'ops': ops, 'shots': draw(st.sampled_from([None, None, 0, 1, 2, 30])),
            'kind': draw(st.sampled_from([None, 'statevector', 'statevector', 'shots', 'shots', 'shots',
                                          'statevector_and_shots', 'statevector_and_shots', 'state', '', 'SHOTS']))}


@st.composite
def states(draw, max_n, max_ops, names=None, min_n=0):
    if min_n:
        c = draw(gen.wide(min_n, max_n, names, max_ops))
        c['ops'] = c['all']
    else:
        c = draw(gen.circuit(0, max_n, max_ops, names=names))
    if not min_n and c['N'] and draw(st.booleans()):
        c['ops'] = draw(gen.prep_ops(c['N'])) + c['ops']
    c.update(dtype=draw(st.sampled_from([None, None, None, 'c64', 'c128'])),
             cache=draw(st.sampled_from([None, None, True, False])), ignore=draw(st.integers(0, 4)) == 0,
             how=draw(st.sampled_from(['name', 'name', 'default', 'attribute'])), times=draw(st.integers(1, 2)),
             switch=draw(st.integers(0, 5)) == 0)
    return c


@st.composite
def counted(draw):
    c = draw(c04.shots_case(3, 6))
    c['ops'].append(['m', [], {'s': [None, None, None]}])
    c['total'] = draw(st.integers(1, 60))
    return c


@st.composite
def with_cache(draw, strategy):
    h = draw(strategy)
    h['cache'] = draw(st.sampled_from([None, None, None, True, False]))
    return h


EXPLICIT = []
for _g in gen.UNITARY:
    _k = ref.n_qubits_of(_g)
    _p = [0.7, -1.1, 0.4][:ref.n_args(_g)]
    _prep = []
    for _q in range(4):
        _prep += [['u3', [0.5 + _q, 0.3 * _q - 1, 0.9], _q]]
    _prep += [['cx', [], {'t': [_q, _q + 1]}] for _q in range(3)] + [['ry', [0.6], 0], ['rz', [1.1], 1]]
    for _t in ([0, 1, 3, {'s': [None, None, None]}] if _k == 1 else
               [{'t': [0, 3]}, {'t': [2, 1]}, {'t': [{'s': [0, 3, None]}, {'s': [1, 4, None]}]}] if _k == 2
               else [{'t': [0, 1, 2]}, {'t': [3, 0, 2]}, {'t': [1, 3, 0]}]):
        EXPLICIT.append({'N': 4, 'n': 4, 'ops': _prep + [[_g, _p, _t]], 'dtype': None, 'cache': None,
                         'ignore': False, 'how': 'name', 'times': 2, 'switch': False})

SUBTESTS = [
    Subtest('states', lambda tier: states(4 if tier == 'quick' else 5, 6), check_states, 1200, 30000,
            explicit=EXPLICIT),
    Subtest('states-of-large-registers', lambda tier: states(6 if tier == 'quick' else 7, 4, min_n=5), check_states, 60, 1000),
    Subtest('long-circuits', lambda tier: c03.growing(4), check_long, 40, 600),
    Subtest('thousands-of-operations', lambda tier: c03.growing(3, gen.THOUSANDS), check_long, 8, 200),
    Subtest('gate-objects', lambda tier: gen.with_objects(4, 4).map(lambda c: {
        **c, 'dtype': None, 'cache': None, 'ignore': False, 'how': 'name', 'times': 1, 'switch': False}), check_states,
        100, 2000),
    Subtest('kinds-of-result', lambda tier: kinds(), check_kinds, 40, 800),
    Subtest('faint-amplitudes', lambda tier: gen.faint().map(lambda c: {
        **c, 'dtype': None, 'cache': None, 'ignore': True, 'how': 'name', 'times': 1, 'switch': False}), check_states,
        150, 3000),
    Subtest('shots', lambda tier: c04.shots_case(3, 7), check_shots, 600, 20000),
    Subtest('entangled-shots', lambda tier: c04.entangled(3), check_shots, 400, 10000),
    Subtest('large-registers', lambda tier: c04.sizes(gen.large_measured(4, 6)), check_shots, 120, 2000),
    Subtest('long-measured', lambda tier: c04.sizes(gen.long_measured([9, 16, 17, 33, 65])), check_shots, 60, 1000),
    Subtest('long-classical', lambda tier: c04.sizes(gen.classical(5, [9, 16, 17, 33, 65])), check_shots, 60, 1000),
    Subtest('counts', lambda tier: counted(), check_counts, 200, 5000),
    Subtest('histories', lambda tier: with_cache(c03.histories(c03.NAMES, 10)), check_history, 400, 12000),
    Subtest('run-extend-run', lambda tier: with_cache(c03.focused()), check_history, 500, 12000),
    Subtest('rare-outcomes', lambda tier: simcheck.rare_cases(), check_rare, 100, 2000),
    Subtest('interrupted', lambda tier: c04.interrupted(), check_interrupted, 300, 6000),
]
ASSUMPTIONS = ['numba is not installed: its kernels are executed by the Python interpreter with unbounded integers '
               'stored modulo the width of arrays, and parallel loops in a random order; compiler errors, machine '
               'integer overflow in scalars and fast-math rounding are not covered']
