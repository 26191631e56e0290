"""Single shots: recorded bits and final state against the exact branch tree."""
from hypothesis import strategies as st

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C04'
RULE = ('circuits with measurements and resets anywhere; in single shots (natural and steered '
        'randomness, fresh and cached prefix) the pair of recorded bits and final state must be a leaf of '
        'the exact branch tree, global phase included; non-trivial: the tree has at least two leaves and '
        'a gate acts between or after measurements/resets')


def nontrivial(case, brs):
    ops = case['ops']
    first = next((i for i, o in enumerate(ops) if o[0] in ref.OPS1), len(ops))
    return len(brs) >= 2 and any(o[0] not in ref.OPS1 for o in ops[first:])


def check_shots(case, ctx):
    brs = simcheck.tree(case)
    if brs is None:
        ctx.label('skipped: too many branches')
        return
    c = bq.build(case)
    if case['cache']:
        c.make_cache()
    with simcheck.randomness(case['rand']):
        for _ in range(case['runs']):
            simcheck.check_one_shot(c, case, brs)
        simcheck.check_many_shots(c, case, brs, case['shots'])
        simcheck.check_one_shot(c, case, brs)
    ctx.label('steered' if case['rand'] else 'natural', *(o[0] for o in case['ops'] if o[0] in ref.OPS1))
    ctx.interesting(nontrivial(case, brs))


RAND = st.one_of(st.none(), st.lists(st.one_of(
    st.sampled_from([1e-6, 1 - 1e-6, 0.5, 0.3, 0.7, 0.05, 0.95]),
    st.floats(0.0001, 0.9999)), min_size=1, max_size=7))
NAMES = gen.UNITARY + gen.NONUNITARY * 7


@st.composite
def shots_case(draw, max_n, max_ops, names=NAMES):
    case = draw(gen.circuit(1, max_n, max_ops, names=names, angle=gen.generic_angles(), force_n=True,
                            min_ops=2))
    case.update(rand=draw(RAND), cache=draw(st.booleans()), runs=draw(st.integers(1, 3)),
                shots=draw(st.integers(2, 6)))
    return case


@st.composite
def entangled(draw, max_n):
    """Generic entangled preparation, then a few measurements/resets interleaved with gates."""
    n = draw(st.integers(2, max_n))
    ops = draw(gen.prep_ops(n))
    for _ in range(draw(st.integers(1, 3))):
        name = draw(st.sampled_from(['m', 'measure', 'reset']))
        ops.append([name, [], draw(gen.targets1(n))])
        if draw(st.booleans()):
            ops.append(draw(gen.op(n, gen.UNITARY, gen.generic_angles())))
        if draw(st.integers(0, 2)) == 0:
            ops.append([draw(st.sampled_from(['m', 'reset'])), [], draw(gen.targets1(n))])
    return {'n': n, 'N': n, 'ops': ops, 'rand': draw(RAND), 'cache': draw(st.booleans()),
            'runs': draw(st.integers(1, 2)), 'shots': draw(st.integers(2, 4))}


@st.composite
def sizes(draw, strategy):
    c = draw(strategy)
    c.update(rand=draw(RAND), cache=draw(st.booleans()), runs=draw(st.integers(1, 2)), shots=draw(st.integers(2, 4)),
             merge=True)
    return c


@st.composite
def interrupted(draw):
    c = draw(shots_case(3, 6))
    c['after'] = draw(st.integers(0, 6))
    return c


def check_repeat(case, ctx):
    """A repeated measurement repeats its result; a reset qubit measures 0 and loses nothing else."""
    n, q = case['N'], case['q']
    v0 = case['prep']
    t = case['t']
    qs = sorted(set(ref.resolve1(t, n)))
    with simcheck.randomness(case['rand']):
        # 1: measure, copy the result to fresh qubits by cx, measure everything
        c = bq.build_ops(2 * n, v0)
        c.m[ref.dec_target(t if not _open(t) else {'t': qs})]
        for i in qs:
            c.cx[i, n + i]
        c.m[tuple(n + i for i in range(n))]
        for _ in range(3):
            key = list(c.run(shots=1))[0]
            for i in range(n):
                want = key[n + i] if i in qs else '0'
                require(key[i] == want, 'bits %r: qubit %d is recorded as %s but is in |%s>',
                        key, i, key[i], want)
        # 2: reset leaves recorded bits alone and makes the qubit 0
        c = bq.build_ops(n, v0)
        c.m[q]
        c.reset[q]
        c.m[tuple(i for i in range(n) if i != q)]
        v, counts = c.run(shots=1, returns='statevector_and_shots')
        key = list(counts)[0]
        idx = sum(1 << i for i in range(n) if i != q and key[i] == '1')
        require(abs(abs(v[idx]) - 1) < 1e-6,
                'bits %r after reset of qubit %d, but the state is %s', key, q, v)
    ctx.interesting(bool(qs))


def _open(t):
    return isinstance(t, dict)


@st.composite
def repeat(draw):
    n = draw(st.integers(1, 3))
    return {'N': n, 'q': draw(st.integers(0, n - 1)), 'prep': draw(gen.prep_ops(n)),
            't': _nonneg(draw(gen.targets1(n)), n), 'rand': draw(RAND)}


def _nonneg(t, n):
    return {'t': ref.resolve1(t, n)}


SUBTESTS = [
    Subtest('circuits', lambda tier: shots_case(4, 8 if tier == 'quick' else 12), check_shots, 1400, 40000),
    Subtest('entangled', lambda tier: entangled(4), check_shots, 1000, 30000),
    Subtest('few-qubits-many-measurements',
            lambda tier: shots_case(2, 10, gen.ONE_0 + gen.ONE_P + ['cx', 'swap', 'cry'] +
                                    gen.NONUNITARY * 8), check_shots, 600, 20000),
    Subtest('large-registers', lambda tier: sizes(gen.large_measured(5, 9)), check_shots, 300, 6000),
    Subtest('long-circuits', lambda tier: sizes(gen.long_measured()), check_shots, 100, 2000),
    Subtest('long-classical-circuits', lambda tier: sizes(gen.classical()), check_shots, 100, 2000),
    Subtest('repeated-measurement-and-reset', lambda tier: repeat(), check_repeat, 400, 10000),
]
ASSUMPTIONS = ['any value in (0, 1) is a legitimate result of random.random(); steering it only selects '
               'which possible outcome happens']
