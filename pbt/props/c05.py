"""Counts against the exact outcome distribution."""
import warnings

from hypothesis import strategies as st

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C05'
RULE = ('circuits with measurements and resets run with many shots; keys, types and totals exactly, '
        'outcomes of probability zero never, frequencies by exact binomial tails (p < 1e-9 rejects); '
        'non-trivial: at least two possible outcomes, one of them not symmetric under reversal of the key')


def check_counts(case, ctx):
    brs = simcheck.tree(case)
    if brs is None:
        ctx.label('skipped: too many branches')
        return
    dist = ref.distribution(case['n'], case['ops'], brs)
    shots = case['shots']
    c = bq.build(case)
    if case['how'] == 'kw':
        counts = c.run(shots=shots)
    elif case['how'] == 'pos':
        counts = c.run(shots)
    elif case['how'] == 'returns':
        counts = c.run(shots=shots, returns='shots')
    elif case['how'] == 'both':
        _v, counts = c.run(shots=shots, returns='statevector_and_shots')
    elif case['how'] == 'cached':
        c.make_cache()
        counts = c.run(shots=shots)
    elif case['how'] == 'rerun':
        c.run()
        c.run(shots=3)
        counts = c.run(shots=shots)
    else:
        shots = 1024
        counts = c.run(returns='shots')
    require(all(isinstance(k, str) and len(k) == case['n'] and set(k) <= {'0', '1'} for k in counts),
            'keys %s on %d qubits', list(counts), case['n'])
    simcheck.check_counts(counts, dist, shots)
    ctx.label(case['how'])
    ctx.interesting(len(dist) >= 2 and any(k != k[::-1] for k in dist))


HOW = ['kw', 'pos', 'returns', 'both', 'cached', 'rerun', 'default']
NAMES = gen.UNITARY + gen.NONUNITARY * 4


@st.composite
def counted(draw, max_n, hi):
    n = draw(st.integers(1, max_n))
    ops = draw(gen.prep_ops(n)) if draw(st.booleans()) else []
    ops += draw(st.lists(gen.op(n, NAMES, gen.generic_angles()), max_size=5))
    ops.append(['m', [], draw(st.one_of(st.just({'s': [None, None, None]}), gen.targets1(n)))])
    return {'n': n, 'ops': ops, 'shots': draw(st.integers(0, hi)), 'how': draw(st.sampled_from(HOW))}


SHOTS = [1000, 1023, 1024, 1025, 2048, 4096, 5000, 8192, 8193, 10000, 10001, 16384]


@st.composite
def many(draw, top):
    """A short circuit and more shots than usual; by preference only measurements follow what is cached."""
    n = draw(st.integers(1, 3))
    ops = draw(st.lists(gen.op(n, gen.UNITARY * 3 + ['reset', 'm'], gen.generic_angles()), min_size=1, max_size=3))
    ops.append(['m', [], draw(st.one_of(st.just({'s': [None, None, None]}), gen.targets1(n)))])
    shots = draw(st.one_of(st.sampled_from([s for s in SHOTS if s <= top]), st.integers(301, min(top, 4000))))
    return {'n': n, 'ops': ops, 'shots': shots, 'how': draw(st.sampled_from(HOW[:6] + ['cached', 'rerun']))}


@st.composite
def sizes(draw, strategy):
    c = draw(strategy)
    c.update(shots=draw(st.integers(20, 100)), how=draw(st.sampled_from(HOW[:-1])), merge=True)
    return c


def check_deterministic(case, ctx):
    """Basis states: exactly one key, at every register size and measured subset."""
    n = case['n']
    c = bq.Circuit(n)
    for q in case['ones']:
        c.x[q]
    c.m[ref.dec_target(case['t'])]
    sel = set(ref.resolve1(case['t'], n))
    key = ''.join('1' if q in case['ones'] and q in sel else '0' for q in range(n))
    counts = c.run(shots=case['shots'])
    require(dict(counts) == ({key: case['shots']} if case['shots'] else {}),
            'counts %s, expected %s', dict(counts), key)
    ctx.interesting(key != key[::-1])


@st.composite
def deterministic(draw):
    n = draw(st.integers(1, 8))
    return {'n': n, 'ones': draw(st.lists(st.integers(0, n - 1), unique=True)),
            't': draw(gen.targets1(n)), 'shots': draw(st.integers(1, 20))}


def check_returns(case, ctx):
    c = bq.build(case)
    r = case['returns']
    if r in ('statevector', 'shots', 'statevector_and_shots'):
        out = c.run(shots=2, returns=r)
        if r == 'shots':
            require(sum(out.values()) == 2, '%r', out)
        elif r == 'statevector':
            require(out.shape == (2 ** case['N'],), '%r', out)
        else:
            require(out[0].shape == (2 ** case['N'],) and sum(out[1].values()) == 2, '%r', out)
    else:
        try:
            c.run(returns=r)
        except ValueError:
            pass
        else:
            require(False, 'returns=%r was accepted', r)
    ctx.interesting(r not in ('statevector', 'shots', 'statevector_and_shots'))


def check_independent(case, ctx):
    """Consecutive shots are independent: bits of one shot do not depend on the previous one.

    Outcomes of the same circuit in single-shot runs, paired with their successor, follow the product
    distribution."""
    n, shots = 1, case['shots']
    c = bq.Circuit(n).ry(case['theta'])[0].m[0]
    p1 = abs(ref.state(1, [['ry', [case['theta']], 0]])[1]) ** 2
    seq = [int(list(c.run(shots=1))[0]) for _ in range(shots)]
    pairs = list(zip(seq[0::2], seq[1::2]))
    for a in (0, 1):
        for b in (0, 1):
            p = (p1 if a else 1 - p1) * (p1 if b else 1 - p1)
            k = sum(1 for x in pairs if x == (a, b))
            require(ref.binom_tail(len(pairs), k, p) > 1e-10,
                    'outcome pair %s: %d of %d, expected probability %.4f', (a, b), k, len(pairs), p)
    ctx.interesting()


SUBTESTS = [
    Subtest('distribution', lambda tier: counted(4, 300 if tier == 'quick' else 3000), check_counts,
            360, 6000),
    Subtest('many-shots', lambda tier: many(5000 if tier == 'quick' else 20000), check_counts, 60, 600),
    Subtest('large-registers', lambda tier: sizes(gen.large_measured(5, 9)), check_counts, 100, 2000),
    Subtest('long-circuits', lambda tier: sizes(gen.long_measured()), check_counts, 24, 500),
    Subtest('rare-outcomes', lambda tier: simcheck.rare_cases(), simcheck.check_rare, 150, 3000),
    Subtest('deterministic', lambda tier: deterministic(), check_deterministic, 1200, 20000),
    Subtest('returns', lambda tier: st.builds(
        lambda c, r: {**c, 'returns': r}, gen.circuit(1, 3, 4, names=gen.UNITARY + gen.NONUNITARY * 3),
        st.sampled_from(['statevector', 'shots', 'statevector_and_shots', 'state', '', 'SHOTS', 'x'])),
        check_returns, 400, 8000),
    Subtest('independent-shots', lambda tier: st.fixed_dictionaries(
        {'theta': st.floats(0.6, 2.5), 'shots': st.sampled_from([200, 400])}), check_independent, 24, 400),
]
ASSUMPTIONS = ['each statistical comparison rejects at p < 1e-9 (1e-10 for pairs); the randomness of every '
               'case is a function of the case, so a verdict is reproducible']
