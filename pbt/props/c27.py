"""The translation to the qgate simulator, over a stand-in for its library."""
import random

import numpy as np
from hypothesis import strategies as st

import fake_qgate

fake_qgate.install()

import qgate  # noqa: E402
from blueqat.backends.qgate_backend import BlueqatCompatibleSamplingPool, QgateBackend  # noqa: E402

import bq  # noqa: E402
import gen  # noqa: E402
import ref  # noqa: E402
import simcheck  # noqa: E402
from core import Subtest, case_json, require  # noqa: E402

QgateBackend()       # imports the library

ID = 'C27'
RULE = ('circuits with rich addresses and the measurements at the end on a stand-in for the qgate library, every '
        'runtime, sampling method and kind of result; sampling pools with generated probabilities and unused lanes; '
        'non-trivial: two or more qubits with a gate on a qubit other than the first')
ASSUMPTIONS = ['qgate is not installed: a dense stand-in written from its documentation takes its place',
               'the phases of controlled U gates (cu2, cu3) are conventions of qgate: these gates take part only with '
               'controls in basis states']

NAMES = [g for g in gen.UNITARY if g not in ('cu2', 'cu3')]


def args_of(case):
    kw = {}
    if case['runtime']:
        kw['runtime'] = case['runtime']
    if case['sampling']:
        kw['sampling'] = case['sampling']
    if case['prep']:
        kw['circuit_prep'] = case['prep']
    return kw


def runner(c, case):
    if case['how'] == 'default':
        c.set_default_backend('qgate')
        return c.run
    if case['how'] == 'attribute':
        return c.run_with_qgate
    return lambda **k: c.run(backend='qgate', **k)


def nontrivial(case):
    n = case['N']
    return n >= 2 and any(q > 0 for o in case['ops'] for qs in ref.resolve(o[0], o[2], n) for q in qs)


def check_states(case, ctx):
    c = bq.build(case)
    n = case['N']
    run = runner(c, case)
    want = ref.state(n, case['ops'])
    for _ in range(case['times']):
        v = run(**args_of(case))
        require(isinstance(v, np.ndarray) and v.shape == (2 ** n,), 'returned %r', v)
        require(ref.close_up_to_phase(v, want, 1e-8), '%r gives\n%s\nexpected up to a phase\n%s', c, v, want)
        v[...] = 0.5
    ctx.label(case['how'], *(o[0] for o in case['ops']))
    ctx.interesting(nontrivial(case))


def unlikely(counts, dist, shots):
    """Keys whose count could hardly come from the distribution."""
    out = []
    for k in set(dist) | set(counts):
        p, m = min(1.0, dist.get(k, 0.0)), counts.get(k, 0)
        if ref.binom_tail(shots, m, p) < 1e-11:
            out.append((k, m, p))
    return out


def check_shots(case, ctx):
    random.seed(case_json(case))
    c = bq.build({'n': case['n'], 'ops': case['ops'] + case['measures']})
    n, shots = case['N'], case['shots']
    run = runner(c, case)
    brs = ref.branches(n, case['ops'] + case['measures'], limit=10000)
    dist = {}
    for b, w in brs:
        k = simcheck.key_of(b)
        dist[k] = dist.get(k, 0) + float(np.vdot(w, w).real)
    for how in case['results']:
        if how == 'joint':
            out = run(returns='statevector_and_shots', shots=1, **args_of(case))
            require(isinstance(out, tuple) and len(out) == 2, 'returned %r', type(out))
            v, counts = out
            require(len(counts) == 1 and list(counts.values()) == [1], 'one shot counted as %s', dict(counts))
            require(simcheck.match(brs, list(counts)[0], v, True), 'recorded bits %s with state %s: not a possible '
                    'joint outcome', dict(counts), np.round(v, 5))
        else:
            counts = run(shots=shots, **args_of(case))
            require(sum(counts.values()) == shots, '%s shots in %s', shots, dict(counts))
            require(set(counts) <= set(dist), 'impossible recorded bits in %s; possible: %s', dict(counts), dist)
            bad = unlikely(counts, dist, shots)
            require(not bad, 'counts %s hardly come from the distribution %s: %s', dict(counts), dist, bad)
    ctx.label(case['sampling'] or 'own sampling', *(o[0] for o in case['measures']))
    ctx.interesting(nontrivial(case) and bool(case['measures']))


def check_pool(case, ctx):
    random.seed(case_json(case))
    k, empty = len(case['lanes']), case['empty']
    w = np.array(case['weights'], dtype=float)
    prob = w / w.sum()
    total = k + len(empty)
    order = [qgate.model.Qreg() for _ in range(total)]
    lanes = [x for x in range(total) if x not in empty]
    obs = BlueqatCompatibleSamplingPool(prob.copy(), list(empty), order).sample(case['shots'])
    dist = {}
    for v, p in enumerate(prob):
        if p:
            dist[sum(1 << lane for b, lane in enumerate(lanes) if v >> b & 1)] = float(p)
    counts = obs.histgram()
    require(sum(counts.values()) == case['shots'], '%s samples in %s', case['shots'], counts)
    require(set(counts) <= set(dist), 'impossible values in %s; possible: %s', counts, dist)
    require(list(obs.ordering) == order, 'the registers come in another order')
    bad = unlikely(counts, dist, case['shots'])
    require(not bad, 'counts %s hardly come from the distribution %s: %s', counts, dist, bad)
    ctx.label('%d empty lanes' % len(empty))
    ctx.interesting(k >= 2 and bool(empty))


def options():
    return {'how': st.sampled_from(['argument', 'argument', 'default', 'attribute']),
            'runtime': st.sampled_from([None, None, 'cpu', 'cuda', 'py']),
            'sampling': st.sampled_from([None, 'qgate', 'blueqat', 'blueqat']),
            'prep': st.sampled_from([None, None, 'static', 'dynamic'])}


@st.composite
def states(draw, tier):
    case = draw(gen.circuit(max_n=4 if tier == 'quick' else 6, max_ops=8 if tier == 'quick' else 16, names=NAMES))
    case.update({k: draw(s) for k, s in options().items()})
    case['times'] = draw(st.sampled_from([1, 1, 2]))
    return case


@st.composite
def long_states(draw, lengths=None):
    case = draw(gen.long_circuit(names=NAMES, lengths=lengths))
    case.update({k: draw(s) for k, s in options().items()})
    case['times'] = draw(st.sampled_from([1, 2]))
    return case


@st.composite
def wide_states(draw):
    case = draw(gen.wide(5, 7, NAMES))
    case.update({k: draw(s) for k, s in options().items()})
    return {**case, 'ops': case['all'], 'times': 1}


@st.composite
def wide_shots(draw):
    n = draw(st.integers(5, 7))
    case = draw(gen.wide(n, n, NAMES, 3))
    case.update({k: draw(s) for k, s in options().items()})
    case['measures'] = [['m', [], t] for t in draw(st.lists(gen.targets1(n), min_size=1, max_size=2))]
    return {**case, 'ops': case['all'], 'shots': draw(st.sampled_from([1, 40, 1025])),
            'results': draw(st.lists(st.sampled_from(['joint', 'counts']), min_size=1, max_size=2))}


@st.composite
def shots_cases(draw, tier):
    case = draw(gen.circuit(max_n=4 if tier == 'quick' else 5, max_ops=6 if tier == 'quick' else 10, names=NAMES))
    n = case['N']
    case['measures'] = draw(st.lists(st.tuples(st.sampled_from(['m', 'measure']), st.just([]), gen.targets1(n))
                                     .map(list), min_size=0, max_size=3))
    case['measures'] = [m for m in case['measures'] if ref.final_n(n, [m]) == n]
    case.update({k: draw(s) for k, s in options().items()})
    case['shots'] = draw(st.sampled_from([1, 2, 40, 100, 100, 1025, 5000]))
    case['results'] = draw(st.lists(st.sampled_from(['joint', 'counts', 'counts']), min_size=1, max_size=3))
    return case


@st.composite
def pools(draw, tier):
    total = draw(st.integers(1, 6))
    empty = [x for x in range(total) if draw(st.integers(0, 2)) == 0]
    k = total - len(empty)
    weights = draw(st.lists(st.sampled_from([0, 0, 1, 1, 2, 5]), min_size=2 ** k, max_size=2 ** k))
    if not any(weights):
        weights[draw(st.integers(0, 2 ** k - 1))] = 1
    return {'lanes': list(range(k)), 'empty': empty, 'weights': weights, 'shots': draw(st.sampled_from([1, 30, 100]))}


def check_rare_pool(case, ctx):
    """Of two values, however improbable one is, each occurs at one end of the unit interval."""
    k, empty, p = case['lanes'], case['empty'], case['p']
    order = [qgate.model.Qreg() for _ in range(k + len(empty))]

    def value(p):
        prob = np.zeros(2 ** k)
        prob[case['rare']] = p
        prob[case['other']] = 1 - p
        counts = BlueqatCompatibleSamplingPool(prob, list(empty), order).sample(3).histgram()
        require(len(counts) == 1, 'equal random numbers give different values %s', counts)
        return list(counts)[0]
    if not simcheck.follows(lambda: value(0.5)):
        ctx.label('not decided by one random number')
        return
    with simcheck.randomness([p / 8]):
        low = value(p)
    with simcheck.randomness([1 - p / 8]):
        high = value(p)
    require(low != high, 'whether the random number is %r or %r, the value is %s', p / 8, 1 - p / 8, low)
    ctx.interesting(p < 1e-3)


@st.composite
def rare_pools(draw):
    total = draw(st.integers(1, 5))
    empty = [x for x in range(total) if draw(st.integers(0, 2)) == 0][:total - 1]
    k = total - len(empty)
    rare = draw(st.integers(0, 2 ** k - 1))
    # values which differ in one bit: one comparison decides
    return {'lanes': k, 'empty': empty, 'rare': rare, 'other': rare ^ (1 << draw(st.integers(0, k - 1))),
            'p': draw(st.sampled_from([0.1, 1e-3, 1e-4, 1e-5, 1e-6]))}


@st.composite
def controlled_u(draw, tier):
    """cu2 and cu3 with their controls in basis states: each target gets u2, u3 or nothing, up to a phase."""
    n = draw(st.integers(2, 4 if tier == 'quick' else 6))
    cut = draw(st.permutations(list(range(n))))
    k = draw(st.integers(1, n - 1))
    ctl, tgt = cut[:k], cut[k:]
    ang = gen.generic_angles()
    ops = [['x', [], q] for q in ctl if draw(st.integers(0, 2))]
    for q in tgt:
        ops.append(['u3', [draw(ang), draw(ang), draw(ang)], q])
    ops += [['cx', [], {'t': [a, b]}] for a, b in zip(tgt, tgt[1:])]
    for _ in range(draw(st.integers(1, 4))):
        name = draw(st.sampled_from(['cu2', 'cu3']))
        m = draw(st.integers(1, 3))
        pairs = [(draw(st.sampled_from(ctl)), draw(st.sampled_from(tgt))) for _ in range(m)]
        ops.append([name, [draw(ang) for _ in range(ref.n_args(name))],
                    {'t': list(pairs[0])} if m == 1 else {'t': [{'t': list(x)} for x in zip(*pairs)]}])
        if draw(st.booleans()):
            ops.append([draw(st.sampled_from(['h', 't', 'x'])), [], draw(st.sampled_from(tgt))])
        if draw(st.integers(0, 2)) == 0:
            ops.append(['x', [], draw(st.sampled_from(ctl))])
    case = {'n': n, 'ops': ops, 'N': n, 'times': 1}
    case.update({k: draw(s) for k, s in options().items()})
    return case


SUBTESTS = [
    Subtest('controlled-u', controlled_u, check_states, 300, 6000),
    Subtest('states', states, check_states, 1500, 30000),
    Subtest('long-circuits', lambda tier: long_states(), check_states, 40, 800),
    Subtest('thousands-of-operations', lambda tier: long_states(gen.THOUSANDS), check_states, 8, 200),
    Subtest('shots', shots_cases, check_shots, 800, 15000),
    Subtest('large-registers', lambda tier: wide_states(), check_states, 60, 1200),
    Subtest('shots-of-large-registers', lambda tier: wide_shots(), check_shots, 60, 1200),
    Subtest('pools', pools, check_pool, 600, 10000),
    Subtest('rare-values', lambda tier: rare_pools(), check_rare_pool, 100, 2000),
]
