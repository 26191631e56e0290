"""Addresses: Python indexing of the final register, observed through every backend."""
import random

import numpy as np
from hypothesis import strategies as st

import bq
import gen
import qasm2
import ref
from core import Subtest, require

ID = 'C02'
RULE = ('circuits whose operations use every address form (indices of either sign, numpy integers, '
        'stepped/open/negative slices, tuples, pairs of them) on growing registers, plus invalid '
        'addresses; non-trivial: some operation has a slice, tuple or negative address selecting at '
        'least one qubit')


def is_rich(t):
    if isinstance(t, dict):
        if 'i' in t:
            return t['i'] < 0
        if 's' in t:
            return True
        return len(t['t']) != 1 or is_rich(t['t'][0])
    return t < 0


def expected_events(n, ops):
    out = []
    for name, _p, t in ops:
        for qs in ref.resolve(name, t, n):
            out.append((name, qs))
    return out


# ------------------------------------------------------------------ state and register growth

def check_growth(case, ctx):
    c = bq.Circuit(case['n']) if case['n'] else bq.Circuit()
    n = case['n']
    for o in case['ops']:
        r = bq.append(c, o)
        require(r is c, 'appending a gate does not return the circuit')
        n = max(n, ref.mentioned_max(o[2]) + 1)
        require(c.n_qubits == n, 'after %s the circuit has %s qubits, expected %s',
                o, c.n_qubits, n)
    exp = ref.state(n, case['ops'])
    v = c.run()
    require(v.shape == exp.shape, 'state of %s entries for %s qubits', v.shape, n)
    require(ref.close_up_to_phase(v, exp, 1e-9), 'gates were applied to other qubits')
    ctx.interesting(any(is_rich(o[2]) for o in case['ops']) and len(expected_events(n, case['ops'])) > 0)


@st.composite
def growing(draw, names, max_n, max_ops):
    """Addresses valid in the final register; early operations may mention qubits added later."""
    N = draw(st.integers(1, max_n))
    ops = draw(st.lists(gen.op(N, names, gen.generic_angles()), min_size=1, max_size=max_ops))
    n0 = draw(st.integers(0, N))
    if ref.final_n(n0, ops) != N:
        k = draw(st.integers(0, len(ops)))
        ops.insert(k, ['i', [], N - 1])
    return {'n': n0, 'ops': ops}


GROW_NAMES = ['ry', 'rx', 'x', 't', 'h', 'u3', 'cx', 'cry', 'cu3', 'swap', 'cphase', 'rxx', 'ccx',
              'cswap', 'phase', 'cu2', 'cy', 'cz']


# ------------------------------------------------------------------ the same in every backend

def check_backends(case, ctx):
    n = ref.final_n(case['n'], case['ops'])
    ops = case['ops']
    exp = expected_events(n, ops)
    # OpenQASM: operand lists in order
    text = bq.build(case).to_qasm()
    p = qasm2.parse(text)
    require(p.n_qubits == n and p.n_cbits == n, 'declared %s qubits, expected %s', p.n_qubits, n)
    got = [(i[3], i[2]) if i[0] == 'u' else (i[0], (i[1],)) for i in p.instructions]
    canon = {'m': 'measure', 'i': 'id', 'cnot': 'cx', 'toffoli': 'ccx', 'r': 'u1', 'phase': 'u1'}
    require(got == [(canon.get(a, a), q) for a, q in exp],
            'operations in OpenQASM: %s, expected %s', got, exp)
    for i in p.instructions:
        if i[0] == 'measure':
            require(i[1] == i[2], 'qubit %s measured into bit %s', i[1], i[2])
    # a user-written backend sees the same operands in the same order
    rec = []

    class Recorder(bq.Backend):
        pass

    def one(self, g, c):
        rec.extend((g.lowername, (q,)) for q in g.target_iter(n))
        return c

    def two(self, g, c):
        rec.extend((g.lowername, tuple(q)) for q in g.control_target_iter(n))
        return c

    def three(self, g, c):
        return c

    for name in list(ref.GATES) + ['measure', 'reset']:
        setattr(Recorder, 'gate_' + name, {1: one, 2: two, 3: three}[ref.n_qubits_of(name)])
    bq.build(case).run(backend=Recorder())
    canon2 = {'m': 'measure', 'cnot': 'cx', 'r': 'phase'}
    require(rec == [(canon2.get(a, a), q) for a, q in exp if len(q) < 3],
            'operands seen by a backend: %s, expected %s', rec, exp)
    ctx.interesting(any(is_rich(o[2]) for o in ops) and len(exp) > 0)


BACKEND_NAMES = ['x', 'h', 'z', 's', 'i', 'cx', 'cz', 'swap', 'cy', 'ch', 'ccx', 'cswap', 'm',
                 'measure', 'reset', 'cnot', 'toffoli', 't', 'y', 'phase']


def check_sympy(case, ctx):
    n = ref.final_n(case['n'], case['ops'])
    m = np.array(bq.build(case).to_unitary().evalf(15).tolist(), dtype=complex)
    require(ref.close_up_to_phase(m, ref.unitary(n, case['ops']), 1e-7),
            'the symbolic unitary applies gates to other qubits')
    ctx.interesting(any(is_rich(o[2]) for o in case['ops']))


# ------------------------------------------------------------------ measured bits

def check_measured(case, ctx):
    """x on some qubits, then measurement through an address: only those bits are recorded."""
    n = case['n']
    c = bq.Circuit(n)
    for q in case['ones']:
        c.x[q]
    getattr(c, case['name'])[ref.dec_target(case['t'])]
    sel = ref.resolve1(case['t'], n)
    counts = c.run(shots=3)
    key = ''.join('1' if q in case['ones'] and q in sel else '0' for q in range(n))
    require(dict(counts) == {key: 3}, 'counts %s, expected only %s', dict(counts), key)
    ctx.interesting(is_rich(case['t']) and 0 < len(set(sel)) < n)


@st.composite
def measured(draw):
    n = draw(st.integers(1, 6))
    return {'n': n, 'ones': draw(st.lists(st.integers(0, n - 1), unique=True, max_size=n)),
            'name': draw(st.sampled_from(['m', 'measure'])), 't': draw(gen.targets1(n))}


# ------------------------------------------------------------------ invalid addresses

BAD_VALUES = {'float': 0.5, 'none': None, 'str': '0', 'list': [0], 'complex': 1j,
              'floatslice': slice(0.5, 2), 'strslice': slice('a', None), 'whole float': 1.0}


def snapshot(c):
    return c.n_qubits, repr(c), len(c.ops)


def check_bad_type(case, ctx):
    """Addresses which are not integers or slices are rejected and leave the circuit unchanged."""
    base = case['base']
    c = bq.build(base)
    before = snapshot(c)
    v0 = bq.build(base).run()
    name = case['name']
    k = ref.n_qubits_of(name)
    bad = BAD_VALUES[case['bad']]
    if k == 1:
        target = bad if not case['wrap'] else (0, bad)
    else:
        target = [case['far'], case['far'] + 1, case['far'] + 2][:k]
        target[case['pos'] % k] = bad
        target = tuple(target)
    g = getattr(c, name)
    if ref.n_args(name):
        g = g(*[0.5] * ref.n_args(name))
    try:
        g[target]
    except Exception:
        pass
    else:
        require(False, 'address %r of %s was accepted', target, name)
    require(snapshot(c) == before, 'a rejected gate changed the circuit: %s -> %s', before, snapshot(c))
    require(ref.close(c.run(), v0, 1e-12), 'a rejected gate changed the state')
    ctx.interesting()


@st.composite
def bad_type(draw):
    return {'base': draw(gen.circuit(0, 3, 3)), 'name': draw(st.sampled_from(gen.UNITARY + gen.NONUNITARY)),
            'bad': draw(st.sampled_from(sorted(BAD_VALUES))), 'wrap': draw(st.booleans()),
            'pos': draw(st.integers(0, 2)), 'far': draw(st.integers(0, 8))}


def check_unresolvable(case, ctx):
    """Never applied to some other qubit: every backend raises (when appended or when run)."""
    n, name = case['n'], case['name']
    target = ref.dec_target(case['t'])

    def make():
        c = bq.Circuit(n).x[0] if n else bq.Circuit()
        before = snapshot(c)
        g = getattr(c, name)
        if ref.n_args(name):
            g = g(*[0.5] * ref.n_args(name))
        try:
            g[target]
        except Exception:
            require(snapshot(c) == before, 'a rejected gate changed the circuit')
            return None
        require(c.n_qubits == ref.final_n(n, [[name, [], case['t']]]),
                '%s qubits after %r', c.n_qubits, target)
        return c

    backends = ['numpy', 'qasm_output']
    if ref.final_n(n, [[name, [], case['t']]]) <= 4:
        backends.append('sympy_unitary')
    for b in backends:
        c = make()
        if c is None:
            continue
        if b == 'sympy_unitary' and name in ref.OPS1:
            continue
        try:
            out = c.run(backend=b)
        except Exception:
            continue
        require(False, '%s accepted %s[%r] on %d qubits: %s', b, name, target, c.n_qubits, out)
    ctx.label(case['why'])
    ctx.interesting()


@st.composite
def unresolvable(draw):
    n = draw(st.integers(0, 4))
    why = draw(st.sampled_from(['negative', 'negative-in-tuple', 'zero-step', 'pair-equal',
                                'pair-length', 'pair-negative', 'pair-form', 'triple-equal',
                                'triple-count', 'triple-negative', 'pair-overlap', 'long-pairs', 'long-pairs']))
    neg = draw(st.integers(-n - 4, -n - 1))
    q = draw(st.integers(0, max(n - 1, 0)))
    one = draw(st.sampled_from(gen.ONE_0[1:] + gen.ONE_P + gen.NONUNITARY))
    two = draw(st.sampled_from(gen.TWO_0 + gen.TWO_P))
    three = draw(st.sampled_from(gen.THREE))
    m = max(n, 2)
    if why == 'negative':
        name, t = one, draw(st.sampled_from([neg, {'i': neg}]))
    elif why == 'negative-in-tuple':
        n = max(n, 1)
        neg = min(neg, -n - 1)
        l = [q, neg] if draw(st.booleans()) else [neg, q]
        name, t = one, {'t': l}
    elif why == 'zero-step':
        name, t = one, {'s': [None, draw(gen.opt(st.integers(0, 3))), 0]}
    elif why == 'pair-equal':
        enc = [q, {'s': [q, q + 1, None]}, {'t': [q]}, {'i': q}]
        name, t = two, {'t': [draw(st.sampled_from(enc)), draw(st.sampled_from(enc))]}
    elif why == 'pair-overlap':
        n = max(n, 3)
        name, t = two, {'t': [{'s': [0, 3, None]}, draw(st.sampled_from([
            {'t': [1, 1, 1]}, {'s': [None, 3, None]}, {'t': [1, 2, 2]}, {'t': [0, 2, 1]}]))]}
    elif why == 'long-pairs':
        # many pairs, of which one is wrong, or one qubit more on one side (one against many as well)
        n = max(n, 3)
        k = draw(st.one_of(st.sampled_from([2, 4, 8, 9, 16, 17, 32, 33, 65]), st.integers(1, 70)))
        rng = random.Random(draw(st.integers(0, 10 ** 6)))
        a, b = [list(x) for x in zip(*[rng.sample(range(n), 2) for _ in range(k)])]
        at = draw(st.sampled_from([0, -1, k // 2, -2 if k > 1 else -1]))
        wrong = draw(st.sampled_from(['equal', 'longer', 'shorter', 'one', 'one', 'negative']))
        if wrong == 'equal':
            b[at] = a[at]
        elif wrong == 'longer':
            b.append(rng.choice([x for x in range(n) if x != a[-1]]))
        elif wrong == 'negative':
            b[at] = -n - 1
        else:
            a = a[:-1] if wrong == 'shorter' else [0]
            b = [x or 1 for x in b]
            b += [1, 2] if len(a) == len(b) else []
        a = a[0] if len(a) == 1 and draw(st.booleans()) else {'t': a}
        b = {'t': b}
        name, t = two, {'t': [a, b] if draw(st.booleans()) else [b, a]}
    elif why == 'pair-length':
        a = list(range(draw(st.integers(0, 3))))
        b = list(range(4, 4 + draw(st.integers(0, 3).filter(lambda x: x != len(a)))))
        name, t = two, {'t': [{'t': a}, {'t': b}]}
    elif why == 'pair-negative':
        n = m
        neg = min(neg, -n - 1)
        l = [q, neg] if draw(st.booleans()) else [neg, q]
        name, t = two, {'t': l}
    elif why == 'pair-form':
        name, t = two, draw(st.sampled_from([q, {'s': [0, 2, None]}, {'t': []}, {'t': [q]},
                                             {'t': [0, 1, 2]}, {'t': [0, 1, 2, 3]}]))
    elif why == 'triple-equal':
        a, b = draw(st.permutations([0, 1, 2]))[:2]
        l = draw(st.sampled_from([[a, a, b], [a, b, a], [b, a, a], [a, a, a]]))
        n = max(n, 3)
        if draw(st.booleans()):
            l = [x if draw(st.booleans()) else x - n for x in l]
        name, t = three, {'t': l}
    elif why == 'triple-count':
        name, t = three, draw(st.sampled_from([{'t': [0, 1]}, {'t': [0, 1, 2, 3]}, {'t': []}, q,
                                               {'t': [0, 1, 2, 2]}]))
    else:
        n = max(n, 3)
        neg = min(neg, -n - 1)
        l = [0, 1]
        l.insert(draw(st.integers(0, 2)), neg)
        name, t = three, {'t': l}
    return {'n': n, 'name': name, 't': t, 'why': why}


@st.composite
def long_addresses(draw, names):
    """Addresses with many elements, qubits repeating."""
    n = draw(st.integers(2, 6))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    ops = []
    for _ in range(draw(st.integers(1, 2))):
        k = draw(st.one_of(st.sampled_from([7, 8, 9, 16, 17, 32, 33, 64, 65, 100]), st.integers(5, 100)))
        name = draw(st.sampled_from([g for g in names if ref.n_qubits_of(g) < 3]))
        params = [round(rng.uniform(0.2, 1.2), 3) for _ in range(ref.n_args(name))]
        if ref.n_qubits_of(name) == 1:
            t = [rng.choice([rng.randrange(n), rng.randrange(-n, 0)]) for _ in range(k)]
            if draw(st.booleans()):
                t.insert(rng.randrange(k), {'s': [None, rng.randrange(1, n), None]})
            ops.append([name, params, {'t': t}])
        else:
            pairs = [rng.sample(range(n), 2) for _ in range(k)]
            ops.append([name, params, {'t': [{'t': [p[0] for p in pairs]}, {'t': [p[1] - n for p in pairs]}]}])
    return {'n': n, 'ops': ops}


SUBTESTS = [
    Subtest('long-addresses', lambda tier: long_addresses(GROW_NAMES), check_growth, 80, 1500),
    Subtest('long-addresses-in-every-backend', lambda tier: long_addresses(BACKEND_NAMES), check_backends, 80, 1500),
    Subtest('register-growth-and-state', lambda tier: growing(GROW_NAMES, 5, 6), check_growth,
            1800, 60000),
    Subtest('operands-in-every-backend', lambda tier: growing(BACKEND_NAMES, 6, 6), check_backends,
            1500, 50000),
    Subtest('symbolic-backend', lambda tier: growing(['x', 'h', 'cx', 'cz', 'swap', 's', 'ccx',
                                                      'cswap', 'cy'], 3, 3),
            check_sympy, 110, 3000),
    Subtest('measured-bits', lambda tier: measured(), check_measured, 600, 20000),
    Subtest('rejected-address-types', lambda tier: bad_type(), check_bad_type, 600, 15000),
    Subtest('unresolvable-addresses', lambda tier: unresolvable(), check_unresolvable, 800, 15000),
]
