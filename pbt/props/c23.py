"""Immutable operation lists over histories, and column-by-column unitaries."""
import warnings

import numpy as np
from hypothesis import strategies as st

from blueqat.experimental import Ops
from blueqat.experimental.utils import circuit_to_unitary

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C23'
RULE = ('histories of appending gates (also twice through one gate object, and with rejected arguments), '
        'concatenation, conjugation and conversion over a pool of operation lists; after every step every list '
        'still has its size and operations, at the end each is converted and compared with a circuit built '
        'directly and with the reference; unitaries of measurement-free circuits column by column; non-trivial: '
        'a list is used as an operand at least twice, or a unitary of two or more qubits which is not symmetric')

NAMES = [g for g in gen.UNITARY if g not in ('rxx', 'ryy', 'rzz', 'cswap')]
MEASURE = ['m', 'measure']
ABSENT = ['nothing', 'run', 'foo', 'append']


def shown(case_ops):
    """Printed operations of a circuit built directly; conjugates are None."""
    c = bq.build_ops(0, case_ops)
    return [str(o) for o in c.ops]


class Entry:
    def __init__(self, o, n, ops, printed):
        self.o, self.n, self.ops, self.printed = o, n, ops, printed
        self.used = 0

    def check_shape(self):
        require(type(self.o) is Ops, 'not an operation list: %r', self.o)
        require(self.o.n_qubits == self.n, '%r has %s qubits, expected %s', self.o, self.o.n_qubits, self.n)
        require([str(g) for g in self.o.ops] == self.printed, '%r, expected %s', self.o, self.printed)
        require(repr(self.o) == '.'.join([f'Ops({self.n})'] + self.printed), 'printed as %r', self.o)

    def resolvable(self):
        try:
            for o in self.ops:
                ref.resolve(o[0], o[2], self.n)
        except (IndexError, ValueError):
            return False
        return True


def check_results(c, e, what):
    case = {'n': e.n, 'ops': e.ops}
    require(c.n_qubits == e.n and [str(g) for g in c.ops] == e.printed, '%s of %r is %r', what, e.o, c)
    if not e.resolvable():
        return
    if any(o[0] in ref.OPS1 for o in e.ops):
        brs = simcheck.tree(case, 300)
        if brs is not None and e.n:
            simcheck.check_one_shot(c, case, brs)
        return
    v, want = c.run(), ref.state(e.n, e.ops)
    ok = (ref.close_up_to_phase if simcheck.has_free_phase(e.ops) else ref.close)(v, want, 1e-8)
    require(ok, '%s of %r gives %s, expected %s', what, e.o, v, want)


def check_history(case, ctx):
    pool = [Entry(Ops(n) if n else Ops(), n, [], []) for n in case['sizes']]

    def put(e):
        if len(pool) < 7:
            pool.append(e)
        else:
            pool[case['sizes'][0] % 7] = e

    for a in case['actions']:
        e = pool[a[1] % len(pool)]
        what = a[0]
        if what in ('append', 'twice'):
            adds = a[2:]
            name, params = adds[0][0], [ref.dec_param(p) for p in adds[0][1]]
            if len(e.ops) > 12:
                continue
            w = getattr(e.o, name)
            if params:
                w = w(*params)
            for _n, _p, t in adds:
                n2 = max(e.n, ref.mentioned_max(t) + 1)
                if n2 > 4:
                    continue
                r = w[ref.dec_target(t)]
                op = [name, adds[0][1], t]
                put(Entry(r, n2, e.ops + [op], e.printed + shown([op])))
                e.used += 1
        elif what == 'bad':
            # arguments that a circuit rejects too
            o = a[2]
            try:
                g = getattr(e.o, o[0])
                g = g(*[ref.dec_param(p) for p in o[1]]) if o[1] else g
                r = g[ref.dec_target(o[2])]
            except (ValueError, TypeError, AttributeError):
                ctx.label('rejected')
                continue
            require(False, '%s was accepted: %r', o, r)
        elif what == 'absent':
            try:
                getattr(e.o, a[2])
            except AttributeError:
                continue
            require(False, 'operation lists have %r', a[2])
        elif what == 'add':
            f = pool[a[2] % len(pool)]
            if len(e.ops) + len(f.ops) > 16:
                continue
            keep = e.o, f.o
            r = e.o + f.o
            require(keep[0] is e.o, 'operand replaced')
            put(Entry(r, max(e.n, f.n), e.ops + f.ops, e.printed + f.printed))
            e.used += 1
            f.used += 1
        elif what == 'iadd':
            f = pool[a[2] % len(pool)]
            if len(e.ops) + len(f.ops) > 16:
                continue
            x = e.o
            x += f.o
            put(Entry(x, max(e.n, f.n), e.ops + f.ops, e.printed + f.printed))
            e.used += 1
        elif what == 'dagger':
            e.used += 1
            if any(o[0] in ref.OPS1 for o in e.ops):
                try:
                    r = e.o.dagger()
                except ValueError:
                    continue
                require(False, 'the conjugate of a measurement is %r', r)
            r = e.o.dagger()
            ops = [[o[0], o[1], o[2], not (len(o) > 3 and o[3])] for o in e.ops[::-1]]
            require(len(r.ops) == len(ops), 'the conjugate of %r is %r', e.o, r)
            put(Entry(r, e.n, ops, [str(g) for g in r.ops]))
        elif what == 'convert':
            # a circuit made from the list is independent of it and of other conversions
            c, d = e.o.to_circuit(), e.o.to_circuit()
            check_results(c, e, 'conversion')
            c.x[0]
            c.h[a[2] % 3]
            require(d.n_qubits == e.n and len(d.ops) == len(e.ops), 'another conversion was changed')
        for x in pool:
            x.check_shape()
    for e in pool:
        c = e.o.to_circuit()
        check_results(c, e, 'conversion')
        if not any(len(o) > 3 for o in e.ops):
            d = bq.build_ops(e.n, e.ops)
            require(repr(c) == repr(d), 'conversion of %r is %r, built directly %r', e.o, c, d)
        ctx.interesting(e.used > 1)
    for e in pool:
        e.check_shape()


def check_unitary(case, ctx):
    c = bq.build(case)
    before = repr(c), c.n_qubits
    kw = {}
    if case['backend']:
        kw['backend'] = 'numpy'
    if case['ignore'] is not None:
        kw['ignore_global'] = case['ignore']
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        u = circuit_to_unitary(c, **kw)
    n = case['N']
    want = ref.unitary(n, case['ops'])
    require(isinstance(u, np.ndarray) and u.shape == (2 ** n, 2 ** n), 'the unitary of %r has shape %s', c, u.shape)
    if case['ignore']:
        for k in range(2 ** n):
            require(ref.close_up_to_phase(u[:, k], want[:, k], 1e-8), 'column %d of the unitary of %r is %s, '
                    'expected %s', k, c, u[:, k], want[:, k])
    elif simcheck.has_free_phase(case['ops']):
        require(ref.close_up_to_phase(u.ravel(), want.ravel(), 1e-8), 'the unitary of %r is %s, expected %s', c, u,
                want)
    else:
        require(ref.close(u, want, 1e-8), 'the unitary of %r is %s, expected %s', c, u, want)
    require((repr(c), c.n_qubits) == before, 'the circuit was changed to %r', c)
    ctx.interesting(n > 1 and not np.allclose(want, want.T))


# ------------------------------------------------------------------ generators

@st.composite
def actions(draw):
    k = draw(st.integers(0, 13))
    i, j = draw(st.integers(0, 6)), draw(st.integers(0, 6))
    names = NAMES + MEASURE
    if k <= 5:
        return ['append', i, draw(gen.op(draw(st.integers(1, 4)), names, gen.angles()))]
    if k == 6:
        n = draw(st.integers(1, 3))
        o = draw(gen.op(n, names, gen.angles()))
        size = {1: gen.targets1, 2: gen.targets2, 3: gen.targets3}[ref.n_qubits_of(o[0])]
        return ['twice', i, o, [o[0], o[1], draw(size(n))]]
    if k == 7:
        return ['bad', i, draw(st.sampled_from([
            ['rx', [], 0], ['rx', [0.1, 0.2], 0], ['u3', [0.1], 0],
            ['cu2', [0.1], {'t': [0, 1]}]]))]
    if k == 8:
        return ['absent', i, draw(st.sampled_from(ABSENT))]
    if k <= 10:
        return [draw(st.sampled_from(['add', 'add', 'iadd'])), i, j]
    if k <= 12:
        return ['dagger', i]
    return ['convert', i, j]


@st.composite
def histories(draw, tier):
    n = draw(st.integers(2, 25 if tier == 'thorough' else 12))
    return {'sizes': draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)),
            'actions': [draw(actions()) for _ in range(n)]}


@st.composite
def unitaries(draw, tier):
    c = draw(gen.circuit(0, 5 if tier == 'thorough' else 4, 8, names=gen.UNITARY))
    c['backend'] = draw(st.booleans())
    c['ignore'] = draw(st.sampled_from([None, None, None, False, True]))
    return c


def check_long(case, ctx):
    """Lists of hundreds of operations: by appending, in two halves, as a conjugate and as a circuit."""
    n, ops, cut = case['n'], case['ops'], case['cut'] % (len(case['ops']) + 1)
    lists = []
    for part in (ops, ops[:cut], ops[cut:]):
        o = Ops(n)
        for x in part:
            o = bq.append(o, x)
        lists.append(Entry(o, n, part, shown(part)))
    whole, a, b = lists
    joined = Entry(a.o + b.o, n, ops, whole.printed)
    for e in (whole, a, b, joined):
        e.check_shape()
    for e in (whole, joined, a):
        check_results(e.o.to_circuit(), e, 'conversion')
    both = Entry(joined.o.dagger().dagger(), n, ops, whole.printed)
    require(len(both.o.ops) == len(ops), 'the conjugate of the conjugate of %r is %r', joined.o, both.o)
    c = joined.o.to_circuit() + joined.o.dagger().to_circuit()
    v = c.run()
    require(ref.close(v, ref.zero_state(n), 1e-8), '%r with its conjugate gives %s', joined.o, v)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        u = circuit_to_unitary(whole.o.to_circuit())
    want = ref.unitary(n, ops)
    ok = (ref.close_up_to_phase if simcheck.has_free_phase(ops) else ref.close)(u.ravel(), want.ravel(), 1e-8)
    require(ok, 'the unitary of %r is %s, expected %s', whole.o, u, want)
    ctx.interesting(len(ops) > 16 or n >= 4 and len(ops) > 1)


SUBTESTS = [
    Subtest('histories', histories, check_history, 1200, 40000),
    Subtest('long-lists', lambda tier: st.builds(lambda c, k: {**c, 'cut': k}, gen.long_circuit(names=NAMES),
                                                 st.integers(0, 300)), check_long, 50, 1000),
    Subtest('thousands-of-operations', lambda tier: st.builds(lambda c, k: {**c, 'cut': k}, gen.long_circuit(
        names=NAMES, lengths=gen.THOUSANDS), st.integers(0, 3000)), check_long, 8, 200),
    Subtest('large-registers', lambda tier: st.builds(
        lambda c, k: {**c, 'cut': k}, gen.wide(4, 6, NAMES, 12), st.integers(0, 300)), check_long, 40, 800),
    Subtest('unitary-of-large-registers', lambda tier: st.builds(
        lambda c, b, i: {**c, 'backend': b, 'ignore': i}, gen.wide(5, 7), st.booleans(),
        st.sampled_from([None, None, False, True])), check_unitary, 60, 1000),
    Subtest('unitary', unitaries, check_unitary, 1000, 30000),
]
ASSUMPTIONS = ['the gate set of operation lists is the one of circuits without rxx, ryy, rzz, cswap and reset']
