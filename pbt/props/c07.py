"""Concatenation and copies over a pool of circuits."""
import copy
import pickle

from hypothesis import strategies as st

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C07'
RULE = ('histories of append / + / += (also of a circuit with itself and chained) / copy / run over a pool '
        'of circuits, all circuits compared with a list-of-operations model after every step (sizes, number '
        'of operations) and at the end (states); non-trivial: a circuit is changed after it was an operand '
        'or a copy')


class Entry:
    def __init__(self, c, n, ops):
        self.c, self.n, self.ops = c, n, ops

    def check_shape(self):
        require(self.c.n_qubits == self.n, '%s qubits, expected %s', self.c.n_qubits, self.n)
        require(len(self.c.ops) == len(self.ops), '%s operations, expected %s', len(self.c.ops),
                len(self.ops))

    def check_state(self):
        self.check_shape()
        for o in self.ops:
            try:
                ref.resolve(o[0], o[2], self.n)
            except (IndexError, ValueError):
                return False
        if any(o[0] in ref.OPS1 for o in self.ops):
            brs = simcheck.tree({'n': self.n, 'ops': self.ops}, 300)
            if brs is not None and self.n:
                simcheck.check_one_shot(self.c, {'n': self.n, 'ops': self.ops}, brs)
            return True
        exp = ref.state(self.n, self.ops)
        v = self.c.run()
        ok = (ref.close_up_to_phase if simcheck.has_free_phase(self.ops) else ref.close)(v, exp, 1e-9)
        require(ok, 'state of %s differs from running the operations %s', self.c, self.ops)
        return True


def check(case, ctx):
    pool = [Entry(bq.Circuit(n) if n else bq.Circuit(), n, []) for n in case['sizes']]
    used = set()
    changed = False

    def put(e):
        if len(pool) < 6:
            pool.append(e)
        else:
            pool[-1] = e

    for a in case['actions']:
        i = a[1] % len(pool)
        e = pool[i]
        ctx.label(a[0])
        if a[0] == 'append':
            n2 = max(e.n, ref.mentioned_max(a[2][2]) + 1)
            if n2 > 4 or len(e.ops) > 14:
                continue
            changed = changed or id(e) in used
            r = bq.append(e.c, a[2])
            require(r is e.c, 'append returned another object')
            e.ops = e.ops + [a[2]]
            e.n = n2
        elif a[0] == 'run':
            e.check_state()
        elif a[0] == 'copy':
            kw = dict(a[2])
            new = Entry(e.c.copy(**kw), e.n, e.ops)
            require(new.c is not e.c, 'copy returned the same object')
            used.update((id(e), id(new)))
            put(new)
        elif a[0] == 'deepcopy':
            new = Entry(pickle.loads(pickle.dumps(e.c)) if a[2] else copy.deepcopy(e.c), e.n, e.ops)
            used.update((id(e), id(new)))
            put(new)
        elif a[0] == 'add':
            f = pool[a[2] % len(pool)]
            if len(e.ops) + len(f.ops) > 16:
                continue
            new = Entry(e.c + f.c, max(e.n, f.n), e.ops + f.ops)
            require(new.c is not e.c and new.c is not f.c, '+ returned an operand')
            used.update((id(e), id(f), id(new)))
            put(new)
        elif a[0] == 'iadd':
            f = pool[a[2] % len(pool)]
            if len(e.ops) + len(f.ops) > 16:
                continue
            changed = changed or id(e) in used
            c = e.c
            c += f.c
            require(c is e.c, '+= returned another object')
            fo = f.ops
            e.n = max(e.n, f.n)
            e.ops = e.ops + fo
            used.add(id(f))
        elif a[0] == 'bad':
            before = repr(e.c)
            obj = BAD[a[2]]()
            for f in (lambda: e.c + obj, lambda: obj + e.c, lambda: _iadd(e.c, obj)):
                try:
                    r = f()
                except TypeError:
                    pass
                else:
                    require(False, 'adding %r to a circuit gave %r', obj, r)
            require(repr(e.c) == before, 'a rejected addition changed the circuit')
        for x in pool:
            x.check_shape()
    for x in pool:
        x.check_state()
    ctx.interesting(changed)


def _iadd(c, obj):
    c += obj
    return c


BAD = {'none': lambda: None, 'int': lambda: 0, 'str': lambda: 'x', 'list': lambda: [],
       'tuple': lambda: (), 'gate': lambda: bq.Circuit().x[0].ops[0],
       'ops': lambda: bq.Circuit().x[0].ops, 'wrapper': lambda: bq.Circuit().x, 'float': lambda: 1.5,
       'type': lambda: bq.Circuit}

NAMES = gen.UNITARY + gen.NONUNITARY


def actions():
    i = st.integers(0, 5)
    ang = gen.generic_angles()
    return st.one_of(
        st.tuples(st.just('append'), i, st.integers(1, 4).flatmap(lambda n: gen.op(n, NAMES, ang))),
        st.tuples(st.just('append'), i, gen.op(2, NAMES, ang)),
        st.tuples(st.just('add'), i, i), st.tuples(st.just('add'), i, i),
        st.tuples(st.just('iadd'), i, i), st.tuples(st.just('iadd'), i, i),
        st.tuples(st.just('copy'), i, st.dictionaries(
            st.sampled_from(['copy_backends', 'copy_default_backend']), st.booleans())),
        st.tuples(st.just('run'), i), st.tuples(st.just('deepcopy'), i, st.booleans()),
        st.tuples(st.just('bad'), i, st.sampled_from(sorted(BAD))))


@st.composite
def histories(draw, k):
    return {'sizes': draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)),
            'actions': draw(st.lists(actions(), min_size=3, max_size=k))}


def check_laws(case, ctx):
    """Associativity and neutral element, as printed forms, sizes and states."""
    def mk(k):
        return bq.build(case['c'][k])
    n = max(c['N'] for c in case['c'])
    a, b, c = mk(0), mk(1), mk(2)
    reprs = [repr(x) for x in (a, b, c)]
    left, right = (a + b) + c, a + (b + c)
    ip = mk(0)
    ip += b
    ip += c
    chained = bq.Circuit() + a + b + c
    tail = a + b + c + bq.Circuit()
    wide = bq.Circuit(n) + a + b + c
    for o in (left, right, ip, chained, tail, wide):
        require(o.n_qubits == n, '%s qubits, expected %s', o.n_qubits, n)
        require(repr(o) == repr(left), 'concatenation is not associative: %s / %s', o, left)
    require([repr(x) for x in (a, b, c)] == reprs, 'concatenation changed an operand')
    ops = [o for x in case['c'] for o in x['ops']]
    if all(_ok(o, n) for o in ops):
        exp = ref.state(n, ops)
        for o in (left, right, ip, chained, tail):
            require(ref.close_up_to_phase(o.run(), exp, 1e-9), 'state of %s differs', o)
    sizes = {x['N'] for x in case['c']}
    ctx.interesting(len(ops) >= 3 and len(sizes) >= 2)


def _ok(o, n):
    try:
        ref.resolve(o[0], o[2], n)
        return True
    except (IndexError, ValueError):
        return False


def check_long(case, ctx):
    """Circuits of hundreds of operations put together from pieces."""
    n, total, cap = case['n'], Entry(bq.Circuit(case['n']), case['n'], []), case['cap']
    pieces = [Entry(bq.build_ops(n, p), n, p) for p in case['pieces']]
    for k, how in case['steps']:
        p = pieces[k % len(pieces)]
        if len(total.ops) + len(p.ops) > cap:
            continue
        before = total.c
        if how == 'add':
            total = Entry(total.c + p.c, n, total.ops + p.ops)
        elif how == 'radd':
            total = Entry(p.c + total.c, n, p.ops + total.ops)
        elif how == 'iadd':
            total.c += p.c
            total.ops = total.ops + p.ops
        elif how == 'self':
            if 2 * len(total.ops) > cap:
                continue
            total.c += total.c
            total.ops = total.ops + total.ops
        else:
            total = Entry(total.c.copy(copy_backends=how == 'copy-cache'), n, total.ops)
            require(total.c is not before, 'copy returned the same object')
        total.check_state() if len(case['steps']) < 4 else total.check_shape()
        for p in pieces:
            p.check_shape()
    total.check_state()
    for p in pieces:
        p.check_state()
    ctx.label('%d operations' % (len(total.ops) // 50 * 50))
    ctx.interesting(len(total.ops) > 16)


@st.composite
def long_cases(draw, lengths=None):
    n = draw(st.sampled_from([1, 2, 3, 3, 5, 7] if lengths is None else [1, 2, 3]))
    cap = 400 if lengths is None else 6000
    lengths = lengths or ([1, 2, 5] + gen.LENGTHS if n < 4 else [1, 2, 5, 9])
    return {'n': n, 'cap': cap, 'pieces': draw(st.lists(gen.long_ops(n, gen.UNITARY, lengths), min_size=1,
                                            max_size=3)),
            'steps': draw(st.lists(st.tuples(st.integers(0, 2), st.sampled_from(
                ['add', 'add', 'radd', 'iadd', 'iadd', 'self', 'copy', 'copy-cache'])).map(list), min_size=1,
                max_size=7))}


SUBTESTS = [
    Subtest('histories', lambda tier: histories(12 if tier == 'quick' else 24), check, 1500, 40000),
    Subtest('long-circuits', lambda tier: long_cases(), check_long, 60, 1500),
    Subtest('thousands-of-operations', lambda tier: long_cases([1, 2] + gen.THOUSANDS), check_long, 12, 300),
    Subtest('laws', lambda tier: st.fixed_dictionaries(
        {'c': st.lists(gen.circuit(0, 3, 3), min_size=3, max_size=3)}), check_laws, 500, 10000),
]
ASSUMPTIONS = ['negative and open-ended addresses refer to the register of the circuit they end up in']
