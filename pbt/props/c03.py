"""Histories: every run equals what a fresh circuit would give."""
import copy
import pickle

import numpy as np
from hypothesis import strategies as st

import bq
import gen
import ref
import simcheck
from core import Subtest, require
from props import c04

ID = 'C03'
RULE = ('histories of 3-14 actions (append, run in every return mode, make_cache, copy, dagger, +, +=, edits of the operation list, '
        'in-place modification of a returned vector, runs on a shared backend object, failing runs) over '
        'a pool of circuits, each run checked against a model that only knows the operation lists; '
        'non-trivial: some circuit is run, then changed or shared or its result modified, then run again')

TOL = 1e-9


class Model:
    """A circuit as data: declared size and operations (with a conjugation flag)."""

    def __init__(self, n, ops):
        self.n = n
        self.ops = ops

    def bad(self):
        """Names of the operations whose address cannot be resolved."""
        out = set()
        for o in self.ops:
            try:
                ref.resolve(o[0], o[2], self.n)
            except (IndexError, ValueError):
                out.add(o[0])
        return out

    def valid(self):
        return not self.bad()

    def unitary_only(self):
        return all(o[0] not in ref.OPS1 for o in self.ops)


def branch_match(brs, key, v):
    for bits, w in brs:
        if key is not None and ''.join(map(str, bits)) != key:
            continue
        p = np.linalg.norm(w)
        if ref.close_up_to_phase(v, w / p, 1e-6):
            return True
    return False


def phase_free(ops):
    return any(o[0] == 'cu1' for o in ops)


def check_vector(m, v):
    if m.unitary_only():
        exp = ref.state(m.n, m.ops)
        ok = ref.close_up_to_phase(v, exp, TOL) if phase_free(m.ops) else ref.close(v, exp, TOL)
        require(ok, 'state\n %s\nexpected\n %s', np.round(v, 5), np.round(exp, 5))
    else:
        require(branch_match(ref.branches(m.n, m.ops), None, v),
                'state %s is not a possible outcome', np.round(v, 5))


def check_counts(m, counts, shots):
    if m.n == 0:
        return
    d = ref.distribution(m.n, m.ops)
    require(sum(counts.values()) == shots, '%s shots reported, %s requested',
            sum(counts.values()), shots)
    for k, c in counts.items():
        p = d.get(k, 0.0)
        require(p > 1e-12, 'impossible outcome %r in %s', k, dict(counts))
        require(ref.binom_tail(shots, c, p) > 1e-9, 'outcome %r: %d of %d shots, probability %.4f',
                k, c, shots, p)
    for k, p in d.items():
        if k not in counts:
            require(ref.binom_tail(shots, 0, p) > 1e-9, 'outcome %r of probability %.4f is missing',
                    k, p)


def do_run(c, m, mode, backend=None, **extra):
    """Run in one mode and compare; returns the vector if there is one."""
    kw = dict(extra) if backend is None else dict(extra, backend=backend)
    valid = m.valid()
    if m.bad() == {'i'}:
        return              # whether an identity looks at its address is not specified
    before = (c.n_qubits, len(c.ops), repr(c))
    try:
        if mode in ('vec', 'mut'):
            r = c.run(**kw)
        elif mode == 'ignore':
            r = c.run(ignore_global=True, **kw)
        elif mode == 'shots':
            r = c.run(shots=20, **kw)
        elif mode == 'both':
            r = c.run(shots=3, returns='statevector_and_shots', **kw)
        elif mode == 'one':
            r = c.run(shots=1, returns='statevector_and_shots', **kw)
        else:
            r = c.run(shots=2, returns='statevector', **kw)
    except Exception as e:
        require(not valid, 'run failed: %r', e)
        return
    require(valid, 'a circuit with an unresolvable address was run')
    require((c.n_qubits, len(c.ops), repr(c)) == before, 'running changed the circuit')
    if mode in ('vec', 'mut'):
        check_vector(m, r)
        if mode == 'mut':
            r[...] = 0.25 + 0.5j
    elif mode == 'ignore':
        if m.unitary_only():
            require(ref.close_up_to_phase(r, ref.state(m.n, m.ops), TOL), 'state differs')
        r *= 0
    elif mode == 'shots':
        check_counts(m, r, 20)
        r['x' * m.n] += 1
    elif mode in ('both', 'one'):
        v, counts = r
        check_counts(m, counts, 3 if mode == 'both' else 1)
        if mode == 'one' and m.n:
            require(branch_match(ref.branches(m.n, m.ops), list(counts)[0], v),
                    'state and recorded bits of one shot do not belong together')
        else:
            check_vector(m, v)
        v *= 0
    else:
        check_vector(m, r)


def edit(c, m, how, k, o):
    """Change the list of operations in place, without changing the register."""
    if ref.mentioned_max(o[2]) >= m.n:
        return
    tmp = bq.Circuit(m.n)
    bq.append(tmp, o)
    g = tmp.ops[-1]
    ops = list(m.ops)
    if how == 'insert':
        k %= len(ops) + 1
        ops.insert(k, o)
        c.ops.insert(k, g)
    elif not ops:
        return
    elif how == 'replace':
        k %= len(ops)
        ops[k] = o
        c.ops[k] = g
    elif how == 'delete':
        k %= len(ops)
        del ops[k]
        del c.ops[k]
    else:
        ops.reverse()
        c.ops.reverse()
    m.ops = ops


def check(case, ctx, name=None, make_backend=bq.NumPyBackend, **extra):
    """name: registered backend to run on (the default one otherwise)"""
    pool = [(bq.Circuit(n) if n else bq.Circuit(), Model(n, [])) for n in case['sizes']]
    shared = [make_backend(), make_backend()]
    ran = set()
    again = False

    def put(entry):
        # the pool never has more than 5 circuits; the oldest is replaced
        if len(pool) < 5:
            pool.append(entry)
        else:
            pool[len(pool) - 1] = entry

    for a in case['actions']:
        kind, i = a[0], a[1] % len(pool)
        c, m = pool[i]
        ctx.label(kind)
        if kind == 'append':
            n2 = max(m.n, ref.mentioned_max(a[2][2]) + 1)
            if n2 > 4 or len(m.ops) > 12:
                continue
            bq.append(c, a[2])
            m.ops = m.ops + [a[2]]
            m.n = n2
            require(c.n_qubits == m.n, '%s qubits, expected %s', c.n_qubits, m.n)
        elif kind == 'edit':
            edit(c, m, *a[2:])
        elif kind == 'run':
            again = again or (i in ran)
            do_run(c, m, a[2], backend=name, **extra)
            ran.add(i)
        elif kind == 'shared':
            again = again or ('s', a[2]) in ran
            do_run(c, m, a[3], backend=shared[a[2]], **extra)
            ran.add(('s', a[2]))
        elif kind == 'cache':
            if m.valid():
                c.make_cache(backend=name)
                ran.add(i)
        elif kind == 'copy':
            put((c.copy(copy_backends=a[2]), Model(m.n, m.ops)))
        elif kind == 'deepcopy':
            put((pickle.loads(pickle.dumps(c)) if a[2] else copy.deepcopy(c), Model(m.n, m.ops)))
        elif kind == 'dagger':
            if not m.unitary_only():
                continue
            d = c.dagger(copy_backends=a[2])
            put((d, Model(m.n, [o[:3] + [not (len(o) > 3 and o[3])] for o in reversed(m.ops)])))
        elif kind in ('add', 'iadd'):
            c2, m2 = pool[a[2] % len(pool)]
            if len(m.ops) + len(m2.ops) > 14:
                continue
            if kind == 'add':
                put((c + c2, Model(max(m.n, m2.n), m.ops + m2.ops)))
            else:
                c += c2
                m.ops = m.ops + m2.ops
                m.n = max(m.n, m2.n)
    for c, m in pool:
        do_run(c, m, 'vec' if m.unitary_only() else 'one', backend=name, **extra)
        do_run(c, m, 'shots', backend=name, **extra)
    ctx.interesting(again)


EDITS = ['insert', 'replace', 'delete', 'reverse']
MODES = ['vec', 'vec', 'mut', 'mut', 'ignore', 'shots', 'both', 'one', 'vec2']
NAMES = gen.UNITARY + gen.NONUNITARY * 3


def actions(names):
    i = st.integers(0, 4)
    return st.one_of(
        st.tuples(st.just('append'), i, st.integers(1, 4).flatmap(
            lambda n: gen.op(n, names, gen.generic_angles()))),
        st.tuples(st.just('append'), i, gen.op(2, names, gen.generic_angles())),
        st.tuples(st.just('run'), i, st.sampled_from(MODES)),
        st.tuples(st.just('run'), i, st.sampled_from(MODES)),
        st.tuples(st.just('shared'), i, st.integers(0, 1), st.sampled_from(MODES)),
        st.tuples(st.just('cache'), i),
        st.tuples(st.just('edit'), i, st.sampled_from(EDITS), st.integers(0, 11),
                  gen.op(2, names, gen.generic_angles())),
        st.tuples(st.just('copy'), i, st.booleans()),
        st.tuples(st.just('deepcopy'), i, st.booleans()),
        st.tuples(st.just('dagger'), i, st.booleans()),
        st.tuples(st.just('add'), i, i),
        st.tuples(st.just('iadd'), i, i))


@st.composite
def histories(draw, names, max_actions):
    return {'sizes': draw(st.lists(st.integers(0, 3), min_size=1, max_size=3)),
            'actions': draw(st.lists(actions(names), min_size=3, max_size=max_actions))}


@st.composite
def focused(draw):
    """One circuit, a prefix that is run, an extension of every kind, and runs again."""
    n = draw(st.integers(1, 3))
    ang = gen.generic_angles()
    acts = []
    for o in draw(st.lists(gen.op(n, NAMES, ang), max_size=3)):
        acts.append(['append', 0, o])
    rounds = draw(st.integers(2, 3))
    for _ in range(rounds):
        acts.append(draw(st.sampled_from([['run', 0, m] for m in MODES] + [['cache', 0]] +
                                         [['shared', 0, 0, m] for m in MODES[:5]])))
        how = draw(st.integers(0, 5))
        if how <= 1:
            acts.append(['append', 0, draw(gen.op(n, NAMES, ang))])
        elif how == 2:
            acts.append(['append', 0, ['x', [], draw(st.integers(0, 3))]])
        elif how == 3:
            acts.append(['copy', 0, True])
            acts.append(['append', draw(st.integers(0, 1)), draw(gen.op(n, NAMES, ang))])
        elif how == 4:
            if draw(st.booleans()):
                acts.append(['iadd', 0, draw(st.integers(0, 1))])
            else:
                acts.append(['edit', 0, draw(st.sampled_from(EDITS)), draw(st.integers(0, 5)),
                             draw(gen.op(n, NAMES, ang))])
        acts.append(draw(st.sampled_from([['run', 0, m] for m in MODES] +
                                         [['shared', 0, 0, m] for m in MODES[:5]])))
    return {'sizes': [n, draw(st.integers(0, 3))], 'actions': acts}


def check_long(case, ctx, name=None, make_backend=bq.NumPyBackend, **extra):
    """Runs, copies and conjugates in between while a circuit grows to hundreds of operations."""
    n, ops = case['n'], case['ops']
    kw = dict(extra) if name is None else dict(extra, backend=name)
    c, done = bq.Circuit(n), 0
    shared, other = make_backend(), bq.Circuit(n).h[:]
    ops = list(ops)
    for j, (k, how) in enumerate(case['steps'] + [[len(ops), 'run']]):
        for o in ops[done:done + k]:
            bq.append(c, o)
        done = min(done + k, len(ops))
        if how in EDITS and done:
            m = Model(n, ops[:done])
            edit(c, m, how, [k * 7 + j, -1, -2, 0][j % 4], ops[-1 - j % len(ops)])
            ops[:done] = m.ops
            done = len(m.ops)
        if how == 'copy':
            c = c.copy()
        elif how == 'copy-cache':
            c = c.copy(copy_backends=True)
        elif how == 'cache':
            c.make_cache(backend=name)
        elif how == 'shots':
            c.run(shots=3, **kw)
        elif how == 'back':
            c = c.dagger().dagger()
        if how == 'back' and simcheck.has_free_phase(ops[:done]):
            require(len(c.ops) == done, '%d operations, expected %d', len(c.ops), done)
        if how == 'shared':
            if j % 2:
                other.run(**dict(kw, backend=shared))
            v = c.run(**dict(kw, backend=shared))
        else:
            v = c.run(**kw)
        want = ref.state(n, ops[:done])
        ok = (ref.close_up_to_phase if simcheck.has_free_phase(ops[:done]) else ref.close)(v, want, TOL)
        require(ok, 'state after %d operations\n %s\nexpected\n %s', done, np.round(v, 5), np.round(want, 5))
        v *= 0
    ctx.label('%d operations' % (len(ops) // 50 * 50))
    ctx.interesting(len(case['steps']) > 0 and len(ops) >= 16)


@st.composite
def growing(draw, top=6, lengths=None):
    c = draw(gen.long_circuit(max_n=draw(st.sampled_from([3, 3, top])), lengths=lengths))
    c['steps'] = draw(st.lists(st.tuples(st.sampled_from([1, 2, 7, 15, 16, 17, 31, 32, 50, 64, 100, 128] + (lengths or [])), st.sampled_from(
        ['run', 'run', 'copy', 'copy-cache', 'cache', 'shots', 'back', 'shared', 'shared'] + EDITS)).map(list),
        max_size=6))
    return c


SUBTESTS = [
    Subtest('histories', lambda tier: histories(NAMES, 14 if tier == 'quick' else 24), check,
            1000, 30000),
    Subtest('run-extend-run', lambda tier: focused(), check, 1200, 30000),
    Subtest('unitary-histories', lambda tier: histories(gen.UNITARY, 14), check, 600, 20000),
    Subtest('long-circuits', lambda tier: growing(), check_long, 60, 1500),
    Subtest('thousands-of-operations', lambda tier: growing(3, gen.THOUSANDS), check_long, 12, 300),
    Subtest('interrupted', lambda tier: c04.interrupted(), simcheck.check_interrupted, 300, 6000),
]
ASSUMPTIONS = ['results are taken from the default simulator through the public API; a statistical '
               'comparison of counts rejects at p < 1e-9']
