"""Oracles shared by the checks of the simulators with measurement (default and compiled)."""
import contextlib
import itertools
import random

import numpy as np

import bq
import ref
from core import require


@contextlib.contextmanager
def randomness(values):
    """random.random() yields the given values cyclically (None: the seeded generator).

    Every value in (0, 1) is a legitimate draw, so any outcome it leads to must be possible; the
    generator uses this to reach improbable branches.
    """
    if not values:
        yield
        return
    it = itertools.cycle(values)
    saved = random.random
    random.random = lambda: next(it)
    try:
        yield
    finally:
        random.random = saved


def has_free_phase(ops):
    return any(o[0] == 'cu1' for o in ops)


def match(brs, key, v, free_phase, tol=1e-6):
    for bits, w in brs:
        if key is not None and ''.join(map(str, bits)) != key:
            continue
        w = w / np.linalg.norm(w)
        if (ref.close_up_to_phase if free_phase else ref.close)(v, w, tol):
            return True
    return False


def tree(case, limit=600):
    """Exact branch tree, or None when it is too large."""
    try:
        return (ref.merged if case.get('merge') else ref.branches)(case['n'], case['ops'], limit=limit)
    except ValueError as e:
        if 'branches' in str(e):
            return None
        raise


def key_of(bits):
    return ''.join(map(str, bits))


def check_one_shot(c, case, brs, **kw):
    """One shot: recorded bits and final state are jointly possible."""
    out = c.run(shots=1, returns='statevector_and_shots', **kw)
    require(isinstance(out, tuple) and len(out) == 2, 'returned %r', type(out))
    v, counts = out
    require(len(counts) == 1 and list(counts.values()) == [1], 'one shot counted as %s', dict(counts))
    key = list(counts)[0]
    require(any(key_of(b) == key for b, _w in brs), 'impossible recorded bits %r', key)
    require(v.shape == (2 ** case['n'],), 'shape %s', v.shape)
    require(abs(np.linalg.norm(v) - 1) < 1e-6, 'norm of the state is %r', np.linalg.norm(v))
    require(match(brs, key, v, has_free_phase(case['ops'])),
            'recorded bits %s with state %s: not a possible joint outcome', key, np.round(v, 5))
    return key, v


def check_many_shots(c, case, brs, shots, **kw):
    support = {key_of(b) for b, _w in brs}
    v, counts = c.run(shots=shots, returns='statevector_and_shots', **kw)
    require(sum(counts.values()) == shots, '%s shots in %s', shots, dict(counts))
    require(set(counts) <= support, 'impossible recorded bits in %s', dict(counts))
    require(any(match(brs, k, v, has_free_phase(case['ops'])) for k in counts),
            'the state after %s shots does not belong to any recorded outcome', shots)
    return counts


def check_counts(counts, dist, shots, ctx=None):
    """Counter against the exact distribution; p < 1e-9 per outcome rejects."""
    require(sum(counts.values()) == shots, '%s shots requested, %s counted', shots,
            sum(counts.values()))
    for k, c in counts.items():
        require(isinstance(k, str), 'key %r', k)
        require(int(c) == c and c > 0, 'count %r', c)
        p = dist.get(k, 0.0)
        require(p > 1e-12, 'outcome %r of probability 0 in %s', k, dict(counts))
        require(ref.binom_tail(shots, c, p) > 1e-9,
                'outcome %r: %d of %d shots, exact probability %.5f', k, c, shots, p)
    for k, p in dist.items():
        if k not in counts:
            require(ref.binom_tail(shots, 0, p) > 1e-9,
                    'outcome %r of probability %.5f never occurs in %d shots', k, p, shots)


def check_interrupted(case, ctx, **kw):
    """A run which is cut off (error while drawing a random number) leaves no trace in later runs."""
    brs = tree(case)
    if brs is None or not case['n']:
        return
    c = bq.build(case)
    saved = random.random
    left = [case['after']]

    def broken():
        left[0] -= 1
        if left[0] < 0:
            raise KeyboardInterrupt
        return saved()
    random.random = broken
    try:
        c.run(shots=3, **kw)
        cut = False
    except KeyboardInterrupt:
        cut = True
    finally:
        random.random = saved
    check_one_shot(c, case, brs, **kw)
    check_many_shots(c, case, brs, 3, **kw)
    ctx.label('cut' if cut else 'completed')
    ctx.interesting(cut)


def follows(run):
    """Whether an outcome of probability 1/2 is decided by comparing random.random() with a threshold."""
    with randomness([0.01]):
        low = run()
    with randomness([0.99]):
        high = run()
    return low != high


def check_rare(case, ctx, **kw):
    """However improbable, an outcome occurs for the random numbers at one end of the unit interval."""
    n, q, p = case['n'], case['q'], case['p']
    prep, theta = case['prep'], 2 * np.arcsin(np.sqrt(p))

    def circuit(angle):
        c = bq.build_ops(n, prep + [['ry', [angle], q]] + ([['x', [], q]] if case['flip'] else []))
        o = (q + 1) % n
        if case['what'] == 'measure':
            return c.m[q]
        c.cx[q, o]
        return c.reset[q].m[o]

    def bits(angle):
        c = circuit(angle)
        if case['cached']:
            c.make_cache(**{k: v for k, v in kw.items() if k == 'backend'})
        v, counts = c.run(shots=case['shots'], returns='statevector_and_shots', **kw)
        require(sum(counts.values()) == case['shots'], '%s shots in %s', case['shots'], dict(counts))
        require(len(counts) == 1, 'equal random numbers give different shots %s', dict(counts))
        require(abs(np.linalg.norm(v) - 1) < 1e-6, 'the norm of the state is %r', np.linalg.norm(v))
        return list(counts)[0]
    if not follows(lambda: bits(np.pi / 2)):
        ctx.label('not decided by one random number')
        return
    with randomness([p / 8]):
        low = bits(theta)
    with randomness([1 - p / 8]):
        high = bits(theta)
    require(low != high, 'whether the random number is %r or %r, the outcome is %s; the probability of the other '
            'one is %r', p / 8, 1 - p / 8, low, p)
    ctx.label(case['what'], '1e%d' % int(np.floor(np.log10(p))))
    ctx.interesting(p < 1e-3)


def rare_cases():
    """Circuits with one outcome of small probability."""
    from hypothesis import strategies as st
    import gen

    @st.composite
    def rare(draw):
        what = draw(st.sampled_from(['measure', 'measure', 'reset']))
        n = draw(st.integers(1 if what == 'measure' else 2, 3))
        q = draw(st.integers(0, n - 1))
        others = [k for k in range(n) if k != q and (what == 'measure' or k != (q + 1) % n)]
        prep = [['u3', [0.4 + draw(st.integers(0, 4)) / 2, 0.3, -0.8], k] for k in others if draw(st.booleans())]
        p = draw(st.sampled_from([0.2, 0.02, 3e-3, 5e-4, 1e-4, 2e-5, 1e-6, 1e-7, 3e-8]))
        return {'n': n, 'q': q, 'p': p, 'prep': prep, 'what': what, 'flip': draw(st.booleans()),
                'cached': draw(st.booleans()), 'shots': draw(st.sampled_from([1, 2, 5]))}
    return rare()
