"""Dense and sparse matrices of Pauli operators, terms and expressions against Kronecker products."""
import random

import numpy as np
import scipy.sparse
from hypothesis import strategies as st

import blueqat.pauli as bp

import paulis
from core import Subtest, require

ID = 'C14'
RULE = ('operators, terms (also unsimplified ones with repeated qubits) and sums with arbitrary complex '
        'coefficients, converted densely and to all seven sparse formats at several register sizes, compared '
        'with np.kron; up to 14 qubits compared through matrix-vector products; non-trivial: at least two '
        'different letters and two qubits')

FORMATS = ['bsr', 'coo', 'csc', 'csr', 'dia', 'dok', 'lil']
MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}


def mk_term(ops, c):
    t = bp.I.to_term()
    for l, q in ops:
        t = t * MAKE[l][q]
    return t * (complex(*c) if isinstance(c, list) else c)


def mk(case):
    """(library value, reference dictionary)"""
    kind, terms = case['kind'], case['terms']
    if kind == 'pauli':
        (l, q), = terms[0][0]
        return (bp.I, {(): 1}) if l == 'I' else (MAKE[l][q], {((q, l),): 1})
    d = {}
    if kind == 'term':
        ops, c = terms[0]
        v = mk_term(ops, c)
    elif kind == 'raw':               # as products of expressions leave them: same product several times
        v = bp.Expr(tuple(mk_term(ops, c) for ops, c in terms))
    else:
        v = bp.Expr.zero()
        for ops, c in terms:
            v = v + mk_term(ops, c)
    for ops, c in terms:
        d = paulis.add(d, dict([paulis.canon(ops, complex(*c) if isinstance(c, list) else complex(c))]))
    return v, d


def same(a, b):
    a = np.asarray(a)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= 1e-9 * max(1.0, float(np.max(np.abs(b))))))


def scribble(m):
    """Overwrite a result: results never share memory with the library."""
    if isinstance(m, np.ndarray):
        m[...] = 7
    elif m.format == 'dok':
        for k in list(m.keys()):
            m[k] = 7
    elif m.format == 'lil':
        for row in m.data:
            for i in range(len(row)):
                row[i] = 7
    else:
        m.data[...] = 7
        for name in ('indices', 'row', 'col'):
            if hasattr(m, name):
                getattr(m, name)[...] = 0


def check(case, ctx):
    v, d = mk(case)
    shown = repr(v)
    n = v.n_qubits
    for extra in case['pad']:
        size = n + extra if extra is not None else n
        args = () if extra is None else (size,)
        if case['np_size'] and extra is not None:
            args = (np.int64(size),)
        want = paulis.matrix(d, size)
        for _round in range(2):
            m = v.to_matrix(*args)
            require(isinstance(m, np.ndarray) and same(m, want), '(%s).to_matrix%r is\n%s\nexpected\n%s',
                    shown, args, m, want)
            scribble(m)
        for f in case['formats']:
            for _round in range(2):
                m = v.to_matrix(*args, sparse=f)
                require(scipy.sparse.issparse(m) and m.format == f, '(%s).to_matrix%r in format %s is %r',
                        shown, args, f, type(m))
                require(same(m.toarray(), want), '(%s).to_matrix%r in format %s is\n%s\nexpected\n%s',
                        shown, args, f, m.toarray(), want)
                scribble(m)
    require(same(v.to_matrix(), paulis.matrix(d, n)), 'to_matrix of %s, once more', shown)
    bad = case['bad']
    try:
        m = v.to_matrix(sparse=bad)
    except ValueError:
        pass
    else:
        require(False, 'unknown format %r accepted: %r', bad, m)
    require(repr(v) == shown, '%s was changed to %r', shown, v)
    letters = {l for ops, _c in case['terms'] for l, _q in ops}
    ctx.label(case['kind'], f'{min(n, 9)} qubits')
    ctx.interesting(len(letters) > 1 and n > 1 and bool(d))


def check_letters(case, ctx):
    for l, want in (('X', paulis.ref.MX), ('Y', paulis.ref.MY), ('Z', paulis.ref.MZ), ('I', paulis.ref.I2)):
        objs = [bp.I, bp.I()] if l == 'I' else [MAKE[l], MAKE[l][case['q']], MAKE[l](case['q'])]
        for o in objs:
            for _round in range(2):
                m = o.matrix
                require(same(m, want), 'matrix of %s is %s', l, m)
                m[...] = 5
    ctx.interesting()


def apply_word(key, v, n):
    t = v.reshape((2,) * n)
    for q, l in key:
        t = np.moveaxis(np.tensordot(paulis.ref.PAULI[l], t, axes=([1], [n - 1 - q])), 0, n - 1 - q)
    return t.reshape(-1)


def check_wide(case, ctx):
    v, d = mk(case)
    n = max(v.n_qubits, case['n'])
    rng = np.random.RandomState(case['seed'])
    x = rng.normal(size=2 ** n) + 1j * rng.normal(size=2 ** n)
    want = np.zeros(2 ** n, dtype=complex)
    for k, c in d.items():
        want = want + c * apply_word(k, x, n)
    for f in case['formats']:
        m = v.to_matrix(n, sparse=f)
        require(m.shape == (2 ** n, 2 ** n) and m.format == f, 'shape %s, format %s', m.shape, m.format)
        got = m @ x
        require(np.all(np.abs(got - want) <= 1e-8 * max(1.0, float(np.max(np.abs(want))))),
                '%r on %d qubits in format %s: matrix times a random vector differs by %g', v, n, f,
                float(np.max(np.abs(got - want))))
    ctx.label(f'{n} qubits')
    ctx.interesting(len({l for k in d for _q, l in k}) > 1)


def word(n, size):
    return st.lists(st.tuples(st.sampled_from('XYZ'), st.integers(0, n - 1)).map(list), max_size=size)


def coeff():
    part = st.one_of(st.integers(-8, 8).map(lambda k: k / 4), st.floats(-3, 3, allow_nan=False))
    return st.one_of(part, st.integers(-3, 3), st.tuples(part, part).map(list))


@st.composite
def values(draw, n, size, max_terms, kinds=('pauli', 'term', 'term', 'expr', 'expr', 'expr', 'raw')):
    kind = draw(st.sampled_from(kinds))
    if kind == 'pauli':
        return {'kind': kind, 'terms': [[[[draw(st.sampled_from('IXYZ')), draw(st.integers(0, n - 1))]], 1]]}
    k = 1 if kind == 'term' else draw(st.integers(0, max_terms))
    terms = [[draw(word(n, size)), draw(coeff())] for _ in range(k)]
    if kind in ('expr', 'raw') and len(terms) > 1 and draw(st.booleans()):
        # several terms with the same bit flips
        flip = {'X': 'Y', 'Y': 'X', 'Z': 'Z'}
        terms[-1] = [[[flip[l], q] for l, q in terms[0][0]], terms[-1][1]]
    return {'kind': kind, 'terms': terms}


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 5 if tier == 'quick' else 7))
    c = draw(values(n, 2 * n, 6))
    c['pad'] = draw(st.lists(st.sampled_from([None, None, 0, 1, 2]), min_size=1, max_size=2))
    c['np_size'] = draw(st.booleans())
    c['formats'] = draw(st.lists(st.sampled_from(FORMATS), min_size=1, max_size=7, unique=True))
    c['bad'] = draw(st.one_of(st.sampled_from(['', 'dense', 'CSR', 'csr_matrix', 'x', 'array']),
                              st.text('bcdilorst', min_size=1, max_size=3).filter(lambda s: s not in FORMATS)))
    return c


@st.composite
def wide(draw, tier, low=5, high=None):
    n = draw(st.integers(low, high or (12 if tier == 'quick' else 14)))
    c = draw(values(n, 2 * n, 4, ('term', 'term', 'expr', 'expr', 'raw')))
    if draw(st.booleans()) and c['terms']:
        # dense words: every factor of the Kronecker product is present
        c['terms'][0][0] = [[draw(st.sampled_from('XYZ')), q] for q in range(n)]
    c['n'] = n + draw(st.integers(0, 1))
    c['formats'] = draw(st.lists(st.sampled_from(['csc', 'csr', 'coo']), min_size=1, max_size=2, unique=True))
    c['seed'] = draw(st.integers(0, 999))
    return c


@st.composite
def flips(draw, tier):
    """Many terms of one or two factors: every one flips other qubits."""
    n = draw(st.integers(17, 19 if tier == 'quick' else 20))
    words = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=2, unique=True), max_size=3))
    words += [[q] for q in draw(st.permutations(list(range(n))))]
    return {'kind': 'expr', 'n': n, 'terms': [[[[draw(st.sampled_from('XY')), q] for q in w], i + 1]
                                             for i, w in enumerate(words)],
            'formats': [draw(st.sampled_from(['csc', 'csr', 'coo']))], 'seed': draw(st.integers(0, 999))}


@st.composite
def many_terms(draw, tier):
    """Sums of tens to hundreds of products, longer ones among them."""
    c = draw(cases(tier))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    n = draw(st.integers(1, 6))
    size = draw(st.one_of(paulis.sizes(65), st.sampled_from(paulis.HUNDREDS)))
    return {**c, 'kind': draw(st.sampled_from(['expr', 'raw'])), 'terms': paulis.random_sum(rng, n, size, 6)}


SUBTESTS = [
    Subtest('many-terms', many_terms, check, 24, 600),
    Subtest('formats', cases, check, 2400, 60000),
    Subtest('many-qubits', wide, check_wide, 400, 8000),
    Subtest('more-qubits', lambda tier: wide(tier, 13, 17 if tier == 'quick' else 18), check_wide, 64, 800),
    Subtest('flips', flips, check_wide, 24, 160),
    Subtest('letters', lambda tier: st.fixed_dictionaries({'q': st.integers(0, 9)}), check_letters, 8, 40,
            shards=1),
]
ASSUMPTIONS = ['the requested number of qubits is at least the number of qubits of the operator']
