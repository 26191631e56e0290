"""Reference algebra of Pauli operators: dictionaries {((qubit, letter), ...): coefficient} and dense
matrices, and a generator of let-programs over the library's types."""
import random

import numpy as np
from hypothesis import strategies as st

import ref

MUL = {('X', 'Y'): (1j, 'Z'), ('Y', 'Z'): (1j, 'X'), ('Z', 'X'): (1j, 'Y'),
       ('Y', 'X'): (-1j, 'Z'), ('Z', 'Y'): (-1j, 'X'), ('X', 'Z'): (-1j, 'Y')}


def canon(ops, coeff):
    """Product of [letter, qubit] in order -> (sorted key, coefficient)."""
    d = {}
    for letter, q in ops:
        if letter == 'I':
            continue
        if q not in d:
            d[q] = letter
        elif d[q] == letter:
            del d[q]
        else:
            k, r = MUL[d[q], letter]
            coeff = coeff * k
            d[q] = r
    return tuple(sorted(d.items())), coeff


def add(a, b, f=1):
    out = dict(a)
    for k, v in b.items():
        out[k] = out.get(k, 0) + f * v
        if out[k] == 0:
            del out[k]
    return out


def mul(a, b):
    out = {}
    for k1, v1 in a.items():
        for k2, v2 in b.items():
            k, v = canon([(l, q) for q, l in k1 + k2], v1 * v2)
            out = add(out, {k: v})
    return out


def from_library(v):
    """Operator denoted by a library value, read off its terms."""
    out = {}
    for t in v.to_expr().terms:
        k, c = canon([(o.op, getattr(o, 'n', None)) for o in t.ops], complex(t.coeff))
        out[k] = out.get(k, 0) + c
    return {k: c for k, c in out.items() if c != 0}


def word_matrix(key, n):
    m = np.ones((1, 1), dtype=complex)
    d = dict(key)
    for q in range(n):
        m = np.kron(ref.PAULI[d.get(q, 'I')], m)      # qubit 0 is the least significant bit
    return m


def matrix(d, n):
    m = np.zeros((2 ** n, 2 ** n), dtype=complex)
    for k, c in d.items():
        m = m + complex(c) * word_matrix(k, n)
    return m


# ------------------------------------------------------------------ let-programs

def number(kind, re, im):
    return {'int': lambda: int(re), 'float': lambda: float(re), 'complex': lambda: complex(re, im),
            'f64': lambda: np.float64(re), 'i64': lambda: np.int64(int(re)),
            'c128': lambda: np.complex128(complex(re, im)), 'f32': lambda: np.float32(re),
            'i32': lambda: np.int32(int(re)), 'c64': lambda: np.complex64(complex(re, im)),
            'bool': lambda: bool(int(re)), 'i8': lambda: np.int8(int(re * 40)),
            'u8': lambda: np.uint8(abs(int(re * 80))), 'i16': lambda: np.int16(int(re * 400)),
            'u64': lambda: np.uint64(abs(int(re * 4)))}[kind]()


def wraps(v):
    """Whether a sum of two such numbers wraps around when Python computes it."""
    return isinstance(v, np.integer) and not isinstance(v, (np.int32, np.int64))


KINDS = ['int', 'int', 'float', 'float', 'complex', 'complex', 'f64', 'f64', 'i64', 'c128', 'f32', 'i32',
         'c64', 'bool', 'i8', 'u8', 'i16', 'u64']


def numbers(kinds=KINDS):
    part = st.integers(-12, 12).map(lambda k: k / 4)
    return st.tuples(st.just('num'), st.sampled_from(kinds), part, part).map(list)


def leaves(n, kinds=KINDS):
    pauli = st.tuples(st.just('p'), st.sampled_from('XYZ'), st.integers(0, n - 1)).map(list)
    return st.one_of(pauli, pauli, pauli, st.just(['i']), numbers(kinds))


@st.composite
def programs(draw, n, max_len, kinds=KINDS, ops=('add', 'sub', 'mul', 'div', 'neg', 'pow', 'term', 'expr',
                                                 'sum'), min_leaves=2):
    prog = draw(st.lists(leaves(n, kinds), min_size=min_leaves, max_size=5))
    i = st.integers(0, 20)
    leaf = st.builds(lambda x: x, leaves(n, kinds))      # one branch, not one per kind of leaf
    step = st.one_of(
        leaf, leaf,
        st.tuples(st.sampled_from([o for o in ('add', 'sub', 'mul', 'mul') if o in ops]), i, i).map(list),
        st.tuples(st.sampled_from([o for o in ('add', 'sub', 'mul') if o in ops]), i, i).map(list),
        st.tuples(st.sampled_from([o for o in ('add', 'sub', 'mul', 'div') if o in ops]), i, i).map(list),
        st.tuples(st.sampled_from([o for o in ('neg', 'term', 'expr') if o in ops]), i).map(list),
        *([st.tuples(st.just('pow'), i, st.integers(-1, 3), st.sampled_from(['int', 'i64'])).map(list)]
          if 'pow' in ops else []),
        *([st.tuples(st.just('sum'), st.lists(i, min_size=1, max_size=3)).map(list)]
          if 'sum' in ops else []))
    # operands are taken from the end of the list, so programs become deep
    prog += draw(st.lists(step, min_size=2, max_size=max_len))
    return prog


def anticommute(a, b):
    """Whether two Pauli products (keys) anticommute; otherwise they commute."""
    a, b = dict(a), dict(b)
    return sum(a[q] != b[q] for q in a if q in b) % 2 == 1


@st.composite
def nearly_commuting(draw, max_n=4):
    """Products which commute pairwise, and in half of the cases one more which clashes with few of them."""
    n = draw(st.integers(2, max_n))
    letters = draw(st.lists(st.sampled_from('XYZ'), min_size=n, max_size=n))
    words = draw(st.lists(st.lists(st.integers(0, n - 1), min_size=1, max_size=3, unique=True),
                          min_size=2, max_size=5, unique_by=lambda q: tuple(sorted(q))))
    words = [[[letters[q], q] for q in qs] for qs in words]
    if draw(st.booleans()):
        q = draw(st.integers(0, n - 1))
        bad = [[draw(st.sampled_from([l for l in 'XYZ' if l != letters[q]])), q]]
        for r in draw(st.lists(st.integers(0, n - 1), max_size=2, unique=True)):
            if r != q:
                bad.append([draw(st.sampled_from('XYZ')), r])
        words.insert(draw(st.integers(0, len(words))), bad)
    return words


# Sizes at which fixed-size tables, blocks or thresholds would show.
SIZES = [5, 7, 8, 9, 10, 12, 13, 16, 17, 20, 24, 32, 33, 40, 50, 64, 65]


HUNDREDS = [99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 500, 512, 513, 1000, 1001, 1024, 1025]


def sizes(top=65):
    return st.one_of(st.sampled_from([k for k in SIZES if k <= top]), st.integers(5, top))


def random_word(rng, n, k):
    """k operators in any order, qubits repeating."""
    return [[rng.choice('XYZ'), rng.randrange(n)] for _ in range(k)]


def quarter(rng):
    return rng.choice([-8, -6, -5, -3, -2, -1, 1, 2, 3, 4, 7]) / 4


def random_sum(rng, n, k, size=4):
    return [[random_word(rng, n, rng.randint(0, size)), quarter(rng)] for _ in range(k)]
