"""Bit-string conversion and global-phase removal against their definitions."""
import math
import random
from collections import Counter, OrderedDict

import numpy as np
from hypothesis import strategies as st

from blueqat.utils import ignore_global_phase, to_inttuple

from core import Subtest, require

ID = 'C22'
RULE = ('strings over 0/1 and near misses (other digits, signs, blanks, non-ASCII digits), counters and '
        'dictionaries of them with any values, arguments of other types; vectors of several dtypes and memory '
        'layouts with zero, negligible and large amplitudes; non-trivial: a mapping of two or more entries or one '
        'illegal character among legal ones, and a vector whose first non-negligible amplitude is not the first '
        'entry and not real')

VALUES = {'int': lambda k: k, 'float': lambda k: k / 3, 'str': str, 'none': lambda k: None, 'list': lambda k: [k]}
OTHER = {'int': 5, 'zero': 0, 'none': None, 'bytes': b'01', 'bytearray': bytearray(b'01'), 'list': ['0', '1'],
         'tuple': ('0', '1'), 'ints': (0, 1), 'set': {'01'}, 'float': 1.0, 'bool': True, 'items': {'01': 1}.items(),
         'type': str, 'nested': [['01']]}


def legal(s):
    return all(ch == '0' or ch == '1' for ch in s)


def ints(s):
    return tuple(1 if ch == '1' else 0 for ch in s)


def plain(t, where):
    require(type(t) is tuple and all(type(x) is int for x in t), '%s: %r is not a tuple of int', where, t)


def check_strings(case, ctx):
    s = case['s']
    try:
        t = to_inttuple(s)
    except ValueError:
        require(not legal(s), 'to_inttuple(%r) was rejected', s)
        ctx.interesting(len(s) > 1)
        return
    require(legal(s), 'to_inttuple(%r) gives %r', s, t)
    plain(t, f'to_inttuple({s!r})')
    require(t == ints(s), 'to_inttuple(%r) gives %r', s, t)
    ctx.interesting(len(s) > 1)


def check_mappings(case, ctx):
    make = {'dict': dict, 'counter': Counter, 'ordered': OrderedDict}[case['type']]
    items = [(k, VALUES[v](i)) for k, v, i in case['items']]
    m = make(items) if case['type'] != 'counter' else Counter(dict(items))
    before = list(m.items())
    ids = [id(v) for v in m.values()]
    try:
        t = to_inttuple(m)
    except ValueError:
        require(not all(legal(k) for k in m), 'to_inttuple(%r) was rejected', m)
        t = None
    require(list(m.items()) == before and [id(v) for v in m.values()] == ids, 'the argument was changed to %r', m)
    ctx.label(case['type'])
    ctx.interesting(len(m) > 1)
    if t is None:
        ctx.label('rejected')
        return
    require(all(legal(k) for k in m), 'to_inttuple(%r) gives %r', m, t)
    require(t is not m, 'the argument was returned')
    require(isinstance(t, Counter) if case['type'] == 'counter' else isinstance(t, dict) and
            not isinstance(t, Counter), 'to_inttuple(%r) gives the type %s', m, type(t))
    require(list(t) == [ints(k) for k in m], 'to_inttuple(%r) gives %r', m, t)
    for k, v in m.items():
        plain(next(x for x in t if x == ints(k)), 'key')
        require(t[ints(k)] is v, 'to_inttuple(%r) gives %r', m, t)


def check_types(case, ctx):
    o = OTHER[case['o']]
    shown = repr(o)
    try:
        t = to_inttuple(o)
    except ValueError:
        require(repr(o) == shown, 'the argument was changed')
        ctx.interesting()
        return
    require(False, 'to_inttuple(%r) gives %r', o, t)


def check_phase(case, ctx):
    re = np.array([a for a, _b in case['v']], dtype=float)
    im = np.array([b for _a, b in case['v']], dtype=float)
    dtype = {'c128': complex, 'c64': np.complex64, 'f64': float, 'f32': np.float32}[case['dtype']]
    single = case['dtype'] in ('c64', 'f32')
    with np.errstate(all='ignore'):
        src = (re if case['dtype'][0] == 'f' else re + 1j * im).astype(dtype)
    if case['layout'] == 'plain':
        v = src.copy()
        base = v
    elif case['layout'] == 'strided':
        base = np.full(2 * len(src) + 1, 7, dtype)
        v = base[1::2]
        v[:] = src
    else:
        base = src[::-1].copy()
        v = base[::-1]
    rest = None if case['layout'] != 'strided' else base[::2].copy()
    r = ignore_global_phase(v)
    require(r is v, 'another array was returned')
    require(v.dtype == src.dtype and v.shape == src.shape, 'the array became %s %s', v.dtype, v.shape)
    if rest is not None:
        require(np.array_equal(base[::2], rest), 'values outside of the vector were changed')
    first = next((k for k, a in enumerate(src) if abs(complex(a)) > 1e-7), None)
    if first is None:
        require(np.array_equal(v, src), 'a negligible vector %s was changed to %s', src, v)
        return
    a = complex(src[first])
    u = a.conjugate() / abs(a)
    eps = 1e-5 if single else 1e-12
    for k, x in enumerate(src):
        want = complex(x) * u
        require(abs(complex(v[k]) - want) <= eps * abs(want), 'entry %d of %s becomes %r, expected %r', k, src,
                v[k], want)
    b = complex(v[first])
    require(b.real > 0 and abs(b.imag) <= eps * b.real, 'the first non-negligible amplitude of %s became %r', src, b)
    # removing it again changes nothing
    once = v.copy()
    ignore_global_phase(v)
    require(np.all(np.abs(v - once) <= eps * np.abs(once)), 'applying it twice differs: %s, %s', once, v)
    ctx.label(case['dtype'], case['layout'])
    ctx.interesting(first > 0 and abs(math.sin(math.atan2(a.imag, a.real))) > 1e-3)


BIT = st.sampled_from('01')
BITS = st.one_of(*[st.text(BIT, max_size=12)] * 4, st.builds(
    lambda s, k: ''.join(random.Random(s).choices('01', k=k)), st.integers(0, 10 ** 6), st.one_of(
        st.sampled_from([13, 16, 17, 20, 31, 32, 33, 53, 54, 63, 64, 65, 100, 127, 128, 129, 200]), st.integers(13, 300))))
ODD = st.sampled_from(['2', '-', '+', ' ', '\n', '\t', '.', '_', 'b', 'O', 'l', '9', '\u0661', '\u0966', '\u00b9', '\uff11',
                       '\uff10', '\u2081', ',', '\0'])
ANYSTR = st.one_of(BITS, BITS, st.tuples(BITS, ODD, BITS).map(''.join), st.text(max_size=5))


@st.composite
def mappings(draw, tier):
    keys = draw(st.lists(BITS if draw(st.integers(0, 3)) else ANYSTR, max_size=6, unique=True))
    typ = draw(st.sampled_from(['dict', 'counter', 'ordered']))
    vals = ['int'] * 3 + ['float', 'str', 'none', 'list']
    return {'type': typ, 'items': [[k, draw(st.sampled_from(vals)), draw(st.integers(-9, 9))] for k in keys]}


@st.composite
def vectors(draw, tier):
    dtype = draw(st.sampled_from(['c128'] * 4 + ['c64', 'f64', 'f32']))
    part = st.one_of(st.floats(-2, 2).filter(lambda x: x == 0 or abs(x) > 1e-3), st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-9, -3e-9, 1e-6, -2e-6]),
                     st.floats(1e-3, 1e6))
    zero = st.sampled_from([[0.0, 0.0], [-0.0, 0.0], [1e-9, 0.0], [-3e-8, 1e-9], [0.0, -5e-8]])
    lead = draw(st.lists(zero, max_size=4)) * draw(st.sampled_from([1, 1, 1, 1, 8, 30, 65]))
    v = lead + draw(st.lists(st.tuples(part, part).map(list), max_size=8))
    return {'v': v, 'dtype': dtype, 'layout': draw(st.sampled_from(['plain', 'plain', 'strided', 'reversed']))}


@st.composite
def many(draw):
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    n = draw(st.integers(7, 300))
    m = draw(st.sampled_from([9, 12, 20, 40, 64]))
    keys = {''.join(rng.choices('01', k=m)) for _ in range(n)}
    return {'type': draw(st.sampled_from(['dict', 'counter', 'ordered'])),
            'items': [[k, 'int', rng.randint(-9, 9)] for k in sorted(keys, key=lambda k: rng.random())]}


SUBTESTS = [
    Subtest('many-keys', lambda tier: many(), check_mappings, 80, 1500),
    Subtest('strings', lambda tier: st.fixed_dictionaries({'s': ANYSTR}), check_strings, 3000, 100000),
    Subtest('mappings', mappings, check_mappings, 2500, 100000),
    Subtest('types', lambda tier: st.fixed_dictionaries({'o': st.sampled_from(sorted(OTHER))}), check_types, 60, 60),
    Subtest('phase', vectors, check_phase, 3000, 100000),
]
ASSUMPTIONS = ['non-negligible means larger than 1e-7 in absolute value; generated magnitudes avoid the interval '
               '(0.9e-7, 1e-6)', 'keys of mappings are strings']
