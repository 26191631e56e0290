"""Printed Pauli operators, terms and expressions, evaluated again."""

import random

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp

import paulis
from core import Subtest, require

ID = 'C28'
RULE = ('values computed by let-programs, and raw terms and sums with coefficients of any scalar type, sign and '
        'magnitude, printed and evaluated with only X, Y, Z, I in scope; non-trivial: at least two terms, or a '
        'negative or complex coefficient')

MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}
SCOPE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z, 'I': bp.I, '__builtins__': {}}


def terms_of(v):
    return v.to_expr().terms


def same(v, w, exact):
    a, b = paulis.from_library(v), paulis.from_library(w)
    if exact:
        return a == b
    size = {}
    for t in terms_of(v):
        k, c = paulis.canon([(o.op, getattr(o, 'n', None)) for o in t.ops], complex(t.coeff))
        size[k] = size.get(k, 0) + abs(c)
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= 1e-6 * size.get(k, 0) for k in set(a) | set(b))


def check_value(v, exact, ctx):
    shown = repr(v)
    keys = [paulis.canon([(o.op, getattr(o, 'n', None)) for o in t.ops], 1)[0] for t in terms_of(v)]
    once = len(keys) == len(set(keys))
    for text in (shown, str(v), f'{v}', '%s' % (v,), repr([v])[1:-1]):
        require(isinstance(text, str), 'the printed form is %r', text)
        try:
            w = eval(text, dict(SCOPE))
        except Exception as e:
            require(False, 'the printed form %r is not an expression over X, Y, Z, I: %r', text, e)
        require(hasattr(w, 'to_expr'), '%r evaluates to %r', text, w)
        require(same(v, w, exact and once), 'a value denoting %s is printed as %r, which denotes %s',
                paulis.from_library(v), text, paulis.from_library(w))
        if exact and once:
            require(w == v and v == w, '%r evaluates to something unequal: %r', text, w)
    require(repr(v) == shown, 'printing twice gives %r and %r', shown, v)
    coeffs = [complex(t.coeff) for t in terms_of(v)]
    ctx.interesting(len(coeffs) > 1 or any(c.imag or c.real < 0 for c in coeffs))


SINGLE = ('f32', 'c64')


def check_program(case, ctx):
    vals = []
    exact = True
    for ins in case['prog']:
        k = ins[0]
        if k == 'p':
            vals.append(MAKE[ins[1]][ins[2]])
        elif k == 'i':
            vals.append(bp.I)
        elif k == 'num':
            vals.append(paulis.number(*ins[1:]))
            exact = exact and ins[1] not in SINGLE
            continue
        else:
            pos = ins[1] if k == 'sum' else ins[1:3]
            a = [vals[len(vals) - 1 - i % len(vals)] for i in pos[:1 if k in ('neg', 'term', 'expr', 'pow') else 9]]
            if not any(hasattr(x, 'to_expr') for x in a):
                continue
            if k in ('add', 'sub', 'mul'):
                v = a[0] + a[1] if k == 'add' else a[0] - a[1] if k == 'sub' else a[0] * a[1]
            elif k == 'neg':
                v = -a[0]
            elif k == 'sum':
                v = sum(a)
            elif k in ('term', 'expr'):
                v = getattr(a[0], 'to_' + k, a[0].to_expr)()
            else:
                continue
            if len(terms_of(v)) > 40 or any(not abs(complex(t.coeff)) < 1e12 for t in terms_of(v)):
                continue
            vals.append(v)
        ctx.label(type(vals[-1]).__name__)
        check_value(vals[-1], exact, ctx)


def scalar(kind, re, im):
    if kind in SINGLE:
        # within the range of the type; below it, digits are lost
        re, im = (max(-1e30, min(1e30, x)) * (abs(x) > 1e-30) for x in (re, im))
    if kind in ('int', 'i64', 'i32', 'bool'):
        re = float(int(max(-1e9, min(1e9, re))))
    if kind in ('i8', 'u8', 'i16', 'u64'):
        re = max(-3.0, min(3.0, re))
    return paulis.number(kind, re, im)


def check_raw(case, ctx):
    """Terms and sums as products leave them: any order of operators, repeated products."""
    ts = []
    exact = True
    for ops, kind, re, im in case['terms']:
        c = scalar(kind, re, im)
        exact = exact and kind not in SINGLE
        t = bp.I.to_term()
        for l, q in ops:
            t = t * MAKE[l][q]
        # coefficients keep their type in a term which is built directly
        ts += [t * c, c * t, bp.Term(t.ops, c)]
    for t in ts:
        check_value(t, exact, ctx)
    check_value(bp.Expr(tuple(ts[2::3])), exact, ctx)
    check_value(bp.Expr(tuple(ts[1::3])).simplify(), exact, ctx)
    e = bp.Expr.zero()
    for t in ts[::3]:
        e = e - t
    check_value(e, exact, ctx)
    ctx.label(f'{len(case["terms"])} terms')


PART = st.one_of(st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, -2.0, 1e-300, -1e22, 1e16, 123456789.125]),
                 st.floats(-1e300, 1e300, allow_nan=False), st.floats(-3, 3, allow_nan=False))
WORD = st.lists(st.tuples(st.sampled_from('XYZ'), st.one_of(st.integers(0, 3), st.integers(0, 1200))).map(list),
                max_size=4)
TERM = st.tuples(WORD, st.sampled_from(paulis.KINDS), PART, PART).map(list)

@st.composite
def many(draw, lengths=None):
    """Long products and long sums."""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    if not lengths and draw(st.booleans()):
        ts = [paulis.random_word(rng, draw(st.sampled_from([3, 12, 1000])), draw(paulis.sizes())) for _ in range(2)]
    else:
        ts = [paulis.random_word(rng, 4, rng.randint(0, 4)) for _ in range(draw(lengths or paulis.sizes(50)))]
    return {'terms': [[w, rng.choice(['float', 'complex', 'int']), 4 * paulis.quarter(rng), paulis.quarter(rng)]
                      for w in ts]}


SUBTESTS = [
    Subtest('many-operators', lambda tier: many(), check_raw, 60, 1200),
    Subtest('hundreds-of-terms', lambda tier: many(st.sampled_from([k for k in paulis.HUNDREDS if k < 600])), check_raw,
            12, 300),
    Subtest('programs', lambda tier: st.fixed_dictionaries({'prog': paulis.programs(
        3, 10, ops=('add', 'sub', 'mul', 'neg', 'term', 'expr', 'sum'))}), check_program, 1200, 30000),
    Subtest('coefficients', lambda tier: st.fixed_dictionaries({'terms': st.lists(TERM, max_size=4)}), check_raw,
            1200, 30000),
]
ASSUMPTIONS = ['coefficients are finite; single-precision coefficients are compared with tolerance 1e-6']
