"""Pauli arithmetic: every program computes what the same program computes over matrices."""
import random

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp

import paulis
from core import Subtest, require

ID = 'C12'
RULE = ('let-programs of up to 14 steps over X, Y, Z, I, numbers of fourteen scalar types, +, -, *, /, **, '
        'negation, sum() and conversions, every intermediate value compared with dense matrices and '
        're-checked at the end; non-trivial: a product or difference of operands that do not commute, or a '
        'numpy scalar on the left of an operator')

NQ = 3
SCALARS = (int, float, complex, np.number, np.bool_)


def is_num(v):
    return isinstance(v, SCALARS)


def is_pauli(v):
    return not is_num(v) and not hasattr(v, 'coeff') and not hasattr(v, 'terms')


def dense(v):
    return paulis.matrix(paulis.from_library(v), NQ)


def close(a, b, tol):
    scale = max(1.0, float(np.max(np.abs(b))))
    return bool(np.all(np.isfinite(a))) and float(np.max(np.abs(a - b))) <= tol * scale


def check(case, ctx):
    vals, mods = [], []
    eye = np.eye(2 ** NQ)
    f32 = False

    def push(v, m, tol, what):
        if is_num(v):
            vals.append(v)
            mods.append(complex(v))
            return True
        if np.max(np.abs(m)) > 1e6 or len(v.to_expr().terms) > 60:
            return False
        got = dense(v)
        require(close(got, m, tol), '%s = %r denotes\n%s\nexpected\n%s', what, v, got, m)
        vals.append(v)
        mods.append(m)
        return True

    def mat(m):
        return m if isinstance(m, np.ndarray) else m * eye

    interesting = False
    snapshots = []
    for ins in case['prog']:
        k = ins[0]
        tol = 1e-4 if f32 else 1e-9
        if k == 'p':
            f = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}[ins[1]]
            v = f[ins[2]] if (len(vals) % 2) else f(ins[2])
            push(v, paulis.word_matrix(((ins[2], ins[1]),), NQ), tol, 'operator')
        elif k == 'i':
            push(bp.I if len(vals) % 2 else bp.I(), eye, tol, 'operator')
        elif k == 'num':
            f32 = f32 or ins[1] in ('f32', 'c64')
            push(paulis.number(*ins[1:]), None, tol, 'number')
        else:
            sel = [(len(vals) - 1 - i % len(vals)) for i in (ins[1] if k == 'sum' else
                                                              ins[1:2] if k in ('neg', 'term', 'expr', 'pow')
                                                              else ins[1:3])]
            args = [vals[i] for i in sel]
            ms = [mods[i] for i in sel]
            if all(is_num(a) for a in args):
                continue
            if k in ('add', 'sub', 'mul'):
                a, b = args
                v = a + b if k == 'add' else a - b if k == 'sub' else a * b
                ma, mb = mat(ms[0]), mat(ms[1])
                m = ma + mb if k == 'add' else ma - mb if k == 'sub' else ma @ mb
                if not isinstance(a, (int, float, complex)) and is_num(a) or k == 'sub' or \
                        (k == 'mul' and not close(ma @ mb, mb @ ma, 1e-9)):
                    interesting = True
                push(v, m, tol, f'{a!r} {k} {b!r}')
            elif k == 'div':
                a, b = args
                if not is_num(b):
                    continue
                if b == 0:
                    try:
                        v = a / b
                    except ZeroDivisionError:
                        ctx.label('division by zero')
                        continue
                    require(False, '%r / %r gave %r', a, b, v)
                push(a / b, mat(ms[0]) / complex(b), tol, f'{a!r} / {b!r}')
            elif k == 'neg':
                push(-args[0], -ms[0], tol, f'-({args[0]!r})')
            elif k == 'pow':
                a = args[0]
                e = ins[2] if ins[3] == 'int' else np.int64(ins[2])
                if ins[2] < 0:
                    try:
                        v = a ** e
                    except ValueError:
                        ctx.label('negative power')
                        continue
                    require(False, '(%r) ** %r gave %r', a, e, v)
                if len(bp.to_expr(a).terms) ** ins[2] > 200:
                    continue
                push(a ** e, np.linalg.matrix_power(ms[0], ins[2]), tol * 10, f'({a!r}) ** {e}')
            elif k == 'term':
                if hasattr(args[0], 'to_term'):
                    push(args[0].to_term(), ms[0], tol, 'to_term')
            elif k == 'expr':
                push(bp.to_expr(args[0]), ms[0], tol, 'to_expr')
            elif k == 'sum':
                if sum(map(paulis.wraps, args)) > 1:
                    continue
                m = sum((mat(x) for x in ms), np.zeros_like(eye))
                push(sum(args), m, tol, f'sum({args!r})')
        if len(snapshots) < len(vals):
            snapshots.append((repr(vals[-1]), type(vals[-1])))
        ctx.label(k)
    for v, m, (s, ty) in zip(vals, mods, snapshots):
        require(repr(v) == s and type(v) is ty, 'an operand was changed: %s is now %r', s, v)
        if not is_num(v):
            require(close(dense(v), m, 1e-4 if f32 else 1e-8), 'an operand was changed: %r', v)
    last = next((i for i in range(len(vals) - 1, -1, -1) if not is_num(vals[i])), None)
    if last is not None:
        tm = np.asarray(vals[last].to_matrix(NQ))
        require(close(tm, mods[last], 1e-4 if f32 else 1e-8), 'to_matrix of %r is\n%s\nexpected\n%s',
                vals[last], tm, mods[last])
    ctx.interesting(interesting)


# ------------------------------------------------------------------ every operator x operand kinds x scalar

def operand(spec):
    """['pauli', L, q] | ['I'] | ['term', [[L, q]...], coeff] | ['expr', [[...ops], coeff], ...]"""
    kind = spec[0]
    g = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}
    if kind == 'pauli':
        return g[spec[1]][spec[2]], {((spec[2], spec[1]),): 1}
    if kind == 'I':
        return bp.I, {(): 1}
    if kind == 'num':
        v = paulis.number(*spec[1:])
        return v, ({(): complex(v)} if v else {})
    if kind == 'term':
        return mk_term(spec[1], spec[2]), paulis.add({}, dict([paulis.canon(spec[1], spec[2])]))
    if kind == 'powers':
        # a sum of powers of one operator times a word: equal words can be left uncollected inside
        _k, (l, q), parts, word, coeff, right = spec
        v, d = bp.Expr.zero(), {}
        for c, e in parts:
            v = v + c * g[l][q].to_term() ** e
            d = paulis.add(d, dict([paulis.canon([(l, q)] * e, c)]))
        t, dt = mk_term(word, coeff), dict([paulis.canon(word, coeff)])
        return (v * t, paulis.mul(d, dt)) if right else (t * v, paulis.mul(dt, d))
    v, d = bp.Expr.zero(), {}
    for ops, c in spec[1]:
        v = v + mk_term(ops, c)
        d = paulis.add(d, dict([paulis.canon(ops, c)]))
    return v, d


def mk_term(ops, c):
    g = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}
    t = bp.I.to_term()
    for l, q in ops:
        t = t * g[l][q]
    return t * c


def check_pair(case, ctx):
    a, da = operand(case['a'])
    b, db = operand(case['b'])
    ra, rb = repr(a), repr(b)
    ma, mb = paulis.matrix(da, NQ), paulis.matrix(db, NQ)
    tol = 1e-4
    for name, f, m in (('+', lambda: a + b, ma + mb), ('-', lambda: a - b, ma - mb),
                       ('*', lambda: a * b, ma @ mb), ('r+', lambda: b + a, ma + mb),
                       ('r-', lambda: b - a, mb - ma), ('r*', lambda: b * a, mb @ ma)):
        v = f()
        got = dense(v)
        require(close(got, m, tol), '%r %s %r = %r denotes\n%s\nexpected\n%s', a, name, b, v, got, m)
        require(close(np.asarray(v.to_matrix(NQ)), m, tol), 'to_matrix of %r %s %r', a, name, b)
        d = paulis.from_library(v)
    for k in range(case.get('powers', 7)):
        v = a ** (np.int64(k) if k % 2 else k)
        require(close(dense(v), np.linalg.matrix_power(ma, k), tol), '(%r) ** %d is %r', a, k, v)
    # in-place forms rebind, they never modify
    x = a
    x += b
    require(close(dense(x) if not is_num(x) else x * np.eye(8), ma + mb, tol), '+= differs')
    x = a
    x -= b
    x *= b
    require(close(dense(x), (ma - mb) @ mb, tol), '-=, *= differ')
    require((repr(a), repr(b)) == (ra, rb), 'operands changed: %s %s -> %r %r', ra, rb, a, b)
    ctx.label(f"{case['a'][0]} {case['b'][0]}")
    ctx.interesting(da and db and not close(ma @ mb, mb @ ma, 1e-9) or case['b'][0] == 'num')


@st.composite
def towers(draw):
    """One operator and a large exponent."""
    kind = draw(st.sampled_from(['pauli', 'term', 'one', 'two', 'three']))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    c = lambda: rng.choice([1, -1, 0.5, -0.5, 2])       # noqa: E731
    if kind == 'pauli':
        return {'a': draw(st.sampled_from([['I'], ['pauli', 'Y', 1], ['pauli', 'X', 2]])), 'k': draw(st.integers(5, 200))}
    word = lambda: paulis.random_word(rng, NQ, rng.randint(0, 4))     # noqa: E731
    if kind == 'term':
        return {'a': ['term', word(), c()], 'k': draw(st.integers(5, 120))}
    n, top = {'one': (1, 60), 'two': (2, 11), 'three': (3, 7)}[kind]
    return {'a': ['expr', [[word(), c()] for _ in range(n)]], 'k': draw(st.integers(4, top))}


def check_tower(case, ctx):
    a, d = operand(case['a'])
    k = case['k']
    before = repr(a)
    v = a ** k
    want = np.linalg.matrix_power(paulis.matrix(d, NQ), k)
    got = dense(v)
    require(close(got, want, 1e-9 * max(1.0, np.abs(want).max()) + 1e-9), '(%r) ** %d denotes\n%s\nexpected\n%s',
            a, k, got, want)
    require(repr(a) == before, 'operand changed')
    ctx.label(case['a'][0])
    ctx.interesting(k > 6 and len(d) > 0)


FOREIGN = {
    'text': lambda: '2', 'bytes': lambda: b'2', 'none': lambda: None, 'list': lambda: [1.0], 'dict': lambda: {},
    'object': object, 'function': lambda: abs, 'type': lambda: int, 'set': lambda: {1},
}


def check_foreign(case, ctx):
    a, d = operand(case['a'])
    f = FOREIGN[case['foreign']]()
    before, rf = repr(a), repr(f)
    calls = {'+': lambda: a + f, 'r+': lambda: f + a, '-': lambda: a - f, 'r-': lambda: f - a,
             '*': lambda: a * f, 'r*': lambda: f * a, '/': lambda: a / f, 'r/': lambda: f / a, '**': lambda: a ** f,
             'r**': lambda: f ** a, '/pauli': lambda: a / bp.X[0], '/expr': lambda: a / (bp.X[0] + bp.Y[1]),
             'number/': lambda: 2 / a, '**half': lambda: a ** 0.5, '**pauli': lambda: a ** bp.X[0],
             'number**': lambda: 2 ** a, '//': lambda: a // 2}
    try:
        v = calls[case['op']]()
    except (TypeError, ValueError):
        pass
    else:
        require(False, '%r %s %s gives %r', a, case['op'], rf, v)
    require((repr(a), repr(f)) == (before, rf), 'operands changed')
    ctx.interesting()


WORD = st.lists(st.tuples(st.sampled_from('XYZ'), st.integers(0, NQ - 1)).map(list), max_size=4)
COEFF = st.integers(-8, 8).map(lambda k: k / 4)
OPERAND = st.one_of(
    st.tuples(st.just('pauli'), st.sampled_from('XYZ'), st.integers(0, NQ - 1)).map(list),
    st.just(['I']),
    st.tuples(st.just('term'), WORD, COEFF).map(list),
    st.tuples(st.just('term'), WORD, COEFF).map(list),
    st.tuples(st.just('expr'), st.lists(st.tuples(WORD, COEFF).map(list), max_size=4)).map(list))


POWERS = st.tuples(st.just('powers'), st.tuples(st.sampled_from('XYZ'), st.integers(0, NQ - 1)).map(list),
                   st.lists(st.tuples(COEFF, st.integers(0, 3)).map(list), min_size=1, max_size=4), WORD, COEFF,
                   st.booleans()).map(list)


@st.composite
def many(draw, lengths=None):
    """Long words and long sums."""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))

    def long(kind):
        if kind == 'word':
            return ['term', paulis.random_word(rng, NQ, draw(paulis.sizes())), paulis.quarter(rng)]
        return ['expr', paulis.random_sum(rng, NQ, draw(lengths or paulis.sizes(40)))]
    kinds = draw(st.sampled_from([['sum', 'any'], ['any', 'sum']] if lengths else [['word', 'word'], ['word', 'sum'], ['sum', 'sum'], ['sum', 'word'], ['sum', 'any'],
                                  ['word', 'any'], ['any', 'sum']]))
    a, b = [draw(OPERAND) if k == 'any' else long(k) for k in kinds]
    return {'a': a, 'b': b, 'powers': 4 if kinds[0] == 'word' else 2}


SUBTESTS = [
    Subtest('many-operators', lambda tier: many(), check_pair, 120, 2500),
    Subtest('hundreds-of-terms', lambda tier: many(st.sampled_from(paulis.HUNDREDS)), check_pair, 16, 300),
    Subtest('large-exponents', lambda tier: towers(), check_tower, 160, 3000),
    Subtest('uncollected-words', lambda tier: st.fixed_dictionaries(
        {'a': POWERS, 'b': st.one_of(OPERAND, POWERS, paulis.numbers())}), check_pair, 500, 10000),
    Subtest('programs', lambda tier: st.fixed_dictionaries(
        {'prog': paulis.programs(NQ, 10 if tier == 'quick' else 16)}), check, 2400, 60000),
    Subtest('programs-of-python-numbers', lambda tier: st.fixed_dictionaries(
        {'prog': paulis.programs(NQ, 12, ['int', 'float', 'complex'])}), check, 800, 20000),
    Subtest('operand-kinds', lambda tier: st.fixed_dictionaries(
        {'a': OPERAND, 'b': st.one_of(OPERAND, paulis.numbers())}), check_pair, 2000, 40000),
    Subtest('foreign-operands', lambda tier: st.fixed_dictionaries(
        {'a': OPERAND, 'foreign': st.sampled_from(sorted(FOREIGN)), 'op': st.sampled_from(
            ['+', 'r+', '-', 'r-', '*', 'r*', '/', 'r/', '**', 'r**', '/pauli', '/expr', 'number/', '**half',
             '**pauli', 'number**', '//'])}), check_foreign, 800, 10000),
]
ASSUMPTIONS = ['operators on three qubits; magnitudes up to 1e6; tolerance 1e-9 relative (1e-4 once a '
               'single-precision scalar takes part)']
