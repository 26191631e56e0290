"""Symbolic unitary against numeric evolution, with numeric and symbolic parameters."""
import cmath
import math

import numpy as np
import sympy
from hypothesis import strategies as st

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C09'
RULE = ('circuits on at most 3 qubits with numeric (rational multiples of pi included) and symbolic '
        'parameters, the latter substituted after (and before) the symbolic evaluation; compared with the '
        'exact unitary of the reference; non-trivial: at least one parameter, or two gates of different '
        'kinds acting on at least two qubits')

SYMS = ['theta', 'phi', 'lambd', 'a', 't', 'theta_real', 'phi_real']


def sym(name):
    if name.endswith('_real'):
        return sympy.Symbol(name[:-5], real=True)
    return sympy.Symbol(name)


MIX = {'sum': lambda a, b: a + b, 'difference': lambda a, b: a - 2 * b, 'product': lambda a, b: a * b,
       'square': lambda a, b: a ** 2 - b, 'half': lambda a, b: (a + b) / 2}


def symbols_of(ops):
    out = set()
    for o in ops:
        for p in o[1]:
            if isinstance(p, list) and p[0] in ('sym', 'mix'):
                out |= {p[1]} if p[0] == 'sym' else {p[1], p[2]}
    return out


def dec(p, env=None):
    """Parameter: number | ['f64', x] | ['pi', p, q] (sympy p*pi/q) | ['rat', p, q] |
    ['sym', name, mul, add]  (mul*symbol + add) | ['mix', name, name, how] (an expression in two symbols) |
    ['sqrt', k] | ['float', x] (numbers of sympy)"""
    if isinstance(p, list):
        if p[0] == 'pi':
            return sympy.pi * sympy.Rational(p[1], p[2])
        if p[0] == 'rat':
            return sympy.Rational(p[1], p[2])
        if p[0] == 'sym':
            return p[2] * sym(p[1]) + p[3]
        if p[0] == 'mix':
            return MIX[p[3]](sym(p[1]), sym(p[2]))
        if p[0] == 'sqrt':
            return sympy.sqrt(p[1])
        if p[0] == 'float':
            return sympy.Float(p[1])
    return ref.dec_param(p)


def value(p, env):
    if isinstance(p, list):
        if p[0] == 'pi':
            return math.pi * p[1] / p[2]
        if p[0] == 'rat':
            return p[1] / p[2]
        if p[0] == 'sym':
            return p[2] * env[p[1]] + p[3]
        if p[0] == 'mix':
            return MIX[p[3]](env[p[1]], env[p[2]])
        if p[0] == 'sqrt':
            return math.sqrt(p[1])
        if p[0] == 'float':
            return p[1]
    return ref.num(p)


def numeric_ops(ops, env):
    return [[o[0], [value(p, env) for p in o[1]], o[2]] for o in ops]


def build(n, ops):
    c = bq.Circuit(n) if n else bq.Circuit()
    for name, params, t in ops:
        g = getattr(c, name)
        if params:
            g = g(*[dec(p) for p in params])
        g[ref.dec_target(t)]
    return c


FUNCTIONS = {sympy.exp: cmath.exp, sympy.cos: cmath.cos, sympy.sin: cmath.sin, sympy.tan: cmath.tan,
             sympy.cosh: cmath.cosh, sympy.sinh: cmath.sinh, sympy.conjugate: lambda x: complex(x).conjugate(),
             sympy.re: lambda x: complex(x).real, sympy.im: lambda x: complex(x).imag, sympy.Abs: abs,
             sympy.arg: lambda x: cmath.phase(x), sympy.sign: lambda x: x / abs(x) if x else 0}


def evaluate(e, env, memo):
    if e in memo:
        return memo[e]
    if e.is_Symbol:
        v = complex(env[e])
    elif e.is_Add:
        v = sum(evaluate(a, env, memo) for a in e.args)
    elif e.is_Mul:
        v = 1
        for a in e.args:
            v = v * evaluate(a, env, memo)
    elif e.func in FUNCTIONS:
        v = FUNCTIONS[e.func](evaluate(e.args[0], env, memo))
    elif e.is_Pow:
        base, power = (evaluate(a, env, memo) for a in e.args)
        v = base ** (int(power.real) if e.args[1].is_Integer else power)
    elif e is sympy.I:
        v = 1j
    elif e.is_number and not e.args:
        v = complex(e)
    else:
        v = complex(e.subs({k: x for k, x in env.items()}))
    memo[e] = v
    return v


def to_numpy(m, env=None):
    """The matrix with numbers for its symbols.

    Plain floating point evaluation, node by node: sympy's evalf would spend its time proving that sums
    which cancel are zero, and its printer on ordering the terms of a product."""
    env = {sym(k): v for k, v in (env or {}).items()}
    memo = {}
    return np.array([[evaluate(e, env, memo) for e in row] for row in m.tolist()], dtype=complex)


def check(case, ctx):
    n, ops, env = case['N'], case['ops'], case['env']
    num = numeric_ops(ops, env)
    exp = ref.unitary(n, num)
    c = build(n, ops)
    m = c.to_unitary()
    require(m.shape == (2 ** n, 2 ** n), 'shape %s', m.shape)
    symbols = symbols_of(ops)
    allowed = {sym(s) for s in symbols}
    require(m.free_symbols <= allowed, 'symbols %s appear in the unitary of %s', m.free_symbols - allowed, c)
    u = to_numpy(m, {k: env[k] for k in symbols})
    free = simcheck.has_free_phase(ops)
    ok = (ref.close_up_to_phase if free else ref.close)(u, exp, 1e-7)
    require(ok, 'unitary of %s with %s is\n%s\nexpected\n%s', c, env, np.round(u, 4), np.round(exp, 4))
    if case['again']:
        m2 = c.run(backend='sympy_unitary')
        require(m2 == m, 'a second evaluation gives another matrix')
    ctx.label('symbolic' if symbols else 'numeric', *(o[0] for o in ops))
    kinds = {o[0] for o in ops}
    ctx.interesting(any(o[1] for o in ops) or (len(kinds) >= 2 and n >= 2))


def numeric_params():
    return st.one_of(
        st.sampled_from([math.pi, -math.pi / 2, math.pi / 4, 2 * math.pi / 3, 0.0, math.pi * 5 / 7,
                         3 * math.pi, -2 * math.pi, 4 * math.pi]),
        st.floats(-7, 7, allow_nan=False).map(lambda x: round(x, 3)),
        st.floats(-7, 7, allow_nan=False),
        st.integers(-5, 5),
        st.tuples(st.just('pi'), st.integers(-9, 9), st.integers(1, 8)).map(list),
        st.tuples(st.just('rat'), st.integers(-9, 9), st.integers(1, 8)).map(list),
        st.floats(-7, 7, allow_nan=False).map(lambda x: ['f64', x]),
        st.one_of(st.integers(2, 9).map(lambda k: ['sqrt', k]),
                  st.floats(-7, 7, allow_nan=False).map(lambda x: ['float', round(x, 4)])))


def symbolic_params():
    one = st.tuples(st.just('sym'), st.sampled_from(SYMS), st.sampled_from([1, 1, 1, -1, 2, 0.5]),
                    st.sampled_from([0, 0, 0, 1, -0.5])).map(list)
    two = st.tuples(st.just('mix'), st.sampled_from(SYMS), st.sampled_from(SYMS), st.sampled_from(sorted(MIX))).map(list)
    return st.one_of(one, one, one, two)


ENV = st.fixed_dictionaries({s: gen.generic_angles() for s in SYMS})


# dense matrices make the symbolic entries grow; a budget keeps one case below about a second
COST = {'h': 1, 'rx': 1, 'ry': 1, 'u2': 1, 'u3': 1, 'ch': 2, 'crx': 2, 'cry': 2, 'cu2': 3, 'cu3': 3,
        'rxx': 3, 'ryy': 3, 'ccx': 1, 'toffoli': 1, 'cswap': 1, 'cu1': 1, 'cphase': 1, 'cr': 1, 'crz': 1,
        'rzz': 1}


def limit(n, ops, budget):
    out = []
    for o in ops:
        k = len(ref.resolve(o[0], o[2], n))
        cost = COST.get(o[0], 0) * k
        if ref.n_qubits_of(o[0]) == 1:
            cost = min(cost, 1)
        if cost > budget:
            continue
        budget -= cost
        out.append(o)
    return out


PARAMETRIC = gen.ONE_P + gen.TWO_P


@st.composite
def cases(draw, max_n, max_ops, symbolic, names=gen.UNITARY, min_ops=1, budget=4):
    n = draw(st.integers(1, max_n))
    par = st.one_of(symbolic_params(), symbolic_params(), symbolic_params(), numeric_params()) \
        if symbolic else numeric_params()
    rich = n < 3 or draw(st.booleans())
    o = gen.op(n, names, par, rich)
    if symbolic:
        with_arg = [g for g in names if ref.n_args(g) and ref.n_qubits_of(g) <= n]
        o = st.one_of(o, gen.op(n, with_arg, par, rich), gen.op(n, with_arg, par, rich))
    ops = limit(n, draw(st.lists(o, min_size=min_ops, max_size=max_ops)), budget)
    if n == 3 and any(COST.get(o[0], 0) * len(ref.resolve(o[0], o[2], n)) > 3 for o in ops):
        ops = [o for o in ops if ref.n_qubits_of(o[0]) == 1]
    return {'N': n, 'ops': ops, 'env': draw(ENV), 'again': draw(st.integers(0, 3)) == 0}


@st.composite
def sparse_diagonals(draw):
    """A gate with phases, the last one on a qubit which is flipped for most values of the others."""
    n = draw(st.sampled_from([2, 3, 3, 3]))
    # x on qubit 0, but not where the others are all 1 (then it is flipped back)
    ops = [['x', [], 0], ['cx', [], {'t': [1, 0]}] if n == 2 else ['ccx', [], {'t': [1, 2, 0]}]]
    for q in range(1, n):
        if draw(st.booleans()):
            ops = [['x', [], q]] + ops + [['x', [], q]]
    phases = draw(st.lists(gen.op(n, ['rz', 'u1', 'phase', 't', 's', 'z', 'crz'], numeric_params(), False), min_size=1,
                           max_size=2))
    return {'N': n, 'ops': ops + phases if draw(st.booleans()) else phases + ops, 'env': draw(ENV), 'again': False}


@st.composite
def ugates(draw):
    """Three-parameter gates whose arguments are permutations of the internal symbol names."""
    name = draw(st.sampled_from(['u3', 'u2', 'cu3', 'cu2', 'u1', 'rx', 'phase', 'cphase', 'rzz']))
    k = ref.n_qubits_of(name)
    names = draw(st.permutations(['theta', 'phi', 'lambd', 'a', 'theta_real']))
    params = [['sym', names[i], draw(st.sampled_from([1, -1, 2])), 0] for i in range(ref.n_args(name))]
    n = draw(st.integers(k, 2))
    ops = [[name, params, draw(gen.targets1(n) if k == 1 else gen.targets2(n, False))]]
    if draw(st.booleans()):
        ops.insert(draw(st.integers(0, 1)), ['h', [], draw(st.integers(0, n - 1))])
    return {'N': n, 'ops': ops, 'env': draw(ENV), 'again': False}


def check_ignore_global(case, ctx):
    n, ops, env = case['N'], case['ops'], case['env']
    c = build(n, ops)
    values = {s: env[s] for s in symbols_of(ops)}
    u = to_numpy(c.to_unitary(ignore_global=True), values)
    exp = ref.unitary(n, numeric_ops(ops, env))
    require(ref.close_up_to_phase(u, exp, 1e-7), 'more than the phase changed: %s', c)
    d = np.diag(u)
    tiny = [x for x in np.diag(exp) if 1e-12 < abs(x) <= 1e-6]
    first = [x for x in d if abs(x) > 1e-6]
    if first and not tiny and not values:
        require(abs(first[0].imag) < 1e-7 and first[0].real > 0, 'first diagonal entry is %s', first[0])
    w = to_numpy(c.to_unitary(ignore_global=False), values)
    require((ref.close_up_to_phase if simcheck.has_free_phase(ops) else ref.close)(w, exp, 1e-7),
            'ignore_global=False: not the unitary')
    ctx.interesting(first and abs(np.diag(exp)[np.argmax(np.abs(d) > 1e-6)].imag) > 1e-6)


def check_default_backend_and_size(case, ctx):
    """Registers with untouched qubits, as default backend, and measurement ignored."""
    n, ops = case['N'], case['ops']
    c = build(n, ops)
    c.set_default_backend('sympy_unitary')
    u = to_numpy(c.run())
    exp = ref.unitary(n, numeric_ops(ops, case['env']))
    require(ref.close_up_to_phase(u, exp, 1e-7), 'unitary differs as default backend')
    ctx.interesting(n >= 2)


CHEAP = ['x', 'y', 'z', 'h', 's', 't', 'tdg', 'sdg', 'i', 'cx', 'cz', 'swap', 'cy', 'rx', 'ry', 'rz',
         'phase', 'u1', 'u2', 'u3', 'cnot', 'crz', 'cphase']
EXACT = ['x', 'y', 'z', 's', 'sdg', 'cx', 'cnot', 'cz', 'cy', 'swap', 'i']
LONG = st.builds(lambda c, e, k: {**c, 'env': e, 'again': k == 0}, gen.long_circuit(
    2, EXACT, [k for k in gen.LENGTHS if k <= 130]), ENV, st.integers(0, 3))

EXPLICIT = []
for _g in gen.UNITARY:
    _k = ref.n_qubits_of(_g)
    _names = ['lambd', 'theta', 'phi'][:ref.n_args(_g)]
    EXPLICIT.append({'N': max(_k, 2) if _k < 3 else 3,
                     'ops': [[_g, [['sym', s, 1, 0] for s in _names],
                              1 if _k == 1 else {'t': [1, 0]} if _k == 2 else {'t': [2, 0, 1]}]],
                     'env': {s: 0.3 + 0.37 * i for i, s in enumerate(SYMS)}, 'again': False})

SUBTESTS = [
    Subtest('numeric', lambda tier: cases(2, 4, False), check, 320, 8000),
    Subtest('symbolic', lambda tier: cases(2, 3, True), check, 320, 8000, explicit=EXPLICIT),
    Subtest('three-qubits', lambda tier: cases(3, 2, True, CHEAP, budget=2), check, 120, 3000),
    Subtest('three-qubit-gates', lambda tier: cases(3, 1, False, ['x', 'ccx', 'cswap', 'toffoli', 'rxx', 'ryy',
                                                                  'rzz']), check, 48, 400),
    Subtest('internal-symbol-names', lambda tier: ugates(), check, 160, 4000),
    Subtest('ignore-global-phase', lambda tier: cases(2, 3, False, CHEAP), check_ignore_global, 120, 3000),
    Subtest('ignore-global-phase-symbolic', lambda tier: cases(2, 3, True, CHEAP, budget=2), check_ignore_global, 80,
            2000),
    Subtest('ignore-global-phase-zeros', lambda tier: sparse_diagonals(), check_ignore_global, 80, 2000),
    Subtest('long-circuits', lambda tier: LONG, check, 40, 600),
    Subtest('default-backend', lambda tier: cases(2, 2, False, CHEAP), check_default_backend_and_size,
            60, 800),
]
ASSUMPTIONS = ['numeric evaluation with 16 digits, tolerance 1e-7; parameters are real numbers or real '
               'linear expressions of symbols']
