"""QUBO builders and conversions against the expressions they stand for, over all assignments."""
import copy
import itertools
import random

import numpy as np
import sympy
from hypothesis import strategies as st

from blueqat import wq

from core import Subtest, require
from props.c18 import assignments as all_assignments
from props.c18 import cost, dec, magnitude, matrices, unchanged

ID = 'C20'
RULE = ('generated polynomials over bits (as text in several spellings, sympy expressions, sums and products of '
        'linear forms), selections, graphs, vectors and sequences of weighted additions of different sizes; '
        'the cost of the resulting matrix compared with the expression at every assignment; non-trivial: at '
        'least one product of different variables and two variables')

TOL = 1e-8


def assignments(n):
    """All assignments, or those which determine a function of degree two (and two others)."""
    if n <= 7:
        yield from all_assignments(n)
        return
    for k in range(3):
        for ones in itertools.combinations(range(n), k):
            yield [int(i in ones) for i in range(n)]
    yield [1] * n
    yield [i % 2 for i in range(n)]


def check_matrix(m, n, f, what, const=0.0, upper=True):
    require(len(m) == n and all(len(r) == n for r in m), '%s has the shape %s, expected %d x %d', what,
            np.shape(m), n, n)
    if upper:
        require(all(m[i][j] == 0 for i in range(n) for j in range(i)), '%s is not upper triangular: %s', what, m)
    check_costs(m, n, f, what, const)


def check_sized(m, low, high, f, what, const=0.0):
    """As check_matrix; variables that cancel may or may not have a row."""
    require(low <= len(m) <= high and all(len(r) == len(m) for r in m), '%s has the shape %s, expected %d to %d '
            'variables', what, np.shape(m), low, high)
    require(all(m[i][j] == 0 for i in range(len(m)) for j in range(i)), '%s is not upper triangular: %s', what, m)
    check_costs(m, high, f, what, const)


def check_costs(m, n, f, what, const):
    tol = TOL * magnitude(m)
    for bits in assignments(n):
        c, want = cost(m, bits[:len(m)]), float(f(bits)) - const
        require(abs(c - want) <= tol * max(1.0, abs(want)), '%s is\n%s\nwith cost %r at %s, expected %r', what, m,
                c, bits, want)


# ------------------------------------------------------------------ numeric builders

def check_sel(case, ctx):
    n, k, arr = case['n'], case['k'], case['arr']
    a = np.array(arr, dtype=int) if case['np'] else list(arr)
    keep = copy.deepcopy(a)
    m = wq.sel(n, k, a) if arr or case['np'] else wq.sel(n, k)
    check_matrix(m, n, lambda b: (sum(b) - k) ** 2 - 0.5 * sum(b[i] for i in set(arr)), f'sel({n}, {k}, {arr})',
                 k * k)
    require(np.array_equal(a, keep), 'sel changed its argument to %s', a)
    m2 = wq.sel(n, k)
    check_matrix(m2, n, lambda b: (sum(b) - k) ** 2, f'sel({n}, {k})', k * k)
    ctx.interesting(n > 1 and 0 < k < n)


def lin(a, bits):
    return sum(x * b for x, b in zip(a, bits))


def vec(v, np_kind):
    if np_kind == 'i8':
        return np.array(v, dtype=np.int8)
    return np.array(v, dtype=float) if np_kind == 'np' else tuple(v) if np_kind == 'tuple' else list(v)


def check_products(case, ctx):
    n = len(case['a'])
    a, b = vec(case['a'], case['kind']), vec(case['b'][:n], case['kind'])
    ka, kb = copy.deepcopy(a), copy.deepcopy(b)
    check_matrix(wq.mul(a, b), n, lambda x: lin(case['a'], x) * lin(case['b'], x), f'mul({a}, {b})')
    check_matrix(wq.mul(a, a), n, lambda x: lin(case['a'], x) ** 2, f'mul({a}, same)')
    check_matrix(wq.sqr(a), n, lambda x: lin(case['a'], x) ** 2, f'sqr({a})')
    m = wq.diag(a)
    check_matrix(m, n, lambda x: lin(case['a'], x), f'diag({a})')
    check_matrix(wq.zeros(n), n, lambda x: 0, f'zeros({n})')
    require(np.array_equal(a, ka) and np.array_equal(b, kb), 'a builder changed its argument to %s, %s', a, b)
    m[0][0] = not m[0][0]
    require(np.array_equal(a, ka), 'the matrix shares memory with the argument')
    z = wq.zeros(n)
    z[0][0] = 9
    require(wq.zeros(n)[0][0] == 0, 'zeros() is shared')
    ctx.interesting(n > 1 and any(case['a'][i] * case['b'][j] != case['a'][j] * case['b'][i] for i in range(n) for j in range(n)))


def check_net(case, ctx):
    n = case['n']
    edges = [e for e in case['edges'] if e[0] < n and e[1] < n]
    e = {'list': lambda: [list(x) for x in edges], 'tuple': lambda: [tuple(x) for x in edges],
         'np': lambda: np.array(edges, dtype=int).reshape(-1, 2), 'tt': lambda: tuple(tuple(x) for x in edges)
         }[case['kind']]()
    keep = copy.deepcopy(e)
    pairs = {tuple(sorted(x)) for x in edges}
    check_matrix(wq.net(e, n), n, lambda b: sum(b[i] * b[j] for i, j in pairs), f'net({edges}, {n})')
    require(np.array_equal(np.array(e), np.array(keep)), 'net changed its argument to %s', e)
    ctx.interesting(any(i > j for i, j in edges))


def check_rands(case, ctx):
    n = case['n']
    m, m2 = wq.rands(n), wq.rands(n)
    require(np.shape(m) == (n, n) and all(m[i][j] == 0 for i in range(n) for j in range(i)), 'rands(%d) is %s', n, m)
    require(all(0 <= m[i][j] < 1 for i in range(n) for j in range(n)), 'rands(%d) is %s', n, m)
    require(not np.array_equal(m, m2), 'rands repeats itself')
    require(all(m[i][j] != 0 for i in range(n) for j in range(i, n)), 'rands(%d) is %s', n, m)
    ctx.interesting(n > 1)


# ------------------------------------------------------------------ polynomials

def evaluate(poly, bits):
    """poly: {"terms": [[coeff, [indices]]], "squares": [[c, [[coeff, index]...], const]]}"""
    v = 0.0
    for c, idx in poly['terms']:
        p = c
        for i in idx:
            p *= bits[i]
        v += p
    for c, form, k in poly['squares']:
        v += c * (sum(a * bits[i] for a, i in form) + k) ** 2
    for c, f1, f2 in poly['products']:
        v += c * sum(a * bits[i] for a, i in f1) * sum(a * bits[i] for a, i in f2)
    return v


def used(poly):
    s = {i for c, idx in poly['terms'] for i in idx}
    s |= {i for c, f, k in poly['squares'] for a, i in f}
    return s | {i for c, f1, f2 in poly['products'] for a, i in f1 + f2}


def num(c, style):
    s = str(c)
    return f'({s})' if c < 0 or style else s


def text(poly, style):
    """The polynomial as a user would type it."""
    parts = []
    for c, idx in poly['terms']:
        if style and len(set(idx)) < len(idx):
            fs = [f'q{i}**{idx.count(i)}' if idx.count(i) > 1 else f'q{i}' for i in dict.fromkeys(idx)]
        else:
            fs = [f'q{i}' for i in idx]
        parts.append('*'.join(([num(c, style)] if c != 1 or not fs else []) + fs))

    def form(f, k=0):
        return '(' + ' + '.join([f'{num(a, style)}*q{i}' for a, i in f] + ([num(k, style)] if k else [])) + ')'
    parts += [f'{num(c, style)}*{form(f, k)}**2' for c, f, k in poly['squares']]
    parts += [f'{num(c, style)}*{form(f1)}*{form(f2)}' for c, f1, f2 in poly['products']]
    return (' + ' if style else '+').join(parts) or '0'


def sizes(poly):
    """Smallest and largest sensible number of variables: those the polynomial over bits depends on, and those
    written down."""
    n = max(used(poly), default=-1) + 1

    def f(*ones):
        return evaluate(poly, [int(i in ones) for i in range(n)])
    base = f()
    single = [f(i) - base for i in range(n)]
    low = 0
    for i in range(n):
        if abs(single[i]) > 1e-9 or any(abs(f(i, j) - base - single[i] - single[j]) > 1e-9
                                        for j in range(n) if j != i):
            low = i + 1
    return low, n


def check_poly(case, ctx):
    poly = case['poly']
    s = text(poly, case['style'])
    low, n = sizes(poly)
    const = evaluate(poly, [0] * n)

    def f(bits):
        return evaluate(poly, bits)
    # qn_to_qubo: sympy expression
    e = sympy.sympify(s)
    keep = str(e)
    for x in (e, sympy.expand(e)):
        check_sized(wq.qn_to_qubo(x), low, n, f, f'qn_to_qubo({s})', const)
    # Opt.add: text
    o = wq.Opt()
    require(o.add(s) is o, 'add does not return the problem')
    check_sized(o.qubo, low, n, f, f'add({s!r})', const)
    m = case['m']
    o = wq.Opt().add(s, m) if case['style'] else wq.Opt().add(s, M=m)
    check_sized(o.qubo, low if m else 0, n, lambda b: m * f(b), f'add({s!r}, {m})', m * const)
    # optm: matrix of a requested size
    size = max(1, n + case['extra'])
    for x in (e, s):
        check_matrix(wq.optm(x, size), size, f, f'optm({s}, {size})', const)
    if not sympy.expand(e).free_symbols:
        ctx.label('constant')
        return
    # optx: the same polynomial with squares reduced
    r = wq.optx(s if case['style'] else e)
    sub = sorted(r.free_symbols, key=str)
    for bits in assignments(n):
        v = float(r.subs({x: bits[int(str(x)[1:])] for x in sub}))
        require(abs(v - f(bits)) <= TOL * max(1, abs(f(bits))), 'optx(%s) is %s', s, r)
    require(all(p[0][0] <= 1 for x in sub for p in sympy.Poly(r, x).terms()), 'optx(%s) has squares: %s', s, r)
    require(str(e) == keep, 'the expression was changed')
    two = any(len(set(idx)) > 1 for c, idx in poly['terms']) or poly['squares'] or poly['products']
    ctx.label('text' if case['style'] else 'expanded text')
    ctx.interesting(low > 1 and bool(two))


def check_add(case, ctx):
    """A sequence of weighted additions accumulates."""
    o = wq.Opt()
    parts = []
    n, exact = 0, True
    if case['first'] is not None:
        o.qubo = dec(case['first'])
        m0 = copy.deepcopy(o.qubo)
        parts.append((1, lambda b, m0=m0: cost(m0, b[:len(m0)])))
        n = len(m0)
    for step in case['steps']:
        w = step['w']
        if step['kind'] == 'text':
            s = text(step['poly'], step['style'])
            p = step['poly']
            low, size = sizes(p)
            const = evaluate(p, [0] * 20)
            arg, keep = s, s
            parts.append((w, lambda b, p=p, const=const: evaluate(p, list(b) + [0] * 20) - const))
        else:
            arg = dec(step['matrix'])
            keep = copy.deepcopy(arg)
            low = size = len(arg)
            parts.append((w, lambda b, keep=keep: cost(keep, b[:len(keep)])))
        if w == 1 and step['default']:
            r = o.add(arg)
        else:
            r = o.add(arg, w) if step['default'] else o.add(arg, M=w)
        require(r is o, 'add does not return the problem')
        if not isinstance(arg, str):
            require(unchanged(arg, keep), 'add changed its argument to %s', arg)
        least, n = max(n if exact else 0, low), max(n, size)
        exact = exact and low == size
        total = 'the sum after %s' % case
        require(least <= len(o.qubo) <= n and all(len(r) == len(o.qubo) for r in o.qubo), '%s is %s', total, o.qubo)
        check_costs(o.qubo, n, lambda b: sum(w * f(b) for w, f in parts), total, 0)
        if not isinstance(arg, str) and step['poke'] and isinstance(arg, np.ndarray):
            arg[...] = 99
            check_costs(o.qubo, n, lambda b: sum(w * f(b) for w, f in parts), 'the sum after changing %s' % case, 0)
        ctx.label(step['kind'])
    ctx.interesting(len(parts) > 1)


def check_nbody(case, ctx):
    """Reduction of products of many bits to pairs with auxiliary variables."""
    n = case['n']
    qs = sympy.symbols(' '.join(f'q{i}' for i in range(n + 40)))
    require(tuple(wq.make_qs(n))[:n] == qs[:n] and tuple(wq.make_qs(1, n + 1))[:n] == qs[1:n + 1],
            'make_qs(%d) is %s', n, wq.make_qs(n))
    # numbers of the variables: consecutive, or with several digits
    ids = case.get('ids') or list(range(n))
    own = sympy.symbols([f'q{i}' for i in ids])
    expr = sympy.Integer(0)
    for c, idx in case['terms']:
        t = sympy.sympify(c)
        for i in set(idx):
            t *= own[i]
        expr += t
    expr = sympy.expand(expr)
    if not isinstance(expr, sympy.Add):
        return
    keep = str(expr)
    aux_pool = qs[n:] if not case.get('ids') else sympy.symbols([f'q{i}' for i in range(max(ids) + 1, max(ids) + 40)])
    new, cons, mapping = wq.nbody_separation(expr, aux_pool)
    require(str(expr) == keep, 'the expression was changed')
    for t in sympy.Add.make_args(sympy.expand(new)):
        require(len(t.free_symbols) <= 2, 'the separated problem has the term %s', t)
    for t in sympy.Add.make_args(sympy.expand(cons)):
        require(len(t.free_symbols) <= 2, 'the constraints have the term %s', t)
    aux = sorted((new.free_symbols | cons.free_symbols) - set(own), key=str)
    require(set(mapping.values()) == set(aux) and len(set(mapping.values())) == len(mapping),
            'auxiliary variables %s, mapping %s', aux, mapping)
    order = list(own)
    if len(aux) > 7:
        ctx.label('skipped: many auxiliary variables')
        return
    variables = order + aux
    f_expr, f_new, f_cons = (sympy.lambdify(variables, x, 'math') for x in (expr, new, cons))
    for bits in assignments(n):
        want = f_expr(*bits, *([0] * len(aux)))
        feasible = []
        for extra in itertools.product((0, 1), repeat=len(aux)):
            c = f_cons(*bits, *extra)
            require(c >= -1e-9, 'negative constraint value %r at %s %s: %s', c, bits, extra, cons)
            if abs(c) < 1e-9:
                feasible.append(f_new(*bits, *extra))
            else:
                require(c >= 1 - 1e-9, 'constraint value %r at %s %s: %s', c, bits, extra, cons)
        require(len(feasible) == 1 and abs(feasible[0] - want) < 1e-7, 'at %s the problem %s has the value %r, '
                'separated into %s under %s it has %s', bits, expr, want, new, cons, feasible)
    if aux:
        q = wq.qn_to_qubo(new + 100 * cons)
        const = f_new(*([0] * len(variables)))
        index = [int(str(x)[1:]) for x in variables]
        for bits in itertools.product((0, 1), repeat=len(variables)):
            full = [0] * len(q)
            for i, b in zip(index, bits):
                if i < len(q):
                    full[i] = b
            want = f_new(*bits) + 100 * f_cons(*bits) - const
            got = float(np.array(full) @ np.array(q, dtype=float) @ np.array(full))
            require(abs(got - want) < 1e-6, 'QUBO of the separated problem costs %r at %s, expected %r',
                    got, full, want)
    ctx.label(f'{len(aux)} auxiliary variables')
    ctx.interesting(len(aux) > 0)


# ------------------------------------------------------------------ generators

COEFF = st.one_of(st.integers(-6, 6), st.integers(-6, 6).map(lambda k: k / 4), st.just(1), st.just(-1))
ENTRY = st.one_of(st.integers(-5, 5), st.floats(-3, 3, allow_nan=False))


@st.composite
def polys(draw, max_n=4):
    n = draw(st.integers(1, max_n))
    i = st.integers(0, n - 1)
    if not draw(st.integers(0, 2)):
        # numbers of several digits
        i = st.sampled_from(draw(st.lists(st.integers(0, 13), min_size=1, max_size=4, unique=True)))
    terms = []
    for _ in range(draw(st.integers(1, 5))):
        idx = draw(st.lists(i, max_size=2))
        if not draw(st.integers(0, 4)) and idx:
            idx = idx[:1] * 2
        terms.append([draw(COEFF), idx])
    form = st.lists(st.tuples(COEFF, i).map(list), min_size=1, max_size=3)
    squares = draw(st.lists(st.tuples(COEFF, form, st.integers(-3, 3)).map(list), max_size=1))
    products = draw(st.lists(st.tuples(COEFF, form, form).map(list), max_size=1))
    return {'terms': terms, 'squares': squares, 'products': products}


@st.composite
def additions(draw, tier):
    steps = []
    for _ in range(draw(st.integers(1, 3))):
        kind = draw(st.sampled_from(['matrix', 'matrix', 'text']))
        s = {'kind': kind, 'w': draw(st.one_of(st.just(1), st.integers(-3, 3), st.sampled_from([0.5, -1.5, 2.0]))),
             'default': draw(st.booleans()), 'poke': draw(st.booleans())}
        if kind == 'text':
            s['poly'], s['style'] = draw(polys(3)), draw(st.integers(0, 1))
        else:
            s['matrix'] = draw(matrices(4))
        steps.append(s)
    return {'first': draw(st.one_of(st.none(), st.none(), matrices(3))), 'steps': steps}


@st.composite
def selections(draw, tier):
    n = draw(st.one_of(st.integers(1, 7), st.integers(1, 7), st.integers(8, 16)))
    return {'n': n, 'k': draw(st.integers(0, n + 1)), 'arr': draw(st.lists(st.integers(0, n - 1), unique=True)),
            'np': draw(st.booleans())}


@st.composite
def vectors(draw, tier):
    n = draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 13)))
    kind = draw(st.sampled_from(['list', 'tuple', 'np', 'np', 'i8']))
    # entries of narrow integers are near the limits of the type
    v = st.lists(ENTRY if kind != 'i8' else ENTRY.map(lambda x: int(x * 25)), min_size=n, max_size=n)
    return {'a': draw(v), 'b': draw(v), 'kind': kind}


@st.composite
def nbody(draw, tier):
    n = draw(st.integers(2, 5))
    size = st.lists(st.integers(0, n - 1), max_size=n, unique=True)
    ids = None
    if draw(st.booleans()):
        # names which read alike when digits are joined
        ids = list(draw(st.permutations(draw(st.sampled_from([[1, 2, 11, 12, 21], [1, 11, 12, 2, 111],
                                                              [0, 1, 10, 2, 20], [1, 3, 13, 31, 11]])))))[:n]
        size = st.lists(st.integers(0, n - 1), min_size=min(n, 3), max_size=n, unique=True)
    terms = draw(st.lists(st.tuples(COEFF, size).map(list), min_size=2, max_size=4))
    return {'n': n, 'terms': terms, 'ids': ids}


@st.composite
def graphs(draw, tier):
    n = draw(st.one_of(st.integers(1, 7), st.integers(8, 22)))
    e = st.tuples(st.integers(0, n - 1), st.integers(0, n - 1)).map(list)
    return {'n': n, 'edges': draw(st.lists(e, max_size=draw(st.sampled_from([9, 9, 80])))), 'kind': draw(st.sampled_from(['list', 'tuple', 'np', 'tt']))}


@st.composite
def many(draw):
    """Polynomials of many terms and variables."""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    n = draw(st.integers(4, 14))
    poly = {'terms': [[rng.choice([1, -1, 2, -3, 0.25, -1.5]), [rng.randrange(n) for _ in range(rng.randint(0, 2))]]
                      for _ in range(draw(st.integers(6, 40)))],
            'squares': [[rng.choice([1, -2, 0.5]), [[rng.choice([1, -1, 2]), rng.randrange(n)]
                                                    for _ in range(rng.randint(1, 12))], rng.randint(-3, 3)]
                        for _ in range(rng.randint(0, 1))], 'products': []}
    return {'poly': poly, 'style': draw(st.integers(0, 1)), 'm': draw(st.sampled_from([1, 2, -0.5])),
            'extra': draw(st.integers(0, 2))}


SUBTESTS = [
    Subtest('many-terms', lambda tier: many(), check_poly, 40, 600),
    Subtest('polynomials', lambda tier: st.fixed_dictionaries(
        {'poly': polys(), 'style': st.integers(0, 1), 'm': st.one_of(st.integers(-3, 3), st.sampled_from([0.5, -2.5])),
         'extra': st.integers(0, 2)}), check_poly, 500, 10000),
    Subtest('additions', additions, check_add, 500, 10000),
    Subtest('selections', selections, check_sel, 400, 5000),
    Subtest('linear-forms', vectors, check_products, 500, 10000),
    Subtest('graphs', graphs, check_net, 400, 6000),
    Subtest('random-matrices', lambda tier: st.fixed_dictionaries({'n': st.integers(1, 6)}), check_rands, 12, 100,
            shards=1),
    Subtest('many-body', nbody, check_nbody, 300, 5000),
]
ASSUMPTIONS = ['polynomials have degree at most two (after bits are squared), except in the reduction of '
               'many-body terms']
