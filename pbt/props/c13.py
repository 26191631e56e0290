"""Simplification, equality, hashing, commutators and conversions of Pauli expressions, exactly."""
import copy
import pickle
import random

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp

import paulis
from core import Subtest, require

ID = 'C13'
RULE = ('let-programs with exactly representable coefficients (dyadic rationals, so both the library and the '
        'reference compute without rounding); every value is compared with a dictionary {Pauli product: '
        'coefficient}, and every pair of values for equality in both directions, hash, commutator and '
        'commutability; non-trivial: a program with two equal values of different form, or a pair which does '
        'not commute')

KINDS = ['int', 'int', 'float', 'float', 'complex', 'complex', 'f64', 'i64', 'c128']
SCALARS = (int, float, complex, np.number)
MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}


def is_num(v):
    return isinstance(v, SCALARS)


def kind_of(v):
    return 'expr' if hasattr(v, 'terms') else 'term' if hasattr(v, 'coeff') else 'pauli'


def fits(d):
    """Products of two such operators are still computed without rounding."""
    for c in d.values():
        for x in (c.real, c.imag):
            if abs(x) > 256 or x * 4096 != int(x * 4096):
                return False
    return len(d) <= 40


def run_program(prog):
    vals, refs = [], []

    def push(v, d):
        if fits(d) and (is_num(v) or len(v.to_expr().terms) <= 60):
            vals.append(v)
            refs.append(d)

    for ins in prog:
        k = ins[0]
        if k == 'p':
            push(MAKE[ins[1]][ins[2]], {((ins[2], ins[1]),): 1 + 0j})
        elif k == 'i':
            push(bp.I if len(vals) % 2 else bp.I(), {(): 1 + 0j})
        elif k == 'num':
            v = paulis.number(*ins[1:])
            push(v, {(): complex(v)} if v else {})
        else:
            pos = ins[1] if k == 'sum' else ins[1:2] if k in ('neg', 'term', 'expr', 'pow') else ins[1:3]
            sel = [len(vals) - 1 - i % len(vals) for i in pos]
            a = [vals[i] for i in sel]
            d = [refs[i] for i in sel]
            if all(is_num(x) for x in a):
                continue
            if k == 'add':
                push(a[0] + a[1], paulis.add(d[0], d[1]))
            elif k == 'sub':
                push(a[0] - a[1], paulis.add(d[0], d[1], -1))
            elif k == 'mul':
                push(a[0] * a[1], paulis.mul(d[0], d[1]))
            elif k == 'neg':
                push(-a[0], paulis.add({}, d[0], -1))
            elif k == 'term' and hasattr(a[0], 'to_term'):
                push(a[0].to_term(), d[0])
            elif k == 'expr':
                push(a[0].to_expr(), d[0])
            elif k == 'pow' and 0 <= ins[2] <= 2:
                push(a[0] ** ins[2], [{(): 1 + 0j}, d[0], paulis.mul(d[0], d[0])][ins[2]])
            elif k == 'sum':
                m = {}
                for x in d:
                    m = paulis.add(m, x)
                push(sum(a), m)
            elif k == 'simplify':
                if hasattr(a[0], 'simplify'):
                    push(a[0].simplify(), d[0])
    out = [(v, d) for v, d in zip(vals, refs) if not is_num(v)]
    return out[-7:]


def canonical(v, d, what):
    require(isinstance(v, bp.Expr), '%s is %r', what, type(v))
    seen = {}
    for t in v.terms:
        qs = [o.n for o in t.ops]
        require(all(o.op in 'XYZ' for o in t.ops) and qs == sorted(set(qs)),
                '%s has the uncanonical product %r', what, t)
        require(t.coeff != 0, '%s has a zero term: %r', what, v)
        k = tuple((o.n, o.op) for o in t.ops)
        require(k not in seen, '%s has two terms for %r: %r', what, k, v)
        seen[k] = complex(t.coeff)
    require(seen == d, '%s is %s, expected %s', what, seen, d)


def form(v):
    return [(t.ops, complex(t.coeff)) for t in v.to_expr().terms]


def check_value(v, d, mentioned):
    shown = repr(v)
    kind = kind_of(v)
    require(paulis.from_library(v) == d, '%s denotes %s, expected %s', shown, paulis.from_library(v), d)
    top = max([k[-1][0] for k in d if k], default=-1)
    require(v.n_qubits >= top + 1 and v.n_qubits <= mentioned + 1, '%s has n_qubits %s', shown, v.n_qubits)
    if kind == 'pauli':
        require(v.is_identity == (d == {(): 1}) and v.n_qubits == top + 1, '%s: is_identity %s, n_qubits %s',
                shown, v.is_identity, v.n_qubits)
        require(hash(v) == hash(copy.copy(v)), 'hash of %s is not stable', shown)
    else:
        ns = [o.n for t in v.to_expr().terms for o in t.ops]
        if kind == 'term' and v.coeff != 0:
            require(list(v.n_iter()) == [o.n for o in v.ops], 'n_iter of %s', shown)
        if not (kind == 'term' and v.coeff == 0):
            require(v.max_n() == max(ns, default=-1), 'max_n of %s is %s', shown, v.max_n())
        require(v.n_qubits == v.max_n() + 1, 'n_qubits of %s is %s', shown, v.n_qubits)
        s = v.simplify()
        require(repr(v) == shown, 'simplify changed its operand: %s -> %r', shown, v)
        require(type(s) is type(v), 'simplify of %s is a %r', shown, type(s))
        s2 = s.simplify()
        require(form(s2) == form(s) and s2 == s and s == s2, 'simplify is not idempotent: %s -> %r -> %r', shown, s, s2)
        if kind == 'term':
            qs = [o.n for o in s.ops]
            require(qs == sorted(set(qs)) and all(o.op in 'XYZ' for o in s.ops),
                    '%s simplifies to %r', shown, s)
            require(paulis.from_library(s) == d, '%s simplifies to %r', shown, s)
            if d:
                require(s.n_qubits == top + 1, '%s simplifies to %r with n_qubits %s', shown, s, s.n_qubits)
        else:
            canonical(s, d, f'simplified {shown}')
            require(s.max_n() == top and s.n_qubits == top + 1, 'qubits of %r', s)
        require(s == v and v == s and not s != v, '%s differs from its simplified form %r', shown, s)
        if kind == 'expr':
            require(bool(s.is_identity) is (d == {(): 1}) and (not v.is_identity or d == {(): 1}),
                    'is_identity of %s is %s, simplified %s', shown, v.is_identity, s.is_identity)
        elif top >= 0 or not v.ops and d == {(): 1}:
            require(bool(v.is_identity) is (top < 0), 'is_identity of %s is %s', shown, v.is_identity)
    canonical(bp.to_expr(v).simplify(), d, f'simplified expression {shown}')
    if kind == 'expr':
        require(list(v) == list(v.terms) and list(v.coeffs()) == [t.coeff for t in v.terms],
                'iteration over %s', shown)
    for w in [copy.copy(v), copy.deepcopy(v)] + [pickle.loads(pickle.dumps(v, p)) for p in range(2, 6)]:
        require(type(w) is type(v) and repr(w) == shown and w == v and paulis.from_library(w) == d,
                'copied or pickled %s becomes %r', shown, w)
        if kind == 'pauli':
            require(hash(w) == hash(v), 'hash of a copy of %s', shown)
    require(repr(v) == shown, '%s was changed to %r', shown, v)


def norm2(d):
    return sum(abs(c) ** 2 for c in d.values())


def check_pair(a, da, b, db):
    same = da == db
    require(bool(a == b) is same and bool(b == a) is same, '%r == %r is %s/%s, expected %s', a, b, a == b, b == a, same)
    require(bool(a != b) is not same and bool(b != a) is not same, '%r != %r is wrong', a, b)
    for f in ('X', None, [], object()):
        require((a == f) is False and (f == a) is False and (a != f) is True and (f != a) is True,
                '%r == %r is %r, %r != %r is %r', a, f, a == f, a, f, a != f)
    if kind_of(a) == kind_of(b) == 'pauli' and same:
        require(hash(a) == hash(b), 'hash of equal operators %r and %r', a, b)
    if len(da) * len(db) > 120:
        return same, False
    comm = paulis.add(paulis.mul(da, db), paulis.mul(db, da), -1)
    got = bp.commutator(a, b)
    canonical(got, comm, f'commutator of {a!r} and {b!r}')
    if kind_of(a) != 'pauli':
        canonical(a.commutator(b), comm, f'({a!r}).commutator({b!r})')
    x = norm2(comm)
    if x == 0 or x > 1e-7:
        require(bool(bp.is_commutable(a, b)) is (x == 0), 'is_commutable(%r, %r)', a, b)
        if kind_of(a) != 'pauli':
            require(bool(a.is_commutable_with(b)) is (x == 0), '(%r).is_commutable_with(%r)', a, b)
    require(bool(bp.is_commutable(a, b, x * 2 + 1e-9)) and not bp.is_commutable(a, b, x / 2 - 1e-300),
            'is_commutable(%r, %r) ignores eps: |[a, b]|^2 is %s', a, b, x)
    return same, x != 0


def check(case, ctx):
    vals = run_program(case['prog'])
    mentioned = max([i[2] for i in case['prog'] if i[0] == 'p'], default=-1)
    nontrivial = False
    for v, d in vals:
        check_value(v, d, mentioned)
        ctx.label(kind_of(v))
        if kind_of(v) == 'expr':
            es = [{k: c} for t in v.terms for k, c in [paulis.canon([(o.op, o.n) for o in t.ops],
                                                                   complex(t.coeff))]]
            commute = True
            margin = True
            for i in range(len(es)):
                for j in range(i):
                    x = norm2(paulis.add(paulis.mul(es[i], es[j]), paulis.mul(es[j], es[i]), -1))
                    commute = commute and x == 0
                    margin = margin and (x == 0 or x > 1e-7)
            if margin:
                require(bool(v.is_all_terms_commutable()) is commute, 'is_all_terms_commutable of %r', v)
    for i, (a, da) in enumerate(vals):
        for b, db in vals[:i + 1]:
            same, noncomm = check_pair(a, da, b, db)
            if same and repr(a) != repr(b):
                nontrivial = True
                ctx.label(f'equal {kind_of(a)} {kind_of(b)}')
            if noncomm:
                nontrivial = True
                ctx.label('not commuting')
    ctx.interesting(nontrivial)


# ------------------------------------------------------------------ equal by construction

def rearranged(draw, terms):
    """Another way of writing a sum of products: order of commuting factors, split coefficients, squares."""
    out = []
    for ops, c in terms:
        parts = [c]
        if draw(st.booleans()):
            x = draw(st.integers(-8, 8)) / 4
            parts = [x, c - x]
        for p in parts:
            qs = {}
            for l, q in ops:
                qs.setdefault(q, []).append([l, q])
            order = draw(st.permutations(sorted(qs)))
            new = [o for q in order for o in qs[q]]
            if draw(st.booleans()):
                pos = draw(st.integers(0, len(new)))
                l, q = draw(st.sampled_from('XYZ')), draw(st.integers(0, 3))
                new[pos:pos] = [[l, q], [l, q]]
            out.append([new, p])
    return draw(st.permutations(out))


@st.composite
def twins(draw):
    word = st.lists(st.tuples(st.sampled_from('XYZ'), st.integers(0, 3)).map(list), max_size=4)
    terms = draw(st.lists(st.tuples(word, st.integers(-8, 8).map(lambda k: k / 4)).map(list), max_size=4))
    a, b = rearranged(draw, terms), rearranged(draw, terms)
    tweak = draw(st.sampled_from(['none', 'none', 'coeff', 'imag', 'letter', 'drop']))
    b = [list(t) for t in b]
    if b and tweak != 'none':
        i = draw(st.integers(0, len(b) - 1))
        if tweak == 'coeff':
            b[i][1] = b[i][1] + 2.0 ** -10
        elif tweak == 'imag':
            b[i] = [b[i][0], b[i][1], 2.0 ** -10]
        elif tweak == 'drop':
            del b[i]
        elif b[i][0]:
            j = draw(st.integers(0, len(b[i][0]) - 1))
            b[i][0] = [list(o) for o in b[i][0]]
            b[i][0][j][0] = draw(st.sampled_from('XYZ'))
    return {'a': a, 'b': b}


def mk(terms):
    v, d = bp.Expr.zero(), {}
    for ops, *c in terms:
        t = bp.I.to_term()
        for l, q in ops:
            t = t * MAKE[l][q]
        c = complex(*c) if len(c) == 2 else c[0]
        v = v + t * c
        d = paulis.add(d, dict([paulis.canon(ops, complex(c))]))
        d = {k: x for k, x in d.items() if x != 0}
    return v, d


def check_twins(case, ctx):
    a, da = mk(case['a'])
    b, db = mk(case['b'])
    check_value(a, da, case.get('nq', 4) - 1)
    check_value(b, db, case.get('nq', 4) - 1)
    check_pair(a, da, b, db)
    if len(a.terms) == 1 and len(b.terms) == 1:
        (ta,), (tb,) = a.terms, b.terms
        check_pair(ta, da, tb, db)
        check_pair(ta, da, b, db)
    ctx.label('equal' if da == db else 'different')
    ctx.interesting(repr(a) != repr(b) and bool(da))


@st.composite
def many(draw, lengths=None):
    """Long sums of long products, written in two ways."""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    nq = draw(st.sampled_from([3, 4, 4, 12]))
    long = not lengths and draw(st.booleans())
    terms = [[paulis.random_word(rng, nq, draw(paulis.sizes()) if long else rng.randint(0, 4)), paulis.quarter(rng)]
             for _ in range(draw(st.integers(1, 4)) if long else draw(lengths or paulis.sizes(60)))]
    b = []
    for ops, c in terms:
        by = {}
        for l, q in ops:
            by.setdefault(q, []).append([l, q])
        order = list(by)
        rng.shuffle(order)
        new = [o for q in order for o in by[q]]
        at = rng.randrange(len(new) + 1)
        l, q = rng.choice('XYZ'), rng.randrange(nq)
        new[at:at] = [[l, q]] * rng.choice([0, 2, 4])
        x = paulis.quarter(rng)
        b += [[new, c]] if rng.random() < 0.6 else [[new, x], [new, c - x]]
    rng.shuffle(b)
    if draw(st.booleans()):
        k = rng.randrange(len(b))
        b[k] = [b[k][0], b[k][1] + 2.0 ** -10]
    return {'a': terms, 'b': b, 'nq': nq}


# ------------------------------------------------------------------ coefficients of any magnitude

@st.composite
def magnitudes(draw):
    """Terms of very different size; the parts of one product have one scale, so nothing rounds."""
    keys = draw(st.lists(st.lists(st.tuples(st.integers(0, 3), st.sampled_from('XYZ')), max_size=3,
                                  unique_by=lambda o: o[0]).map(lambda o: sorted(o)),
                         min_size=1, max_size=4, unique_by=repr))
    a, b = [], []
    for key in keys:
        word = [[l, q] for q, l in key]
        e = draw(st.one_of(st.integers(-70, 40), st.integers(-320, 320), st.just(0)))
        re, im = draw(st.integers(-8, 8)), draw(st.sampled_from([0, 0, 1, -5]))
        for side in (a, b):
            x = draw(st.one_of(st.none(), st.integers(-8, 8)))
            for p in ([(re, im)] if x is None else [(x, im), (re - x, 0)]):
                side.append([draw(st.permutations(word)), p[0] * 2.0 ** e, p[1] * 2.0 ** e])
    a, b = draw(st.permutations(a)), draw(st.permutations(b))
    if draw(st.booleans()):
        i = draw(st.integers(0, len(b) - 1))
        b = b[:i] + b[i + 1:]
    return {'a': a, 'b': b}


def check_magnitudes(case, ctx):
    a, da = mk(case['a'])
    b, db = mk(case['b'])
    for v, d in ((a, da), (b, db)):
        check_value(v, d, 3)
        canonical(v.simplify(), d, f'simplified {v!r}')
        require(bool(v == bp.Expr.zero()) is (not d) and bool(v != 0 * bp.Z[0]) is bool(d), '%r compared with zero', v)
        if len(v.terms) == 1:
            t = v.terms[0]
            require(paulis.from_library(t.simplify()) == d and t == v and v == t.simplify(),
                    '%r simplifies to %r', t, t.simplify())
    same = da == db
    require(bool(a == b) is same and bool(b == a) is same and bool(a != b) is not same, '%r == %r is %s', a, b, a == b)
    sizes = {abs(c) for d in (da, db) for c in d.values()}
    ctx.label('equal' if same else 'different')
    ctx.interesting(bool(sizes) and (max(sizes) > 2.0 ** 20 * min(sizes) or max(sizes) < 1e-6))


# ------------------------------------------------------------------ one clash among many

def check_clash(case, ctx):
    keys = [paulis.canon(w, 1)[0] for w in case['words']]
    terms = []
    for w, c in zip(case['words'], case['c']):
        t = bp.I.to_term()
        for l, q in w:
            t = t * MAKE[l][q]
        terms.append(t * c)
    pairs = [(i, j) for i in range(len(keys)) for j in range(i) if paulis.anticommute(keys[i], keys[j])]
    e = bp.Expr.zero()
    for t in terms:
        e = e + t
    for v in (e, e.simplify(), bp.Expr(tuple(terms)), bp.Expr(tuple(terms[::-1]))):
        require(bool(v.is_all_terms_commutable()) is not bool(pairs), 'is_all_terms_commutable of %r', v)
    for i, a in enumerate(terms):
        for j, b in enumerate(terms[:i]):
            clash = (i, j) in pairs
            require(bool(a.is_commutable_with(b)) is not clash and bool(bp.is_commutable(b, a)) is not clash, '%r and %r', a, b)
    ctx.label(f'{len(pairs)} clashes')
    ctx.interesting(len(pairs) == 1 and len(keys) > 2)


# ------------------------------------------------------------------ sums which meet on few qubits

@st.composite
def separated(draw):
    """Two sums, the first on low and the second on high qubits (or the other way round), but for a few words."""
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    cut, top = draw(st.integers(1, 6)), draw(st.integers(8, 14))

    def word(lo, hi):
        return [[rng.choice('XYZ'), q] for q in rng.sample(range(lo, hi), min(rng.randint(1, 3), hi - lo))]
    a = [[word(0, cut), paulis.quarter(rng)] for _ in range(draw(st.integers(1, 6)))]
    b = [[word(cut, top), paulis.quarter(rng)] for _ in range(draw(st.integers(1, 6)))]
    for x in draw(st.lists(st.booleans(), min_size=1, max_size=2)):
        x = a if x else b
        w = word(0, top)
        # at the end, as often as not: of the words as written, and after sorting
        x.insert(draw(st.sampled_from([0, len(x), len(x), rng.randint(0, len(x))])), [w, paulis.quarter(rng)])
    if draw(st.booleans()):
        (a if draw(st.booleans()) else b).append([[], paulis.quarter(rng)])
    return {'a': b, 'b': a} if draw(st.booleans()) else {'a': a, 'b': b}


def check_separated(case, ctx):
    a, da = mk(case['a'])
    b, db = mk(case['b'])
    ab, ba = paulis.mul(da, db), paulis.mul(db, da)
    want = {k: v for k, v in paulis.add(ab, {k: -v for k, v in ba.items()}).items() if v}
    for x, y, sign in ((a, b, 1), (b, a, -1), (a.simplify(), b, 1), (b, a.simplify(), -1)):
        got = {k: v for k, v in paulis.from_library(bp.commutator(x, y)).items() if v}
        require(got == {k: sign * v for k, v in want.items()}, 'commutator of %r and %r is %s', x, y, got)
        require(bool(bp.is_commutable(x, y)) is not bool(want), 'is_commutable of %r and %r', x, y)
    ctx.label('clash' if want else 'commuting')
    ctx.interesting(bool(want) and len(want) <= 2 * min(len(da), len(db)) and len(da) + len(db) > 3)


# ------------------------------------------------------------------ operators as set members, characters

def check_paulis(case, ctx):
    g = [bp.I if l == 'I' else MAKE[l](q) for l, q in case['ops']]
    keys = [('I',) if l == 'I' else (l, q) for l, q in case['ops']]
    require(len(set(g)) == len(set(keys)), 'set(%r) has %d elements', g, len(set(g)))
    d = {}
    for v, k in zip(g, keys):
        d[v] = d.get(v, 0) + 1
    for v, k in zip(g, keys):
        require(d[v] == keys.count(k), 'dictionary lookup of %r', v)
    for v, k in zip(g, keys):
        for w, l in zip(g, keys):
            for x in (v, v.to_term(), v.to_expr()):
                for y in (w, w.to_term(), w.to_expr()):
                    require(bool(x == y) is (k == l) and bool(x != y) is (k != l), '%r == %r is %s', x, y, x == y)
    ctx.interesting(len(set(keys)) not in (1, len(keys)))


def check_chars(case, ctx):
    s = case['s']
    bad = [ch for ch in s if ch not in 'XYZI']
    n = len(s)
    for f, pos in ((bp.term_from_chars, lambda i: n - 1 - i), (bp.Term.from_chars, lambda i: i)):
        try:
            t = f(s)
        except ValueError:
            require(bad, '%s(%r) raised', f.__name__, s)
            continue
        require(not bad, '%s(%r) gave %r', f.__name__, s, t)
        require(isinstance(t, bp.Term), '%s(%r) is a %r', f.__name__, s, type(t))
        d = {tuple(sorted((pos(i), ch) for i, ch in enumerate(s) if ch != 'I')): 1}
        require(paulis.from_library(t) == d, '%s(%r) is %r', f.__name__, s, t)
    for i, ch in enumerate(s):
        try:
            v = bp.pauli_from_char(ch, i)
        except ValueError:
            require(ch in bad, 'pauli_from_char(%r)', ch)
            continue
        require(ch not in bad, 'pauli_from_char(%r) gave %r', ch, v)
        require(v == (bp.I if ch == 'I' else MAKE[ch][i]), 'pauli_from_char(%r, %d) gave %r', ch, i, v)
        if ch != 'I':
            require(bp.pauli_from_char(ch) == MAKE[ch][0], 'pauli_from_char(%r)', ch)
    ctx.label('rejected' if bad else 'accepted')
    ctx.interesting(len(set(s)) > 1 and not bad)


PROG = paulis.programs(3, 10, KINDS, ops=('add', 'sub', 'mul', 'neg', 'term', 'expr', 'pow', 'sum'))
LONG = paulis.programs(3, 16, KINDS, ops=('add', 'sub', 'mul', 'neg', 'term', 'expr', 'pow', 'sum'))
WIDE = paulis.programs(12, 8, KINDS, ops=('add', 'sub', 'mul', 'neg', 'term', 'expr', 'sum'), min_leaves=3)
LETTERS = st.tuples(st.sampled_from('IXYZ'), st.integers(0, 2)).map(list)

SUBTESTS = [
    Subtest('programs', lambda tier: st.fixed_dictionaries(
        {'prog': PROG if tier == 'quick' else LONG}), check, 1600, 40000),
    Subtest('programs-on-many-qubits', lambda tier: st.fixed_dictionaries({'prog': WIDE}), check, 400, 10000),
    Subtest('rearranged-sums', lambda tier: twins(), check_twins, 1600, 40000),
    Subtest('many-operators', lambda tier: many(), check_twins, 100, 2000),
    Subtest('hundreds-of-terms', lambda tier: many(st.sampled_from(paulis.HUNDREDS)), check_twins, 16, 300),
    Subtest('magnitudes', lambda tier: magnitudes(), check_magnitudes, 600, 15000),
    Subtest('one-clash', lambda tier: st.fixed_dictionaries({
        'words': paulis.nearly_commuting(), 'c': st.lists(st.sampled_from([1, -1, 0.5, 2.0, -3.25]),
                                                          min_size=6, max_size=6)}), check_clash, 400, 10000),
    Subtest('sums-which-meet-on-few-qubits', lambda tier: separated(), check_separated, 500, 12000),
    Subtest('operators-as-keys', lambda tier: st.fixed_dictionaries(
        {'ops': st.lists(LETTERS, min_size=2, max_size=6)}), check_paulis, 400, 8000),
    Subtest('characters', lambda tier: st.fixed_dictionaries(
        {'s': st.one_of(st.text('XYZI', max_size=12), st.text('XYZI', max_size=12),
                        st.text('XYZIWA10 *', max_size=6))}), check_chars, 600, 12000),
]
ASSUMPTIONS = ['coefficients are multiples of 2^-12 of magnitude at most 256, so that no operation rounds',
               'hash is only required of single operators (terms and expressions are not hashable)']
