"""Round trip through the printed form."""
import warnings

import numpy as np
from hypothesis import strategies as st

from blueqat import Circuit
from blueqat.experimental import Ops

import bq
import gen
import ref
import simcheck
from core import Subtest, require

ID = 'C24'
RULE = ('circuits and operation lists of every gate with integer and float parameters of any magnitude and every '
        'form of address, made by appending, concatenation, copy and conjugation; evaluating the printed form '
        'gives the same size, printed form, parameters and results; non-trivial: at least one parametric gate or '
        'an address which is not a plain integer')

OPS_NAMES = [g for g in gen.UNITARY if g not in ('rxx', 'ryy', 'rzz', 'cswap')]
SLICE = {'slice': slice, '__builtins__': {}}


def make(case):
    if case['what'] == 'circuit':
        c = bq.build(case)
    else:
        c = Ops(case['n']) if case['n'] else Ops()
        for o in case['ops']:
            c = bq.append(c, o)
    for how, arg in case['then']:
        if how == 'dagger':
            c = c.dagger(ignore_measurement=True) if case['what'] == 'circuit' and \
                any(o[0] in ref.OPS1 for o in case['ops']) else c.dagger()
        elif how == 'copy' and case['what'] == 'circuit':
            c = c.copy()
        elif how == 'add':
            c = c + (Circuit(arg) if case['what'] == 'circuit' else Ops(arg))
        elif how == 'radd':
            c = (Circuit(arg) if case['what'] == 'circuit' else Ops(arg)) + c
        elif how == 'run' and case['what'] == 'circuit' and case['runnable']:
            c.run()
    return c


def check(case, ctx):
    c = make(case)
    s = repr(c)
    kind = Circuit if case['what'] == 'circuit' else Ops
    try:
        d = eval(s, dict(SLICE, Circuit=Circuit, Ops=Ops))
    except Exception as e:
        require(False, 'the printed form %s does not evaluate: %s: %s', s, type(e).__name__, e)
    require(type(d) is kind, '%s evaluates to %r', s, d)
    require(d.n_qubits == c.n_qubits, '%s evaluates to a register of %s qubits, expected %s', s, d.n_qubits,
            c.n_qubits)
    require(repr(d) == s, '%s evaluates to %r', s, d)
    require(len(d.ops) == len(c.ops), '%s evaluates to %s operations, expected %s', s, len(d.ops), len(c.ops))
    for g, h in zip(c.ops, d.ops):
        require(type(g) is type(h), '%s evaluates to %r', s, h)
        require(len(g.params) == len(h.params) and
                all(a == b and type(a) is type(b) for a, b in zip(g.params, h.params)),
                'the parameters %s of %s evaluate to %s', g.params, g, h.params)
    require(str(c) == s and repr(c) == s, 'the printed form changed to %r', c)
    ctx.label(case['what'], *[h for h, _a in case['then']])
    ctx.interesting(any(o[1] or not isinstance(o[2], int) for o in case['ops']))
    if kind is Ops:
        c, d = c.to_circuit(), d.to_circuit()
    if not case['runnable'] or any(o[0] in ref.OPS1 for o in case['ops']) or c.n_qubits > 5:
        return
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        for k in range(min(2 ** c.n_qubits, 4)):
            prep = Circuit(c.n_qubits)
            for q in range(c.n_qubits):
                if (k >> q) & 1:
                    prep.x[q]
            if k == 3:
                prep.h[:].t[:]
            a, b = (prep + c).run(ignore_global=False), (prep + d).run(ignore_global=False)
            require(a.shape == b.shape and np.allclose(a, b, atol=1e-10), '%s evaluates to a circuit which gives '
                    '%s, expected %s', s, b, a)
    if not case['then'] or all(h == 'copy' for h, _a in case['then']):
        v, want = d.run(), ref.state(c.n_qubits, case['ops'])
        ok = (ref.close_up_to_phase if simcheck.has_free_phase(case['ops']) else ref.close)(v, want, 1e-7)
        require(ok, '%s evaluates to a circuit which gives %s, expected %s', s, v, want)


def plain_params():
    return st.one_of(
        st.sampled_from(gen.SPECIAL), st.floats(-10, 10), st.integers(-9, 9),
        st.floats(allow_nan=False, allow_infinity=False), st.sampled_from([-0.0, 1e-300, -5e-324, 1e22, 1e16,
                                                                           123456789.12345678, 0.1 + 0.2]),
        st.integers(-10**20, 10**20), st.booleans())


def overlapping(o, n):
    """A two-qubit operation on several pairs: its conjugate is in another order."""
    if ref.n_qubits_of(o[0]) != 2:
        return False
    try:
        pairs = ref.resolve(o[0], o[2], n)
    except (IndexError, ValueError):
        return True
    qs = [q for p in pairs for q in p]
    return len(set(qs)) != len(qs)


def resolvable(ops, n):
    try:
        for o in ops:
            ref.resolve(o[0], o[2], n)
    except (IndexError, ValueError):
        return False
    return True


@st.composite
def programs(draw, tier):
    what = draw(st.sampled_from(['circuit', 'circuit', 'ops']))
    names = (gen.UNITARY if what == 'circuit' else OPS_NAMES) + ['m', 'measure']
    names = names + ['reset'] if what == 'circuit' else names
    small = draw(st.booleans())
    par = st.one_of(st.floats(-7, 7), st.integers(-7, 7), st.sampled_from(gen.SPECIAL)) if small else plain_params()
    n = draw(st.integers(1, 5))
    if draw(st.integers(0, 3)):
        names = [g for g in names if g not in ref.OPS1]
    ops = draw(st.lists(gen.op(n, names, par), max_size=8))
    if draw(st.integers(0, 5)) == 0:
        # slices and indices of any size, tuples of tuples are not addresses
        big = st.one_of(st.none(), st.integers(-40, 40))
        ops.append([draw(st.sampled_from([g for g in names if ref.n_qubits_of(g) == 1])), None,
                    {'s': [draw(big), draw(big), draw(st.one_of(st.none(), st.integers(1, 9), st.integers(-9, -1)))]}])
        ops[-1][1] = [draw(par) for _ in range(ref.n_args(ops[-1][0]))]
    n0 = draw(st.integers(0, n))
    final = ref.final_n(n0, ops)
    then = draw(st.lists(st.sampled_from(['dagger', 'copy', 'add', 'radd', 'run']), max_size=2))
    then = [[h, draw(st.integers(0, 6))] for h in then]
    if any(h == 'dagger' for h, _a in then) and \
            (any(overlapping(o, m) for o in ops for m in range(max(final, 1), 7))
             or (what == 'ops' and any(o[0] in ref.OPS1 for o in ops))):
        then = [t for t in then if t[0] != 'dagger']
    ok = small and final <= 5 and resolvable(ops, final)
    if any(h in ('add', 'radd') and a > final for h, a in then):
        ok = ok and all(resolvable(ops, m) for m in range(final, 7))
    return {'what': what, 'n': n0, 'ops': ops, 'then': then, 'runnable': ok}


@st.composite
def long_programs(draw, lengths=None):
    what = draw(st.sampled_from(['circuit', 'ops']))
    c = draw(gen.long_circuit(4, (gen.UNITARY if what == 'circuit' else OPS_NAMES) + ['m'],
                              lengths))
    then = [[draw(st.sampled_from(['copy', 'add', 'radd', 'run'])), draw(st.integers(0, c['N']))]
            for _ in range(draw(st.integers(0, 1)))]
    return {'what': what, 'n': draw(st.sampled_from([c['N'], c['N'] + 2, 12, 100, 1000])), 'ops': c['ops'],
            'then': then, 'runnable': False}


SUBTESTS = [Subtest('programs', programs, check, 3000, 100000),
            Subtest('long-programs', lambda tier: long_programs(), check, 60, 1200),
            Subtest('a-thousand-operations', lambda tier: long_programs([k for k in gen.THOUSANDS if k < 1100]), check,
                    8, 200)]
ASSUMPTIONS = ['conjugates of one gate applied to several overlapping pairs are excluded: their order of pairs has '
               'no notation', 'parameters are finite Python int, float or bool']
