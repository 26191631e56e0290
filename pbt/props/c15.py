"""Time evolution and application of Pauli terms on circuits against matrix exponentials."""
import math
import random

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp

import bq
import gen
import paulis
import ref
from core import Subtest, require

ID = 'C15'
RULE = ('terms with repeated and non-adjacent qubits, real, complex and numpy coefficients and several times, '
        'appended one after another to circuits in a generic entangled state (run in between or not) with the '
        'closures reused on several circuits; non-trivial: a term with at least two qubits or an X or Y')

MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}
NUM = {'int': int, 'float': float, 'complex': complex, 'f64': np.float64, 'i64': np.int64, 'c128': np.complex128}


def mk_term(spec):
    """{"ops": [[letter, qubit]], "kind":, "c": re, "im": im}"""
    t = bp.I.to_term()
    for l, q in spec['ops']:
        t = t * MAKE[l][q]
    c = spec['c']
    if spec['kind'] in ('complex', 'c128'):
        c = complex(c, spec['im'])
    t = t * NUM[spec['kind']](c)
    return t, paulis.canon(spec['ops'], complex(NUM[spec['kind']](c)))


def apply_word(key, v, n):
    for q, l in key:
        v = ref.apply(v, ref.PAULI[l], (q,), n)
    return v


def evolve(key, c, t, v, n):
    """exp(+i t c P) v"""
    a = t * c
    return math.cos(a) * v + 1j * math.sin(a) * apply_word(key, v, n)


def expected_state(n, prep, steps):
    v = ref.state(n, prep)
    for kind, key, a in steps:
        v = evolve(key, 1.0, a, v, n) if kind == 'evo' else apply_word(key, v, n)
    return v


def check(case, ctx):
    evos = []
    for spec in case['terms']:
        t, (key, c) = mk_term(spec)
        shown = repr(t)
        try:
            f = t.get_time_evolution()
        except ValueError:
            require(c.imag != 0, '(%s).get_time_evolution() raised, coefficient %s', shown, c)
            ctx.label('rejected')
            f = None
        else:
            require(c.imag == 0, '(%s).get_time_evolution() accepted the coefficient %s', shown, c)
        require(repr(t) == shown, 'the term was changed to %r', t)
        evos.append((f, t, key, c))
    circs = [{'c': bq.build_ops(m, [o for o in case['prep'] if fits(o, m)]), 'n': m,
              'prep': [o for o in case['prep'] if fits(o, m)], 'steps': [], 'phase': True}
             for m in case['sizes']]
    nontrivial = False
    for step in case['steps']:
        cs = circs[step['circ'] % len(circs)]
        f, t, key, c = evos[step['term'] % len(evos)]
        circ = cs['c']
        before = [str(o) for o in circ.ops]
        ids = [id(o) for o in circ.ops]
        if step['run']:
            circ.run()
        if step['how'] == 'evo':
            if f is None:
                continue
            time = NUM[step['tk']](step['t'])
            f(circ, time)
            if key:
                cs['steps'].append(('evo', key, float(time) * c.real))
            else:
                # a constant term only multiplies the state by a phase
                require(circ.n_qubits == cs['n'], 'a constant made the circuit grow')
                cs['phase'] = False
            nontrivial = nontrivial or (len(key) > 1 or any(l != 'Z' for _q, l in key)) and abs(c * time) > 1e-3
            ctx.label(f'{len(key)} qubits')
        else:
            if step['how'] == 'append':
                t.append_to_circuit(circ)
            else:
                t.append_to_circuit(circ, simplify=step['how'] == 'simplify')
            word = tuple((o.n, o.op) for o in t.ops) if step['how'] == 'raw' else key
            cs['steps'].append(('op', word, None))
            cs['phase'] = False
            ctx.label('append')
        low = max([cs['n']] + [q + 1 for q, _l in key])
        high = max([cs['n']] + [o.n + 1 for o in t.ops])
        require([str(o) for o in circ.ops][:len(before)] == before and
                [id(o) for o in circ.ops][:len(ids)] == ids, 'existing operations were changed: %r', circ)
        require(low <= circ.n_qubits <= high, '%d qubits after %s of %r on %d qubits', circ.n_qubits,
                step['how'], t, cs['n'])
        cs['n'] = circ.n_qubits
        verify(cs)
    for cs in circs:
        verify(cs)
        n_ops = len(cs['c'].ops)
        require(n_ops >= len(cs['prep']), 'operations were lost')
    ctx.interesting(nontrivial)


def fits(o, m):
    return max(ref.resolve1(o[2], m + 9)) < m if not isinstance(o[2], dict) else ref.mentioned_max(o[2]) < m


def verify(cs):
    n = cs['n']
    v = cs['c'].run()
    require(v.shape == (2 ** n,), 'shape %s on %d qubits', v.shape, n)
    want = expected_state(n, cs['prep'], cs['steps'])
    ok = ref.close(v, want, 1e-8) if cs['phase'] else ref.close_up_to_phase(v, want, 1e-8)
    require(ok, 'after %s the state is\n%s\nexpected%s\n%s', cs['steps'], v,
            '' if cs['phase'] else ' up to a phase', want)


@st.composite
def terms(draw, n, size):
    ops = draw(st.lists(st.tuples(st.sampled_from('XYZ'), st.integers(0, n - 1)).map(list), max_size=size))
    if draw(st.integers(0, 3)):
        # mostly one letter per qubit, in any order
        qs = draw(st.permutations(sorted({q for _l, q in ops})))
        first = {q: l for l, q in reversed(ops)}
        ops = [[first[q], q] for q in qs]
    kind = draw(st.sampled_from(['int', 'float', 'float', 'float', 'complex', 'f64', 'i64', 'c128']))
    c = draw(st.one_of(st.integers(-8, 8).map(lambda k: k / 4), st.floats(-3, 3, allow_nan=False)))
    im = 0.0
    if kind in ('complex', 'c128') and draw(st.booleans()):
        # dyadic, so that it is exact; it may be small next to the real part
        im = draw(st.integers(-8, 8)) / draw(st.sampled_from([4, 4, 2 ** 12, 2 ** 20]))
        c = draw(st.sampled_from([0.0, 0.0, 1.0, 1024.0, -64.5]))
    return {'ops': ops, 'kind': kind, 'c': c, 'im': im}


@st.composite
def cases(draw, tier):
    n = draw(st.integers(1, 4 if tier == 'quick' else 6))
    ts = draw(st.lists(terms(n, 2 * n), min_size=1, max_size=3))
    time = st.one_of(st.floats(-3, 3, allow_nan=False), st.sampled_from([0.0, 1.0, math.pi, -math.pi / 2, 7.5]))
    step = st.fixed_dictionaries({
        'circ': st.integers(0, 2), 'term': st.integers(0, 2), 'run': st.booleans(),
        'how': st.sampled_from(['evo', 'evo', 'evo', 'evo', 'append', 'simplify', 'raw']),
        't': time, 'tk': st.sampled_from(['float', 'float', 'f64', 'int'])})
    return {'terms': ts, 'prep': draw(gen.prep_ops(n)),
            'sizes': draw(st.lists(st.integers(0, n), min_size=1, max_size=2)) + [n],
            'steps': draw(st.lists(step, min_size=1, max_size=6))}


# ------------------------------------------------------------------ a whole basis of states, many qubits

@st.composite
def big(draw, tier):
    n = draw(st.integers(5, 12 if tier == 'quick' else 14))
    leave = draw(st.sampled_from([0, 0, 1, 3]))
    ops = [[draw(st.sampled_from('XYZ')), q] for q in draw(st.permutations(range(n)))][leave:]
    return {'n': n, 'ops': ops, 'c': draw(st.floats(-2, 2, allow_nan=False)),
            't': draw(st.floats(-2, 2, allow_nan=False)), 'angles': draw(st.lists(
                gen.generic_angles(), min_size=2 * n, max_size=2 * n))}


@st.composite
def repeated(draw):
    """Terms of many operators on few qubits, the product of which is real."""
    n = draw(st.integers(3, 4))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    ops = paulis.random_word(rng, n, draw(paulis.sizes()))
    c = paulis.canon(ops, 1 + 0j)[1]
    if c.imag:
        # X Y Z = i on one qubit
        ops += [['X', 0], ['Y', 0], ['Z', 0]]
    return {'n': n, 'ops': ops, 'c': draw(st.floats(-2, 2, allow_nan=False)),
            't': draw(st.floats(-2, 2, allow_nan=False)), 'angles': draw(st.lists(
                gen.generic_angles(), min_size=2 * n, max_size=2 * n))}


def check_big(case, ctx):
    n = case['n']
    prep = [['u3', [case['angles'][q], case['angles'][n + q], 0.3], q] for q in range(n)]
    prep += [['cz', [], {'t': [q, (q + 2) % n]}] for q in range(n - 1)]
    c = bq.build_ops(n, prep)
    t, (key, coeff) = mk_term({'ops': case['ops'], 'kind': 'float', 'c': case['c']})
    t.get_time_evolution()(c, case['t'])
    want = evolve(key, coeff.real, case['t'], ref.state(n, prep), n)
    got = c.run()
    ok = ref.close(got, want, 1e-8) if key else ref.close_up_to_phase(got, want, 1e-8)
    require(ok, 'exp(i %s %r) on %d qubits differs', case['t'], t, n)
    ctx.interesting(len(key) > 1)


SUBTESTS = [
    Subtest('histories', cases, check, 2400, 60000),
    Subtest('long-terms', big, check_big, 160, 3000),
    Subtest('repeated-operators', lambda tier: repeated(), check_big, 60, 1200),
]
ASSUMPTIONS = ['whether a coefficient is real is decided on dyadic coefficients, which simplification multiplies '
               'exactly']
