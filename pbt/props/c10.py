"""OpenQASM output: round trip through an independent parser and interpreter."""
import numpy as np
from hypothesis import strategies as st

import bq
import gen
import qasm2
import ref
from core import Subtest, require

ID = 'C10'
RULE = ('circuits over all gates (cu2 excepted, see KNOWN_FINDINGS.txt), address forms and angle '
        'magnitudes; the text is parsed by a strict OpenQASM 2.0 parser knowing only qelib1.inc and '
        'interpreted; non-trivial: at least two operations on at least two qubits')

NAMES = [g for g in gen.UNITARY if g != 'cu2']


def parse(text, what):
    try:
        return qasm2.parse(text)
    except qasm2.QasmError as e:
        require(False, '%s is not valid OpenQASM 2.0: %s\n%s', what, e, text)


def check_unitary(case, ctx):
    n, ops = case['N'], case['ops']
    c = bq.build(case)
    before = repr(c)
    text = c.to_qasm()
    require(isinstance(text, str), 'to_qasm returned %r', text)
    require(repr(c) == before, 'to_qasm changed the circuit')
    p = parse(text, 'the output')
    require(p.n_qubits == n and p.n_cbits == n, 'declares %s qubits and %s bits for %s qubits',
            p.n_qubits, p.n_cbits, n)
    require(ref.close_up_to_phase(qasm2.unitary(p), ref.unitary(n, ops), 1e-7),
            'the text describes another circuit: %s\n%s', c, text)
    # the same text however the backend is called, again and again
    for other in (c.run(backend='qasm_output'), c.run_with_qasm_output(), c.to_qasm(),
                  c.to_qasm(output_prologue=True), c.to_qasm(True)):
        require(other == text, 'another call gives another text:\n%s\n%s', text, other)
    _check_body(c, n, p, None)
    ctx.label(*(o[0] for o in ops))
    ctx.interesting(n >= 2 and len(ops) >= 2)


def same_instructions(a, b):
    if len(a) != len(b):
        return False
    for x, y in zip(a, b):
        if x[0] != y[0] or x[2:] != y[2:]:
            return False
        if x[0] == 'u':
            if not np.array_equal(x[1], y[1]):
                return False
        elif x != y:
            return False
    return True


def _check_body(c, n, p, _):
    full = c.to_qasm()
    for body in (c.to_qasm(output_prologue=False), c.to_qasm(False)):
        require('OPENQASM' not in body and 'qreg' not in body and 'creg' not in body
                and 'include' not in body, 'prologue in %s', body)
        try:
            q = qasm2.parse_body(body, n)
        except qasm2.QasmError as e:
            require(False, 'the output without prologue is not a list of statements: %s\n%s', e, body)
        require(same_instructions(p.instructions, q.instructions),
                'statements without prologue differ:\n%s\n%s', full, body)
        require([l for l in full.split('\n')][-len(body.split('\n')):] == body.split('\n')
                if body else not p.instructions, 'text without prologue differs:\n%s\n%s', full, body)


def check_measured(case, ctx):
    n, ops = case['N'], case['ops']
    c = bq.build(case)
    p = parse(c.to_qasm(), 'the output')
    require(p.n_qubits == n and p.n_cbits == n, 'declares %s qubits and %s bits', p.n_qubits, p.n_cbits)
    try:
        init = ref.state(n, case['prep'])
        want = qasm2.instrument(ref.branches(n, ops, limit=256, initial=init), 2 ** n)
        got = qasm2.instrument(qasm2.branches(p, limit=4096, initial=init), 2 ** n)
    except ValueError as e:
        if 'branches' in str(e):
            ctx.label('skipped: too many branches')
            return
        raise
    for bits in set(want) | set(got):
        z = np.zeros((2 ** n, 2 ** n))
        require(ref.close(got.get(bits, z), want.get(bits, z), 1e-7),
                'bits %s: state differs from the circuit %s\n%s', bits, c, c.to_qasm())
    _check_body(c, n, p, None)
    ctx.interesting(len(want) >= 2)


@st.composite
def measured(draw):
    case = draw(gen.circuit(1, 3, 5, names=NAMES + gen.NONUNITARY * 6, angle=gen.generic_angles()))
    case['prep'] = draw(gen.prep_ops(case['N']))
    return case


@st.composite
def wide_measured(draw):
    n = draw(st.integers(4, 5))
    case = draw(gen.wide(n, n, NAMES + gen.NONUNITARY * 8, 3))
    case['ops'].insert(draw(st.integers(0, len(case['ops']))),
                       [draw(st.sampled_from(['m', 'reset'])), [], draw(gen.index(n))])
    return case


def check_angle(case, ctx):
    """Every way Python prints a number is a valid OpenQASM real with the same value."""
    p = case['p']
    name = case['name']
    c = bq.Circuit(2)
    k = ref.n_qubits_of(name)
    params = [p] + [0.5] * (ref.n_args(name) - 1)
    params = params[case['rot']:] + params[:case['rot']]
    op = [name, params, 0 if k == 1 else {'t': [0, 1]}]
    bq.append(c, op)
    prog = parse(c.to_qasm(), 'the output')
    v = abs(ref.num(p))
    tol = 1e-7 + 1e-15 * v
    require(ref.close_up_to_phase(qasm2.unitary(prog), ref.unitary(2, [op]), tol),
            'angle %r of %s is written as another number: %s', p, name, c.to_qasm())
    ctx.interesting(v < 1e-4 or v > 1e4 or isinstance(p, list))


@st.composite
def repeated(draw):
    """Few operations on addresses which name qubits repeatedly."""
    n = draw(st.integers(1, 3))
    ops = [[g, [0.7, -1.1, 0.4][:ref.n_args(g)], {'t': draw(st.lists(gen.index(n), min_size=1, max_size=n + 1))}]
           for g in draw(st.lists(st.sampled_from(REPEATED), min_size=1, max_size=2))]
    return {'n': n, 'N': n, 'ops': ops, 'prep': draw(gen.prep_ops(n))}


REPEATED = ['reset', 'm'] * 6 + [g for g in NAMES if ref.n_qubits_of(g) == 1]


@st.composite
def angle_case(draw):
    name = draw(st.sampled_from([g for g in NAMES if ref.n_args(g)]))
    mag = st.builds(lambda m, e, s: s * m * 10.0 ** e, st.floats(1, 9.99), st.integers(-320, 8),
                    st.sampled_from([1, -1]))
    whole = st.builds(lambda m, e, s: s * float(m * 10 ** e), st.integers(1, 99), st.integers(-30, 8),
                      st.sampled_from([1, -1]))
    p = draw(st.one_of(mag, whole, st.integers(-10 ** 6, 10 ** 6),
                       mag.map(lambda x: ['f64', x]), whole.map(lambda x: ['f64', x]),
                       st.integers(-1000, 1000).map(lambda x: ['i64', x]),
                       st.sampled_from([0.0, -0.0, 1e-16, 1e-05, 1e16, 1e22, -1e-07, 5e-324]).filter(
                           lambda x: abs(x) < 1e8)))
    return {'name': name, 'p': p, 'rot': draw(st.integers(0, 2))}


EXPLICIT = []
for _g in NAMES:
    _k = ref.n_qubits_of(_g)
    EXPLICIT.append({'n': 3, 'N': 3, 'ops': [[_g, [0.7, -1.1, 0.4][:ref.n_args(_g)],
                                             1 if _k == 1 else {'t': [2, 0]} if _k == 2 else
                                             {'t': [2, 0, 1]}]]})


def cu2_still_undefined():
    try:
        qasm2.parse(bq.Circuit(2).cu2(0.3, 0.4)[0, 1].to_qasm())
    except qasm2.QasmError:
        return True
    return False


KNOWN = [{'id': 'cu2', 'still_fails': cu2_still_undefined}]

SUBTESTS = [
    Subtest('unitary', lambda tier: gen.circuit(1, 4, 7, names=NAMES), check_unitary, 1400, 40000,
            explicit=EXPLICIT),
    Subtest('measured', lambda tier: measured(), check_measured, 800, 20000),
    Subtest('long-circuits', lambda tier: gen.long_circuit(names=NAMES), check_unitary, 40, 800),
    Subtest('thousands-of-operations', lambda tier: gen.long_circuit(names=NAMES, lengths=gen.THOUSANDS), check_unitary,
            8, 200),
    Subtest('large-registers', lambda tier: gen.wide(5, 7, NAMES), check_unitary, 60, 1200),
    Subtest('measured-large-registers', lambda tier: wide_measured(), check_measured, 120, 2000),
    Subtest('repeated-addresses', lambda tier: repeated(), check_measured, 600, 12000),
    Subtest('angles', lambda tier: angle_case(), check_angle, 800, 20000),
]
ASSUMPTIONS = ['qelib1.inc of the OpenQASM 2.0 paper plus rxx, rzz of later releases',
               'registers of size zero cannot be declared in OpenQASM, so circuits have >= 1 qubit']
