"""The Qiskit route: circuit handed over, counts, return kinds; and user-supplied OpenQASM runners."""
import warnings

import numpy as np
from hypothesis import strategies as st

warnings.simplefilter('ignore')
import qiskit  # noqa: E402
from qiskit.quantum_info import Operator  # noqa: E402

import bq  # noqa: E402
import gen  # noqa: E402
import qasm2  # noqa: E402
import ref  # noqa: E402
import simcheck  # noqa: E402
from core import Subtest, require  # noqa: E402

ID = 'C11'
RULE = ('circuits over all gates and address forms; operator of the Qiskit circuit against the reference '
        'unitary, counts of measured circuits against the exact distribution (p < 1e-9 rejects), return '
        'kinds, and generated third-party OpenQASM runners; non-trivial: >= 2 qubits and >= 2 operations, '
        'for counts an outcome that is not a palindrome')


def check_operator(case, ctx):
    n, ops = case['N'], case['ops']
    c = bq.build(case)
    before = repr(c)
    qc = c.run_with_ibmq(returns='qiskit_circuit') if case['alt'] else \
        c.run(backend='ibmq', returns='qiskit_circuit')
    require(isinstance(qc, qiskit.QuantumCircuit), 'returned %r', type(qc))
    require(repr(c) == before, 'running changed the circuit')
    require(qc.num_qubits == n and qc.num_clbits == n, 'the Qiskit circuit has %s qubits and %s bits for '
            '%s qubits', qc.num_qubits, qc.num_clbits, n)
    u = Operator(qc).data
    require(ref.close_up_to_phase(u, ref.unitary(n, ops), 1e-7), 'the Qiskit circuit of %s differs:\n%s',
            c, qc)
    if case['alt']:
        # the caller may change what it was given
        qc.x(n - 1)
        qc.h(0)
        again = (c if len(ops) % 2 else bq.build(case)).run(backend='ibmq', returns='qiskit_circuit')
        require(ref.close_up_to_phase(Operator(again).data, ref.unitary(n, ops), 1e-7),
                'after a change to the Qiskit circuit another run of %s gives\n%s', c, again)
    ctx.label(*(o[0] for o in ops))
    ctx.interesting(n >= 2 and len(ops) >= 2)


def check_counts(case, ctx):
    n, ops = case['N'], case['ops']
    brs = simcheck.tree({'n': n, 'ops': ops})
    if brs is None:
        ctx.label('skipped: too many branches')
        return
    dist = ref.distribution(n, ops)
    c = bq.build_ops(n, ops)
    kw = {'seed_simulator': case['seed']}
    if case['shots'] is not None:
        kw['shots'] = case['shots']
    if case['returns']:
        kw['returns'] = 'shots'
    counts = c.run(backend='ibmq', **kw)
    shots = 1024 if case['shots'] is None else case['shots']
    require(all(isinstance(k, str) and len(k) == n and set(k) <= {'0', '1'} for k in counts),
            'keys %s on %s qubits', list(counts), n)
    simcheck.check_counts(counts, dist, shots)
    ctx.interesting(any(k != k[::-1] for k in dist))


@st.composite
def counted(draw):
    n = draw(st.integers(1, 4))
    ang = gen.generic_angles()
    ops = draw(gen.prep_ops(n)) if draw(st.booleans()) else \
        [['x', [], q] for q in draw(st.lists(st.integers(0, n - 1), unique=True))]
    ops += draw(st.lists(gen.op(n, gen.UNITARY + ['m', 'reset'], ang), max_size=3))
    ops.append(['m', [], draw(st.one_of(st.just({'s': [None, None, None]}), gen.targets1(n)))])
    if not any(ref.resolve(o[0], o[2], n) for o in ops if ref.OPS1.get(o[0]) == 'measure'):
        ops.append(['m', [], 0])
    shots = st.one_of(st.integers(1, 300), st.integers(1, 300), st.none(), st.integers(301, 30000),
                      st.sampled_from([1025, 4097, 8193, 10001, 20001]))
    return {'N': n, 'ops': ops, 'shots': draw(shots),
            'returns': draw(st.booleans()), 'seed': draw(st.integers(0, 10 ** 6))}


class FakeJob:
    def __init__(self, qc, kw):
        self.qc, self.kw = qc, kw


KINDS = ['shots', 'draw', '_exception', 'qiskit_circuit', 'qiskit_job', 'qiskit_result']


def check_returns(case, ctx):
    n, ops = case['N'], case['ops'] + [['m', [], 0]]
    c = bq.build_ops(n, ops)
    r = case['returns']
    shots = case['shots']
    if r not in KINDS:
        try:
            out = c.run(backend='ibmq', returns=r, shots=shots)
        except ValueError:
            ctx.interesting()
            return
        require(False, 'returns=%r gave %r', r, out)
    if r == 'draw':
        out = c.run(backend='ibmq', returns=r, output='text')
        qc = c.run(backend='ibmq', returns='qiskit_circuit')
        require(str(out) == str(qc.draw(output='text')), 'drawing differs: %s', out)
    elif r == '_exception':
        require(c.run(backend='ibmq', returns=r) is None, 'an exception is reported although Qiskit works')
    elif r == 'qiskit_circuit':
        out = c.run(backend='ibmq', returns=r)
        require(isinstance(out, qiskit.QuantumCircuit) and out.num_qubits == n, 'returned %r', out)
    else:
        out = c.run(backend='ibmq', returns=r, shots=shots)
        if r == 'shots':
            counts = dict(out)
        else:
            if r == 'qiskit_job':
                require(hasattr(out, 'result') and hasattr(out, 'status'), 'returned %r', out)
                out = out.result()
            require(hasattr(out, 'get_counts'), 'returned %r', out)
            counts = {k[::-1]: v for k, v in out.get_counts().items()}
        require(sum(counts.values()) == shots, '%s shots counted, %s requested', counts, shots)
        support = {simcheck.key_of(b) for b, _w in ref.branches(n, ops)}
        require(set(counts) <= support, 'impossible outcomes %s', counts)
    ctx.label(str(r))
    ctx.interesting(r != 'shots')


def check_custom_qiskit_backend(case, ctx):
    """The given Qiskit backend is used, with the given number of shots and the circuit of equal effect."""
    n, ops = case['N'], case['ops'] + [['m', [], {'s': [None, None, None]}]]
    from qiskit.providers.basic_provider import BasicProvider  # noqa: F401
    be = BasicProvider().get_backend('basic_simulator')
    calls = []
    run = be.run

    def spy(qc, **kw):
        calls.append(kw.get('shots'))
        return run(qc, **kw)
    be.run = spy
    c = bq.build_ops(n, ops)
    counts = c.run(backend='ibmq', qiskit_backend=be, shots=case['shots'])
    require(calls == [case['shots']], 'the given backend was run %s', calls)
    simcheck.check_counts(counts, ref.distribution(n, ops), case['shots'])
    ctx.interesting(n >= 2)


def check_runner(case, ctx):
    """A user-written OpenQASM runner gets valid text of the same circuit and all arguments."""
    from blueqat.backends.qasm_parser_backend_generator import generate_backend
    n, ops = case['N'], case['ops']
    seen = []

    def runner(qasm, *args, **kwargs):
        seen.append((qasm, args, kwargs))
        return 'result'
    bq.BlueqatGlobalSetting.register_backend('pbt_qasm', generate_backend(runner))
    try:
        c = bq.build(case)
        args, kwargs = case['args'], case['kwargs']
        require(c.run(*args, backend='pbt_qasm', **kwargs) == 'result', 'result is not returned')
        require(c.run_with_pbt_qasm(*args, **kwargs) == 'result', 'result is not returned')
    finally:
        bq.BlueqatGlobalSetting.unregister_backend('pbt_qasm')
    require(len(seen) == 2, 'the runner was called %s times', len(seen))
    for text, a, k in seen:
        require(list(a) == args and k == kwargs, 'the runner was given %s %s', a, k)
        try:
            p = qasm2.parse(text)
        except qasm2.QasmError as e:
            require(False, 'invalid OpenQASM: %s\n%s', e, text)
        require(p.n_qubits == n, '%s qubits instead of %s', p.n_qubits, n)
        require(ref.close_up_to_phase(qasm2.unitary(p), ref.unitary(n, ops), 1e-7), 'another circuit')
    ctx.interesting(any(o[0] in ('cu2', 'cu3', 'crx', 'ryy', 'phase', 'tdg', 'cphase') for o in ops))


def check_runner_history(case, ctx):
    """Every run on an OpenQASM runner receives the circuit as it is now."""
    from blueqat.backends.qasm_parser_backend_generator import generate_backend
    texts = []
    make = generate_backend(lambda qasm, *a, **k: texts.append(qasm))
    bq.BlueqatGlobalSetting.register_backend('pbt_qasm', make)
    try:
        backend = make()
        c = bq.Circuit(case['N'])
        ops = []
        runs = 0
        for kind, k, o in case['actions']:
            if kind in ('append', 'insert', 'replace', 'delete'):
                tmp = bq.build_ops(case['N'], [o])
                k %= len(ops) + 1
                if kind == 'append':
                    k = len(ops)
                if kind == 'replace' and k < len(ops):
                    c.ops[k] = tmp.ops[0]
                    ops[k] = o
                elif kind == 'delete' and k < len(ops):
                    del c.ops[k], ops[k]
                else:
                    c.ops.insert(k, tmp.ops[0])
                    ops.insert(k, o)
            elif kind == 'iadd':
                c += bq.build_ops(case['N'], [o])
                ops.append(o)
            elif kind == 'copy':
                c = c.copy(copy_backends=bool(k % 2))
            else:
                c.run(backend=backend if k % 2 else 'pbt_qasm')
                runs += 1
                require(len(texts) == runs, 'the runner was called %d times in %d runs', len(texts), runs)
                try:
                    p = qasm2.parse(texts[-1])
                except qasm2.QasmError as e:
                    require(False, 'invalid OpenQASM: %s\n%s', e, texts[-1])
                require(ref.close_up_to_phase(qasm2.unitary(p), ref.unitary(case['N'], ops), 1e-7),
                        'the runner is given\n%s\nfor the circuit %r', texts[-1], c)
    finally:
        bq.BlueqatGlobalSetting.unregister_backend('pbt_qasm')
    ctx.interesting(runs > 1 and case['actions'][-1][0] == 'run')


@st.composite
def runner_histories(draw):
    n = draw(st.integers(1, 3))
    acts = [[draw(st.sampled_from(['append', 'append', 'run', 'run', 'run', 'replace', 'delete', 'insert', 'iadd',
                                   'copy'])), draw(st.integers(0, 3)),
             draw(gen.op(n, gen.UNITARY, gen.generic_angles(), rich=False))]
            for _ in range(draw(st.integers(3, 9)))]
    return {'N': n, 'actions': acts + [['run', draw(st.integers(0, 1)), None]]}


EXPLICIT = []
for _g in gen.UNITARY:
    _k = ref.n_qubits_of(_g)
    EXPLICIT.append({'n': 3, 'N': 3, 'alt': True, 'ops': [[_g, [0.7, -1.1, 0.4][:ref.n_args(_g)],
                                                          1 if _k == 1 else {'t': [2, 0]} if _k == 2 else
                                                          {'t': [2, 0, 1]}]]})

SUBTESTS = [
    Subtest('operator', lambda tier: st.builds(lambda c, a: {**c, 'alt': a}, gen.circuit(1, 3, 6),
                                               st.booleans()), check_operator, 700, 15000,
            explicit=EXPLICIT),
    Subtest('long-circuits', lambda tier: st.builds(lambda c, a: {**c, 'alt': a}, gen.long_circuit(),
                                                    st.booleans()), check_operator, 40, 600),
    Subtest('counts', lambda tier: counted(), check_counts, 200, 4000),
    Subtest('large-registers', lambda tier: st.builds(lambda c, a: {**c, 'alt': a}, gen.wide(4, 6), st.booleans()),
            check_operator, 60, 1000),
    Subtest('counts-of-large-registers', lambda tier: st.builds(
        lambda c, k, s, r: {**c, 'shots': k, 'seed': s, 'returns': r}, gen.large_measured(5, 8),
        st.sampled_from([1, 100, 1025, 5000]), st.integers(0, 10 ** 6), st.booleans()), check_counts, 60, 1000),
    Subtest('returns', lambda tier: st.builds(
        lambda c, r, s: {**c, 'returns': r, 'shots': s}, gen.circuit(1, 3, 3, force_n=True),
        st.sampled_from(KINDS + KINDS + ['statevector', '', 'SHOTS', 'qiskit']), st.integers(1, 50)),
        check_returns, 240, 3000),
    Subtest('qiskit-backend', lambda tier: st.builds(
        lambda c, s: {**c, 'shots': s}, gen.circuit(1, 3, 3, force_n=True), st.integers(20, 80)),
        check_custom_qiskit_backend, 40, 600),
    Subtest('openqasm-runner', lambda tier: st.builds(
        lambda c, a, k: {**c, 'args': a, 'kwargs': k}, gen.circuit(1, 3, 4),
        st.lists(st.integers(0, 5), max_size=2),
        st.dictionaries(st.sampled_from(['shots', 'returns', 'foo']), st.integers(0, 5))),
        check_runner, 400, 8000),
    Subtest('runner-histories', lambda tier: runner_histories(), check_runner_history, 400, 8000),
]
ASSUMPTIONS = ['Qiskit and Qiskit Aer as installed; its simulator is trusted for sampling']
