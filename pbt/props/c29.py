"""Threads which share nothing behave as if each ran alone."""
import contextlib
import importlib
import io

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp
import blueqat.vqe as vqe
from blueqat import wq
from blueqat.experimental.operations import Ops
from blueqat.utils import to_inttuple

import bq
import gen
import paulis
import ref
import sched
import simcheck
from core import Ctx, Subtest, require

ID = 'C29'
RULE = ('two to four threads, each with its own circuits, Pauli values, ansatz or QUBO problem, interleaved line by '
        'line after a generated schedule; every result is compared with the result computed alone; non-trivial: '
        'at least four switches between threads')

MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}


def close(a, b):
    a, b = np.asarray(a, dtype=complex), np.asarray(b, dtype=complex)
    return a.shape == b.shape and bool(np.allclose(a, b, atol=1e-8))


def term(ops, c):
    t = bp.I.to_term()
    for l, q in ops:
        t = t * MAKE[l][q]
    return t * c


def hamiltonian(ts):
    h = bp.Expr.zero()
    for ops, c in ts:
        h = h + term(ops, c)
    return h


# every kind: a function of the specification which returns (value, how to compare)

def do_run(s):
    c = bq.build(s['circuit'])
    v = c.run()
    w = c.run(ignore_global=True)
    return [v, w, c.n_qubits, repr(c)], None


def do_grow(s):
    c = bq.Circuit()
    out = []
    for o in s['circuit']['ops']:
        bq.append(c, o)
        try:
            out.append(c.run())
        except Exception as e:          # an address which only the complete register resolves
            out.append(type(e).__name__)
    return out, None


def do_compose(s):
    a, b = bq.build(s['circuit']), bq.build(s['second'])
    d = (a + b).dagger()
    a += b
    return [d.run(), a.run(), a.copy().run(), repr(a)], None


def do_qasm(s):
    return bq.build(s['circuit']).to_qasm(), None


def do_unitary(s):
    c = bq.build(s['small'])
    return np.array(c.to_unitary().evalf()).astype(complex), None


def do_ops(s):
    o = Ops()
    for name, params, t in s['second']['ops']:
        g = getattr(o, name)
        if params:
            g = g(*[ref.dec_param(p) for p in params])
        o = g[ref.dec_target(t)]
    return [o.to_circuit().run(), repr(o)], None


def do_shots(s):
    case = s['measured']
    c = bq.build(case)
    one = c.run(shots=1, returns='statevector_and_shots')
    many = c.run(shots=7)

    def check(_alone):
        brs = simcheck.tree(case)
        if brs is None:
            return True
        (v, counts), key = one, list(one[1])[0]
        return (simcheck.match(brs, key, v, simcheck.has_free_phase(case['ops'])) and sum(many.values()) == 7
                and set(many) <= {simcheck.key_of(b) for b, _w in brs})
    return [one, many], check


def do_pauli(s):
    h = hamiltonian(s['h'])
    g = (h * h).simplify() - h
    return [h.to_matrix(3), g.to_matrix(3, sparse='csr').toarray(), repr(g), g == (h * h - h), repr(bp.commutator(
        h, term(*s['h'][0]) if s['h'] else bp.Z[0]))], None


def do_evolution(s):
    out = []
    for ops, c in s['h']:
        circ = bq.Circuit(3).h[:]
        term(ops, c).get_time_evolution()(circ, 0.7)
        term(ops, c).append_to_circuit(circ)
        out.append(circ.run())
    return out, None


def do_vqe(s):
    a = vqe.QaoaAnsatz(hamiltonian(s['diagonal']), 1)
    c = a.get_circuit([0.3, -0.2])
    a.make_sparse()
    return [a.get_energy(c, vqe.non_sampling_sampler), a.get_energy_sparse(c),
            sorted(vqe.non_sampling_sampler(c, range(c.n_qubits)).values()),
            list(vqe.Vqe(a, lambda f, n: [0.1, f([0.2, 0.3])]).run().params)], None


def do_qubo(s):
    m = s['qubo']
    h = wq.pauli(m)
    o = wq.Opt()
    o.add(m)
    o.add(m, 2)
    o.Ts, o.ite, o.R = 1.0, 3, 0.5
    bits = o.run(targetT=0.3)
    n = len(m)
    cost = 3 * sum(m[i][j] * bits[i] * bits[j] for i in range(n) for j in range(n))
    return [h.to_matrix(n), repr(h), abs(o.E[-1] - cost) < 1e-9, np.asarray(o.qubo), wq.sel(n, 1),
            wq.net([[0, n - 1]], n) if n > 1 else 0], None


def do_anneal(s):
    m, tro = s['qubo'], 2
    n = len(m)
    spin = [[1 + i - 2 * j for j in range(n)] for i in range(n)]
    o = wq.Opt()
    o.qubo = m
    o.tro, o.ite, o.R, o.Tf, o.Gs, o.Gf = tro, 2, 0.5, 0.5, 2.0, 0.7
    rows = np.array(o.sqa())

    def energy(mat, bits):
        return sum(mat[i][j] * bits[i] * bits[j] for i in range(n) for j in range(n))

    def check(_alone):
        bond = 0.25 * np.log(1 / np.tanh(1.0 / 0.5 / tro))
        want = sum(energy(m, (r + 1) // 2) for r in rows) / tro - bond * sum(
            (rows[p] * rows[(p + 1) % tro]).sum() for p in range(tro))
        return (rows.shape == (tro, n) and len(o.E) == 3 and abs(o.E[-1] - want) < 1e-9 and len(samples) == 3
                and all(abs(p.E[k][-1] - energy(spin, b)) < 1e-9 for k, b in enumerate(samples)))
    p = wq.Opt()
    p.add(spin)
    p.Ts, p.R, p.ite = 1.0, 0.6, 3
    samples = p.run(shots=3, targetT=0.5)
    return [rows, samples], check


def do_boltzmann(s):
    w = wq.dbms([2, 1], 0.5)
    o = wq.Opt()
    o.setRBM([2, 1])
    o.qubo = start = w + np.diag(s['weights'])
    o.Ts, o.ite = 1.0, 2
    o.fit([[0, 1], [1, 1]], shots=2, targetT=0.9, alpha=0.5, epsilon=0.0, epoch=1, verbose=False)
    return [w, wq.rbm_hmodel([1, 0], start), wq.rbm_data_qubo([1, 0], start), o.qubo], None


def do_samplers(s):
    c = bq.build(s['circuit'])
    n = c.n_qubits
    meas = tuple(range(n))[::-1]
    exact = dict(vqe.non_sampling_sampler(c, meas))

    def check(_alone):
        return all(abs(sum(d.values()) - 1) < 1e-9 and {k for k, v in d.items() if v} <= {
            k for k, v in exact.items() if v > 1e-12}
                   for d in (few, some)) and all(abs(7 * v - round(7 * v)) < 1e-9 for v in some.values())
    few = dict(vqe.get_state_vector_sampler(9)(c, meas))
    some = dict(vqe.get_measurement_sampler(7)(c, meas))
    return [exact, few, some], check


def do_helpers(s):
    v = bq.build(s['circuit']).run()
    from blueqat.utils import ignore_global_phase
    return [ignore_global_phase(v.copy()), to_inttuple('0110'), to_inttuple({'01': 3, '11': 4})], None


KINDS = {k[3:]: f for k, f in list(globals().items()) if k.startswith('do_')}


def same(a, b):
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) or isinstance(a, (float, complex)):
        return close(a, b)
    return type(a) is type(b) and a == b


def check(case, ctx):
    jobs = [[(k, KINDS[k], spec) for k in spec['kinds']] for spec in case['threads']]
    alone = []
    for js in jobs:
        alone.append([])
        for k, f, spec in js:
            try:
                alone[-1].append(f(spec)[0])
            except Exception as e:
                alone[-1].append(e)

    def thread(js):
        def body():
            out = []
            for _k, f, spec in js:
                try:
                    out.append(f(spec))
                except Exception as e:
                    out.append((e, None))
            return out
        return body
    with contextlib.redirect_stdout(io.StringIO()):
        results, switches = sched.run([thread(js) for js in jobs], case['schedule'], case['fine'])
    for js, want, (got, error) in zip(jobs, alone, results):
        require(error is None, 'a thread died: %r', error)
        for (k, _f, spec), w, (g, special) in zip(js, want, got):
            if isinstance(w, Exception):
                require(isinstance(g, Exception), '%s of %s fails alone (%r), together with other threads it gives %r',
                        k, spec, w, g)
                continue
            require(not isinstance(g, Exception), '%s of %s fails next to other threads: %r', k, spec, g)
            ok = special(w) if special is not None else same(g, w)
            require(ok, '%s of %s gives next to other threads\n%s\nalone\n%s', k, spec, g, w)
            ctx.label(k)
    ctx.interesting(switches >= 4)


SMALL = ['x', 'h', 's', 'tdg', 'rx', 'rz', 'u2', 'cx', 'cz', 'crz', 'ccx']


@st.composite
def specs(draw):
    word = st.lists(st.integers(0, 2), min_size=1, max_size=3, unique=True)
    part = st.integers(-4, 4).map(lambda k: k / 4)
    n = draw(st.integers(1, 3))
    return {
        'kinds': draw(st.lists(st.sampled_from(sorted(KINDS) + ['run', 'grow', 'shots', 'compose', 'run', 'grow']),
                               min_size=1, max_size=3)),
        'circuit': draw(gen.circuit(1, 4, 5, angle=gen.generic_angles())),
        'second': draw(gen.circuit(1, 3, 4, angle=gen.generic_angles())),
        'small': draw(gen.circuit(1, 2, 3, names=SMALL, angle=st.sampled_from([0.5, -1.25]), force_n=True)),
        'measured': draw(gen.circuit(1, 2, 4, names=['h', 'ry', 'cx', 'm', 'm', 'reset'], angle=gen.generic_angles(),
                                     force_n=True)),
        'h': [[[[draw(st.sampled_from('XYZ')), q] for q in draw(word)], draw(part)]
              for _ in range(draw(st.integers(0, 3)))],
        'diagonal': [[[['Z', q] for q in draw(word)], draw(part)] for _ in range(draw(st.integers(1, 3)))],
        'weights': [draw(part) for _ in range(3)],
        'qubo': [[draw(st.integers(-3, 3)) for _ in range(n)] for _ in range(n)]}


@st.composite
def cases(draw):
    threads = draw(st.lists(specs(), min_size=2, max_size=3))
    if draw(st.booleans()):
        kinds = threads[0]['kinds']
        for t in threads:
            t['kinds'] = kinds
    return {'threads': threads, 'schedule': draw(schedules()), 'fine': draw(st.integers(0, 5)) == 0}


def schedules():
    length = st.one_of(st.integers(1, 6), st.integers(1, 40), st.integers(1, 300))
    return st.lists(st.tuples(length, st.integers(0, 5)).map(list), min_size=1, max_size=10)


# Checks of other properties which use neither random numbers nor registries.
OTHERS = ['c02/register-growth-and-state', 'c06/circuits', 'c06/measurement', 'c07/histories', 'c07/laws', 'c08/decomposition',
          'c10/unitary', 'c10/measured', 'c12/programs', 'c13/programs', 'c13/rearranged-sums', 'c14/formats', 'c15/histories',
          'c16/energies', 'c16/exact-tables', 'c17/circuits', 'c18/costs', 'c20/polynomials', 'c20/additions',
          'c20/linear-forms', 'c22/mappings', 'c22/phase', 'c23/histories', 'c24/programs', 'c28/programs',
          'c31/hidden']


def other(name):
    module, sub = name.split('/')
    return next(s for s in importlib.import_module('props.' + module).SUBTESTS if s.name == sub)


def alone(f, case):
    try:
        f(case, Ctx())
    except Exception as e:
        return e


def check_others(case, ctx):
    jobs = []
    for js in case['threads']:
        # what fails alone is the concern of another property
        jobs.append([(name, c) for name, c in js if alone(other(name).check, c) is None])

    def thread(js):
        return lambda: [alone(other(name).check, c) for name, c in js]
    with contextlib.redirect_stdout(io.StringIO()):
        results, switches = sched.run([thread(js) for js in jobs], case['schedule'], case['fine'])
    for js, (got, error) in zip(jobs, results):
        require(error is None, 'a thread died: %r', error)
        for (name, c), e in zip(js, got):
            require(e is None, 'the check %s of %s succeeds alone, but next to other threads: %s', name, c, e)
            ctx.label(name)
    ctx.interesting(switches >= 4)


@st.composite
def others(draw):
    def job(name):
        c = draw(other(name).strategy('quick'))
        if name == 'c08/decomposition':
            c['how'] = 'instance'       # the other ways register a backend: a state which is shared by design
        return [name, c]
    names = draw(st.lists(st.sampled_from(OTHERS), min_size=2, max_size=3))
    if draw(st.booleans()):
        names = [names[0]] * len(names)
    return {'threads': [[job(name) for _ in range(draw(st.integers(1, 2)))] for name in names],
            'schedule': draw(schedules()), 'fine': draw(st.integers(0, 5)) == 0}


SUBTESTS = [Subtest('interleavings', lambda tier: cases(), check, 320, 12000),
            Subtest('checks-of-other-properties', lambda tier: others(), check_others, 320, 8000)]
ASSUMPTIONS = ['threads are switched between source lines of the package only, one thread running at a time',
               'the threads share no circuit, backend object, problem or Pauli value']
