"""QAOA circuits and variational runs against their definition."""
import contextlib
import io
import itertools
import math
import random
import warnings

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp
import blueqat.vqe as vqe

import bq
import gen
import paulis
import ref
from core import Subtest, require
from props.c16 import FORMATS, apply_word, bounded, marginal, scale

ID = 'C17'
RULE = ('commuting and non-commuting Hamiltonians, default and user-defined initial circuits and mixers of any '
        'size, one to three steps; the circuit against the defining product of exponentials, and complete '
        'variational runs with a scripted minimiser that compares every objective value with the reference; '
        'non-trivial: two or more Hamiltonian terms, one of them not diagonal or of two qubits, with a mixer '
        'that does not commute with it')

MAKE = {'X': bp.X, 'Y': bp.Y, 'Z': bp.Z}


def mk_term(ops, c):
    t = bp.I.to_term()
    for l, q in ops:
        t = t * MAKE[l][q]
    return t * c


def words(terms):
    """Simplified terms [(key, real coefficient)] of a sum."""
    d = {}
    for ops, c in terms:
        d = paulis.add(d, dict([paulis.canon(ops, complex(c))]))
    return d


def commute(k1, k2):
    a, b = dict(k1), dict(k2)
    return sum(1 for q in a if q in b and a[q] != b[q]) % 2 == 0


def size(keys):
    return max([q + 1 for k in keys for q, _l in k], default=0)


def evolve(key, a, v, n):
    return math.cos(a) * v + 1j * math.sin(a) * apply_word(key, v, n)


class Problem:
    """The definition of the QAOA circuit of a case."""
    def __init__(self, case):
        self.d = words(case['h'])
        self.mixer = None if case['mixer'] is None else \
            [(k, c) for k, c in (paulis.canon(ops, complex(c)) for ops, c in case['mixer'])]
        n = size(self.d)
        if case['init'] is not None:
            n = max(n, ref.final_n(case['init']['n'], case['init']['ops']))
        if self.mixer:
            n = max(n, size(k for k, _c in self.mixer))
        self.n, self.step, self.case = n, case['step'], case

    def state(self, params):
        n = self.n
        init = self.case['init']
        ops = [['h', [], q] for q in range(n)] if init is None else init['ops']
        v = ref.state(n, ops)
        for i in range(self.step):
            beta, gamma = params[i], params[self.step + i]
            for k, c in self.d.items():
                v = evolve(k, 2 * math.pi * gamma * c.real, v, n)
            if self.mixer is None:
                for q in range(n):
                    v = ref.apply(v, ref.rx(math.pi * beta), (q,), n)
            else:
                for k, c in self.mixer:
                    v = evolve(k, math.pi * beta * c.real, v, n)
        return v

    def energy(self, params):
        v = self.state(params)
        return sum(complex(c) * np.vdot(v, apply_word(k, v, self.n)) for k, c in self.d.items()).real \
            if self.d else 0.0


def make(case):
    h = bp.Expr.zero()
    for ops, c in case['h']:
        h = h + mk_term(ops, c)
    if case['as_term'] and len(case['h']) == 1:
        h = mk_term(*case['h'][0])
    init = None if case['init'] is None else bq.build_ops(case['init']['n'], case['init']['ops'])
    if init is not None and case['init']['run']:
        init.run()
    mixer = None if case['mixer'] is None else [mk_term(*t) for t in case['mixer']]
    kw = {}
    if case['step'] != 1 or case['explicit_step']:
        kw['step'] = case['step']
    if init is not None:
        kw['init_circuit'] = init
    if mixer is not None:
        kw['mixer'] = mixer
    return h, init, mixer, kw


def good(case):
    """Whether the Hamiltonian is admissible: None when rounding could decide."""
    d = words(case['h'])
    if any(c.imag for c in d.values()):
        return False
    return all(commute(a, b) for a, b in itertools.combinations(d, 2))


def params_of(case, step):
    for raw in case['params']:
        p = (raw * step)[:2 * step]
        yield np.array(p) if case['np'] else list(p)


def build(case, ctx):
    """The ansatz, or None when it is rightly rejected."""
    h, init, mixer, kw = make(case)
    shown = repr(h), repr(init), repr(mixer)
    ok = good(case)
    no_init = case['mixer'] and init is None
    try:
        a = vqe.QaoaAnsatz(h, **kw)
    except ValueError:
        require(not ok or no_init, 'QaoaAnsatz(%r) was rejected', h)
        ctx.label('rejected')
        return None, h, init
    require(ok, 'QaoaAnsatz(%r) was accepted: terms do not commute or are not real', h)
    require(not no_init, 'a mixer without an initial circuit was accepted')
    require((repr(h), repr(init), repr(mixer)) == shown, 'the arguments were changed: %r %r %r', h, init, mixer)
    require(a.n_params == 2 * case['step'], '%s parameters for %s steps', a.n_params, case['step'])
    return a, h, init


def check_circuit(case, ctx):
    a, h, init = build(case, ctx)
    if a is None:
        ctx.interesting()
        return
    p = Problem(case)
    shown = repr(init), None if init is None else init.n_qubits
    made = []
    for params in list(params_of(case, case['step'])) * 2:
        keep = [float(x) for x in params]
        c = a.get_circuit(params)
        require(c.n_qubits == p.n, '%s qubits, expected %s', c.n_qubits, p.n)
        v = c.run()
        want = p.state(keep)
        require(ref.close_up_to_phase(v, want, 1e-7), 'QAOA circuit of %r, initial circuit %r, mixer %s, '
                'parameters %s gives\n%s\nexpected\n%s', h, init, case['mixer'], keep, v, want)
        require([float(x) for x in params] == keep, 'the parameters were changed to %s', params)
        made.append((c, want))
    for c, want in made:
        require(ref.close_up_to_phase(c.run(), want, 1e-7), 'an earlier circuit was changed')
    # a circuit which was handed out belongs to the caller, who may go on building it
    for params in params_of(case, case['step']):
        a.get_circuit(params).x[0].h[:]
        want = p.state([float(x) for x in params])
        require(ref.close_up_to_phase(a.get_circuit(params).run(), want, 1e-7), 'gates added to a circuit appear in '
                'the next one of the same parameters')
    require((repr(init), None if init is None else init.n_qubits) == shown, 'the initial circuit was changed')
    if init is not None:
        require(ref.close_up_to_phase(init.run(), ref.state(init.n_qubits, case['init']['ops']), 1e-8),
                'the initial circuit runs differently afterwards')
    for params in params_of(case, case['step']):
        e, want = a.get_objective()(params), p.energy([float(x) for x in params])
        require(abs(e - want) <= 1e-6 * scale(p.d), 'energy of %r at %s is %r, expected %r', h, params, e, want)
        e = a.get_objective(vqe.non_sampling_sampler)(params)
        require(abs(e - want) <= 1e-6 * scale(p.d), 'sampled energy of %r at %s is %r, expected %r', h, params,
                e, want)
    ctx.label('mixer' if case['mixer'] else 'init' if case['init'] else 'default', f"{case['step']} steps")
    ctx.interesting(len(p.d) > 1 and any(len(k) > 1 for k in p.d))


def same_table(got, want, tol):
    return all(abs(got.get(k, 0) - want.get(k, 0)) <= tol for k in set(got) | set(want))


def table_of(v, n):
    return {tuple((i >> q) & 1 for q in range(n)): float(abs(x) ** 2) for i, x in enumerate(v)}


def check_most_common(r, table, n):
    got = r.most_common(n)
    require(isinstance(got, tuple) and len(got) == min(n, len(table)), 'most_common(%d) of %s is %s', n, table, got)
    want = sorted(table.values(), reverse=True)[:n]
    require([p for _k, p in got] == want and all(table[k] == p for k, p in got)
            and len({k for k, _p in got}) == len(got), 'most_common(%d) of %s is %s', n, table, got)


def check_run(case, ctx):
    a, h, init = build(case, ctx)
    if a is None:
        return
    p = Problem(case)
    tol = 1e-6 * scale(p.d)
    plan = list(params_of(case, case['step']))
    seen = []

    def minimizer(objective, n_params):
        require(n_params == 2 * case['step'], 'the minimiser is asked for %s parameters', n_params)
        for x in plan:
            e = objective(x)
            want = p.energy([float(y) for y in x])
            require(abs(e - want) <= tol, 'objective of %r at %s is %r, expected %r', h, x, e, want)
            seen.append(e)
        return plan[case['pick'] % len(plan)]

    asked = []

    def recorder(circuit, meas):
        meas = tuple(meas)
        asked.append((circuit.n_qubits, meas))
        return vqe.non_sampling_sampler(circuit, meas)

    sampler = {'none': None, 'exact': vqe.non_sampling_sampler, 'own': recorder}[case['sampler']]
    if case['sparse']:
        a.make_sparse(case['sparse'])
    v = vqe.Vqe(a, minimizer, sampler) if case['positional'] else \
        vqe.Vqe(a, minimizer=minimizer, sampler=sampler)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        require(v.result.params is None and v.result.circuit is None, 'a result before the run')
    out = io.StringIO()
    for round_ in range(case['runs']):
        with contextlib.redirect_stdout(out):
            r = v.run(verbose=True) if case['verbose'] else v.run()
    require(len(seen) == len(plan) * case['runs'], 'the minimiser ran %s times', len(seen) // len(plan))
    require(bool(out.getvalue()) is (case['verbose'] and bool(plan)), 'output %r', out.getvalue())
    best = [float(x) for x in plan[case['pick'] % len(plan)]]
    require([float(x) for x in r.params] == best, 'reported parameters %s, the minimiser returned %s', r.params,
            best)
    require(r.vqe is v, 'the result does not belong to the run')
    want = p.state(best)
    require(r.circuit.n_qubits == p.n and ref.close_up_to_phase(r.circuit.run(), want, 1e-7),
            'the reported circuit is not the one of the reported parameters: %s', r.circuit)
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        require(v.result is r, 'Vqe.result is not the last result')
    exact = table_of(want, p.n)
    before = len(asked)
    t = r.get_probs()
    require(same_table(t, exact, 1e-7), 'probabilities %s, expected %s', t, exact)
    if sampler is recorder:
        require(len(asked) == before + 1 and asked[-1] == (p.n, tuple(range(p.n))), 'the sampler was not used')
    require(r.get_probs() is t and len(asked) <= before + 1, 'get_probs computes again')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        require(r.probs is t, 'VqeResult.probs is not the table of get_probs')
    for n in case['tops']:
        check_most_common(r, t, n)
    if p.n:
        require(r.most_common() == r.most_common(1), 'most_common()')
    # own sampler for the probabilities
    calls = []

    def other(circuit, meas):
        meas = tuple(meas)
        calls.append(meas)
        require(ref.close_up_to_phase(circuit.run(), want, 1e-7), 'the sampler is given another circuit')
        return {(0,) * p.n: 0.25, (1,) * p.n: 0.75} if p.n else {(): 1.0}
    fake = other(r.circuit, range(p.n))
    del calls[:]
    t2 = r.get_probs(other, store=False)
    require(t2 == fake and calls == [tuple(range(p.n))], 'get_probs(sampler) gives %s', t2)
    require(r.get_probs() is t, 'get_probs(store=False) stored its table')
    require(r.get_probs(other, rerun=False) is t and len(calls) == 1, 'get_probs(rerun=False) computed again')
    t3 = r.get_probs(rerun=True, store=False)
    require(same_table(t3, exact, 1e-7), 'get_probs(rerun=True) gives %s', t3)
    t4 = r.get_probs(other)
    require(t4 == fake and r.get_probs() is t4, 'get_probs(sampler) is not stored')
    check_most_common(r, t4, 2)
    ctx.label(case['sampler'], f"{case['runs']} runs")
    ctx.interesting(len(p.d) > 1)


def check_probability_history(case, ctx):
    """Tables asked of one result with own samplers, stored or not, against a model of the stored table."""
    n = case['n']
    c = bq.build_ops(n, [['ry', [0.3 + 0.4 * q], q] for q in range(n)])
    exact = table_of(ref.state(n, [['ry', [0.3 + 0.4 * q], q] for q in range(n)]), n)
    calls = []

    def make(k):
        table = {(0,) * n: 0.5 ** (k + 1), (1,) * n: 1 - 0.5 ** (k + 1)}

        def sampler(circuit, meas):
            calls.append((k, circuit.n_qubits, tuple(meas)))
            return dict(table)
        return sampler, table
    own = make(0) if case['own'] else None
    v = vqe.Vqe(vqe.QaoaAnsatz(bp.Z[0].to_expr()), sampler=own and own[0])
    r = vqe.VqeResult(v, [], c)
    stored = None
    for what, k, rerun, store in case['asks']:
        del calls[:]
        sampler = make(k) if k and what == 'get' else None
        kw = {}
        if sampler:
            kw['sampler'] = sampler[0]
        if what == 'get':
            if rerun is not None:
                kw['rerun'] = rerun
            if store is not None:
                kw['store'] = store
        again = kw['rerun'] if 'rerun' in kw else 'sampler' in kw
        if stored is not None and not again:
            want, asked = stored, 0
        else:
            use = sampler or own
            want, asked = (use[1], 1) if use else (exact, 0)
            if kw.get('store', True):
                stored = want
        if what == 'get':
            got = r.get_probs(**kw)
        elif what == 'probs':
            with warnings.catch_warnings():
                warnings.simplefilter('ignore')
                got = r.probs
        else:
            got = dict(r.most_common(2 ** n))
        require(same_table(got, want, 1e-9), '%s(%s) gives %s, expected %s', what, sorted(kw), got, want)
        require(len(calls) == asked, '%s(%s) asked %d samplers', what, sorted(kw), len(calls))
        require(all(x[1:] == (n, tuple(range(n))) for x in calls), 'the sampler was asked for %s', calls)
    ctx.interesting(len(case['asks']) > 2)


def check_most_common_tables(case, ctx):
    r = vqe.VqeResult()
    table = {tuple(int(b) for b in format(k, '04b')): p / 64 for k, p in case['t']}
    r._probs = dict(table)
    for n in range(0, len(table) + 2):
        check_most_common(r, table, n)
    ctx.interesting(len(table) > 2)


def check_minimizers(case, ctx):
    """Real minimisers: the run never ends above a value it has seen at the start (Nelder-Mead), and the
    reported parameters belong to the problem."""
    a, h, init = build(case, ctx)
    if a is None:
        return
    p = Problem(case)
    seen = []
    inner = a.get_objective

    def spy(sampler=None):
        f = inner(sampler)

        def g(x):
            e = f(x)
            seen.append(e)
            want = p.energy([float(y) for y in x])
            require(abs(e - want) <= 1e-6 * scale(p.d), 'objective at %s is %r, expected %r', x, e, want)
            return e
        return g
    a.get_objective = spy
    if case['method'] == 'default':
        v = vqe.Vqe(a)
    else:
        v = vqe.Vqe(a, vqe.get_scipy_minimizer(method='Nelder-Mead', options={'maxiter': case['maxiter']}))
    r = v.run()
    require(len(r.params) == 2 * case['step'], 'parameters %s', r.params)
    e = p.energy([float(x) for x in r.params])
    if case['method'] != 'default':
        require(e <= min(seen) + 1e-9 * scale(p.d), 'the minimum seen is %r, the result has %r', min(seen), e)
    require(same_table(r.get_probs(), table_of(p.state([float(x) for x in r.params]), p.n), 1e-7),
            'probabilities of the result')
    ctx.interesting(len(p.d) > 1 and len(set(seen)) > 3)


# ------------------------------------------------------------------ generators

QUARTER = st.integers(-6, 6).map(lambda k: k / 4)


@st.composite
def problems(draw, tier, bad=True, max_n=3, max_step=3):
    n = draw(st.integers(1, max_n))
    style = draw(st.sampled_from(['z', 'z', 'commuting', 'commuting', 'any' if bad else 'z',
                                  'clash' if bad else 'z']))
    terms, keys = [], []
    if style == 'clash':
        n = 3
        terms = [[w, draw(st.sampled_from([1, -1, 0.5, 1.25]))] for w in draw(paulis.nearly_commuting(3))]
    for _ in range(0) if style == 'clash' else range(draw(st.integers(0 if tier else 1, 4))):
        qs = draw(st.permutations(range(n)))[:draw(st.integers(1 if draw(st.integers(0, 4)) else 0, n))]
        ops = [['Z' if style == 'z' else draw(st.sampled_from('XYZ')), q] for q in qs]
        key = paulis.canon(ops, 1)[0]
        if style != 'any' and not all(commute(key, k) for k in keys):
            continue
        keys.append(key)
        if not draw(st.integers(0, 4)) and ops:
            ops = ops + [ops[0], ops[0]]
        terms.append([ops, draw(QUARTER)])
    if style == 'any' and draw(st.booleans()):
        terms.append([[['X', 0], ['Y', 0]], 1.0])            # imaginary coefficient
    init = None
    if draw(st.booleans()):
        m = draw(st.integers(1, n + 1))
        ops = draw(gen.prep_ops(m)) if draw(st.booleans()) else [['h', [], {'s': [None, None, None]}]]
        ops += draw(st.lists(gen.op(m, [g for g in gen.UNITARY if ref.n_qubits_of(g) <= m], gen.generic_angles()),
                             max_size=2))
        init = {'n': m, 'ops': ops, 'run': draw(st.booleans())}
        # keep addresses which mean the same in a larger register
        init['ops'] = [o for o in ops if bounded(o[2]) or o[2] == {'s': [None, None, None]}]
    mixer = None
    if (init is not None and draw(st.booleans())) or (bad and not draw(st.integers(0, 11))):
        mixer = []
        for _ in range(draw(st.integers(1, 3))):
            qs = draw(st.permutations(range(n + 1)))[:draw(st.integers(1, 2))]
            mixer.append([[[draw(st.sampled_from('XYZ')), q] for q in qs], draw(QUARTER)])
    step = draw(st.integers(1, max_step))
    return {'h': terms, 'init': init, 'mixer': mixer, 'step': step,
            'explicit_step': draw(st.booleans()), 'as_term': draw(st.booleans()),
            'params': draw(st.lists(st.lists(st.floats(-1, 1).map(lambda x: round(x, 6)), min_size=2, max_size=6),
                                    min_size=1, max_size=2)),
            'np': draw(st.booleans())}


@st.composite
def runs(draw, tier):
    c = draw(problems(tier, False, 3, 2))
    c.update(pick=draw(st.integers(0, 1)), sampler=draw(st.sampled_from(['none', 'none', 'exact', 'own'])),
             sparse=draw(st.sampled_from([None, None] + FORMATS)), positional=draw(st.booleans()),
             runs=draw(st.integers(1, 2)), verbose=draw(st.booleans()),
             tops=draw(st.lists(st.integers(0, 9), max_size=3)))
    return c


@st.composite
def minimised(draw, tier):
    c = draw(problems(tier, False, 2, 1))
    c.update(method=draw(st.sampled_from(['default', 'nelder-mead'])), maxiter=draw(st.integers(3, 25)))
    return c


@st.composite
def many(draw, tier):
    """More steps, terms or qubits."""
    c = draw(problems('quick', False))
    what = draw(st.sampled_from(['steps', 'steps', 'terms', 'qubits']))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    if what == 'steps':
        c['step'] = draw(st.integers(4, 20))
    else:
        n = draw(st.integers(3, 5)) if what == 'terms' else draw(st.integers(5, 9))
        letters = [rng.choice('XYZ') for _ in range(n)]
        words = [[q for q in range(n) if k >> q & 1] for k in range(1, 2 ** n)]
        rng.shuffle(words)
        count = min(len(words), draw(paulis.sizes(30)) if what == 'terms' else draw(st.integers(1, 4)))
        c['h'] = [[[[letters[q], q] for q in w], paulis.quarter(rng)] for w in words[:count]]
        c['step'] = draw(st.integers(1, 2))
        if c['init'] is None and rng.random() < 0.5:
            c['init'] = {'n': n, 'ops': [['u3', [rng.uniform(0.2, 1.2) for _ in range(3)], q] for q in range(n)],
                         'run': False}
        if c['init'] is not None and rng.random() < 0.5:
            c['mixer'] = paulis.random_sum(rng, n, draw(paulis.sizes(20)), 2)
            # the coefficient of a mixer term is real
            c['mixer'] = [t for t in c['mixer'] if not paulis.canon(t[0], 1 + 0j)[1].imag and t[0]] or None
    c['params'] = [[round(rng.uniform(-1, 1), 6) for _ in range(2 * c['step'])]]
    return c


SUBTESTS = [
    Subtest('many-steps-and-terms', many, check_circuit, 80, 1500),
    Subtest('circuits', problems, check_circuit, 1000, 30000),
    Subtest('runs', runs, check_run, 600, 15000),
    Subtest('probability-histories', lambda tier: st.fixed_dictionaries({
        'n': st.integers(1, 3), 'own': st.booleans(), 'asks': st.lists(st.tuples(
            st.sampled_from(['get', 'get', 'get', 'probs', 'most common']), st.integers(0, 2),
            st.sampled_from([None, None, True, False]), st.sampled_from([None, None, True, False])).map(list),
            min_size=1, max_size=6)}), check_probability_history, 300, 6000),
    Subtest('minimisers', minimised, check_minimizers, 60, 1000),
    Subtest('most-common', lambda tier: st.fixed_dictionaries({'t': st.lists(
        st.tuples(st.integers(0, 15), st.integers(0, 20)).map(list), max_size=8, unique_by=lambda x: x[0])}),
        check_most_common_tables, 200, 3000),
]
ASSUMPTIONS = ['coefficients are multiples of 1/4, so that commutation is decided without rounding',
               'states are compared up to a global phase']
