"""Equal seeds give equal results; nothing depends on the hash seed of the interpreter."""
import json
import os
import random
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

import blueqat.pauli as bp
import blueqat.vqe as vqe
from blueqat import wq

import boot
import bq
import gen
import ref
from core import HarnessError, Subtest, require

ID = 'C30'
RULE = ('measured circuits, samplers, variational runs and annealing repeated with the same seeds on equal new '
        'objects and on objects that have run before; printed results compared between interpreters with '
        'different hash seeds; non-trivial: at least two different results are possible')


def plain(v):
    if isinstance(v, np.ndarray):
        return v.tolist()
    if isinstance(v, dict):
        return sorted((str(k), plain(x)) for k, x in v.items())
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    return v


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (float, complex, np.number)) and isinstance(b, (float, complex, np.number)):
        return abs(a - b) <= 1e-9 * max(1.0, abs(a))
    return a == b


def repeated(case, new, act):
    """act(new()) three times after the same seeding: on two new objects and on the first one again."""
    a, b = new(), new()
    got = []
    for x in (a, b, a):
        random.seed(case['seed'])
        np.random.seed(case['seed'] + 1)
        got.append(plain(act(x)))
    require(same(got[0], got[1]), 'the same seeds give on two equal new objects\n%s\n%s', got[0], got[1])
    require(same(got[0], got[2]), 'the same seeds give on an object that ran before\n%s\ninstead of\n%s', got[2], got[0])
    return got[0]


def check_circuits(case, ctx):
    n_runs = case['shots']

    def act(c):
        out = [c.run(shots=n_runs), c.run(shots=1, returns='statevector_and_shots'), c.run()]
        if case['copy']:
            out.append(c.copy().run(shots=n_runs))
        return out
    repeated(case, lambda: bq.build(case), act)
    try:
        ctx.interesting(len(ref.distribution(case['n'], case['ops'])) > 1)
    except ValueError:
        pass


def check_samplers(case, ctx):
    n = case['N']
    meas = tuple(q % n for q in case['meas'])
    meas = tuple(dict.fromkeys(meas))
    for make in (vqe.get_state_vector_sampler, vqe.get_measurement_sampler):
        repeated(case, lambda: bq.build(case), lambda c: make(case['shots'])(c, meas))

    def act(a):
        v = vqe.Vqe(a, vqe.get_scipy_minimizer(method='Nelder-Mead', options={'maxiter': 4}))
        r = v.run()
        return [list(r.params), r.get_probs(), r.circuit.run()]
    h = bp.Expr.zero()
    for q, c in enumerate(case['fields']):
        h = h + c * bp.Z[q] + 0.5 * bp.Z[0] * bp.Z[q + 1]
    if case['fields'] and not case['shots'] % 4:
        repeated(case, lambda: vqe.QaoaAnsatz(h, 1), act)
        ctx.label('variational')
    ctx.interesting()


def check_annealing(case, ctx):
    def new():
        o = wq.Opt()
        o.add(case['m'])
        o.Ts, o.R, o.ite, o.tro, o.Gs, o.Gf = 2.0, 0.5, 6, 3, 1, 0.3
        return o

    def act(o):
        how = case['how']
        o.E = []  # sqa() appends to the energies of earlier calls
        if how == 'sqa':
            r = o.sqa()
        elif how == 'sa':
            r = o.sa()
        else:
            r = o.run(shots=case['shots'], sampler=how, targetT=0.2)
        return [r, plain(o.E), wq.rands(2)]
    repeated(case, new, act)
    ctx.label(case['how'])
    ctx.interesting(len(case['m']) > 1)


def check_hash(case, ctx):
    texts = []
    for seed in case['hash']:
        env = dict(os.environ, PYTHONHASHSEED=str(seed))
        p = subprocess.run([sys.executable, '-B', os.path.join(os.path.dirname(boot.__file__), 'textworker.py')],
                           input=json.dumps({'jobs': case['jobs']}), capture_output=True, text=True, env=env,
                           timeout=120)
        if p.returncode:
            texts.append('failed: ' + p.stderr[-300:])
        else:
            texts.append(json.loads(p.stdout))
    if all(isinstance(t, str) for t in texts):
        raise HarnessError(texts[0])
    for other in texts[1:]:
        require(type(other) is type(texts[0]), 'one interpreter fails, another does not: %s', texts)
        for job, a, b in zip(case['jobs'], texts[0], other):
            for x, y in zip(a, b):
                require(x == y, 'hash seeds %s give for %s\n%s\n%s', case['hash'], job, x, y)
    ctx.interesting()


@st.composite
def circuits(draw):
    c = draw(gen.circuit(1, 4, 8, names=gen.UNITARY + gen.NONUNITARY * 6, angle=gen.generic_angles(), force_n=True))
    if draw(st.booleans()):
        c['ops'].append(['m', [], {'s': [None, None, None]}])
    c.update(seed=draw(st.integers(0, 10 ** 6)), shots=draw(st.integers(1, 25)), copy=draw(st.booleans()))
    return c


@st.composite
def sampled(draw):
    c = draw(gen.circuit(1, 3, 3, angle=gen.generic_angles(), force_n=True))
    c['ops'] = draw(gen.prep_ops(c['N'])) + c['ops']
    c.update(seed=draw(st.integers(0, 10 ** 6)), shots=draw(st.integers(1, 60)),
             meas=draw(st.lists(st.integers(0, 2), min_size=1, max_size=3)),
             fields=draw(st.lists(st.sampled_from([1.0, -0.5, 0.25]), max_size=2)))
    return c


@st.composite
def annealed(draw):
    n = draw(st.integers(1, 4))
    return {'m': [[draw(st.integers(-3, 3)) for _ in range(n)] for _ in range(n)],
            'how': draw(st.sampled_from(['normal', 'fast', 'sa', 'sqa'])), 'shots': draw(st.integers(1, 3)),
            'seed': draw(st.integers(0, 10 ** 6))}


@st.composite
def texts(draw):
    jobs = []
    for _ in range(draw(st.integers(5, 15))):
        n = draw(st.integers(1, 4))
        jobs.append({
            'seed': draw(st.integers(0, 10 ** 6)),
            'circuit': draw(gen.circuit(1, 4, 6, names=gen.UNITARY + ['m', 'm'], angle=gen.generic_angles(),
                                        force_n=True)),
            'h': draw(st.lists(st.tuples(st.lists(st.tuples(st.sampled_from('XYZ'), st.integers(0, 11)).map(list),
                                                  max_size=4), st.integers(-8, 8).map(lambda k: k / 4)).map(list),
                               min_size=1, max_size=6)),
            'terms': [[draw(st.integers(1, 5)), draw(st.lists(st.sampled_from(
                ['q0', 'q1', 'q2', 'q3', 'q10', 'q11', 'q12', 'q100', 'x', 'y', 'alpha', 'q1x']), min_size=1, max_size=6,
                unique=True))]
                      for _ in range(draw(st.integers(0, 4)))],
            'qubo': [[draw(st.integers(-3, 3)) for _ in range(n)] for _ in range(n)]})
    return {'jobs': jobs, 'hash': [draw(st.integers(0, 1000)), draw(st.integers(1001, 4000))]}


SUBTESTS = [
    Subtest('circuits', lambda tier: circuits(), check_circuits, 800, 20000),
    Subtest('samplers', lambda tier: sampled(), check_samplers, 400, 8000),
    Subtest('annealing', lambda tier: annealed(), check_annealing, 400, 8000),
    Subtest('hash-seeds', lambda tier: texts(), check_hash, 16, 200),
]
ASSUMPTIONS = ['both the random and the numpy.random generator are seeded; floating-point results are compared with '
               'tolerance 1e-9 within one interpreter and exactly between interpreters on one machine']
