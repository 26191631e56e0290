"""Boltzmann machine helpers: layered network, activations, data and model matrices, training steps."""
import contextlib
import io
import math
import random

import numpy as np
from hypothesis import strategies as st

from blueqat import wq

from core import Subtest, require

ID = 'C31'
RULE = ('layer sizes, parameters, data rows and sampling schedules; matrices compared entry by entry with sums over '
        'the layers, model matrices and training steps with the samples the annealing step returned; non-trivial: '
        'both layers non-empty and more than one shot or row')


class Recorder(wq.Opt):
    """Optimizer which remembers, for every annealing run, the parameters it started from and what it returned."""

    def __init__(self):
        super().__init__()
        self.log = []
        self.lengths = []

    def run(self, *a, **k):
        before = np.array(self.qubo, dtype=float)
        r = super().run(*a, **k)
        several = bool(r) and isinstance(r[0], list)
        self.log.append((before, [list(x) for x in r] if several else [list(r)]))
        self.lengths += [len(e) for e in self.E] if several else [len(self.E)]
        return r


def expected_length(case, target):
    """Number of energies which a run down to the temperature records."""
    o = wq.Opt()
    o.qubo, o.Ts = [[1.0]], case['ts']
    state = np.random.get_state()
    o.run(sampler='fast', targetT=target)
    np.random.set_state(state)
    return len(o.E)


def check_lengths(o, case, target):
    want = expected_length(case, target)
    require(all(k == want for k in o.lengths), 'annealing runs record %s energies instead of %d on the way from the '
            'temperature %s to %s', o.lengths, want, case['ts'], target)


def close(a, b):
    return np.shape(a) == np.shape(b) and np.allclose(np.asarray(a, float), np.asarray(b, float), rtol=1e-9, atol=1e-9)


def sigm(x):
    return 1 / (1 + math.exp(-x)) if x >= 0 else math.exp(x) / (1 + math.exp(x))


def container(m, how):
    return {'list': lambda: [list(r) for r in m], 'array': lambda: np.array(m, dtype=float),
            'tuple': lambda: tuple(tuple(r) for r in m)}[how]()


def offsets(layers):
    return [sum(layers[:k]) for k in range(len(layers) + 1)]


def check_layers(case, ctx):
    layers, w = case['layers'], case['w']
    np.random.seed(case['seed'])
    arg = tuple(layers) if case['tuple'] else list(layers)
    if case['set']:
        o = wq.Opt()
        o.setRBM(arg)
        m, w = o.qubo, 0
        require(o.RBMvisible == layers[0] and o.RBMhidden == layers[1], 'setRBM(%r): %r visible, %r hidden', arg,
                o.RBMvisible, o.RBMhidden)
    else:
        m = wq.dbms(arg) if w == 0 else wq.dbms(arg, w)
    require(list(arg) == list(layers), 'the layers were modified: %r', arg)
    n = sum(layers)
    require(np.shape(m) == (n, n), 'shape %r for layers %r', np.shape(m), layers)
    off = offsets(layers)
    layer = [k for k, size in enumerate(layers) for _ in range(size)]
    values = []
    for i in range(n):
        for j in range(n):
            v = float(m[i][j])
            if i == j or layer[j] == layer[i] + 1:
                values.append(v)
                if w == 0:
                    require(0 <= v < 1, 'entry %d,%d of layers %r is %r, not in [0, 1)', i, j, layers, v)
                else:
                    require(v == (0.5 if i == j else w), 'entry %d,%d of layers %r with weight %r is %r', i, j,
                            layers, w, v)
            else:
                require(v == 0, 'layers %r: unconnected units %d, %d have the weight %r', layers, i, j, v)
    if w == 0:
        require(len(set(values)) == len(values), 'random parameters repeat: %r', values)
    ctx.interesting(len(off) > 2 and n > 2)


def check_hidden(case, ctx):
    m, v, nv = container(case['m'], case['how']), list(case['v']), len(case['v'])
    before = np.array(m, dtype=float).copy()
    h = wq.rbm_hmodel(v, m)
    n = len(case['m'])
    expected = [sigm(case['m'][i][i] + sum(case['m'][j][i] * v[j] for j in range(nv))) for i in range(nv, n)]
    require(len(h) == n - nv and close(list(h), expected), 'activations %r instead of %r', h, expected)
    arg = np.array(v) if case['vector'] else list(v)
    if case['vector'] and all(x in (0, 1) for x in v):
        arg = arg.astype(case['dtype'])
    d = wq.rbm_data_qubo(arg, m)
    require(np.shape(d) == (n, n), 'data matrix of shape %r for %d units', np.shape(d), n)
    act = v + expected
    for i in range(n):
        for j in range(n):
            e = act[i] if i == j else act[i] * act[j] if i < nv <= j else 0
            require(abs(float(d[i][j]) - e) <= 1e-9, 'entry %d,%d of the data matrix is %r instead of %r', i, j,
                    d[i][j], e)
    require(np.array_equal(before, np.array(m, dtype=float)) and list(arg) == v, 'arguments were modified')
    ctx.interesting(0 < nv < n)


def averages(samples, nv, nh):
    n, k = nv + nh, len(samples)
    m = [[0.0] * n for _ in range(n)]
    for s in samples:
        for i in range(n):
            m[i][i] += s[i] / k
            for j in range(nv, n):
                if i < nv:
                    m[i][j] += s[i] * s[j] / k
    return m


def machine(case):
    random.seed(case['seed'])
    np.random.seed(case['seed'])
    o = Recorder()
    o.setRBM(list(case['layers']))
    if case['m'] is not None:
        n = sum(case['layers'])
        o.qubo = np.array([r[:n] for r in case['m'][:n]], dtype=float)
    o.Ts = case['ts']
    return o


def check_model(case, ctx):
    o = machine(case)
    nv, nh = case['layers']
    start = np.array(o.qubo, dtype=float)
    kw = {} if case.get('defaults') else {'shots': case['shots'], 'targetT': case['target']}
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        got = o.rbm_model_qubo(**kw)
    require(not out.getvalue(), 'sampling printed %r', out.getvalue())
    case = dict(case, shots=kw.get('shots', 100))
    require(np.array_equal(start, np.array(o.qubo, dtype=float)), 'sampling the model changed its parameters')
    require(o.log, 'no annealing run')
    samples = [s for _, r in o.log for s in r]
    require(len(samples) == case['shots'], '%d samples for %d shots', len(samples), case['shots'])
    check_lengths(o, case, kw.get('targetT', 0.02))
    require(close(got, averages(samples, nv, nh)), 'samples %r give the model\n%s', samples, got)
    ctx.label('shots %d' % case['shots'])
    ctx.interesting(case['shots'] > 1)


def check_fit(case, ctx):
    o = machine(case)
    nv, nh = case['layers']
    rows = [list(r) for r in case['rows']]
    data = np.array(rows, dtype=case['dtype']) if case['vector'] else [list(r) for r in rows]
    kw = {'shots': case['shots'], 'targetT': case['target'], 'epoch': case['epoch'], 'verbose': case['verbose']}
    if case['alpha'] is not None:
        kw.update(alpha=case['alpha'], epsilon=case['epsilon'])
    alpha, eps = (0.9, 0.1) if case['alpha'] is None else (case['alpha'], case['epsilon'])
    start = np.array(o.qubo, dtype=float)
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        o.fit(data, **kw)
    require(bool(out.getvalue()) is case['verbose'], 'verbose=%s printed %r', case['verbose'], out.getvalue())
    require([list(r) for r in data] == rows, 'the training data were modified')
    require(len(o.log) == case['epoch'], '%d annealing runs for %d epochs', len(o.log), case['epoch'])
    check_lengths(o, case, case['target'])
    states = [b for b, _ in o.log] + [np.array(o.qubo, dtype=float)]
    require(np.array_equal(states[0], start), 'training starts from other parameters')
    n = nv + nh
    used = set()
    for (q, samples), after in zip(o.log, states[1:]):
        require(len(samples) == case['shots'], '%d samples for %d shots', len(samples), case['shots'])
        model = np.array(averages(samples, nv, nh))
        found = False
        for k, row in enumerate(rows):
            v = [1 - b for b in row]
            act = v + [sigm(q[i][i] + sum(q[j][i] * v[j] for j in range(nv))) for i in range(nv, n)]
            d = np.array([[act[i] if i == j else act[i] * act[j] if i < nv <= j else 0 for j in range(n)]
                          for i in range(n)])
            if close(after, alpha * q + eps * (d - model)):
                found = True
                used.add(k)
        require(found, 'a training step from\n%s\nwith samples %r gives\n%s\nwhich no row of %r explains', q, samples,
                after, rows)
    if len(set(map(tuple, rows))) > 1 and case['epoch'] >= 60 and eps > 0.05:
        require(len(used) > 1, '%d training steps used row %r only', case['epoch'], used)
    ctx.interesting(case['epoch'] > 1 and case['shots'] > 1)


number = st.integers(-16, 16).map(lambda k: k / 8) | st.floats(-4, 4).map(lambda x: round(x, 5))


@st.composite
def matrix(draw, n, upper=False):
    return [[draw(number) if j >= i or not upper else 0.0 for j in range(n)] for i in range(n)]


@st.composite
def layered(draw):
    return {'layers': draw(st.lists(st.integers(1, 4), min_size=2, max_size=4)),
            'w': draw(st.sampled_from([0, 0, 1, 0.5, -0.25, 3])), 'seed': draw(st.integers(0, 10 ** 6)),
            'tuple': draw(st.booleans()), 'set': draw(st.booleans())}


@st.composite
def hidden(draw):
    n = draw(st.integers(1, 6))
    nv = draw(st.integers(0, n))
    return {'m': draw(matrix(n)), 'v': draw(st.lists(st.integers(0, 1) | st.sampled_from([0.5, 0.25]), min_size=nv,
                                                      max_size=nv)),
            'how': draw(st.sampled_from(['list', 'array', 'tuple'])), 'vector': draw(st.booleans()),
            'dtype': draw(st.sampled_from(['int64', 'float64', 'uint8', 'int8', 'bool']))}


@st.composite
def machines(draw, fit=False):
    nv, nh = draw(st.integers(1, 3)), draw(st.integers(1, 3))
    case = {'layers': [nv, nh], 'm': draw(st.none() | matrix(nv + nh, upper=True)), 'ts': 1.0,
            'target': draw(st.sampled_from([0.5, 0.8, 2.0])), 'shots': draw(st.integers(1, 5)),
            'seed': draw(st.integers(0, 10 ** 6))}
    if not fit:
        case['defaults'] = draw(st.integers(0, 39)) == 0
    if fit:
        case.update(rows=draw(st.lists(st.lists(st.integers(0, 1), min_size=nv, max_size=nv), min_size=1, max_size=4)),
                    alpha=draw(st.none() | st.sampled_from([1.0, 0.5, 0.95])),
                    epsilon=draw(st.sampled_from([0.1, 0.5, 1.0, 0.01])), epoch=draw(st.integers(1, 4)),
                    verbose=draw(st.booleans()), vector=draw(st.booleans()),
                    dtype=draw(st.sampled_from(['int64', 'float64', 'uint8', 'int8', 'bool', 'uint16'])))
        if draw(st.integers(0, 19)) == 0:
            case.update(epoch=60, target=2.0)
    return case


@st.composite
def wide(draw):
    """Layers of more units."""
    case = draw(hidden())
    n = draw(st.integers(7, 30))
    nv = draw(st.integers(1, n - 1))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    case.update(m=[[rng.randint(-8, 8) / 8 for _ in range(n)] for _ in range(n)],
                v=[rng.choice([0, 1, 0.25]) if draw(st.booleans()) else rng.randint(0, 1) for _ in range(nv)])
    return case


@st.composite
def wide_machines(draw, fit=False):
    case = draw(machines(fit))
    nv, nh = draw(st.integers(1, 14)), draw(st.integers(4, 14))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    case.update(layers=[nv, nh], target=2.0, defaults=False, m=None)
    if fit:
        case.update(rows=[[rng.randint(0, 1) for _ in range(nv)] for _ in range(rng.choice([1, 2, 9]))],
                    epoch=draw(st.integers(1, 2)), shots=draw(st.integers(1, 3)))
    else:
        case.update(shots=draw(st.sampled_from([1, 3, 20, 70])))
    return case


SUBTESTS = [
    Subtest('wide-layers', lambda tier: st.builds(lambda c, l: {**c, 'layers': l}, layered(), st.lists(
        st.integers(1, 13), min_size=2, max_size=6)), check_layers, 60, 1000),
    Subtest('wide-hidden', lambda tier: wide(), check_hidden, 100, 2000),
    Subtest('wide-model', lambda tier: wide_machines(), check_model, 40, 600),
    Subtest('wide-fit', lambda tier: wide_machines(True), check_fit, 40, 600),
    Subtest('layers', lambda tier: layered(), check_layers, 600, 20000),
    Subtest('hidden', lambda tier: hidden(), check_hidden, 1500, 40000),
    Subtest('model', lambda tier: machines(), check_model, 300, 6000),
    Subtest('fit', lambda tier: machines(fit=True), check_fit, 200, 4000),
]
ASSUMPTIONS = ['rbm_model_qubo and fit sample by calling run() of the optimizer, where the samples are recorded']
