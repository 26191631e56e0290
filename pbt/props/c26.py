"""Submission to a D-Wave solver, with a recording stand-in for the cloud client."""
import copy
import sys
import types

from hypothesis import strategies as st

from blueqat import wq

from core import Subtest, require
from props.c18 import assignments, cost, dec, deciding, magnitude, matrices, unchanged

ID = 'C26'
RULE = ('QUBO matrices of any triangle and container (or Ising coefficients) submitted to solvers with generated '
        'graphs (extra qubits and couplers, nodes in any order) which return generated samples; the recorded Ising '
        'problem against the cost at every assignment; non-trivial: two or more variables with a coupling')


class Computation:
    def __init__(self, samples):
        self.samples = samples
        self.energies = [0.0] * len(samples)
        self.occurrences = [1] * len(samples)

    def wait(self, timeout=None):
        return True

    def done(self):
        return True

    def result(self):
        return {'samples': self.samples, 'solutions': self.samples, 'energies': self.energies}

    def __getitem__(self, k):
        return self.result()[k]


class Solver:
    def __init__(self, case, log):
        self.case, self.log = case, log
        self.nodes = list(case['nodes'])
        self.undirected_edges = [tuple(e) for e in case['edges']]
        if case['sets']:
            self.nodes, self.undirected_edges = set(self.nodes), set(self.undirected_edges)
        self.edges = set(map(tuple, case['edges'])) | {(b, a) for a, b in case['edges']}
        self.num_qubits = max(case['nodes'], default=-1) + 1
        self.id = self.name = 'stand-in'
        self.properties = {'num_qubits': self.num_qubits, 'qubits': sorted(case['nodes']),
                           'couplers': [list(e) for e in case['edges']]}

    def sample_ising(self, linear, quadratic=None, *args, **params):
        if not isinstance(linear, dict):
            linear = {i: h for i, h in enumerate(linear) if h}
        quadratic = dict(quadratic or {})
        for q in linear:
            require(q in self.nodes, 'a bias for qubit %r, which the solver does not have', q)
        for e in quadratic:
            require(tuple(e) in self.edges, 'a coupling %r, which the solver does not have', e)
        self.log.append(('ising', {int(k): float(v) for k, v in linear.items()},
                         [(int(a), int(b), float(v)) for (a, b), v in quadratic.items()]))
        spins = self.case['spins']
        # the real client reports 3 for qubits which took no part
        row = [spins[q] if q < len(spins) else 3 for q in range(max(self.num_qubits, len(spins)))]
        return Computation([row] + [[-s if s != 3 else 3 for s in row]] * self.case['more'])


class Client:
    log = None
    case = None

    @classmethod
    def from_config(cls, *args, **kwargs):
        Client.log.append(('config', kwargs))
        return cls()

    def __init__(self, *args, **kwargs):
        pass

    def get_solver(self, *args, **kwargs):
        return Solver(Client.case, Client.log)

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def install(case):
    Client.log, Client.case = [], case
    pkg, cloud = types.ModuleType('dwave'), types.ModuleType('dwave.cloud')
    pkg.__path__ = []
    pkg.cloud, cloud.Client = cloud, Client
    sys.modules['dwave'], sys.modules['dwave.cloud'] = pkg, cloud


def points(n):
    """All assignments, or enough of them to determine a quadratic function."""
    return list(assignments(n) if n <= 6 else deciding(n))


def energy(linear, quad, s):
    return sum(h * s[q] for q, h in linear.items() if q < len(s)) + \
        sum(v * s[a] * s[b] for a, b, v in quad if a < len(s) and b < len(s))


def check_equivalent(linear, quad, n, costs, tol, what):
    for q, h in linear.items():
        require(q < n or h == 0, 'qubit %d of a problem of %d variables has the bias %r', q, n, h)
    for a, b, v in quad:
        require((a < n and b < n) or v == 0, 'qubits %d and %d of a problem of %d variables are coupled', a, b, n)
    bits = points(n)
    e = [energy(linear, quad, [2 * b - 1 for b in x]) for x in bits]
    lo, hi = costs.index(min(costs)), costs.index(max(costs))
    if costs[hi] - costs[lo] <= tol:
        require(max(e) - min(e) <= tol, 'submitted energies %s of %s, whose costs are %s', e, what, costs)
        return
    a = (e[hi] - e[lo]) / (costs[hi] - costs[lo])
    require(a > 0, 'submitted energies %s of %s, whose costs are %s', e, what, costs)
    for k in range(len(bits)):
        require(abs(e[k] - e[lo] - a * (costs[k] - costs[lo])) <= max(a, 1) * tol, 'submitted energies %s of %s, '
                'whose costs are %s (linear %s, quadratic %s)', e, what, costs, linear, quad)


def with_other(o):
    """Submit whatever the optimizer holds to a solver which has all couplers."""
    saved = Client.case
    n = len(o.qubo)
    Client.case = dict(saved, nodes=list(range(n)), edges=[[a, b] for a in range(n) for b in range(a + 1, n)])
    o.dw()
    Client.case = saved


def check(case, ctx):
    install(case)
    o = wq.Opt()
    n = len(case['m'])
    q = dec(case)
    keep = copy.deepcopy(q)
    if case['form'] == 'ising':
        o.J = q
        m = case['m']
        costs = [sum(m[i][i] * (2 * b[i] - 1) for i in range(n)) +
                 sum(m[i][j] * (2 * b[i] - 1) * (2 * b[j] - 1) for i in range(n) for j in range(i + 1, n))
                 for b in points(n)]
    else:
        if case['form'] == 'add':
            o.add(q)
        else:
            o.qubo = q
        costs = [cost(keep, b) for b in points(n)]
    o.dwaveendpoint, o.dwavetoken, o.dwavesolver = 'http://localhost/x', 'tok', 'solv'
    if case['former'] and case['form'] != 'ising' and not isinstance(o.qubo, tuple):
        # another problem was submitted before: a new matrix or the same one with other entries
        mine = o.qubo
        if case['former'] == 'new':
            o.qubo = [[1 + i - 2 * j for i in range(n)] for j in range(n)]
            with_other(o)
            o.qubo = mine
        else:
            for i in range(n):
                for j in range(n):
                    mine[i][j] = 3 - 2 * (i == j)
            with_other(o)
            for i in range(n):
                for j in range(n):
                    mine[i][j] = keep[i][j]
    for _k in range(case['times']):
        del Client.log[:]
        bits = o.dw()
        want = [(s + 1) // 2 for s in case['spins'][:n]]
        require(isinstance(bits, list) and bits == want and all(isinstance(b, int) for b in bits),
                'returned %r, the sampled spins are %s', bits, case['spins'])
        config = [x[1] for x in Client.log if x[0] == 'config']
        require(len(config) == 1 and config[0].get('endpoint') == 'http://localhost/x' and
                config[0].get('token') == 'tok' and config[0].get('solver') == 'solv',
                'connected with %s', config)
        sent = [x for x in Client.log if x[0] == 'ising']
        require(len(sent) == 1, '%d problems were submitted', len(sent))
        check_equivalent(sent[0][1], sent[0][2], n, costs, 1e-9 * max(1.0, magnitude(keep)), keep)
    require(unchanged(q, keep), 'the matrix was changed to %s', q)
    ctx.label(case['form'], case['shape'])
    ctx.interesting(n > 1 and len(set(costs)) > 2)


@st.composite
def problems(draw, tier):
    form = draw(st.sampled_from(['qubo', 'qubo', 'add', 'ising']))
    c = draw(matrices(13, min_n=9) if draw(st.integers(0, 11)) == 5 else matrices(6 if tier == 'thorough' else 5))
    if form == 'ising':
        n = len(c['m'])
        c['m'] = [[c['m'][i][j] if j >= i else 0 for j in range(n)] for i in range(n)]
    n = len(c['m'])
    extra = draw(st.lists(st.integers(n, n + 12), unique=True, max_size=5))
    nodes = list(draw(st.permutations(list(range(n)) + extra)))
    pairs = [[a, b] for a in nodes for b in nodes if a < b]
    edges = [e for e in pairs if e[1] < n]
    others = [e for e in pairs if e[1] >= n]
    if others:
        edges += draw(st.lists(st.sampled_from(others), unique_by=tuple, max_size=8))
    # the couplers which the problem needs are always there, others of its qubits may be missing
    drop = [e for e in edges if e[1] < n and not c['m'][e[0]][e[1]] and not c['m'][e[1]][e[0]]]
    if drop and draw(st.booleans()):
        gone = draw(st.lists(st.sampled_from(drop), unique_by=tuple, max_size=4))
        edges = [e for e in edges if e not in gone]
    edges = list(draw(st.permutations(edges))) if edges else edges
    c.update(form=form, former=draw(st.sampled_from([None, None, 'new', 'changed'])), nodes=nodes, edges=edges, sets=draw(st.booleans()), times=draw(st.integers(1, 2)),
             more=draw(st.integers(0, 2)), spins=draw(st.lists(st.sampled_from([-1, 1]), min_size=n, max_size=n)))
    return c


SUBTESTS = [Subtest('submissions', problems, check, 1500, 40000)]
ASSUMPTIONS = ['the stand-in client follows dwave.cloud: undirected_edges has each coupler once with the smaller '
               'qubit first, sample_ising rejects unknown qubits and couplers, unused qubits are reported as 3']
