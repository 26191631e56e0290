"""Simulated annealing: recorded energies, Boltzmann distribution, minimisation, shapes."""
import contextlib
import copy
import io
import math
import random

import numpy as np
from hypothesis import strategies as st

from blueqat import wq

import ref
from core import Subtest, require
from props.c18 import KINDS, assignments, dec, magnitude, matrices, unchanged
from props.c18 import cost as qubo_cost

ID = 'C19'
RULE = ('QUBO matrices of any triangle and container with generated annealing schedules; energies against the '
        'QUBO cost, samples at one fixed temperature against the exact Boltzmann distribution (p < 1e-9 '
        'rejects), slow cooling against the exact minimum; non-trivial: couplings of both signs or fields '
        'that oppose the couplings (an assignment that is not optimal in every variable alone)')


def check_bits(bits, n):
    require(isinstance(bits, list) and len(bits) == n and all(type(b) is int and b in (0, 1) for b in bits),
            'returned bits %r for %d variables', bits, n)


def levels(ts, target, rate):
    k = 0
    while ts > target:
        k += 1
        ts *= rate
    return k


def triangle(m):
    return [[m[i][j] if j >= i else 0 for j in range(len(m))] for i in range(len(m))]


def cost(m, bits, ising=False):
    """The QUBO cost or, of an Ising problem, the energy of the spins -1 and 1."""
    if ising:
        s, n = [2 * b - 1 for b in bits], len(bits)
        return float(sum(float(m[i][j]) * s[i] * (s[j] if j > i else 1) for i in range(n) for j in range(i, n)))
    return qubo_cost(m, bits)


def make(case):
    o = wq.Opt()
    q = dec(case)
    if case.get('ising'):
        q = dec(dict(case, m=triangle(case['m'])))
        o.J = q
        return o, q
    former = case.get('former')
    if former:
        # the object solved another problem before
        ite = o.ite
        o.ite = 1
        if former == 'changed' and not isinstance(q, tuple):
            o.qubo = q
            keep = copy.deepcopy(q)
            for i in range(len(q)):
                for j in range(len(q)):
                    q[i][j] = 3 - 2 * (i == j)
            o.sqa() if case.get('tro') else o.run()
            for i in range(len(q)):
                for j in range(len(q)):
                    q[i][j] = keep[i][j]
            o.ite, o.E = ite, []
            return o, q
        size = len(q) if former == 'same' else 2
        o.qubo = [[1 + i - 2 * j for i in range(size)] for j in range(size)]
        o.sqa() if case.get('tro') else o.run()
        o.ite, o.E, o.qubo = ite, [], []
    if case['add']:
        o.add(q)
    else:
        o.qubo = q
    return o, q


def anneal(o, case):
    """Run with the keywords of the case; verbose output must not change anything."""
    kw = {}
    if case['shots'] != 1 or case['explicit']:
        kw['shots'] = case['shots']
    if case['sampler'] != 'normal' or case['explicit']:
        kw['sampler'] = case['sampler']
    out = io.StringIO()
    with contextlib.redirect_stdout(out):
        if case['how'] == 'sa':
            return o.sa(**kw)
        if case['verbose']:
            kw['verbose'] = True
        return o.run(targetT=case['target'], **kw)


def check_traces(case, ctx):
    o, q = make(case)
    keep = copy.deepcopy(q)
    n = len(case['m'])
    a, x = np.array([list(r) for r in case['m']], dtype=float), np.array(list(assignments(n)))
    ising = case.get('ising', False)
    costs = np.einsum('ki,ij,kj->k', x, a, x)
    if ising:
        costs = np.array([cost(a, b, True) for b in assignments(n)])
    tol = 1e-9 * magnitude(keep)
    o.Ts, o.R, o.ite = case['ts'], case['r'], case['ite']
    target = 0.02 if case['how'] == 'sa' else case['target']
    for _run in range(case['runs']):
        res = anneal(o, case)
        energies = o.E
        require(isinstance(res, list) and isinstance(energies, list), 'returned %r with E %r', res, energies)
        if case['shots'] == 1:
            res, energies = [res], [energies]
        require(len(res) == case['shots'] and len(energies) == case['shots'], '%d results and %d energy lists for '
                '%d shots', len(res), len(energies), case['shots'])
        for bits, trace in zip(res, energies):
            check_bits(bits, n)
            want = 1 + levels(case['ts'], target, case['r'])
            require(len(trace) >= min(want, 2) if case['sampler'] == 'fast' else abs(len(trace) - want) <= 1,
                    '%d recorded energies, %d temperature levels', len(trace), want - 1)
            for e in trace:
                require(np.abs(e - costs).min() <= tol, 'recorded energy %r is no cost of %s (%s)', e, keep,
                        sorted(costs)[:64])
            c = cost(keep, bits, ising)
            require(abs(trace[-1] - c) <= tol, 'the last recorded energy is %r, the returned bits %s cost %r',
                    trace[-1], bits, c)
    require(unchanged(q, keep), 'the QUBO was changed to %s', q)
    ctx.label(case['sampler'], f"{min(case['shots'], 2)}{'+' if case['shots'] > 1 else ''} shots", case['shape'])
    ctx.interesting(n > 1 and len(set(costs)) > 3)


def metropolis_tv(costs, n, t, steps):
    """Distance from equilibrium of a single-flip Metropolis chain started uniformly."""
    size = 2 ** n
    p = np.zeros((size, size))
    for i in range(size):
        for b in range(n):
            j = i ^ (1 << b)
            p[i, j] = min(1.0, math.exp(min(0.0, -(costs[j] - costs[i]) / t))) / n
        p[i, i] = 1 - p[i].sum()
    x = np.full(size, 1 / size) @ np.linalg.matrix_power(p, steps)
    w = np.exp(-(np.array(costs) - min(costs)) / t)
    return float(np.abs(x - w / w.sum()).sum() / 2)


def check_boltzmann(case, ctx):
    o, q = make(case)
    n = len(case['m'])
    costs = [cost(q, b) for b in assignments(n)]
    spread = max(costs) - min(costs)
    if spread < 1e-3:
        t = 1.0
    else:
        t = spread / case['beta']
    fast = case['sampler'] == 'fast'
    ite = 100 if fast else 60 * n
    if metropolis_tv(costs, n, t, ite) > 1e-4:
        if fast:
            ctx.label('skipped: does not equilibrate')
            return
        while metropolis_tv(costs, n, t, ite) > 1e-4 and ite < 2000:
            ite *= 2
    o.Ts, o.R, o.ite = t, 0.5, ite
    shots = case['shots']
    res = o.run(shots=shots, sampler=case['sampler'], targetT=0.9 * t)
    counts = [0] * 2 ** n
    for bits in res:
        check_bits(bits, n)
        counts[sum(b << i for i, b in enumerate(bits))] += 1
    w = np.exp(-(np.array(costs) - min(costs)) / t)
    w /= w.sum()
    groups = [[k] for k in range(2 ** n)] + [[k for k in range(2 ** n) if (k >> i) & 1] for i in range(n)]
    groups += [[k for k in range(2 ** n) if ((k >> i) ^ (k >> j)) & 1] for i in range(n) for j in range(i)]
    for g in groups:
        k, p = sum(counts[x] for x in g), float(sum(w[x] for x in g))
        require(ref.binom_tail(shots, k, p) > 1e-10, '%s of %s shots in the assignments %s of %s at temperature %s, '
                'Boltzmann probability %.5f', k, shots, g, q, t, p)
    require(len({tuple(e) for e in o.E}) > 1 or shots < 20 or spread < 1e-3, 'all shots took the same course')
    ctx.label(case['sampler'])
    ctx.interesting(n > 1 and len(set(costs)) > 2)


def check_cooling(case, ctx):
    o, q = make(case)
    n = len(case['m'])
    costs = [cost(q, b) for b in assignments(n)]
    low, scale = min(costs), max(1.0, max(abs(x) for r in case['m'] for x in r))
    fast = case['sampler'] == 'fast'
    o.Ts, o.R, o.ite = 3 * scale, 0.85, 25
    best = None
    for _ in range(4):
        res = o.run(shots=8, sampler=case['sampler'], targetT=0.02 * scale if fast else 0.04)
        for bits in res:
            check_bits(bits, n)
            c = cost(q, bits)
            best = c if best is None else min(best, c)
        if abs(best - low) < 1e-9:
            break
    require(abs(best - low) < 1e-9, 'slow cooling of %s never finds the minimum %s: best %s', q, low, best)
    ctx.label(case['sampler'])
    ctx.interesting(costs.index(low) not in (0, 2 ** n - 1) and costs.count(low) == 1)


def no_local_minima(costs, n):
    low = min(costs)
    return all(c == low or any(costs[k ^ (1 << b)] < c for b in range(n)) for k, c in enumerate(costs))


def check_sqa(case, ctx):
    o, q = make(case)
    n = len(case['m'])
    keep = copy.deepcopy(q)
    costs = [cost(q, b) for b in assignments(n)]
    low = min(costs)
    o.tro, o.ite, o.R = case['tro'], 20 * n, 0.8
    best = None
    for _ in range(6):
        s = o.sqa()
        require(isinstance(s, np.ndarray) and s.shape == (case['tro'], n), 'sqa returned %r', s)
        require(np.all(np.abs(s) == 1), 'spins %s', s)
        c = min(cost(keep, [int(x > 0) for x in row]) for row in s)
        best = c if best is None else min(best, c)
        if abs(best - low) < 1e-9:
            break
    require(unchanged(q, keep), 'the QUBO was changed')
    require(len(o.E) >= 2 and all(np.isfinite(e) for e in o.E), 'energies %s', o.E)
    if no_local_minima(costs, n):
        require(abs(best - low) < 1e-9, 'quantum annealing of %s never finds the minimum %s: best %s', q, low, best)
        ctx.interesting(costs.index(low) not in (0, 2 ** n - 1))
    ctx.label('no local minima' if no_local_minima(costs, n) else 'local minima')


def bits_of(k, n):
    return [(k >> i) & 1 for i in range(n)]


def check_replicas(case, ctx):
    """sqa is a Metropolis walk of tro replicas; neighbouring ones attract each other by the
    transverse field: energy = mean cost - sum of T/2 ln coth(G/(T tro)) s(p,i) s(p+1,i)."""
    o, q = make(case)
    keep = copy.deepcopy(q)
    n, tro = len(case['m']), case['tro']
    ising = case.get('ising', False)
    costs = [cost(keep, b, ising) for b in assignments(n)]
    spread = max(costs) - min(costs)
    t = max(spread, 0.5) / tro / case['beta']
    g = t * tro * case['field']
    bond = t / 2 * math.log(1 / math.tanh(g / t / tro))

    def energy(rows):
        e = sum(cost(keep, r, ising) for r in rows) / tro
        for p in range(tro):
            e -= bond * sum((2 * a - 1) * (2 * b - 1) for a, b in zip(rows[p], rows[(p + 1) % tro]))
        return e
    size = n * tro
    energies = []
    for k in range(2 ** size):
        bits = bits_of(k, size)
        energies.append(energy([bits[p * n:p * n + n] for p in range(tro)]))
    ite = 25 * size
    while metropolis_tv(energies, size, t, ite) > 1e-4:
        ite += ite // 2
        if ite > 800:
            ctx.label('skipped: does not equilibrate')
            return
    o.Gs, o.Gf, o.R, o.Tf, o.tro, o.ite = g, 0.9 * g, 0.5, t, tro, ite
    counts = [0] * 2 ** size
    tol = 1e-8 * (magnitude(keep) + bond * size)
    # without trials nothing moves: every recorded energy is the one of the returned replicas
    o.ite, former = 0, len(o.E)
    rows = [[int(x > 0) for x in row] for row in o.sqa()]
    require(len(o.E) >= former + 2 and all(abs(e - energy(rows)) <= tol for e in o.E[former:]), 'energies %s of the '
            'replicas %s which have %r', o.E[former:], rows, energy(rows))
    o.ite = ite
    shots = case['shots']
    for _ in range(shots):
        rows = [[int(x > 0) for x in row] for row in o.sqa()]
        require(abs(o.E[-1] - energy(rows)) <= tol, 'the last recorded energy is %r, the returned replicas %s '
                'have %r', o.E[-1], rows, energy(rows))
        counts[sum(b << i for i, b in enumerate(b for row in rows for b in row))] += 1
    w = np.exp(-(np.array(energies) - min(energies)) / t)
    w /= w.sum()
    ks = range(2 ** size)
    groups = [[k] for k in ks] + [[k for k in ks if (k >> i) & 1] for i in range(size)]
    groups += [[k for k in ks if ((k >> i) ^ (k >> j)) & 1] for i in range(size) for j in range(i)]
    levels_of = {}
    for k in ks:
        levels_of.setdefault(round(energies[k], 9), []).append(k)
    broken = {}
    for k in ks:
        b = bits_of(k, size)
        broken.setdefault(sum(x != y for x, y in zip(b, b[n:] + b[:n])), []).append(k)
    groups += list(levels_of.values()) + list(broken.values())
    for gr in groups:
        k, p = sum(counts[x] for x in gr), float(sum(w[x] for x in gr))
        require(ref.binom_tail(shots, k, p) > 1e-11, '%s of %s runs in %s states (first %s) of %s replicas of %s at '
                'temperature %s and field %s, Boltzmann probability %.5f', k, shots, len(gr), bin(gr[0]), tro, q, t, g,
                p)
    ctx.label(f'{tro} replicas of {n}')
    ctx.interesting(n > 1 and len(set(costs)) > 2)


def check_large(case, ctx):
    """More variables: the reported energies are those of the returned bits."""
    o, q = make(case)
    keep = copy.deepcopy(q)
    n, ising = len(case['m']), case['ising']
    tol = 1e-8 * magnitude(keep)
    o.Ts, o.R, o.ite = case['ts'], 0.5, case['ite']
    for _ in range(2):
        res = anneal(o, case)
        res, energies = ([res], [o.E]) if case['shots'] == 1 else (res, o.E)
        require(len(res) == len(energies) == case['shots'], '%d results, %d energy lists', len(res), len(energies))
        for bits, trace in zip(res, energies):
            check_bits(bits, n)
            c = cost(keep, bits, ising)
            require(abs(trace[-1] - c) <= tol, 'the last recorded energy is %r, the returned bits %s cost %r',
                    trace[-1], bits, c)
    tro = case['tro']
    o.E, o.Gs, o.Gf, o.Tf, o.tro = [], 1.0, 0.9, 0.5, tro
    bond = 0.5 / 2 * math.log(1 / math.tanh(1.0 / 0.5 / tro))
    for ite in (0, case['ite']):
        o.ite = ite
        rows = [[int(x > 0) for x in row] for row in o.sqa()]
        e = sum(cost(keep, r, ising) for r in rows) / tro
        for p in range(tro):
            e -= bond * sum((2 * a - 1) * (2 * b - 1) for a, b in zip(rows[p], rows[(p + 1) % tro]))
        require(abs(o.E[-1] - e) <= tol + 1e-8 * bond * n * tro, 'the last recorded energy is %r, the replicas %s '
                'have %r', o.E[-1], rows, e)
    require(unchanged(q, keep), 'the QUBO was changed')
    ctx.label(case['sampler'])
    ctx.interesting(n > 11)


@st.composite
def large(draw, tier):
    m = draw(matrices(14))
    n = draw(st.integers(10, 40))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    shape = m['shape']
    m['m'] = [[rng.randint(-3, 3) if shape in ('full', 'symmetric', 'sparse') or (j >= i if shape == 'upper' else j <= i)
               else 0 for j in range(n)] for i in range(n)]
    m.update(add=draw(st.booleans()), former=draw(FORMER), shots=draw(st.sampled_from([1, 2, 2, 40])), explicit=draw(st.booleans()),
             sampler=draw(st.sampled_from(['normal', 'fast'])), how='run', verbose=False, ts=draw(st.sampled_from([0.1, 3])),
             ite=draw(st.integers(1, 4)), target=0.05, ising=draw(st.integers(0, 5)) == 5, tro=draw(st.integers(2, 5)))
    if m['kind'] in ('u8', 'u16', 'u64', 'bool'):
        m['m'] = [[abs(x) for x in r] for r in m['m']]
    return m


FORMER = st.sampled_from([None, None, 'same', 'changed', 'smaller'])


@st.composite
def small_ints(draw, max_n):
    m = draw(matrices(max_n, KINDS))
    m['m'] = [[int(round(max(-4, min(4, x)))) for x in r] for r in m['m']]
    if draw(st.booleans()):
        for i in range(len(m['m'])):
            m['m'][i][i] = -draw(st.integers(0, 4))
    return m


@st.composite
def traces(draw, tier):
    m = draw(matrices(11, min_n=7) if draw(st.integers(0, 9)) == 5 else matrices(6))
    m.update(add=draw(st.booleans()), former=draw(FORMER), shots=draw(st.sampled_from([1, 1, 2, 3, 5])), explicit=draw(st.booleans()),
             sampler=draw(st.sampled_from(['normal', 'normal', 'fast'])), how=draw(st.sampled_from(['run', 'run', 'sa'])),
             verbose=draw(st.booleans()), ts=draw(st.sampled_from([5, 1.0, 30.0, 0.1, 200])),
             r=draw(st.sampled_from([0.5, 0.3, 0.7])), ite=draw(st.integers(1, 12)),
             target=draw(st.sampled_from([0.02, 0.02, 0.5, 0.9])), runs=draw(st.integers(1, 2)),
             ising=draw(st.integers(0, 7)) == 5)
    return m


@st.composite
def equilibria(draw, tier):
    m = draw(small_ints(3) if draw(st.booleans()) else matrices(2))
    m.update(add=draw(st.booleans()), former=draw(FORMER), beta=draw(st.sampled_from([1.0, 2.0, 3.0])),
             sampler=draw(st.sampled_from(['normal', 'normal', 'fast'])), shots=draw(st.sampled_from([300, 400])))
    return m


@st.composite
def coolings(draw, tier):
    m = draw(small_ints(3 if tier == 'quick' else 4))
    m.update(add=draw(st.booleans()), former=draw(FORMER), sampler=draw(st.sampled_from(['normal', 'normal', 'fast'])))
    return m


@st.composite
def quantum(draw, tier):
    m = draw(small_ints(3))
    m.update(add=draw(st.booleans()), former=draw(FORMER), tro=draw(st.sampled_from([2, 4, 5, 8])))
    return m


@st.composite
def replicas(draw, tier):
    tro = draw(st.sampled_from([2, 2, 3, 4, 5]))
    m = draw(matrices({2: 3, 3: 2}.get(tro, 1)))
    m.update(add=draw(st.booleans()), former=draw(FORMER), tro=tro, beta=draw(st.sampled_from([0.7, 1.5])),
             field=draw(st.sampled_from([0.3, 0.6, 1.0])), shots=draw(st.sampled_from([200, 300])),
             ising=draw(st.integers(0, 7)) == 5)
    return m


SUBTESTS = [
    Subtest('traces', traces, check_traces, 400, 10000),
    Subtest('large', large, check_large, 60, 1000),
    Subtest('boltzmann', equilibria, check_boltzmann, 64, 1200),
    Subtest('cooling', coolings, check_cooling, 120, 2500),
    Subtest('quantum-annealing', quantum, check_sqa, 160, 3000),
    Subtest('replicas', replicas, check_replicas, 48, 800, explicit=[
        {'kind': 'list', 'm': m, 'shape': 'upper', 'add': False, 'former': None, 'tro': tro, 'beta': 0.7,
         'field': 0.6, 'shots': 1500} for m, tro in [([[0]], 5), ([[1, -2], [0, 1]], 3)]]),
]
ASSUMPTIONS = ['sampled frequencies are rejected at p < 1e-9; a minimum counts as missed only after 32 coolings '
               '(6 quantum annealings of a QUBO without local minima)',
               'the energy of a state of sqa is that of the path integral its transitions simulate: the mean cost of '
               'the slices minus T/2 ln coth(G/(T tro)) per aligned pair of neighbouring spins']
