"""Hypothesis strategies.  Every value is plain JSON data; see ref.py for the encodings."""
import math
import random

from hypothesis import strategies as st

import ref

ONE_0 = ['i', 'x', 'y', 'z', 'h', 't', 'tdg', 's', 'sdg']
ONE_P = ['rx', 'ry', 'rz', 'r', 'phase', 'u1', 'u2', 'u3']
TWO_0 = ['cx', 'cnot', 'cy', 'cz', 'ch', 'swap']
TWO_P = ['crx', 'cry', 'crz', 'cr', 'cphase', 'cu1', 'cu2', 'cu3', 'rxx', 'ryy', 'rzz']
THREE = ['ccx', 'toffoli', 'cswap']
UNITARY = ONE_0 + ONE_P + TWO_0 + TWO_P + THREE
OBJECTS = ['ccz']
NONUNITARY = ['m', 'measure', 'reset']

SPECIAL = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, -math.pi / 4,
           math.pi / 3, 2 * math.pi, -2 * math.pi, 3 * math.pi, 4 * math.pi, 0.1, -0.3, 1e-5,
           -2e-7, 1.0, 2.5]


def angles(kinds=True):
    base = [st.sampled_from(SPECIAL),
            st.floats(-4 * math.pi, 4 * math.pi, allow_nan=False),
            st.floats(-4 * math.pi, 4 * math.pi, allow_nan=False)]
    if kinds:
        base += [st.integers(-7, 7),
                 st.floats(-1e4, 1e4, allow_nan=False),
                 st.floats(-7, 7, allow_nan=False).map(lambda x: ['f64', x]),
                 st.integers(-7, 7).map(lambda x: ['i64', x])]
    return st.one_of(base)


def generic_angles():
    """Angles for which no accidental symmetry hides a sign or operand mix-up."""
    return st.one_of(st.floats(0.15, 1.4), st.floats(-1.4, -0.15), st.floats(1.7, 2.9))


# ---------------------------------------------------------------- addresses

def opt(x):
    return st.one_of(st.none(), x)


@st.composite
def slices(draw, n):
    """Slices which do not make a register of n qubits grow."""
    start = draw(opt(st.integers(-n - 2, n - 1))) if n else draw(opt(st.integers(-2, -1)))
    stop = draw(opt(st.integers(-n - 2, n)))
    step = draw(st.sampled_from([None, None, 1, 2, 3, -1, -2]))
    return {'s': [start, stop, step]}


def index(n):
    return st.one_of(st.integers(0, n - 1), st.integers(0, n - 1), st.integers(-n, -1),
                     st.integers(0, n - 1), st.integers(-n, -1),
                     st.integers(-n, n - 1).map(lambda k: {'i': k}))


@st.composite
def targets1(draw, n, rich=True):
    if n == 0:
        return draw(st.one_of(slices(0), st.just({'t': []})))
    kind = draw(st.integers(0, 9)) if rich else draw(st.integers(0, 4))
    if kind <= 3:
        return draw(index(n))
    if kind == 4:
        return {'s': [None, None, None]}
    if kind <= 6:
        return draw(slices(n))
    if kind == 9:
        return {'t': draw(st.lists(index(n), min_size=n, max_size=n))}      # repetitions: not every qubit
    return {'t': draw(st.lists(st.one_of(index(n), index(n), slices(n)), min_size=0, max_size=4))}


def _as_slice(draw, qs, n):
    """Possible slices selecting exactly qs (a list of qubits) from n qubits, or None."""
    if len(qs) == 1:
        q = qs[0]
        forms = [[q, q + 1, None], [q, q + 1, 1]]
        if q == n - 1:
            forms += [[-1, None, None], [q, None, None]]
        if q == 0:
            forms += [[None, 1, None], [0, None, -1]]
        return {'s': draw(st.sampled_from(forms))}
    step = qs[1] - qs[0]
    if step == 0 or any(b - a != step for a, b in zip(qs, qs[1:])):
        return None
    start, last = qs[0], qs[-1]
    stop = last + (1 if step > 0 else -1)
    forms = []
    if step > 0:
        forms.append([start, stop, step])
        if step == 1:
            forms.append([start, stop, None])
        if start < step and start == 0:
            forms.append([None, stop, step])
        if stop == n:
            forms.append([start, None, step])
        forms.append([start - n, stop, step])
    else:
        if stop >= 0:
            forms.append([start, stop, step])
        else:
            forms.append([start, None, step])
        if start == n - 1:
            forms.append([None, None if stop < 0 else stop, step])
    good = [f for f in forms if list(range(n))[slice(*f)] == list(qs)]
    if not good:
        return None
    return {'s': draw(st.sampled_from(good))}


@st.composite
def encode_list(draw, qs, n, allow_int=True):
    """An address selecting exactly the qubits qs in order."""
    s = _as_slice(draw, qs, n) if qs else None
    kinds = ['tuple']
    if s is not None:
        kinds.append('slice')
    if len(qs) == 1 and allow_int:
        kinds += ['int', 'int', 'int']
    kind = draw(st.sampled_from(kinds))
    if kind == 'slice':
        return s
    enc = [q if draw(st.integers(0, 3)) else q - n for q in qs]
    if kind == 'int':
        return enc[0]
    return {'t': enc}


@st.composite
def targets2(draw, n, rich=True, max_pairs=3):
    assert n >= 2
    k = draw(st.integers(1, max_pairs)) if rich else 1
    ctl, tgt = [], []
    style = draw(st.integers(0, 3)) if rich else 0
    if style == 3 and n >= 3:
        # arithmetic progressions: chains such as cx[0:2, 1:3]
        step = draw(st.sampled_from([1, -1, 2, -2]))
        off = draw(st.sampled_from([1, -1, 2]))
        a0 = draw(st.integers(0, n - 1))
        for j in range(4):
            a = a0 + j * step
            if 0 <= a < n and 0 <= a + off < n:
                ctl.append(a)
                tgt.append(a + off)
            else:
                break
    if not ctl:
        for _ in range(k):
            c = draw(st.integers(0, n - 1))
            t = draw(st.integers(0, n - 2))
            ctl.append(c)
            tgt.append(t if t < c else t + 1)
    return {'t': [draw(encode_list(ctl, n)), draw(encode_list(tgt, n))]}


@st.composite
def targets3(draw, n, rich=True):
    assert n >= 3
    qs = draw(st.permutations(list(range(n))))[:3]
    if rich and draw(st.integers(0, 2)) == 0:
        return {'t': [draw(encode_list([q], n)) for q in qs]}
    return {'t': list(qs)}


@st.composite
def op(draw, n, names, angle, rich=True):
    usable = [g for g in names if ref.n_qubits_of(g) <= max(n, 1)]
    name = draw(st.sampled_from(usable))
    params = [draw(angle) for _ in range(ref.n_args(name))]
    k = ref.n_qubits_of(name)
    if k == 1:
        t = draw(targets1(n, rich))
    elif k == 2:
        t = draw(targets2(n, rich))
    else:
        t = draw(targets3(n, rich))
    return [name, params, t]


@st.composite
def circuit(draw, min_n=1, max_n=4, max_ops=8, names=None, angle=None, rich=True, min_ops=0,
            force_n=False):
    """{"n": explicit register size, "ops": [...], "N": final register size}"""
    names = names or UNITARY
    angle = angle if angle is not None else angles()
    N = draw(st.integers(min_n, max_n))
    ops = draw(st.lists(op(N, names, angle, rich), min_size=min_ops, max_size=max_ops))
    n0 = N
    if not force_n:
        cand = draw(st.integers(0, N))
        if ref.final_n(cand, ops) == N:
            n0 = cand
    return {'n': n0, 'ops': ops, 'N': N}


@st.composite
def with_objects(draw, max_n, max_ops):
    """Circuits in which gates without a method of circuits are appended as objects."""
    n = draw(st.integers(3, max_n))
    ops = draw(prep_ops(n)) if draw(st.booleans()) else []
    body = draw(st.lists(op(n, UNITARY + OBJECTS * 8, angles()), max_size=max_ops))
    at = draw(st.integers(0, len(body)))
    body.insert(at, [draw(st.sampled_from(OBJECTS)), [], draw(targets3(n))])
    return {'n': n, 'ops': ops + body, 'N': n}


@st.composite
def prep_ops(draw, n):
    """Operations which bring |0..0> to a generic entangled state."""
    ops = []
    ang = generic_angles()
    for q in range(n):
        ops.append(['u3', [draw(ang), draw(ang), draw(ang)], q])
    for q in range(n - 1):
        ops.append(['cx', [], {'t': [q, q + 1]}])
    for q in range(n):
        ops.append(['ry', [draw(ang)], q])
        ops.append(['rz', [draw(ang)], q])
    return ops


@st.composite
def faint(draw):
    """A circuit whose state has amplitudes of very different sizes, in any order, with phases."""
    n = draw(st.integers(1, 3))
    ops = []
    for q in range(n):
        eps = 10.0 ** draw(st.integers(-10, 0).map(lambda k: k / 2)) * draw(st.sampled_from([1, 0.7, 0.3]))
        ops.append(['ry', [math.pi - eps if draw(st.booleans()) else eps], q])
        ops.append([draw(st.sampled_from(['rz', 'u1', 'phase'])), [draw(generic_angles())], q])
    if n > 1 and draw(st.booleans()):
        ops.append(['cx', [], {'t': [0, 1]}])
    return {'n': n, 'N': n, 'ops': ops}


# Lengths at which fixed-size tables, blocks or thresholds would show.
LENGTHS = [9, 12, 16, 17, 24, 32, 33, 40, 50, 64, 65, 80, 100, 101, 128, 129, 150, 200, 256, 257, 300]
THOUSANDS = [400, 500, 511, 512, 513, 800, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 2500]


def random_ops(rng, n, names, k):
    """k operations with generic angles on mostly plain addresses."""
    usable = [g for g in names if ref.n_qubits_of(g) <= n]
    out = []
    for _ in range(k):
        g = rng.choice(usable)
        m = ref.n_qubits_of(g)
        params = [round(rng.choice([1, -1]) * rng.uniform(0.2, 2.8), 3) for _ in range(ref.n_args(g))]
        if m == 1:
            t = rng.choice([rng.randrange(n)] * 6 + [rng.randrange(-n, 0), {'s': [None, None, None]}])
        else:
            t = {'t': rng.sample(range(n), m)}
        out.append([g, params, t])
    return out


def long_ops(n, names, lengths=None):
    lengths = lengths or LENGTHS
    return st.builds(lambda s, k: random_ops(random.Random(s), n, names, k), st.integers(0, 10 ** 6),
                     st.one_of(st.sampled_from(lengths), st.integers(min(lengths), max(lengths))))


@st.composite
def long_circuit(draw, max_n=3, names=None, lengths=None, min_n=1):
    """Circuits of many operations."""
    n = draw(st.integers(min_n, max_n))
    return {'n': n, 'N': n, 'ops': draw(long_ops(n, names or UNITARY, lengths))}


@st.composite
def wide(draw, lo, hi, names=None, max_ops=5):
    """Few operations at any kind of address, on an entangled state of many qubits."""
    n = draw(st.integers(lo, hi))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    prep = [['u3', [round(rng.uniform(0.4, 2.7), 3), round(rng.uniform(-3, 3), 3), 0.4], q] for q in range(n)]
    order = list(range(n))
    rng.shuffle(order)
    prep += [['cx', [], {'t': [a, b]}] for a, b in zip(order, order[1:])]
    prep += [['ry', [round(rng.uniform(0.4, 2.7), 3)], q] for q in order]
    ops = draw(st.lists(op(n, names or UNITARY, generic_angles()), min_size=1, max_size=max_ops))
    return {'n': n, 'N': n, 'prep': prep, 'ops': ops, 'all': prep + ops}


@st.composite
def large_measured(draw, lo, hi):
    """An entangled state of many qubits, of which few are measured or reset between further gates."""
    n = draw(st.integers(lo, hi))
    rng = random.Random(draw(st.integers(0, 10 ** 6)))
    ops = []
    for q in range(n):
        ops.append(rng.choice([['u3', [round(rng.uniform(0.4, 2.7), 3), round(rng.uniform(-3, 3), 3), 0.4], q],
                               ['h', [], q], ['ry', [round(rng.uniform(0.4, 2.7), 3)], q]]))
    order = list(range(n))
    rng.shuffle(order)
    for a, b in zip(order, order[1:]):
        ops.append([rng.choice(['cx', 'cx', 'cz', 'cry', 'swap', 'rxx']), [], {'t': [a, b]}])
        if ops[-1][0] in ('cry', 'rxx'):
            ops[-1][1] = [round(rng.uniform(0.5, 2.5), 3)]
    for k in range(draw(st.integers(1, 3))):
        qs = rng.sample(range(n), rng.choice([1, 1, 2]))
        if rng.random() < .3:
            qs = [max(qs)] if rng.random() < .5 else [n - 1 - min(1, k)]
        ops.append([rng.choice(['m', 'm', 'measure', 'reset']), [], qs[0] if len(qs) == 1 else {'t': qs}])
        ops += random_ops(rng, n, UNITARY, rng.choice([0, 1, 3]))
    qs = rng.sample(range(n), 2)
    ops.append(['m', [], {'t': qs} if rng.random() < .5 else qs[0] - n])
    return {'n': n, 'N': n, 'ops': ops}


CLIFFORD = ['h', 'h', 'x', 'y', 'z', 's', 'sdg', 'cx', 'cx', 'cz', 'swap', 'm', 'm', 'm', 'reset', 'reset']


@st.composite
def long_measured(draw, lengths=None):
    """Long circuits of Clifford gates, measurements and resets: few different states occur."""
    n = draw(st.sampled_from([1, 2, 2]))
    return {'n': n, 'N': n, 'ops': draw(long_ops(n, CLIFFORD, lengths))}


@st.composite
def classical(draw, top=9, lengths=None):
    """Circuits which permute basis states; every measurement has one possible result."""
    n = draw(st.integers(1, top))
    return {'n': n, 'N': n, 'ops': draw(long_ops(n, ['x', 'x', 'x', 'cx', 'cx', 'swap', 'ccx', 'cswap', 'm', 'm',
                                                     'reset'], lengths))}
