"""User-written backends with generated sets of natively implemented gates."""
import numpy as np
from hypothesis import strategies as st

import blueqat.gate as bg

import bq
import gen
import qasm2
import ref
import simcheck
from core import Subtest, Violation, require
from props import c09

ID = 'C08'
RULE = ('circuits over all gates run on a recording backend class generated with a random set of native '
        'gates (always the ten basic ones), as instance, registered name or run_with_<name>; user-defined '
        'gates whose only implementation is a generated decomposition run on every kind of backend; '
        'non-trivial: some gate of the circuit is not native')

BASE = ['x', 'y', 'z', 'h', 'rx', 'ry', 'rz', 'cx', 'cz', 'u3']
LOWER = sorted({g[0] for g in ref.GATES.values()})
OPTIONAL = [g for g in LOWER if g not in BASE]
ALL_OPS = set(LOWER) | {'measure', 'reset'}


class Context:
    """A fresh one is returned by every action."""
    def __init__(self, n, v, log):
        self.n, self.v, self.log = n, v, log


def operands(name, gate, n):
    k = 1 if name in ('measure', 'reset') else ref.GATES[name][1]
    if k == 1:
        return [(q,) for q in gate.target_iter(n)]
    if k == 2:
        return [tuple(p) for p in gate.control_target_iter(n)]
    reg = list(range(n))
    qs = []
    for t in gate.targets:
        for x in (t if isinstance(t, tuple) else (t,)):
            qs += reg[x] if isinstance(x, slice) else [reg[x]]
    return [tuple(qs)]


def make_backend(native):
    """A backend class implementing exactly the gates in `native`."""

    class UserBackend(bq.Backend):
        seen = []

        def __init__(self):
            self.current = None

        def _preprocess_run(self, gates, n_qubits, args, kwargs):
            self.current = Context(n_qubits, ref.zero_state(n_qubits), [])
            UserBackend.seen.append((n_qubits, tuple(args), dict(kwargs)))
            return gates, self.current

        def _postprocess_run(self, ctx):
            if ctx is not self.current:
                raise Violation('the context given to the postprocess is not the last one returned')
            return ctx

    def make_action(name):
        def action(self, gate, ctx):
            if ctx is not self.current:
                raise Violation(f'{name} was not given the context returned by the previous action')
            if gate.lowername != name:
                raise Violation(f'action {name} was called for {gate.lowername}')
            v = ctx.v
            ops = operands(name, gate, ctx.n)
            if name not in ('measure', 'reset'):
                m = ref.GATES[name][3](*[float(p) for p in gate.params])
                for qs in ops:
                    v = ref.apply(v, m, qs, ctx.n)
            log = ctx.log + [(name, tuple(float(p) for p in gate.params), tuple(ops))]
            ctx.v = None        # using an old context is an error
            self.current = Context(ctx.n, v, log)
            return self.current
        return action

    for name in native:
        setattr(UserBackend, 'gate_' + name, make_action(name))
    return UserBackend


NAME = 'pbt_user_backend'
G = bq.BlueqatGlobalSetting


class registered:
    def __init__(self, cls):
        self.cls = cls

    def __enter__(self):
        G.register_backend(NAME, self.cls)

    def __exit__(self, *exc):
        G.unregister_backend(NAME)


def run_on(c, cls, how, args=(), kwargs=None):
    kwargs = kwargs or {}
    if how == 'instance':
        return c.run(*args, backend=cls(), **kwargs)
    with registered(cls):
        if how == 'name':
            return c.run(*args, backend=NAME, **kwargs)
        if how == 'run_with':
            return getattr(c, 'run_with_' + NAME)(*args, **kwargs)
        if how == 'default':
            c.set_default_backend(NAME)
            return c.run(*args, **kwargs)
        c = c.copy()
        return c.run(*args, backend=NAME, **kwargs)


HOW = ['instance', 'name', 'run_with', 'default', 'copy']


def check_effect(case, ctx):
    n, ops = case['N'], case['ops']
    native = BASE + case['native']
    cls = make_backend(native)
    c = bq.build_ops(n, case['prep'] + ops)
    args, kwargs = [tuple(a) if isinstance(a, list) else a for a in case['args']], dict(case['kwargs'])
    out = run_on(c, cls, case['how'], args, kwargs)
    require(isinstance(out, Context), 'run returned %r instead of the result of the postprocess', out)
    require(cls.seen == [(n, tuple(args), kwargs)], 'preprocess was called with %s, expected %s',
            cls.seen, (n, args, kwargs))
    exp = ref.state(n, case['prep'] + ops)
    require(ref.close_up_to_phase(out.v, exp, 1e-9), 'effect of %s differs with native gates %s', c,
            native)
    used = {ref.GATES[o[0]][0] for o in ops}
    missing = used - set(native)
    for m in missing:
        ctx.label('decomposed ' + m)
    # native operations arrive once, in program order, with their own parameters
    want = [(ref.GATES[o[0]][0], tuple(ref.num(p) for p in o[1]), tuple(ref.resolve(o[0], o[2], n)))
            for o in case['prep'] + ops]
    if not missing:
        require(out.log == want, 'operations received %s, expected %s', out.log, want)
    else:
        it = iter(out.log)
        for w in want:
            if w[0] in native:
                require(any(w == x for x in it), '%s is not received in order: %s', w, out.log)
    ctx.interesting(missing)


ARGS = st.lists(st.one_of(st.integers(-3, 3), st.text('abc', max_size=3), st.none(), st.booleans()),
                max_size=3)
KWARGS = st.dictionaries(st.sampled_from(['shots', 'returns', 'token', 'url', 'foo', 'ignore_global']),
                         st.one_of(st.integers(-3, 3), st.text('abc', max_size=3), st.none()), max_size=3)


@st.composite
def effect(draw, max_n, max_ops):
    n = draw(st.integers(1, max_n))
    ops = draw(st.lists(gen.op(n, gen.UNITARY, gen.angles()), min_size=1, max_size=max_ops))
    native = draw(st.one_of(st.just([]), st.just(OPTIONAL),
                            st.lists(st.sampled_from(OPTIONAL), unique=True)))
    return {'N': n, 'prep': draw(gen.prep_ops(n)), 'ops': ops, 'native': native,
            'how': draw(st.sampled_from(HOW)), 'args': draw(ARGS), 'kwargs': draw(KWARGS)}


@st.composite
def long_effect(draw):
    c = draw(gen.long_circuit(lengths=[k for k in gen.LENGTHS if k <= 150]))
    return {'N': c['N'], 'prep': [], 'ops': c['ops'], 'how': draw(st.sampled_from(HOW)), 'args': [], 'kwargs': {},
            'native': draw(st.one_of(st.just(OPTIONAL), st.lists(st.sampled_from(OPTIONAL), unique=True)))}


def check_missing(case, ctx):
    """A gate that is neither native nor decomposable is an error, never skipped."""
    n, ops = case['N'], case['ops']
    native = [g for g in BASE + case['native'] if g != case['drop']]
    reached = closure({o[0] for o in ops if o[0] not in ref.OPS1}, native)
    bad = [g for g in reached if g in BASE and g not in native]
    bad += [o[0] for o in ops if o[0] in ref.OPS1 and ref.OPS1[o[0]] not in native]
    if any(not ref.resolve(o[0], o[2], n) for o in ops):
        return
    cls = make_backend(native)
    c = bq.build_ops(n, ops)
    try:
        out = run_on(c, cls, case['how'])
    except Violation:
        raise
    except Exception:
        require(bad, 'running %s with native gates %s failed', c, native)
    else:
        # decompositions may avoid the dropped gate; then the effect must be right
        direct = [o for o in ops if (ref.OPS1.get(o[0]) or ref.GATES[o[0]][0])
                  in set(BASE) | {'measure', 'reset'}]
        unsupported = [o for o in direct if (ref.OPS1.get(o[0]) or ref.GATES[o[0]][0]) not in native]
        require(not unsupported, '%s was run without an implementation of %s', c, unsupported)
        if not any(o[0] in ref.OPS1 for o in ops):
            require(ref.close_up_to_phase(out.v, ref.state(n, ops), 1e-9), 'effect differs')
    ctx.label('drop ' + case['drop'])
    ctx.interesting(bad)


def closure(names, native):
    """Upper bound of the gates that may be needed (used only to excuse an error)."""
    low = {ref.GATES[g][0] for g in names}
    if low <= set(native):
        return low
    return low | set(BASE)


@st.composite
def missing(draw):
    n = draw(st.integers(1, 3))
    return {'N': n, 'ops': draw(st.lists(gen.op(n, gen.UNITARY + gen.NONUNITARY * 2, gen.generic_angles(),
                                                rich=False), min_size=1, max_size=3)),
            'native': draw(st.lists(st.sampled_from(OPTIONAL + ['measure', 'reset']), unique=True)),
            'drop': draw(st.sampled_from(BASE + ['none'])), 'how': draw(st.sampled_from(HOW))}


# ------------------------------------------------------------------ user-defined gates

CLASSES = {'i': 'IGate', 'x': 'XGate', 'y': 'YGate', 'z': 'ZGate', 'h': 'HGate', 't': 'TGate',
           'tdg': 'TDagGate', 's': 'SGate', 'sdg': 'SDagGate', 'rx': 'RXGate', 'ry': 'RYGate',
           'rz': 'RZGate', 'phase': 'PhaseGate', 'u1': 'U1Gate', 'u2': 'U2Gate', 'u3': 'U3Gate',
           'cx': 'CXGate', 'cz': 'CZGate', 'cy': 'CYGate', 'ch': 'CHGate', 'crx': 'CRXGate',
           'cry': 'CRYGate', 'crz': 'CRZGate', 'cphase': 'CPhaseGate', 'cu1': 'CU1Gate',
           'cu2': 'CU2Gate', 'cu3': 'CU3Gate', 'swap': 'SwapGate', 'rxx': 'RXXGate', 'ryy': 'RYYGate',
           'rzz': 'RZZGate'}


def make_gate(k, body, scale):
    """User gate of k qubits; body: ops over local qubits 0..k-1; the parameter scales nothing but
    is passed on to every rx of the body when `scale` is set."""

    base = bg.OneQubitGate if k == 1 else bg.TwoQubitGate

    class UserGate(base):
        lowername = 'pbtgate'

        def __init__(self, targets, *params, **kwargs):
            super().__init__(targets, tuple(params), **kwargs)

        def fallback(self, n_qubits):
            out = []
            where = [(q,) for q in self.target_iter(n_qubits)] if k == 1 else \
                list(self.control_target_iter(n_qubits))
            for qs in where:
                for name, params, t in body:
                    p = self.params if (scale and name == 'rx') else params
                    tt = tuple(qs[i] for i in t) if len(t) > 1 else qs[t[0]]
                    out.append(getattr(bg, CLASSES[name])(tt, *p))
            return out

    return UserGate


def expand(case, ops):
    """The circuit with user gates replaced by their bodies."""
    n = case['N']
    out = []
    for o in ops:
        if o[0] != 'pbtgate':
            out.append(o)
            continue
        k = case['k']
        where = ref.resolve('x' if k == 1 else 'cx', o[2], n)
        for qs in where:
            for name, params, t in case['body']:
                p = o[1] if (case['scale'] and name == 'rx') else params
                out.append([name, p, qs[t[0]] if len(t) == 1 else {'t': [qs[i] for i in t]}])
    return out


def check_user_gate(case, ctx):
    n = case['N']
    cls = make_gate(case['k'], case['body'], case['scale'])
    G.register_gate('pbtgate', cls)
    try:
        ops = case['prep'] + case['ops']
        c = bq.build_ops(n, ops)
        flat = expand(case, ops)
        exp = ref.state(n, flat)
        for b in case['backends']:
            if b == 'numpy':
                v = c.run()
            elif b == 'numpy2':
                c.run()
                v = (c + bq.build_ops(n, [])).run()
            elif b == 'user':
                out = run_on(c, make_backend(BASE + case['native']), 'instance')
                v = out.v
            elif b == 'qasm':
                p = qasm2.parse(c.to_qasm())
                v = qasm2.unitary(p)[:, 0]
            require(ref.close_up_to_phase(v, exp, 1e-9),
                    'a user gate with a decomposition has another effect on %s', b)
        # dense gates make symbolic entries grow
        if case['sympy'] and n <= 2 and sum(c09.COST.get(o[0], 0) for o in expand(case, case['ops'])) <= 4:
            c2 = bq.build_ops(n, case['ops'])
            m = np.array(c2.to_unitary().evalf(15).tolist(), dtype=complex)
            require(ref.close_up_to_phase(m, ref.unitary(n, expand(case, case['ops'])), 1e-7),
                    'symbolic unitary of a user gate differs')
        if case['k'] == 1:
            cm = bq.build_ops(n, ops).m[:]
            d = ref.distribution(n, flat + [['m', [], {'s': [None, None, None]}]])
            simcheck.check_counts(cm.run(shots=30), d, 30)
    finally:
        G.unregister_gate('pbtgate')
    ctx.interesting(any(len(ref.resolve('x' if case['k'] == 1 else 'cx', o[2], n))
                        for o in case['ops'] if o[0] == 'pbtgate') and len(case['body']) >= 2)


@st.composite
def user_gate(draw):
    k = draw(st.integers(1, 2))
    n = draw(st.integers(k, 3))
    ang = gen.generic_angles()
    body = []
    for _ in range(draw(st.integers(0, 4))):
        names = [g for g in CLASSES if ref.GATES[g][1] <= k and g != 'cu2']
        g = draw(st.sampled_from(names))
        t = list(draw(st.permutations(list(range(k)))))[:ref.GATES[g][1]]
        body.append([g, [draw(ang) for _ in range(ref.GATES[g][2])], t])
    ops = []
    for _ in range(draw(st.integers(1, 3))):
        if draw(st.booleans()):
            t = draw(gen.targets1(n)) if k == 1 else draw(gen.targets2(n))
            ops.append(['pbtgate', [draw(ang)], t])
        else:
            ops.append(draw(gen.op(n, ['h', 'x', 'cx', 'ry', 't', 'swap'], ang)))
    return {'k': k, 'N': n, 'body': body, 'ops': ops, 'prep': draw(gen.prep_ops(n)),
            'scale': draw(st.booleans()),
            'native': draw(st.lists(st.sampled_from(OPTIONAL), unique=True)),
            'backends': draw(st.lists(st.sampled_from(['numpy', 'numpy2', 'user', 'qasm']), min_size=1,
                                      unique=True)),
            'sympy': draw(st.integers(0, 5)) == 0}


def check_no_fallback(case, ctx):
    """A user gate without decomposition is rejected by every backend that does not implement it."""
    class Bare(bg.OneQubitGate if case['k'] == 1 else bg.TwoQubitGate):
        lowername = 'pbtgate'

    G.register_gate('pbtgate', Bare)
    try:
        c = bq.Circuit(2).h[0]
        c.pbtgate[0] if case['k'] == 1 else c.pbtgate[0, 1]
        c.x[1]
        for b in ['numpy', 'sympy_unitary', 'qasm_output', make_backend(BASE + OPTIONAL)()]:
            try:
                r = c.run(backend=b)
            except Exception:
                continue
            require(False, 'a gate without implementation was run on %s: %r', b, r)
        # ... and accepted by one that does
        cls = make_backend(BASE)
        hits = []

        def action(self, gate, ctx_):
            hits.append(gate.lowername)
            return ctx_
        cls.gate_pbtgate = action
        out = c.run(backend=cls())
        require(hits == ['pbtgate'] and [l[0] for l in out.log] == ['h', 'x'], 'received %s %s', hits,
                out.log)
    finally:
        G.unregister_gate('pbtgate')
    ctx.interesting()


def check_runs(case, ctx):
    """Several backend classes (some derived from another), several instances, several circuits: each run
    is carried out by the actions of its own backend instance."""
    classes = []
    for base, native in case['classes']:
        cls = make_backend(BASE + native)
        if base is not None and base < len(classes):
            # a derived class: inherits what it does not define
            parent = classes[base][0]
            own = {k: v for k, v in vars(cls).items() if k.startswith('gate_') and k[5:] in native}
            cls = type('Derived', (parent,), own)
            native = sorted(set(native) | set(classes[base][1]))
        classes.append((cls, native))
    circuits = [(bq.build_ops(case['N'], ops), ops) for ops in case['circuits']]
    instances = {}
    names = []
    try:
        for i, (cls, _) in enumerate(classes):
            G.register_backend(f'{NAME}{i}', cls)
            names.append(f'{NAME}{i}')
        for k, which, j, how in case['runs']:
            i = k % len(classes)
            cls, native = classes[i]
            c, ops = circuits[j % len(circuits)]
            if how == 'instance':
                if (i, which) not in instances:
                    instances[i, which] = cls()
                out = c.run(backend=instances[i, which])
            elif how == 'name':
                out = c.run(backend=names[i])
            else:
                out = getattr(c.copy(copy_backends=False), 'run_with_' + names[i])()
            require(out.v is not None and ref.close_up_to_phase(out.v, ref.state(case['N'], ops), 1e-9),
                    'run %s: the effect of %s differs', (k, which, j, how), c)
            low = [(ref.GATES[o[0]][0]) for o in ops]
            if set(low) <= set(BASE + native):
                require([x[0] for x in out.log] == low, 'operations received %s, expected %s', out.log, low)
    finally:
        for name in names:
            G.unregister_backend(name)
    ctx.interesting(len(case['runs']) > 1 and len({(k % len(classes), w) for k, w, _, _ in case['runs']}) > 1)


@st.composite
def many_runs(draw):
    n = draw(st.integers(1, 3))
    ang = gen.generic_angles()
    natives = st.one_of(st.just([]), st.just(OPTIONAL), st.lists(st.sampled_from(OPTIONAL), unique=True))
    return {'N': n,
            'classes': [[draw(st.one_of(st.none(), st.integers(0, 1))), draw(natives)]
                        for _ in range(draw(st.integers(1, 3)))],
            'circuits': [draw(gen.prep_ops(n)) + draw(st.lists(gen.op(n, gen.UNITARY, ang), min_size=1, max_size=3))
                         for _ in range(draw(st.integers(1, 2)))],
            'runs': [[draw(st.integers(0, 2)), draw(st.integers(0, 1)), draw(st.integers(0, 1)),
                      draw(st.sampled_from(['instance', 'instance', 'name', 'run_with']))]
                     for _ in range(draw(st.integers(2, 6)))]}


SUBTESTS = [
    Subtest('decomposition', lambda tier: effect(3 if tier == 'quick' else 4, 4), check_effect, 1600, 40000),
    Subtest('long-circuits', lambda tier: long_effect(), check_effect, 40, 800),
    Subtest('large-registers', lambda tier: st.builds(
        lambda c, h, o: {'N': c['N'], 'prep': c['prep'], 'ops': c['ops'], 'how': h, 'args': [], 'kwargs': {}, 'native': o},
        gen.wide(4, 6), st.sampled_from(HOW), st.lists(st.sampled_from(OPTIONAL), unique=True)), check_effect, 60, 1200),
    Subtest('one-gate', lambda tier: effect(3, 1), check_effect, 800, 15000),
    Subtest('many-runs', lambda tier: many_runs(), check_runs, 400, 8000),
    Subtest('missing-gates', lambda tier: missing(), check_missing, 600, 10000),
    Subtest('user-gates', lambda tier: user_gate(), check_user_gate, 500, 10000),
    Subtest('no-decomposition', lambda tier: st.fixed_dictionaries({'k': st.integers(1, 2)}),
            check_no_fallback, 4, 4, shards=1),
]
ASSUMPTIONS = ['the backend reads a gate through lowername, params, target_iter, control_target_iter and '
               'targets, as the bundled backends do']
