"""Histories of registrations, default changes, copies and calls against a model of the registries."""
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from blueqat import BlueqatGlobalSetting as GS
from blueqat import Circuit
from blueqat import gate as bgate
from blueqat.backends.backendbase import Backend
from blueqat.backends.numpy_backend import NumPyBackend
from blueqat.backends.qasm_output_backend import QasmOutputBackend

import ref
from core import Subtest, require

ID = 'C21'
RULE = ('histories of register/unregister/overwrite of macros, gates and backends under own, built-in and '
        'forbidden names, of global and circuit default backends, of copies, conjugates and sums, and of uses of '
        'every name on every circuit, old and new; after every step the visible names and defaults of all '
        'circuits are compared with the model; non-trivial: a name which was registered after some circuit was '
        'made is used on it, and one is unregistered or overwritten while a circuit that used it exists')

OWN = ['foo', 'bar', 'u9', 'Foo']
BUILTIN_GATES = {'toffoli': bgate.ToffoliGate, 'cphase': bgate.CPhaseGate}
BUILTIN_BACKENDS = {'numpy': NumPyBackend, 'qasm_output': QasmOutputBackend}
TAKEN_ATTRS = ['copy', 'run', 'dagger', 'to_qasm', 'set_default_backend', 'make_cache', '__init__', '__add__']
RUN_WITH = ['run_with_foo', 'run_with_numpy', 'run_with_']
UNKNOWN = ['nothing', '']

GATE_KINDS = [('x', bgate.XGate), ('h', bgate.HGate), ('z', bgate.ZGate), ('y', bgate.YGate)]


def make_gate(tag):
    name, base = GATE_KINDS[tag % len(GATE_KINDS)]

    class Own(bgate.OneQubitGate):
        lowername = f'own{tag}'

        def __init__(self, targets, *params, **kwargs):
            super().__init__(targets, params, **kwargs)

        def fallback(self, n_qubits):
            return [base(t) for t in self.target_iter(n_qubits)]

        def dagger(self):
            return self
    return Own


GATES = [make_gate(k) for k in range(6)]


class Tagged(Backend):
    tag = None

    def run(self, gates, n_qubits, *args, **kwargs):
        return ['tagged', self.tag, n_qubits, [str(g) for g in gates], list(args), kwargs]

    def make_cache(self, gates, n_qubits):
        return ['cached', self.tag, n_qubits, [str(g) for g in gates]]


def make_backend(tag):
    cls = type(f'Tagged{tag}', (Tagged,), {'tag': tag})
    if tag % 3 == 1:
        return lambda: cls()
    if tag % 3 == 2:
        return functools.partial(cls)
    return cls


BACKENDS = [make_backend(k) for k in range(6)]


class CallableMacro:
    def __init__(self, tag):
        self.tag = tag

    def __call__(self, c, *a, **k):
        return ['macro', self.tag, c, a, k]


def make_macro(tag):
    if tag % 3 == 0:
        return lambda c, *a, **k: ['macro', tag, c, a, k]
    if tag % 3 == 1:
        return CallableMacro(tag)

    def macro(c, *a, **k):
        return ['macro', tag, c.x[a[0]], a, k]
    return macro


MACROS = [make_macro(k) for k in range(6)]


class Model:
    def __init__(self):
        self.gates = {k: k for k in BUILTIN_GATES}
        self.macros = {}
        self.backends = {k: k for k in BUILTIN_BACKENDS}
        self.default = 'numpy'
        self.circuits = []         # [circuit, default, n_qubits, ops (reference encoding), printed ops]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f(*a, **k)


def cleanup():
    for name in OWN + TAKEN_ATTRS + RUN_WITH + UNKNOWN:
        for f in (GS.unregister_macro, GS.unregister_gate, GS.unregister_backend):
            try:
                f(name)
            except Exception:
                pass
    for name in list(BUILTIN_GATES) + list(BUILTIN_BACKENDS) + ['x', 'sympy_unitary']:
        try:
            GS.unregister_macro(name)
        except Exception:
            pass
    for name, g in BUILTIN_GATES.items():
        quiet(GS.register_gate, name, g, allow_overwrite=True)
    for name, b in BUILTIN_BACKENDS.items():
        quiet(GS.register_backend, name, b, allow_overwrite=True)
    GS.set_default_backend('numpy')


def expect_value_error(ok, what, f, *a, **k):
    """Call f; it must raise ValueError exactly when not ok."""
    try:
        quiet(f, *a, **k)
    except ValueError:
        require(not ok, '%s was rejected', what)
        return False
    require(ok, '%s was accepted', what)
    return True


STILL_GATES = ['x', 'h', 'cnot', 'u3']
ALWAYS_BACKENDS = ['sympy_unitary', 'ibmq']


def check_all(m):
    require(GS.get_default_backend_name() == m.default, 'the global default is %r, expected %r',
            GS.get_default_backend_name(), m.default)
    for c, default, n, ops, shown in m.circuits:
        want = m.default if default is None else default
        require(c.get_default_backend_name() == want, 'default backend of a circuit is %r, expected %r',
                c.get_default_backend_name(), want)
        require(c.n_qubits == n and [str(g) for g in c.ops] == shown, 'circuit is %r, expected %r', c, shown)
        for name in OWN + list(BUILTIN_GATES) + UNKNOWN[:1] + STILL_GATES:
            have, want = hasattr(c, name), name in m.gates or name in m.macros or name in STILL_GATES
            require(have is want, 'a circuit has %r: %s, expected %s', name, have, want)
        for name in OWN + list(BUILTIN_BACKENDS) + ALWAYS_BACKENDS + UNKNOWN:
            have, want = hasattr(c, 'run_with_' + name), name in m.backends or name in ALWAYS_BACKENDS
            require(have is want, 'a circuit has run_with_%s: %s, expected %s', name, have, want)


def expected_run(got, kind, rec, args, kwargs):
    """Compare the result of running the circuit of `rec` on the backend `kind`."""
    c, _d, n, ops, shown = rec
    if kind == 'numpy':
        want = ref.state(n, ops)
        require(isinstance(got, np.ndarray) and got.shape == want.shape and np.allclose(got, want, atol=1e-8),
                'numpy run of %r gives %r, expected %s', c, got, want)
    elif kind == 'qasm_output':
        require(isinstance(got, str) and got.startswith('OPENQASM'), 'QASM output is %r', got)
    else:
        want = ['tagged', kind, n, shown, args, kwargs]
        require(got == want, 'run gives %r, expected %r', got, want)


def do_run(m, rec, how, name, extra, ctx):
    c, default, n, ops, shown = rec
    args, kwargs = ([1, 'a'], {'shots': 3, 'zzz': [2]}) if extra else ([], {})
    if how == 'object':
        tag = int(name)
        b = BACKENDS[tag]()
        expected_run(c.run(*args, backend=b, **kwargs), tag, rec, args, kwargs)
        return
    if how == 'default':
        name = m.default if default is None else default
    kind = m.backends.get(name)
    if how == 'attribute' and kind is None:
        try:
            getattr(c, 'run_with_' + name)
        except AttributeError:
            return
        require(False, 'run_with_%s exists', name)
    if kind in BUILTIN_BACKENDS:
        args, kwargs = [], {}
        if kind == 'numpy' and default is None and how == 'name':
            kwargs = {'returns': 'statevector'}
        if kind == 'qasm_output' and any('own' in s for s in shown):
            return
    f = getattr(c, 'run_with_' + name) if how == 'attribute' else c.run
    if how == 'name':
        kwargs = dict(kwargs, backend=name)
    if kind is None:
        expect_value_error(False, f'run on the unknown backend {name!r} ({how})', f, *args, **kwargs)
        ctx.label('run rejected')
        return
    got = f(*args, **kwargs)
    kwargs.pop('backend', None)
    expected_run(got, kind, rec, args, kwargs)
    ctx.label('run ' + how)
    if isinstance(kind, int) and how != 'attribute':
        got = c.make_cache(backend=name) if how == 'name' else c.make_cache()
        require(got == ['cached', kind, n, shown], 'make_cache of %s (%s) gives %r, expected that of backend '
                'number %s', name, how, got, kind)


def zip_dagger(ops, shown):
    o = [[a, [-p for p in ps], t] for a, ps, t in ops[::-1]]
    sh = [x.replace('(0.5)', '(@)').replace('(-0.5)', '(0.5)').replace('(@)', '(-0.5)') for x in shown[::-1]]
    return o, sh


def step(m, cmd, ctx):
    what = cmd[0]
    if what in ('reg macro', 'reg gate'):
        _w, name, tag, overwrite, form = cmd
        mine, other = (m.macros, m.gates) if what == 'reg macro' else (m.gates, m.macros)
        taken = name in TAKEN_ATTRS or name.startswith('run_with_') or name in STILL_GATES
        if overwrite and (taken or name in other):
            return
        obj = (MACROS if what == 'reg macro' else GATES)[tag]
        f = GS.register_macro if what == 'reg macro' else GS.register_gate
        ok = overwrite or not (taken or name in mine or name in other)
        kw = {'allow_overwrite': overwrite} if overwrite or form else {}
        if expect_value_error(ok, f'{what} {name!r} (overwrite {overwrite})', f, name, obj, **kw):
            if name in mine:
                ctx.label('overwritten')
            mine[name] = tag
    elif what == 'reg backend':
        _w, name, tag, overwrite, form = cmd
        ok = overwrite or not (name in m.backends or name in ALWAYS_BACKENDS)
        if overwrite and name in ALWAYS_BACKENDS:
            return
        kw = {'allow_overwrite': overwrite} if overwrite or form else {}
        if expect_value_error(ok, f'{what} {name!r} (overwrite {overwrite})', GS.register_backend, name,
                              BACKENDS[tag], **kw):
            if name in m.backends:
                ctx.label('overwritten')
            m.backends[name] = tag
    elif what in ('unreg macro', 'unreg gate', 'unreg backend', 'remove backend'):
        name = cmd[1]
        d, f = {'unreg macro': (m.macros, GS.unregister_macro), 'unreg gate': (m.gates, GS.unregister_gate),
                'unreg backend': (m.backends, GS.unregister_backend),
                'remove backend': (m.backends, GS.remove_backend)}[what]
        if (what == 'unreg gate' and name in STILL_GATES) or ('backend' in what and name in ALWAYS_BACKENDS):
            return
        if expect_value_error(name in d, f'{what} {name!r}', f, name):
            del d[name]
            ctx.label('unregistered')
    elif what == 'global default':
        name = cmd[1]
        if expect_value_error(name in m.backends or name in ALWAYS_BACKENDS, f'global default {name!r}',
                              GS.set_default_backend, name):
            m.default = name
    elif what == 'new':
        m.circuits.append([Circuit(cmd[1]) if cmd[1] else Circuit(), None, cmd[1], [], []])
    elif not m.circuits:
        return
    else:
        rec = m.circuits[cmd[1] % len(m.circuits)]
        c, default, n, ops, shown = rec
        if what == 'default':
            name = cmd[2]
            if expect_value_error(name is None or name in m.backends or name in ALWAYS_BACKENDS,
                                  f'default backend {name!r}', c.set_default_backend, name):
                rec[1] = name
        elif what == 'copy':
            kw = {}
            if cmd[2] is not None:
                kw['copy_backends'] = cmd[2]
            if cmd[3] is not None:
                kw['copy_default_backend'] = cmd[3]
            d = c.copy(**kw)
            m.circuits.append([d, None if cmd[3] is False else default, n, list(ops), list(shown)])
        elif what == 'dagger':
            kw = {}
            if cmd[2] is not None:
                kw['copy_backends'] = cmd[2]
            if cmd[3] is not None:
                kw['copy_default_backend'] = cmd[3]
            m.circuits.append([c.dagger(**kw), None if cmd[3] is False else default, n,
                               *zip_dagger(ops, shown)])
        elif what in ('add', 'iadd'):
            o = m.circuits[cmd[2] % len(m.circuits)]
            if len(ops) + len(o[3]) > 12:
                return
            if what == 'add':
                m.circuits.append([c + o[0], default, max(n, o[2]), ops + o[3], shown + o[4]])
            else:
                c += o[0]
                require(c is rec[0], '+= made another circuit')
                rec[2:] = [max(n, o[2]), ops + o[3], shown + o[4]]
        elif what == 'use':
            use(m, rec, cmd[2], cmd[3], ctx)
        elif what == 'run':
            name = m.default if cmd[3] is None else cmd[3]
            if (name if cmd[2] != 'default' else (m.default if default is None else default)) in ALWAYS_BACKENDS:
                return
            do_run(m, rec, cmd[2], name, cmd[4], ctx)


def use(m, rec, name, q, ctx):
    c, default, n, ops, shown = rec
    if name in m.gates:
        tag = m.gates[name]
        if tag in BUILTIN_GATES:
            if tag == 'toffoli':
                t, p = [q, (q + 1) % 3, (q + 2) % 3], ()
                r = getattr(c, name)[tuple(t)]
                rec[2] = max(n, 3)
                ops.append(['ccx', [], {'t': t}])
                shown.append('ccx[%d, %d, %d]' % tuple(t))
            else:
                r = getattr(c, name)(0.5)[q, q + 1]
                rec[2] = max(n, q + 2)
                ops.append(['cr', [0.5], {'t': [q, q + 1]}])
                shown.append('cphase(0.5)[%d, %d]' % (q, q + 1))
        else:
            r = getattr(c, name)(7, q)[q] if q else getattr(c, name)[q]
            require(type(c.ops[-1]) is GATES[tag], '%s appended %r, expected gate number %s', name, c.ops[-1], tag)
            rec[2] = max(n, q + 1)
            ops.append([GATE_KINDS[tag % len(GATE_KINDS)][0], [], q])
            shown.append(f'own{tag}(7, {q})[{q}]' if q else f'own{tag}[{q}]')
        require(r is c, 'appending a gate returns %r', r)
        ctx.label('gate used')
        ctx.interesting('overwritten' in ctx.labels or 'unregistered' in ctx.labels)
    elif name in m.macros:
        tag = m.macros[name]
        r = getattr(c, name)(q, 'b', key=[1])
        require(r[:2] == ['macro', tag] and r[2] is c and r[3] == (q, 'b') and r[4] == {'key': [1]},
                'macro %s gives %r, expected macro number %s', name, r, tag)
        if tag % 3 == 2:
            rec[2] = max(n, q + 1)
            ops.append(['x', [], q])
            shown.append(f'x[{q}]')
        ctx.label('macro used')
        ctx.interesting('overwritten' in ctx.labels or 'unregistered' in ctx.labels)
    elif name in OWN or name in BUILTIN_GATES:
        try:
            getattr(c, name)
        except AttributeError:
            ctx.label('absent name')
            return
        require(False, '%s is usable although it is not registered', name)


def check_history(case, ctx):
    cleanup()
    m = Model()
    try:
        for cmd in case['cmds']:
            step(m, cmd, ctx)
            check_all(m)
        for rec in m.circuits:
            for name in list(m.backends):
                if name not in ALWAYS_BACKENDS:
                    do_run(m, rec, 'name', name, False, ctx)
    finally:
        cleanup()


# ------------------------------------------------------------------ generators

@st.composite
def commands(draw, likely):
    """likely: names probably registered at this point, per kind (updated)."""
    k = draw(st.integers(0, 24))
    tag = draw(st.integers(0, 5))
    i, q = draw(st.integers(0, 5)), draw(st.integers(0, 2))
    form = draw(st.booleans())

    def name(kind, odd):
        have = likely[kind]
        j = draw(st.integers(0, 9))
        if have and j <= 5:
            return draw(st.sampled_from(have))
        if j <= 8:
            return draw(st.sampled_from(OWN))
        return draw(st.sampled_from(odd))
    gates = list(BUILTIN_GATES) * 4 + TAKEN_ATTRS + RUN_WITH + STILL_GATES
    backs = list(BUILTIN_BACKENDS) * 2 + ALWAYS_BACKENDS + UNKNOWN
    if k <= 5:
        kind = ['macro', 'gate', 'backend'][k % 3]
        nm = name(kind, backs if kind == 'backend' else gates)
        if nm not in likely[kind]:
            likely[kind].append(nm)
        return ['reg ' + kind, nm, tag, draw(st.booleans()), form]
    if k <= 7:
        kind = draw(st.sampled_from(['macro', 'gate', 'backend']))
        nm = name(kind, backs if kind == 'backend' else gates)
        if nm in likely[kind]:
            likely[kind].remove(nm)
        return [('remove ' if kind == 'backend' and form else 'unreg ') + kind, nm]
    if k == 8:
        return ['global default', name('backend', backs)]
    if k == 9:
        return ['new', draw(st.integers(0, 3))]
    if k == 10:
        return ['default', i, None if draw(st.integers(0, 2)) == 0 else name('backend', backs)]
    if k in (11, 12):
        fl = st.sampled_from([None, None, True, False])
        return [['copy', 'dagger'][k - 11], i, draw(fl), draw(fl)]
    if k == 13:
        return [draw(st.sampled_from(['add', 'iadd'])), i, draw(st.integers(0, 5))]
    if k <= 19:
        return ['use', i, name(draw(st.sampled_from(['gate', 'macro'])), list(BUILTIN_GATES)), q]
    how = draw(st.sampled_from(['name', 'name', 'default', 'default', 'attribute', 'attribute', 'object']))
    return ['run', i, how, str(tag) if how == 'object' else name('backend', backs), draw(st.booleans())]


@st.composite
def histories(draw, tier):
    likely = {'macro': [], 'gate': [], 'backend': []}
    n = draw(st.integers(5, 40 if tier == 'thorough' else 24))
    return {'cmds': [['new', draw(st.integers(0, 2))]] + [draw(commands(likely)) for _ in range(n)]}


# Every way of naming something that is not there, and of taking a name that is.

WRONG = ['', ' ', 'NumPy', 'NUMPY', 'numpy ', ' numpy', 'num', 'np', 'none', 'None', 'default', 'qasm', 'sympy', 'X',
         'run_with_numpy', 'backend', '0', 'numpy\n', 'nothing', 'h ', 'Cx']
UNNAMED = ['circuit default', 'global default', 'run', 'run with default set', 'attribute', 'make_cache',
           'unreg macro', 'unreg gate', 'unreg backend', 'remove backend']
GATE_NAMES = ['x', 'cnot', 'm', 'measure', 'reset', 'u3', 'r', 'cr', 'cswap', 'toffoli', 'i']
BACKEND_NAMES = ['numpy', 'numba', 'qasm_output', 'ibmq', 'sympy_unitary', 'qgate']


def registries():
    from blueqat import circuit
    return [dict(circuit.GATE_SET), dict(circuit.GLOBAL_MACROS), dict(circuit.BACKENDS)]


def check_unnamed(case, ctx):
    """An unknown name is rejected and changes nothing."""
    name, how = case['name'], case['how']
    before = registries()
    c = Circuit().x[0]
    if case['default']:
        c.set_default_backend(case['default'])
    f = {'circuit default': lambda: c.set_default_backend(name), 'global default': lambda: GS.set_default_backend(name),
         'run': lambda: c.run(backend=name), 'run with default set': lambda: c.run(shots=1, backend=name),
         'make_cache': lambda: c.make_cache(backend=name), 'attribute': lambda: getattr(c, 'run_with_' + name),
         'unreg macro': lambda: GS.unregister_macro(name), 'unreg gate': lambda: GS.unregister_gate(name),
         'unreg backend': lambda: GS.unregister_backend(name),
         'remove backend': lambda: GS.remove_backend(name)}[how]
    try:
        r = quiet(f)
    except (AttributeError if how == 'attribute' else ValueError):
        pass
    else:
        GS.set_default_backend('numpy')
        require(False, '%s with the unknown name %r gives %r', how, name, r)
    require(registries() == before and GS.get_default_backend_name() == 'numpy', 'the rejected call left traces')
    require(c.get_default_backend_name() == (case['default'] or 'numpy') and Circuit().get_default_backend_name() ==
            'numpy', 'the rejected call changed a default backend')
    ctx.label(how)
    ctx.interesting()


def check_taken(case, ctx):
    """A name already taken is rejected, whatever it is taken by, and nothing changes."""
    name, how = case['name'], case['how']
    before = registries()
    obj = {'macro': MACROS[0], 'gate': GATES[0], 'backend': BACKENDS[0]}[how]
    f = {'macro': GS.register_macro, 'gate': GS.register_gate, 'backend': GS.register_backend}[how]
    kw = {} if case['short'] else {'allow_overwrite': False}
    try:
        expect_value_error(False, f'registering the {how} {name!r}', f, name, obj, **kw)
        require(registries() == before, 'the rejected registration left traces')
    finally:
        from blueqat import circuit
        for d, b in zip((circuit.GATE_SET, circuit.GLOBAL_MACROS, circuit.BACKENDS), before):
            d.clear()
            d.update(b)
    ctx.label(how)
    ctx.interesting()


ATTRIBUTES = sorted(a for a in dir(Circuit) if not a.startswith('_Circuit'))
UNNAMED_CASES = [{'name': nm, 'how': h, 'default': None} for nm in WRONG for h in UNNAMED]
TAKEN_CASES = [{'name': nm, 'how': h, 'short': True} for nm in ATTRIBUTES + GATE_NAMES + [
    'run_with_' + b for b in BACKEND_NAMES + ['', 'own']] for h in ('macro', 'gate')] + [
    {'name': nm, 'how': 'backend', 'short': True} for nm in BACKEND_NAMES]

SUBTESTS = [
    Subtest('histories', histories, check_history, 3000, 100000),
    Subtest('unknown-names', lambda tier: st.builds(
        lambda nm, h, d: {'name': nm, 'how': h, 'default': d},
        st.one_of(st.sampled_from(WRONG), st.text('numpyxhfo_NX 0', max_size=4)), st.sampled_from(UNNAMED),
        st.sampled_from([None, 'numpy', 'numba', 'qasm_output'])).filter(
            lambda c: c['name'] not in GATE_NAMES + ['h', 'y', 'm'] and c['name'] not in BACKEND_NAMES),
        check_unnamed, 300, 6000, explicit=UNNAMED_CASES),
    Subtest('taken-names', lambda tier: st.builds(
        lambda c, s: {**c, 'short': s}, st.sampled_from(TAKEN_CASES), st.booleans()), check_taken, 200, 2000,
        explicit=TAKEN_CASES)]
ASSUMPTIONS = ['overwriting is exercised within one kind (a gate by a gate, and so on); what happens when a macro '
               'and a gate share a name is not documented']
