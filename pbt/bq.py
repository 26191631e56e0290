"""Thin access layer to the code under test; public API only."""
import blueqat
from blueqat import BlueqatGlobalSetting, Circuit  # noqa: F401
from blueqat.backends.backendbase import Backend  # noqa: F401
from blueqat.backends.numpy_backend import NumPyBackend  # noqa: F401
from blueqat.gate import CCZGate

import ref


def append(c, op):
    name, params, t = op
    if name in ref.OBJECTS:
        c.ops.append({'ccz': CCZGate}[name](ref.dec_target(t)))
        return c
    g = getattr(c, name)
    if params:
        g = g(*[ref.dec_param(p) for p in params])
    return g[ref.dec_target(t)]


def build(case):
    c = Circuit(case['n']) if case['n'] else Circuit()
    for o in case['ops']:
        append(c, o)
    return c


def build_ops(n, ops):
    return build({'n': n, 'ops': ops})


def targets(c):
    return [str(o) for o in c.ops]
