"""Stand-in for the numba package, which is not installed here.

Compiled functions are executed by the interpreter instead:
* integer scalars are Python integers and integer arrays made or received by a compiled function hand out Python
  integers and store modulo their width (two's complement), as machine arithmetic does;
* the iterations of prange are run in a random order (they may run concurrently in the real thing);
* types are callable: on numbers they convert, otherwise they build a signature.
"""
import functools
import random
import sys
import types

import numpy as np

ORDER = random.Random(0)          # own generator: draws of the code under test are not disturbed


class IntArray(np.ndarray):
    def __getitem__(self, k):
        r = super().__getitem__(k)
        return int(r) if isinstance(r, np.integer) else r

    def __iter__(self):
        for k in range(len(self)):
            yield self[k]

    def __setitem__(self, k, v):
        if isinstance(v, int):
            v = np.array(v & ((1 << 8 * self.itemsize) - 1), dtype=f'u{self.itemsize}').astype(self.dtype)
        super().__setitem__(k, v)


def wrap(x):
    if isinstance(x, np.ndarray) and x.dtype.kind in 'iu' and x.ndim:
        return x.view(IntArray)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, tuple):
        return tuple(wrap(y) for y in x)
    return x


def wrapping(f):
    @functools.wraps(f)
    def g(*a, **k):
        return wrap(f(*a, **k))
    return g


class NumpyShim:
    """numpy as seen by a compiled function."""
    def __getattr__(self, name):
        v = getattr(np, name)
        if isinstance(v, type) and issubclass(v, np.integer):
            return v
        if isinstance(v, type) and issubclass(v, (np.generic, np.dtype)):
            return v
        if callable(v) and not isinstance(v, type):
            return wrapping(v)
        return v


SHIM = NumpyShim()


class Globals(dict):
    """Live view of a module's globals."""
    def __init__(self, real):
        super().__init__(__builtins__=real.get('__builtins__', __builtins__))
        self.real = real

    def __getitem__(self, k):
        v = self.real[k]
        if v is np:
            return SHIM
        if isinstance(v, types.BuiltinFunctionType) and getattr(v, '__module__', '') == 'numpy':
            return wrapping(v)
        return v

    def __contains__(self, k):
        return k in self.real


class Compiled:
    def __init__(self, f):
        functools.update_wrapper(self, f)
        self.py_func = f
        self.run = types.FunctionType(f.__code__, Globals(f.__globals__), f.__name__, f.__defaults__, f.__closure__)
        self.run.__kwdefaults__ = f.__kwdefaults__

    def __call__(self, *a, **k):
        return wrap(self.run(*[wrap(x) for x in a], **{n: wrap(x) for n, x in k.items()}))

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return lambda *a, **k: None

    def __deepcopy__(self, memo):
        return self


def jit(*args, **kwargs):
    if len(args) == 1 and not kwargs and isinstance(args[0], types.FunctionType):
        return Compiled(args[0])
    return Compiled


def prange(*args):
    r = list(range(*[int(x) for x in args]))
    ORDER.shuffle(r)
    return r


class Type:
    def __init__(self, name):
        self.name = name

    def __call__(self, *args, **kwargs):
        if len(args) == 1 and isinstance(args[0], (int, float, complex, np.number, np.bool_)) and not kwargs:
            x, n = args[0], self.name
            digits = ''.join(c for c in n if c.isdigit())
            if n.startswith(('int', 'uint')):
                bits = int(digits or 64)
                x = int(x) & ((1 << bits) - 1)
                return x - (1 << bits) if n[0] == 'i' and x >> (bits - 1) else x
            if n.startswith('float') or n == 'double':
                return float(x)
            if n.startswith('complex'):
                return complex(x)
            if n.startswith('bool'):
                return bool(x)
            return x
        return self

    def __getitem__(self, k):
        return self

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Type(name)


class FakeNumba(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        return Type(name)


def install():
    m = FakeNumba('numba')
    m.__path__ = []
    m.__version__ = '0.0+stand-in'
    m.jit = m.njit = m.vectorize = m.guvectorize = jit
    m.prange = prange
    m.types = Type('types')
    sys.modules['numba'] = m
    sys.modules['numba.types'] = m.types
    return m
