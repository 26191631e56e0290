"""A small, strict OpenQASM 2.0 parser and interpreter, written from the language paper
(arXiv:1707.03429).  Used as the oracle for OpenQASM output; independent of the code under test.

parse(text) -> Program(qubits, cbits, instructions) with instructions
    ('u', matrix, (qubits...), name)   ('measure', q, c)   ('reset', q)   ('barrier', ...)
Matrices act on the listed qubits, first listed qubit least significant; the global phase of the
result is not meaningful.
"""
import cmath
import math
import re

import numpy as np

import ref


class QasmError(Exception):
    pass


TOKEN = re.compile(r'''
    (?P<space>[ \t\r\n]+)
  | (?P<comment>//[^\n]*)
  | (?P<real>(?:[0-9]+\.[0-9]*|[0-9]*\.[0-9]+)(?:[eE][-+]?[0-9]+)?)
  | (?P<int>[1-9][0-9]*|0)
  | (?P<id>[a-zA-Z][A-Za-z0-9_]*)
  | (?P<string>"[^"\n]*")
  | (?P<arrow>->)
  | (?P<eq>==)
  | (?P<sym>[][(){};,+\-*/^])
''', re.X)


def tokenize(text):
    out = []
    i = 0
    while i < len(text):
        m = TOKEN.match(text, i)
        if not m:
            raise QasmError(f'illegal character {text[i]!r} at {text[i:i+20]!r}')
        i = m.end()
        kind = m.lastgroup
        if kind in ('space', 'comment'):
            continue
        # numbers and identifiers may not be glued together ("1e5", "0x1")
        if out and out[-1][0] in ('real', 'int') and kind in ('id', 'real', 'int') \
                and out[-1][2] == m.start():
            raise QasmError(f'malformed number near {text[max(0, m.start()-5):m.end()+5]!r}')
        out.append((kind, m.group(), m.end()))
    return out


def _u(theta, phi, lam):
    c, s = math.cos(theta / 2), math.sin(theta / 2)
    return np.array([[c, -cmath.exp(1j * lam) * s],
                     [cmath.exp(1j * phi) * s, cmath.exp(1j * (phi + lam)) * c]])


def _cu3(theta, phi, lam):
    # body of cu3 in the original qelib1.inc, multiplied out
    def one(u, q):
        return np.kron(u, ref.I2) if q == 1 else np.kron(ref.I2, u)
    cx = ref.ctrl(ref.MX)
    m = one(_u(0, 0, (lam - phi) / 2), 1)
    m = cx @ m
    m = one(_u(-theta / 2, 0, -(phi + lam) / 2), 1) @ m
    m = cx @ m
    return one(_u(theta / 2, phi, 0), 1) @ m


# name -> (number of params, number of qubits, matrix)
LIB = {
    'U': (3, 1, _u),
    'CX': (0, 2, lambda: ref.ctrl(ref.MX)),
}
QELIB1 = {
    'u3': (3, 1, _u), 'u2': (2, 1, lambda p, l: _u(math.pi / 2, p, l)),
    'u1': (1, 1, lambda l: _u(0, 0, l)), 'id': (0, 1, lambda: ref.I2),
    'x': (0, 1, lambda: ref.MX), 'y': (0, 1, lambda: ref.MY), 'z': (0, 1, lambda: ref.MZ),
    'h': (0, 1, lambda: ref.MH), 's': (0, 1, lambda: ref.phase(math.pi / 2)),
    'sdg': (0, 1, lambda: ref.phase(-math.pi / 2)),
    't': (0, 1, lambda: ref.phase(math.pi / 4)), 'tdg': (0, 1, lambda: ref.phase(-math.pi / 4)),
    'rx': (1, 1, ref.rx), 'ry': (1, 1, ref.ry), 'rz': (1, 1, ref.rz),
    'cx': (0, 2, lambda: ref.ctrl(ref.MX)), 'cy': (0, 2, lambda: ref.ctrl(ref.MY)),
    'cz': (0, 2, lambda: ref.ctrl(ref.MZ)), 'ch': (0, 2, lambda: ref.ctrl(ref.MH)),
    'swap': (0, 2, lambda: ref.SWAP), 'ccx': (0, 3, ref._ccx), 'cswap': (0, 3, ref._cswap),
    'crx': (1, 2, lambda t: ref.ctrl(ref.rx(t))), 'cry': (1, 2, lambda t: ref.ctrl(ref.ry(t))),
    'crz': (1, 2, lambda t: ref.ctrl(ref.rz(t))),
    'cu1': (1, 2, lambda l: ref.ctrl(ref.phase(l))), 'cu3': (3, 2, _cu3),
    'rxx': (1, 2, lambda t: ref.rpp(ref.MX, t)), 'rzz': (1, 2, lambda t: ref.rpp(ref.MZ, t)),
}


class Program:
    def __init__(self):
        self.qregs = []
        self.cregs = []
        self.instructions = []

    @property
    def n_qubits(self):
        return sum(s for _n, s in self.qregs)

    @property
    def n_cbits(self):
        return sum(s for _n, s in self.cregs)


class _Parser:
    def __init__(self, text, header=True, n=None):
        self.toks = tokenize(text)
        self.i = 0
        self.lib = dict(LIB)
        self.p = Program()
        if not header:
            self.lib.update(QELIB1)
            self.p.qregs.append(('q', n))
            self.p.cregs.append(('c', n))
        self.header = header

    def peek(self):
        return self.toks[self.i][1] if self.i < len(self.toks) else None

    def kind(self):
        return self.toks[self.i][0] if self.i < len(self.toks) else None

    def next(self):
        if self.i >= len(self.toks):
            raise QasmError('unexpected end of the program')
        self.i += 1
        return self.toks[self.i - 1][1]

    def expect(self, s):
        t = self.next()
        if t != s:
            raise QasmError(f'expected {s!r}, found {t!r}')

    def run(self):
        if self.header:
            self.expect('OPENQASM')
            if self.next() != '2.0':
                raise QasmError('version is not 2.0')
            self.expect(';')
        while self.peek() is not None:
            self.statement()
        return self.p

    def statement(self):
        t = self.peek()
        if t == 'include':
            self.next()
            if self.next() != '"qelib1.inc"':
                raise QasmError('unknown include')
            self.expect(';')
            self.lib.update(QELIB1)
        elif t in ('qreg', 'creg'):
            self.next()
            name = self.ident()
            self.expect('[')
            size = self.integer()
            self.expect(']')
            self.expect(';')
            if size < 1:
                raise QasmError('register of size zero')
            if any(name == r for r, _s in self.p.qregs + self.p.cregs):
                raise QasmError('register declared twice')
            (self.p.qregs if t == 'qreg' else self.p.cregs).append((name, size))
        elif t == 'measure':
            self.next()
            q = self.operand(self.p.qregs)
            self.expect('->')
            c = self.operand(self.p.cregs)
            self.expect(';')
            if len(q) != len(c):
                raise QasmError('measure between registers of different sizes')
            for a, b in zip(q, c):
                self.p.instructions.append(('measure', a, b))
        elif t == 'reset':
            self.next()
            for a in self.operand(self.p.qregs):
                self.p.instructions.append(('reset', a))
            self.expect(';')
        elif t == 'barrier':
            self.next()
            self.operand(self.p.qregs)
            while self.peek() == ',':
                self.next()
                self.operand(self.p.qregs)
            self.expect(';')
        elif self.kind() == 'id':
            self.gate()
        else:
            raise QasmError(f'unexpected {t!r}')

    def ident(self):
        if self.kind() != 'id':
            raise QasmError(f'expected an identifier, found {self.peek()!r}')
        return self.next()

    def integer(self):
        if self.kind() != 'int':
            raise QasmError(f'expected an integer, found {self.peek()!r}')
        return int(self.next())

    def operand(self, regs):
        name = self.ident()
        off = 0
        for r, size in regs:
            if r == name:
                if self.peek() == '[':
                    self.next()
                    k = self.integer()
                    self.expect(']')
                    if k >= size:
                        raise QasmError(f'index {k} out of range')
                    return [off + k]
                return list(range(off, off + size))
            off += size
        raise QasmError(f'unknown register {name}')

    def gate(self):
        name = self.ident()
        if name not in self.lib:
            raise QasmError(f'gate {name} is not defined')
        np_, nq, fn = self.lib[name]
        params = []
        if self.peek() == '(':
            self.next()
            if self.peek() != ')':
                params.append(self.expr())
                while self.peek() == ',':
                    self.next()
                    params.append(self.expr())
            self.expect(')')
        if len(params) != np_:
            raise QasmError(f'{name} takes {np_} parameters, not {len(params)}')
        args = [self.operand(self.p.qregs)]
        while self.peek() == ',':
            self.next()
            args.append(self.operand(self.p.qregs))
        self.expect(';')
        if len(args) != nq:
            raise QasmError(f'{name} takes {nq} qubits, not {len(args)}')
        size = max(len(a) for a in args)
        for k in range(size):
            qs = tuple(a[k] if len(a) > 1 else a[0] for a in args)
            if len(set(qs)) != len(qs):
                raise QasmError('repeated qubit argument')
            self.p.instructions.append(('u', fn(*params), qs, name))

    # expressions
    def expr(self):
        v = self.term()
        while self.peek() in ('+', '-'):
            v = v + self.term() if self.next() == '+' else v - self.term()
        return v

    def term(self):
        v = self.unary()
        while self.peek() in ('*', '/'):
            v = v * self.unary() if self.next() == '*' else v / self.unary()
        return v

    def unary(self):
        if self.peek() == '-':
            self.next()
            return -self.unary()
        return self.power()

    def power(self):
        b = self.atom()
        if self.peek() == '^':
            self.next()
            return b ** self.unary()
        return b

    def atom(self):
        k = self.kind()
        if k in ('real', 'int'):
            return float(self.next())
        t = self.next()
        if t == 'pi':
            return math.pi
        if t == '(':
            v = self.expr()
            self.expect(')')
            return v
        if t in ('sin', 'cos', 'tan', 'exp', 'ln', 'sqrt'):
            self.expect('(')
            v = self.expr()
            self.expect(')')
            return {'ln': math.log}.get(t, getattr(math, t, None))(v)
        raise QasmError(f'unexpected {t!r} in an expression')


def parse(text):
    return _Parser(text).run()


def parse_body(text, n):
    """Statements without the prologue, for registers q[n] and c[n]."""
    return _Parser(text, header=False, n=n).run()


def unitary(p):
    n = p.n_qubits
    v = np.eye(2 ** n, dtype=complex)
    for ins in p.instructions:
        if ins[0] != 'u':
            raise QasmError('not unitary')
        v = ref.apply(v, ins[1], ins[2], n)
    return v


def branches(p, eps=1e-14, limit=4096, initial=None):
    """All (classical bits, unnormalised state)."""
    n = p.n_qubits
    cur = [((0,) * p.n_cbits, ref.zero_state(n) if initial is None else initial)]
    for ins in p.instructions:
        if ins[0] == 'u':
            cur = [(b, ref.apply(v, ins[1], ins[2], n)) for b, v in cur]
            continue
        new = []
        for bits, v in cur:
            for b in (0, 1):
                w = ref.project(v, ins[1], b) if ins[0] == 'measure' else \
                    ref.reset_branch(v, ins[1], b)
                if np.vdot(w, w).real <= eps:
                    continue
                nb = bits
                if ins[0] == 'measure':
                    nb = bits[:ins[2]] + (b,) + bits[ins[2] + 1:]
                new.append((nb, w))
        cur = new
        if len(cur) > limit:
            raise ValueError('too many branches')
    return cur


def instrument(brs, dim):
    """bits -> unnormalised density matrix."""
    d = {}
    for bits, v in brs:
        d.setdefault(bits, np.zeros((dim, dim), dtype=complex))
        d[bits] = d[bits] + np.outer(v, v.conj())
    return d
