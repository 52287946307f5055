"""Arithmetic on values met on a path: two expressions are compared as rational functions of their atoms, by giving every
atom a fixed pseudo-random rational (an identity that holds there holds everywhere, up to a negligible chance of collision).
Calls are atoms: same callee, same receiver and equal arguments make the same atom."""
from __future__ import annotations
import hashlib
from fractions import Fraction
from .paths import PathResult, subvalues, NONE, SELF


class Num:
    """numbers for the values of one path"""

    def __init__(self, r: PathResult, same=None, zero_calls=(), equal=()):
        self.r = r
        self.calls = {e.n: e for e in r.events if e.kind == 'call'}
        self.zero_calls = set(zero_calls)   # functions f with f(0) == 0
        self.transparent = {'abs', 'absolute', 'fabs', 'asarray', 'array', 'list', 'copy'}
        self.known = {}
        self.memo = {}
        for e in r.events:
            if e.kind != 'assume':
                continue
            l = e.lit
            if not e.pol and l[0] in ('param', 'phi', 'idx', 'res', 'attr', 'sub', 'truthy'):
                self.known.setdefault(l[1] if l[0] == 'truthy' else l, Fraction(0))
            elif e.pol and l[0] == 'cmp' and l[1] == 'eq':
                for a, b in ((l[2], l[3]), (l[3], l[2])):
                    if b[0] == 'const' and isinstance(b[1], (int, float)) and not isinstance(b[1], bool):
                        self.known.setdefault(a, Fraction(b[1]))
        for a, b in equal:
            self.known[a] = self(b)

    @staticmethod
    def atom(key):
        h = hashlib.sha256(repr(key).encode()).digest()
        return Fraction(int.from_bytes(h[:6], 'big') + 2, int.from_bytes(h[6:9], 'big') + 3)

    def call_of(self, v):
        if isinstance(v, tuple) and v and v[0] == 'res':
            return self.calls.get(v[1])
        return None

    def seq(self, v):
        """(base, start) of a sequence: slices of slices count from the first"""
        e = self.call_of(v)
        if e is not None and e.name in self.transparent and e.args:
            return self.seq(e.args[0])
        if v[0] == 'call' and v[1] in self.transparent and v[2]:
            return self.seq(v[2][0])
        if v[0] == 'sub' and v[2][0] == 'slice' and v[2][3] in (NONE, ('const', 1)):
            b, s = self.seq(v[1])
            return b, s + (Fraction(0) if v[2][1] == NONE else self(v[2][1]))
        return v, Fraction(0)

    def span(self, v):
        """(base, start, stop) of a sequence value"""
        e = self.call_of(v)
        if e is not None and e.name in self.transparent and e.args:
            return self.span(e.args[0])
        if v[0] == 'call' and v[1] in self.transparent and v[2]:
            return self.span(v[2][0])
        if v[0] == 'sub' and v[2][0] == 'slice' and v[2][3] in (NONE, ('const', 1)):
            b, s, t = self.span(v[1])
            a, z = v[2][1], v[2][2]
            return b, s + (Fraction(0) if a == NONE else self(a)), t if z == NONE else s + self(z)
        if v[0] == 'sub' and v[2][0] == 'call' and v[2][1] == 'slice' and 1 <= len(v[2][2]) <= 2:
            a = v[2][2]
            return self.span(('sub', v[1], ('slice', a[0] if len(a) == 2 else NONE, a[-1], NONE)))
        return v, Fraction(0), self.atom(('len', self.key(v)))

    def key(self, v):
        """the value with its arithmetic parts replaced by numbers"""
        if not isinstance(v, tuple):
            return v
        if v and v[0] in ('bin', 'neg', 'res', 'const', 'phi', 'param', 'idx', 'elem', 'sub', 'item'):
            return ('#', self(v))
        return tuple(self.key(x) for x in v)

    def __call__(self, v) -> Fraction:
        if v in self.known:
            return self.known[v]
        if v in self.memo:
            return self.memo[v]
        self.memo[v] = x = self._num(v)
        return x

    def _num(self, v):
        if v[0] == 'const' and isinstance(v[1], (int, float)) and not isinstance(v[1], bool):
            return Fraction(v[1])
        if v[0] == 'old':
            return self(v[1])
        if v[0] == 'bin' and v[1] in ('+', '-', '*', '/'):
            a, b = self(v[2]), self(v[3])
            if v[1] == '+':
                return a + b
            if v[1] == '-':
                return a - b
            if v[1] == '*':
                return a * b
            return a / b if b else self.atom(('div0', a))
        if v[0] == 'neg':
            return -self(v[1])
        e = self.call_of(v)
        if e is not None:
            if e.name in ('int', 'float') and len(e.args) == 1 and self(e.args[0]).denominator == 1:
                return self(e.args[0])
            if e.name in self.zero_calls and len(e.args) == 1 and not e.kw and self(e.args[0]) == 0:
                return Fraction(0)
            return self.atom(('call', e.name, self.key(e.recv), tuple(self.key(a) for a in e.args), tuple((k, self.key(a)) for k, a in e.kw)))
        if v[0] == 'call' and v[1] == 'len' and len(v[2]) == 1:
            b, s, t = self.span(v[2][0])
            return t - s
        if v[0] == 'elem':
            b, s = self.seq(v[1])
            return self.atom(('at', self.key(b) if b[0] not in ('elem', 'sub') else repr(b), s + self(('idx', v[1]))))
        if v[0] == 'idx':
            return self.atom(('idx', repr(v[1])))
        if v[0] == 'sub' and v[2][0] != 'slice':
            b, s = self.seq(v[1])
            if v[2][0] == 'const' and isinstance(v[2][1], str):
                return self.atom(('at', self.key(b), v[2][1]))
            return self.atom(('at', self.key(b) if b[0] not in ('elem', 'sub') else repr(b), s + self(v[2])))
        if v[0] in ('attr', 'mcall', 'call', 'cmp', 'tuple', 'list', 'bin', 'ifexp', 'item', 'slice', 'comp'):
            return self.atom(tuple(self.key(x) if isinstance(x, tuple) else x for x in v))
        return self.atom(v)
