"""Interval evaluation of extracted terms (no execution, no solver).

ival(t, box) -> ('i', lo, hi)   a number within [lo, hi]
             -> ('b', True|False|None)
             -> ('t', (items...))
             -> ('v', value)      any other constant
             -> None              unknown
box maps terms to intervals; it is consulted before the structure of a term.
"""
import math
from .terms import *

UNK = None


class Box(object):
    def __init__(self, m=None, frac=(), floats=()):
        self.m = dict(m or {})
        self.frac = dict(frac)      # (float term, int term) -> interval of float - int
        self.floats = frozenset(floats)
        self.memo = {}

    def with_(self, t, lo, hi):
        b = Box(self.m, self.frac, self.floats)
        b.m[t] = ('i', lo, hi)
        return b

    def refine(self, t, lo, hi):
        cur = self.m.get(t) or ival(t, self)
        if cur and cur[0] == 'i':
            lo, hi = max(lo, cur[1]), min(hi, cur[2])
        if lo > hi:
            return None
        return self.with_(t, lo, hi)


def num(v):
    if v is None:
        return None
    if v[0] == 'i':
        return v
    if v[0] == 'b':
        return ('i', int(v[1]), int(v[1])) if v[1] is not None else ('i', 0, 1)
    return None


def hull(a, b):
    if a is None or b is None:
        return None
    if a == b:
        return a
    if a[0] in 'ib' and b[0] in 'ib':
        if a[0] == b[0] == 'b':
            return ('b', None)
        a, b = num(a), num(b)
        return ('i', min(a[1], b[1]), max(a[2], b[2]))
    if a[0] == b[0] == 't' and len(a[1]) == len(b[1]):
        return ('t', tuple(hull(x, y) for x, y in zip(a[1], b[1])))
    return None


def ival(t, box):
    if t in box.m:
        return box.m[t]
    k = id(t)
    if k in box.memo:
        return box.memo[k][1]
    v = ival1(t, box)
    box.memo[k] = (t, v)
    return v


def ival1(t, box):
    tag = t[0]
    if tag == 'c':
        v = t[2]
        if isinstance(v, bool):
            return ('b', v)
        if isinstance(v, (int, float)) and v == v:
            return ('i', v, v)
        return ('v', v)
    if tag == 'tuple':
        return ('t', tuple(ival(x, box) for x in t[1]))
    if tag == 'lin':
        m = dict(t[2])
        lo = hi = t[1]
        for (a, b), r in box.frac.items():
            if a in m and b in m and m[a] == -m[b]:
                k = m.pop(a)
                m.pop(b)
                x = sorted((k * r[0], k * r[1]))
                lo, hi = lo + x[0], hi + x[1]
        for a, k in m.items():
            v = num(ival(a, box))
            if v is None:
                return None
            x = sorted((_m(k, v[1]), _m(k, v[2])))
            lo, hi = lo + x[0], hi + x[1]
        if lo != lo or hi != hi:
            return None
        return ('i', lo, hi)
    if tag == 'u':
        return ('i', 0, (1 << t[4]) - 1)
    if tag == 's':
        return ('i', -(1 << (t[4] - 1)), (1 << (t[4] - 1)) - 1)
    if tag == 'app':
        return _app(t, box)
    return None


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def _sgn(iv, lt):
    """truth of iv < 0 (lt) or iv == 0"""
    if iv is None:
        return ('b', None)
    lo, hi = iv[1], iv[2]
    if lt:
        return ('b', True if hi < 0 else False if lo >= 0 else None)
    return ('b', True if lo == hi == 0 else False if lo > 0 or hi < 0 else None)


def truth(v):
    if v is None:
        return None
    if v[0] == 'b':
        return v[1]
    if v[0] == 'i':
        if v[1] > 0 or v[2] < 0:
            return True
        if v[1] == v[2] == 0:
            return False
        return None
    if v[0] == 't':
        return len(v[1]) > 0
    return bool(v[1])


def _corners(f, a, b):
    vs = []
    for x in (a[1], a[2]):
        for y in (b[1], b[2]):
            try:
                r = f(x, y)
            except (ZeroDivisionError, OverflowError, ValueError, TypeError):
                return None
            if r != r:
                return None
            vs.append(r)
    return ('i', min(vs), max(vs))


def _fdiv(x, y):
    if math.isinf(x):
        return x if y > 0 else -x
    return x // y


def _shr(x, y):
    if math.isinf(x):
        return x
    return int(x) >> int(y)


def _round1(x):
    return x if math.isinf(x) else round(x)


def _app(t, box):
    op, a = t[1], t[2:]
    if op == 'ite':
        c = truth(ival(a[0], box))
        if c is True:
            return ival(a[1], box)
        if c is False:
            return ival(a[2], box)
        x = ival(a[1], assume(a[0], True, box) or box)
        y = ival(a[2], assume(a[0], False, box) or box)
        return hull(x, y)
    if op == 'eq0':
        return _sgn(num(ival(a[0], box)), False)
    if op == 'lt0':
        return _sgn(num(ival(a[0], box)), True)
    if op == 'not':
        c = truth(ival(a[0], box))
        return ('b', None if c is None else not c)
    if op in ('and', 'or'):
        cs = [truth(ival(x, box)) for x in a]
        stop = op == 'or'
        if any(c is stop for c in cs):
            return ('b', stop)
        if any(c is None for c in cs):
            return ('b', None)
        return ('b', not stop)
    if op in ('truth', 'bool'):
        return ('b', truth(ival(a[0], box)))
    if op == 'cmp':
        x, y = num(ival(a[1], box)), num(ival(a[2], box))
        if x is None or y is None:
            return ('b', None)
        if a[0][2] == '==':
            if x[1] == x[2] == y[1] == y[2]:
                return ('b', True)
            return ('b', False if x[2] < y[1] or y[2] < x[1] else None)
        return ('b', True if x[2] < y[1] else False if x[1] >= y[2] else None)
    if op == 'inset':
        x = num(ival(a[0], box))
        s = ival(a[1], box)
        if x is None or s is None or s[0] != 't':
            return ('b', None)
        ks = [num(k) for k in s[1]]
        if x[1] == x[2]:
            if any(k is not None and k[1] == k[2] == x[1] for k in ks):
                return ('b', True)
        if all(k is not None and (k[2] < x[1] or k[1] > x[2]) for k in ks):
            return ('b', False)
        return ('b', None)
    if op in ('int', 'float', 'round', 'abs') and len(a) == 1:
        x = num(ival(a[0], box))
        if x is None:
            return None
        lo, hi = x[1], x[2]
        if op == 'float':
            return x
        if op == 'abs':
            if lo >= 0:
                return x
            return ('i', 0 if hi >= 0 else -hi, max(-lo, hi))
        if op == 'round':
            return ('i', _round1(lo), _round1(hi))
        return ('i', lo if math.isinf(lo) else int(lo), hi if math.isinf(hi) else int(hi))
    if op in ('ext:math.floor', 'floor') and len(a) == 1:
        x = num(ival(a[0], box))
        if x is None or math.isinf(x[1]) or math.isinf(x[2]):
            return None
        return ('i', math.floor(x[1]), math.floor(x[2]))
    if op in ('min', 'max'):
        vs = [num(ival(x, box)) for x in a]
        if any(v is None for v in vs) or not vs:
            return None
        f = min if op == 'min' else max
        return ('i', f(v[1] for v in vs), f(v[2] for v in vs))
    if op in ('divmod0', 'divmod1'):
        op = '//' if op == 'divmod0' else '%'
    if op in ('+', '-', '*', '/', '//', '%', '>>', '<<', '&', '|') and len(a) == 2:
        x, y = num(ival(a[0], box)), num(ival(a[1], box))
        if x is None or y is None:
            return None
        if op == '+':
            return ('i', x[1] + y[1], x[2] + y[2])
        if op == '-':
            return ('i', x[1] - y[2], x[2] - y[1])
        if op == '*':
            return _corners(_m, x, y)
        if op in ('/', '//') and (y[1] <= 0 <= y[2]):
            return None
        if op == '/':
            return _corners(lambda p, q: p / q, x, y)
        if op == '//':
            return _corners(_fdiv, x, y)
        if op == '%':
            if y[1] != y[2] or y[1] <= 0:
                return None
            m = y[1]
            if math.isinf(x[1]) or math.isinf(x[2]) or x[1] // m != x[2] // m:
                if all(isinstance(v, int) or math.isinf(v) for v in (x[1], x[2])) and isinstance(m, int):
                    return ('i', 0, m - 1)
                return ('i', 0, m)
            return ('i', x[1] % m, x[2] % m)
        if op == '>>':
            if y[1] != y[2] or y[1] < 0:
                return None
            return ('i', _shr(x[1], y[1]), _shr(x[2], y[1]))
        if op == '<<':
            if y[1] != y[2] or y[1] < 0 or math.isinf(x[1]) or math.isinf(x[2]):
                return None
            return ('i', int(x[1]) << y[1], int(x[2]) << y[1])
        if op == '&':
            if x[1] == x[2] and y[1] == y[2]:
                return ('i', x[1] & y[1], x[1] & y[1])
            m = min([v[2] for v in (x, y) if v[1] >= 0] or [None])
            return None if m is None else ('i', 0, m)
        if op == '|':
            if x[1] == x[2] and y[1] == y[2]:
                return ('i', x[1] | y[1], x[1] | y[1])
            if x[1] >= 0 and y[1] >= 0 and not math.isinf(x[2]) and not math.isinf(y[2]):
                return ('i', max(x[1], y[1]), (1 << max(int(x[2]).bit_length(), int(y[2]).bit_length())) - 1)
            return None
    return None


def assume(c, pol, box):
    """box narrowed by condition c having truth value pol; None when that is impossible"""
    v = truth(ival(c, box))
    if v is not None:
        return box if v == pol else None
    if c[0] != 'app':
        return box
    op = c[1]
    if op == 'not':
        return assume(c[2], not pol, box)
    if op == 'truth':
        if c[2][0] == 'app' and c[2][1] in ('not', 'and', 'or', 'lt0', 'eq0', 'cmp', 'inset', 'truth', 'bool'):
            return assume(c[2], pol, box)
        if not pol:
            return box.refine(c[2], 0, 0)
        return box
    if op == 'and' and pol or op == 'or' and not pol:
        for x in c[2:]:
            box = assume(x, pol, box)
            if box is None:
                return None
        return box
    if op in ('lt0', 'eq0'):
        t = c[2]
        if t[0] == 'lin' and len(t[2]) == 1 and abs(t[2][0][1]) == 1:
            at, k = t[2][0]
            n = t[1]
        elif t[0] != 'lin':
            at, k, n = t, 1, 0
        else:
            return box
        # n + k*at (<|==) 0
        one = 0 if at in box.floats else 1
        if op == 'eq0':
            if pol:
                return box.refine(at, -n * k, -n * k)
            cur = num(ival(at, box))
            if cur and cur[1] == -n * k and cur[1] < cur[2]:
                return box.refine(at, cur[1] + one, cur[2])
            if cur and cur[2] == -n * k and cur[1] < cur[2]:
                return box.refine(at, cur[1], cur[2] - one)
            return box
        if k == 1:
            return box.refine(at, -INF, -n - one) if pol else box.refine(at, -n, INF)
        return box.refine(at, n + one, INF) if pol else box.refine(at, -INF, n)
    return box
