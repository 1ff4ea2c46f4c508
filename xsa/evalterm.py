"""Constant propagation of a valuation through an extracted term.

Used only to *confirm* that two different normal forms really denote different
functions (and to recognise equal ones written differently): nothing of the
analysed program is run, only the term algebra of terms.py is folded.
Anything the algebra does not define is Undef, which makes a comparison
undecided - never a report.
"""
import datetime
import operator
import struct
from .terms import *


class Undef(Exception):
    pass


class Raised(Exception):
    """the term's operation would raise (index out of range and the like)"""


# options of the open call: a workbook may have been opened with any value
OPTIONS = {'on_demand': (0, 1, True, False), 'use_mmap': (1, 0), 'ignore_workbook_corruption': (0, 1, False)}


class Env(object):
    turn = 0

    def __init__(self, syms=None, inits=None, ks=None, extra=None):
        self.syms = syms or {}
        self.inits = inits or {}
        self.ks = ks or {}
        self.extra = extra or {}     # term -> value
        self.memo = {}
        self.noexc = False           # assume no handler was entered
        Env.turn += 1
        self.option = Env.turn

    def with_k(self, lid, v):
        ks = dict(self.ks)
        ks[lid] = v
        e = Env(self.syms, self.inits, ks, self.extra)
        e.noexc = self.noexc
        e.option = self.option
        return e


def ev(t, env):
    if t[0] == 'app' or t[0] in ('u', 's'):
        k = id(t)
        m = env.memo
        if k in m:
            v = m[k][1]
            if v is _UNDEF:
                raise Undef
            if v is _RAISED:
                raise Raised
            return v
        try:
            v = ev1(t, env)
        except Undef:
            m[k] = (t, _UNDEF)
            raise
        except Raised:
            m[k] = (t, _RAISED)
            raise
        m[k] = (t, v)
        return v
    return ev1(t, env)


PLAIN = {int, float, str, bool, complex, type(None)}
BUILTIN_TYPES = {'int': int, 'float': float, 'str': str, 'bool': bool, 'complex': complex, 'bytes': bytes}
OPERATORS = {'Pow': operator.pow}
for _n in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow', 'lt', 'le', 'eq', 'ne', 'gt', 'ge'):
    OPERATORS['ext:operator.' + _n] = getattr(operator, _n)
_UNDEF = object()
_RAISED = object()


def ev1(t, env):
    if env.extra and t in env.extra:
        return env.extra[t]
    tag = t[0]
    if tag == 'c':
        return t[2]
    if tag == 'sym':
        if t[1] in env.syms:
            return env.syms[t[1]]
        raise Undef
    if tag == 'init':
        if (t[1], t[2]) in env.inits:
            return env.inits[(t[1], t[2])]
        if t[1] == 'book' and t[2] in OPTIONS:
            o = OPTIONS[t[2]]
            return o[env.option % len(o)]
        raise Undef
    if tag == 'k':
        if t[1] in env.ks:
            return env.ks[t[1]]
        raise Undef
    if tag == 'tuple':
        return tuple(ev(x, env) for x in t[1])
    if tag == 'lin':
        r = t[1]
        for a, k in t[2]:
            v = ev(a, env)
            if isinstance(v, (datetime.date, datetime.timedelta)):
                return _date_sum(t, env)
            if not isinstance(v, (int, float)):
                raise Undef
            r = r + k * v
        return r
    if tag in ('u', 's', 'd'):
        src = ev(t[1], env)
        if not isinstance(src, (bytes, bytearray)):
            raise Undef
        off = 0
        for a, k in t[2]:
            off += k * ev(a, env)
        if tag == 'd':
            o = t[3] + off
            b = src[o:o + t[4]] if o >= 0 else b''
            if len(b) != t[4]:
                raise Raised
            return struct.unpack('<d' if t[4] == 8 else '<f', bytes(b))[0]
        bit = t[3] + 8 * off
        if bit < 0:
            bit += 8 * len(src)
            if bit < 0:
                raise Raised
        lo, hi = bit // 8, (bit + t[4] + 7) // 8
        b = src[lo:hi]
        if len(b) != hi - lo:
            raise Raised
        v = (int.from_bytes(b, 'little') >> (bit - 8 * lo)) & ((1 << t[4]) - 1)
        if tag == 's' and v >> (t[4] - 1):
            v -= 1 << t[4]
        return v
    if tag == 'slice':
        b = ev(t[1], env)
        lo = ev(t[2], env)
        hi = None if t[3] == END else ev(t[3], env)
        if not isinstance(b, (bytes, str, tuple)) or not isinstance(lo, int) or not isinstance(hi, (int, type(None))):
            raise Undef
        return b[lo:hi]
    if tag == 'app':
        return ev_app(t, env)
    raise Undef


def truth(t, env):
    return bool(ev(t, env))


def ev_app(t, env):
    op = t[1]
    a = t[2:]
    if op == 'ite':
        return ev(a[1], env) if truth(a[0], env) else ev(a[2], env)
    if op == 'eq0':
        x = a[0]
        if x[0] == 'lin' and x[1] == 0 and len(x[2]) == 2 and sorted(k for _, k in x[2]) == [-1, 1]:
            return ev(x[2][0][0], env) == ev(x[2][1][0], env)
        return ev(a[0], env) == 0
    if op == 'lt0':
        return ev(a[0], env) < 0
    if op == 'not':
        return not truth(a[0], env)
    if op == 'and':
        # literals are sorted, not in source order: any False decides
        undef = raised = False
        for x in a:
            try:
                if not truth(x, env):
                    return False
            except Undef:
                undef = True
            except Raised:
                raised = True
        if undef:
            raise Undef
        if raised:
            raise Raised        # all others hold: whatever their order, this one is reached
        return True
    if op in ('truth', 'bool'):
        return bool(ev(a[0], env))
    if op == 'hasattr':
        a = ev(t[3], env)
        if not isinstance(a, str):
            raise Undef
        return hasattr(ev(t[2], env), a)
    if op == 'is':
        x, y = ev(a[0], env), ev(a[1], env)
        if x is None or y is None or isinstance(x, bool) or isinstance(y, bool):
            return x is y
        if getattr(x, 'xsa_identity', 0) or getattr(y, 'xsa_identity', 0):
            return x is y
        raise Undef
    if op == 'inset':
        return ev(a[0], env) in ev(a[1], env)
    if op == 'in':
        x, y = ev(a[0], env), ev(a[1], env)
        try:
            return x in y
        except TypeError:
            raise Undef
    if op == 'cmp':
        x, y = ev(a[1], env), ev(a[2], env)
        try:
            return x == y if a[0][2] == '==' else x < y
        except TypeError:
            if {type(x), type(y)} <= PLAIN:
                raise Raised
            raise Undef
    if op == 'isinstance' and len(a) == 2:
        tys = a[1][1] if a[1][0] == 'tuple' else (a[1],)
        if not all(x[0] == 'ext' and x[1][9:] in BUILTIN_TYPES and x[1].startswith('builtins.') for x in tys):
            raise Undef
        v = ev(a[0], env)
        if type(v) not in PLAIN:
            raise Undef
        return isinstance(v, tuple(BUILTIN_TYPES[x[1][9:]] for x in tys))
    if op == 'except':
        if env.noexc:
            return False
        raise Undef
    if op == 'table':
        v = ev(a[0], env)
        for kv in a[1][1]:
            if kv[1][0][2] == v:
                return ev(kv[1][1], env)
        if len(a) > 2:
            return ev(a[2], env)
        raise Raised
    if op == 'len':
        v = ev(a[0], env)
        if isinstance(v, (bytes, str, tuple)):
            return len(v)
        if v is None:
            raise Raised
        raise Undef
    if op in ('+', '-', '*', '/', '//', '%', '&', '|', '>>', '<<') and len(a) == 2:
        x, y = ev(a[0], env), ev(a[1], env)
        if op == '%' and isinstance(x, str):
            try:
                return x % y
            except Exception:
                raise Undef
        if not isinstance(x, (int, float)) or not isinstance(y, (int, float)):
            raise Undef
        try:
            return {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y,
                    '//': lambda: x // y, '%': lambda: x % y, '&': lambda: x & y, '|': lambda: x | y,
                    '>>': lambda: x >> y, '<<': lambda: x << y}[op]()
        except (ZeroDivisionError, TypeError, OverflowError, ValueError):
            raise Raised
    if op == 'float':
        v = ev(a[0], env)
        if isinstance(v, (int, float)):
            return float(v)
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise Raised
        if v is None or isinstance(v, bytes):
            raise Raised
        raise Undef
    if op in OPERATORS and len(a) == 2:
        x, y = ev(a[0], env), ev(a[1], env)
        if not isinstance(x, (int, float, str, complex)) or not isinstance(y, (int, float, str, complex)):
            raise Undef
        if op == 'Pow' and isinstance(x, int) and isinstance(y, int) and not -64 <= y <= 64:
            raise Undef
        try:
            return OPERATORS[op](x, y)
        except (ArithmeticError, TypeError, ValueError):
            raise Raised
    if op == 'ext:operator.neg' or op == 'ext:operator.pos':
        v = ev(a[0], env)
        if isinstance(v, (int, float)):
            return -v if op.endswith('neg') else +v
        if v is None or isinstance(v, (str, bytes)):
            raise Raised
        raise Undef
    if op == 'int':
        v = ev(a[0], env)
        if isinstance(v, (int, float)) and v == v and abs(v) != INF:
            return int(v)
        raise Undef
    if op == 'abs':
        return abs(ev(a[0], env))
    if op in ('min', 'max'):
        vs = [ev(x, env) for x in a]
        return (min if op == 'min' else max)(vs)
    if op == 'byte1':
        v = ev(a[0], env)
        if isinstance(v, int) and 0 <= v < 256:
            return bytes([v])
        raise Undef
    if op == 'chr':
        v = ev(a[0], env)
        if isinstance(v, int) and 0 <= v < 0x110000:
            return chr(v)
        raise Undef
    if op == 'ord':
        v = ev(a[0], env)
        if isinstance(v, (str, bytes)) and len(v) == 1:
            return ord(v)
        raise Undef
    if op == 'cat':
        vs = [ev(x, env) for x in a]
        if all(isinstance(v, bytes) for v in vs):
            return b''.join(vs)
        if all(isinstance(v, str) for v in vs):
            return ''.join(vs)
        raise Undef
    if op == 'f64of':
        v = ev(a[0], env)
        if isinstance(v, bytes) and len(v) == 8:
            return struct.unpack('<d', v)[0]
        raise Undef
    if op == 'decode':
        b, e = ev(a[0], env), ev(a[1], env)
        if not isinstance(b, bytes) or not isinstance(e, str):
            raise Undef
        if b == b'':
            return ''
        try:
            return b.decode(e)
        except UnicodeError:
            raise Raised
        except LookupError:
            raise Undef
    if op == 'array':
        b, off, n = ev(a[0], env), ev(a[1], env), ev(a[3], env)
        if not isinstance(b, bytes) or not isinstance(n, int) or not isinstance(off, int):
            raise Undef
        try:
            return struct.unpack_from('<%d%s' % (n, a[2][2]), b, off)
        except struct.error:
            raise Raised
    if op == 'repeat':
        x, y = ev(a[0], env), ev(a[1], env)
        if isinstance(x, (str, bytes)) and isinstance(y, int) and y < 10000:
            return x * y
        raise Undef
    if op == 'str':
        v = ev(a[0], env)
        if isinstance(v, (int, float, str)):
            return str(v)
        raise Undef
    if op == 'item' and len(a) == 2:
        x, y = ev(a[0], env), ev(a[1], env)
        if isinstance(x, (tuple, str, bytes, list)) and isinstance(y, int):
            try:
                return x[y]
            except IndexError:
                raise Raised
        if isinstance(x, dict):
            try:
                return x[y]
            except (KeyError, TypeError):
                raise Raised
        if not _opaque(x):
            raise Undef
        return ('item', x, y)
    if op == 'method' and a[0][0] == 'c' and len(a) > 1:
        x = ev(a[1], env)
        if isinstance(x, dict) and a[0][2] == 'get' and len(a) in (3, 4):
            try:
                return x.get(*[ev(y, env) for y in a[2:]])
            except TypeError:
                raise Undef
        if isinstance(x, (str, bytes)) and a[0][2] in _PURE:
            try:
                return _tup(getattr(x, a[0][2])(*[ev(y, env) for y in a[2:]]))
            except Exception:
                raise Undef
        if isinstance(x, int) and a[0][2] in ('bit_length', '__index__', '__int__') and len(a) == 2:
            return getattr(x, a[0][2])()
        if isinstance(x, float) and a[0][2] == 'is_integer' and len(a) == 2:
            return x.is_integer()
        if isinstance(x, tuple) and not _opaque(x) and a[0][2] in ('index', 'count') and len(a) == 3:
            try:
                return getattr(x, a[0][2])(ev(a[2], env))
            except ValueError:
                raise Raised
        if not _opaque(x):
            raise Undef
    if op == 'attr' and len(a) == 2 and a[1][0] == 'c':
        x = ev(a[0], env)
        if hasattr(x, 'xsa_attrs'):
            if a[1][2] in x.xsa_attrs:
                return x.xsa_attrs[a[1][2]]
            raise Raised
        if type(x) in PLAIN and not hasattr(x, a[1][2]):
            raise Raised
        if not _opaque(x):
            raise Undef
        return (op, x, a[1][2])
    if op in ('item', 'attr', 'method', 'get'):
        # uninterpreted but functional: compare arguments
        if op != 'method' and not _opaque(ev(a[0], env) if isinstance(a[0], tuple) else a[0]):
            raise Undef
        return (op,) + tuple(ev(x, env) if isinstance(x, tuple) else x for x in a)
    if op in _STDLIB:
        try:
            return _STDLIB[op](*[ev(x, env) for x in a])
        except (ValueError, OverflowError):
            raise Raised
        except TypeError:
            raise Undef
    if op == 'copy' and len(a) == 1:
        v = ev(a[0], env)
        if isinstance(v, (tuple, bytes, str)):
            return v
        raise Undef
    if op == 'round' and len(a) == 1:
        v = ev(a[0], env)
        if isinstance(v, (int, float)) and v == v and abs(v) != INF:
            return round(v)
        raise Undef
    if op.startswith('divmod'):
        x, y = ev(a[0], env), ev(a[1], env)
        try:
            return divmod(x, y)[int(op[6:])]
        except Exception:
            raise Undef
    raise Undef


def _date_sum(t, env):
    """epoch +/- timedeltas"""
    r = None
    vs = [(ev(a, env), k) for a, k in t[2]]
    vs.sort(key=lambda x: isinstance(x[0], datetime.timedelta))
    for v, k in vs:
        if isinstance(v, datetime.timedelta):
            v = v * k
        elif k != 1:
            raise Undef
        try:
            r = v if r is None else r + v
        except OverflowError:
            raise Raised
        except TypeError:
            raise Undef
    if t[1] != 0:
        raise Undef
    return r


_STDLIB = {'ext:datetime.datetime': datetime.datetime, 'ext:datetime.timedelta': datetime.timedelta,
           'ext:datetime.date': datetime.date}


_PURE = ('lower', 'upper', 'rstrip', 'lstrip', 'strip', 'split', 'rsplit', 'replace', 'startswith', 'endswith', 'find', 'rfind', 'title',
         'format', 'join', 'count', 'index', 'zfill', 'ljust', 'rjust', 'center', 'encode', 'decode', 'partition', 'rpartition', 'isdigit',
         'isalpha', 'isupper', 'islower', 'isspace', 'isalnum', 'splitlines', 'capitalize', 'swapcase', 'hex', '__getitem__', '__len__',
         '__contains__', '__eq__', '__add__')


def _tup(v):
    return tuple(v) if isinstance(v, list) else v


def _opaque(x):
    """not a plain value: applying an operation to it yields an uninterpreted value"""
    if isinstance(x, (str, bytes, int, float, complex)) or x is None:
        return False
    if isinstance(x, tuple):
        return len(x) > 1 and x[0] in ('opaque', 'item', 'attr', 'method', 'get')
    return True


def opaque(name):
    """a value that only equals itself"""
    return ('opaque', name)


def vectors(n=48, seed=12345):
    """Byte vectors: zeros, ones, walking bits over n bytes, small integers, pseudo-random."""
    out = [bytes(n), b'\xff' * n]
    for i in range(8 * n):
        b = bytearray(n)
        b[i // 8] |= 1 << (i % 8)
        out.append(bytes(b))
    for i in range(n):
        b = bytearray(n)
        for j in range(n):
            b[j] = (j * 7 + i * 13 + 1) & 255
        out.append(bytes(b))
    x = seed
    for _ in range(60):
        b = bytearray(n)
        for j in range(n):
            x = (x * 1103515245 + 12345) & 0x7fffffff
            b[j] = (x >> 16) & 255
        out.append(bytes(b))
    # few set bytes, small values (counts, lengths)
    for i in range(0, min(16, n)):
        for v in (1, 2, 3, 4, 5):
            b = bytearray(n)
            b[i] = v
            out.append(bytes(b))
    return out
