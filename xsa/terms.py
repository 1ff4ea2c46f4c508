"""Abstract values ("terms") and their normal forms.

A term is an immutable tuple whose first item is its tag:

  ('c', typename, value)          constant (int/float/str/bytes/None/bool/...)
  ('tuple', (t, ...))             tuple with known items
  ('u', src, sym, bit, n)         n unsigned bits of byte source `src`, starting at
                                  bit `bit` (little endian) past symbolic offset `sym`
  ('s', src, sym, bit, n)         same, signed (two's complement)
  ('d', src, sym, byte, n)        IEEE float of n bytes
  ('slice', src, lo, hi)          src[lo:hi]   (hi may be NONE_END)
  ('lin', c, ((t, k), ...))       c + sum(k*t)
  ('sym', name)                   an unknown input
  ('init', owner, attr)           value an attribute had on entry
  ('k', loopid)                   iteration number of a loop
  ('app', op, args...)            uninterpreted application
  ('ref', id)                     heap object
  ('func'|'bm'|'class'|'mod'|'ext', ...)  callables and namespaces
  ('alts', frozenset)             one of several
  ('top',)                        anything
"""
import math

TOP = ('top',)
INF = math.inf
MAX_ALTS = 8
END = ('end',)


def const(v):
    return ('c', type(v).__name__, v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)


def is_const(t):
    return t[0] == 'c'


def cval(t):
    return t[2]


def is_int_const(t):
    return t[0] == 'c' and t[1] in ('int', 'bool')


def alts(ts):
    out = set()
    for t in ts:
        if t[0] == 'alts':
            out |= t[1]
        elif t == TOP:
            return TOP
        else:
            out.add(t)
    if not out:
        return TOP
    if len(out) == 1:
        return next(iter(out))
    if len(out) > MAX_ALTS:
        return TOP
    return ('alts', frozenset(out))


def alternatives(t):
    if t[0] == 'alts':
        return sorted(t[1], key=repr)
    return [t]


def each(fn, *ts):
    """Map fn over the alternatives of its arguments (bounded)."""
    lists = [alternatives(t) for t in ts]
    n = 1
    for l in lists:
        n *= len(l)
    if n == 1:
        return fn(*[l[0] for l in lists])
    if n > 36:
        return TOP
    import itertools
    return alts([fn(*combo) for combo in itertools.product(*lists)])


# ---------------------------------------------------------------- linear forms

def to_lin(t):
    """-> (const, {atom: coef}) or None if t is not usable as an integer."""
    if is_int_const(t):
        return int(t[2]), {}
    if t[0] == 'c' and t[1] == 'float':
        return None
    if t[0] == 'lin':
        return t[1], dict(t[2])
    if t[0] in ('u', 's', 'sym', 'init', 'k', 'app', 'phi', 'elem', 'exit', 'd'):
        return 0, {t: 1}
    return None


def _merge_adjacent(c, m):
    """Combine 2^i*u[a,n] + 2^(i+n)*u[a+n,m] into one wider field."""
    us = [t for t in m if t[0] == 'u']
    if len(us) < 2:
        return
    changed = True
    while changed:
        changed = False
        us = [t for t in m if t[0] == 'u']
        for a in us:
            for b in us:
                if a is b or a[1] != b[1] or a[2] != b[2]:
                    continue
                if b[3] == a[3] + a[4] and m[b] == m[a] * (1 << a[4]):
                    k = m[a]
                    del m[a]
                    del m[b]
                    w = ('u', a[1], a[2], a[3], a[4] + b[4])
                    m[w] = m.get(w, 0) + k
                    changed = True
                    break
            if changed:
                break


def from_lin(c, m):
    m = {t: k for t, k in m.items() if k}
    _merge_adjacent(c, m)
    if not m:
        return const(c)
    if c == 0 and len(m) == 1:
        (t, k), = m.items()
        if k == 1:
            return t
    return ('lin', c, tuple(sorted(m.items(), key=repr)))


def add(a, b, sign=1):
    la, lb = to_lin(a), to_lin(b)
    if la is None or lb is None:
        return ('app', '+' if sign > 0 else '-', a, b)
    c = la[0] + sign * lb[0]
    m = dict(la[1])
    for t, k in lb[1].items():
        m[t] = m.get(t, 0) + sign * k
    return from_lin(c, m)


def sub(a, b):
    return add(a, b, -1)


def scale(a, k):
    la = to_lin(a)
    if la is None:
        return ('app', '*', a, const(k))
    return from_lin(la[0] * k, {t: c * k for t, c in la[1].items()})


def mul(a, b):
    if is_int_const(b):
        return scale(a, int(b[2]))
    if is_int_const(a):
        return scale(b, int(a[2]))
    return ('app', '*') + tuple(sorted((a, b), key=repr))


# ------------------------------------------------------------------ bit fields

def _mask_runs(mask):
    """contiguous runs of set bits: [(lo, n), ...]"""
    out = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            n = 0
            while (mask >> (i + n)) & 1:
                n += 1
            out.append((i, n))
            i += n
        else:
            i += 1
    return out


def is_bitsum(t):
    """('lin',0,...) of u-fields times powers of two that do not overlap, or a u."""
    l = to_lin(t)
    if l is None or l[0] < 0:
        return None
    pieces = []
    for a, k in l[1].items():
        if a[0] != 'u' or k <= 0 or k & (k - 1):
            return None
        pieces.append((k.bit_length() - 1, a))
    cbits = l[0]
    used = cbits
    for sh, a in pieces:
        m = ((1 << a[4]) - 1) << sh
        if used & m:
            return None
        used |= m
    return cbits, pieces, used


def bit_and(a, b):
    if is_int_const(a) and not is_int_const(b):
        a, b = b, a
    if is_int_const(b):
        mask = int(b[2])
        if is_int_const(a):
            return const(int(a[2]) & mask)
        if a[0] == 's' and mask >= 0:
            if mask.bit_length() <= a[4]:
                a = ('u',) + a[1:]
            else:
                return ('app', '&', a, b)
        bs = is_bitsum(a)
        if bs is not None:
            cb, pieces, used = bs
            if mask < 0:
                mask &= used | 0
            res = const(cb & mask)
            for sh, f in pieces:
                m = (mask >> sh) & ((1 << f[4]) - 1)
                for lo, n in _mask_runs(m):
                    res = add(res, scale(('u', f[1], f[2], f[3] + lo, n), 1 << (sh + lo)))
            return res
        if mask == 0:
            return const(0)
    return ('app', '&') + tuple(sorted((a, b), key=repr))


def bit_or(a, b):
    if is_int_const(a) and is_int_const(b):
        return const(int(a[2]) | int(b[2]))
    sa, sb = is_bitsum(a), is_bitsum(b)
    if sa is not None and sb is not None and not (sa[2] & sb[2]):
        return add(a, b)
    if is_int_const(a) and a[2] == 0:
        return b
    if is_int_const(b) and b[2] == 0:
        return a
    return ('app', '|') + tuple(sorted((a, b), key=repr))


def shl(a, b):
    if is_int_const(b) and 0 <= b[2] < 256:
        return scale(a, 1 << int(b[2]))
    return ('app', '<<', a, b)


def shr(a, b):
    if is_int_const(b) and b[2] >= 0:
        n = int(b[2])
        if n == 0:
            return a
        if is_int_const(a):
            return const(int(a[2]) >> n)
        if a[0] == 's':
            if n < a[4]:
                return ('s', a[1], a[2], a[3] + n, a[4] - n)
            return ('app', '>>', a, b)
        bs = is_bitsum(a)
        if bs is not None:
            cb, pieces, used = bs
            res = const(cb >> n)
            for sh, f in pieces:
                if sh >= n:
                    res = add(res, scale(f, 1 << (sh - n)))
                elif sh + f[4] > n:
                    d = n - sh
                    res = add(res, ('u', f[1], f[2], f[3] + d, f[4] - d))
            return res
    return ('app', '>>', a, b)


# --------------------------------------------------------------------- ranges

def term_range(t, assume=None):
    """(lo, hi, is_int) enclosing interval of a numeric term."""
    if assume and t in assume:
        lo, hi = assume[t]
        return lo, hi, _is_int(t)
    tag = t[0]
    if tag == 'c':
        if t[1] in ('int', 'bool', 'float'):
            v = t[2]
            if v != v:
                return -INF, INF, False
            return v, v, t[1] != 'float'
        return -INF, INF, False
    if tag == 'u':
        return 0, (1 << t[4]) - 1, True
    if tag == 's':
        return -(1 << (t[4] - 1)), (1 << (t[4] - 1)) - 1, True
    if tag == 'k':
        return 0, INF, True
    if tag == 'lin':
        lo = hi = t[1]
        isint = True
        for a, k in t[2]:
            l, h, i = term_range(a, assume)
            isint = isint and i
            if k < 0:
                l, h = h, l
            lo = _a(lo, _m(k, l), -1)
            hi = _a(hi, _m(k, h), 1)
        return lo, hi, isint
    if tag == 'alts':
        rs = [term_range(a, assume) for a in t[1]]
        return min(r[0] for r in rs), max(r[1] for r in rs), all(r[2] for r in rs)
    if tag == 'app':
        op = t[1]
        if op in ('len', 'count'):
            return 0, INF, True
        if op in ('not', 'cmp', 'in', 'bool', 'is', 'and', 'or') and op != 'and' and op != 'or':
            return 0, 1, True
        if op in ('+', '-', '*', '/', '//', '%') and len(t) == 4:
            a = term_range(t[2], assume)
            b = term_range(t[3], assume)
            return arith_range(op, a, b)
        if op == 'int':
            lo, hi, i = term_range(t[2], assume)
            return _trunc(lo), _trunc(hi), True
        if op == 'float':
            lo, hi, i = term_range(t[2], assume)
            return lo, hi, False
        if op == 'round' and len(t) == 3:
            lo, hi, i = term_range(t[2], assume)
            return _rnd(lo), _rnd(hi), True
        if op == 'abs':
            lo, hi, i = term_range(t[2], assume)
            if lo >= 0:
                return lo, hi, i
            if hi <= 0:
                return -hi, -lo, i
            return 0, max(-lo, hi), i
        if op == 'min':
            rs = [term_range(a, assume) for a in t[2:]]
            return min(r[0] for r in rs), min(r[1] for r in rs), all(r[2] for r in rs)
        if op == 'max':
            rs = [term_range(a, assume) for a in t[2:]]
            return max(r[0] for r in rs), max(r[1] for r in rs), all(r[2] for r in rs)
        if op == '&' and len(t) == 4:
            for x in t[2:]:
                if is_int_const(x) and x[2] >= 0:
                    return 0, int(x[2]), True
        if op == '>>' and len(t) == 4 and is_int_const(t[3]):
            lo, hi, i = term_range(t[2], assume)
            n = 1 << int(t[3][2])
            return (lo // n if lo != -INF else lo), (hi // n if hi != INF else hi), True
        if op == 'divmod0':
            return arith_range('//', term_range(t[2], assume), term_range(t[3], assume))
        if op == 'divmod1':
            return arith_range('%', term_range(t[2], assume), term_range(t[3], assume))
    return -INF, INF, False


def _is_int(t):
    return term_range(t)[2]


def _trunc(x):
    if x in (INF, -INF):
        return x
    return int(x)


def _rnd(x):
    if x in (INF, -INF):
        return x
    return int(round(x))


def _m(a, b):
    if a == 0 or b == 0:
        return 0
    return a * b


def _a(a, b, side):
    if a in (INF, -INF) and b in (INF, -INF) and a != b:
        return INF if side > 0 else -INF
    return a + b


def arith_range(op, a, b):
    (al, ah, ai), (bl, bh, bi) = a, b
    isint = ai and bi
    if op == '+':
        return _a(al, bl, -1), _a(ah, bh, 1), isint
    if op == '-':
        return _a(al, -bh, -1), _a(ah, -bl, 1), isint
    if op == '*':
        ps = [_m(x, y) for x in (al, ah) for y in (bl, bh)]
        return min(ps), max(ps), isint
    if op in ('//', '/'):
        if bl <= 0 <= bh:
            return -INF, INF, isint and op == '//'
        qs = []
        for x in (al, ah):
            for y in (bl, bh):
                if x in (INF, -INF):
                    qs.append(x if y > 0 else -x)
                elif y in (INF, -INF):
                    qs.append(0)
                    if op == '//' and x < 0 < y:
                        qs.append(-1)
                elif op == '//':
                    qs.append(x // y)
                else:
                    qs.append(x / y)
        return min(qs), max(qs), isint and op == '//'
    if op == '%':
        if bl > 0:
            if al >= 0 and ah < bl:
                return al, ah, isint
            if al == ah and bl == bh and al not in (INF, -INF):
                return al % bl, al % bl, isint
            return 0, (bh - 1 if isint else bh), isint
        return -INF, INF, isint
    return -INF, INF, False


def subst(t, fn):
    """Bottom-up rewrite of every sub-term with fn (fn may return None = keep)."""
    r = fn(t)
    if r is not None:
        return r
    if not isinstance(t, tuple) or not t:
        return t
    tag = t[0]
    if tag in ('c', 'top', 'end', 'func', 'ext', 'mod', 'class'):
        return t
    if tag == 'lin':
        res = const(t[1])
        for a, k in t[2]:
            res = add(res, scale(subst(a, fn), k))
        return res
    if tag == 'alts':
        return alts([subst(a, fn) for a in t[1]])
    if tag == 'tuple':
        return ('tuple', tuple(subst(a, fn) for a in t[1]))
    if tag in ('u', 's', 'd'):
        src = subst(t[1], fn)
        sym = t[2]
        if sym:
            o = const(0)
            for a, k in sym:
                o = add(o, scale(subst(a, fn), k))
            lo = to_lin(o)
            if lo is None:
                return TOP
            unit = 1 if tag == 'd' else 8
            return (tag, src, tuple(sorted(lo[1].items(), key=repr)), t[3] + unit * lo[0], t[4])
        return (tag, src) + t[2:]
    return tuple(subst(x, fn) if isinstance(x, tuple) and x and isinstance(x[0], str) else x
                 for x in t)


def walk(t):
    """All sub-terms of t."""
    yield t
    if not isinstance(t, tuple) or not t or t[0] in ('c', 'top', 'end', 'func', 'ext'):
        return
    if t[0] == 'lin':
        for a, k in t[2]:
            yield from walk(a)
    elif t[0] == 'alts':
        for a in t[1]:
            yield from walk(a)
    elif t[0] == 'tuple':
        for a in t[1]:
            yield from walk(a)
    elif t[0] in ('u', 's', 'd'):
        yield from walk(t[1])
        for a, k in t[2]:
            yield from walk(a)
    else:
        for x in t[1:]:
            if isinstance(x, tuple) and x and isinstance(x[0], str):
                yield from walk(x)


def brief(t, n=160):
    s = show(t)
    return s if len(s) <= n else s[:n] + '...'


def show(t):
    """Readable rendering for reports."""
    if not isinstance(t, tuple) or not t:
        return repr(t)
    tag = t[0]
    if tag == 'c':
        return repr(t[2])
    if tag == 'tuple':
        return '(%s)' % ', '.join(show(x) for x in t[1])
    if tag in ('u', 's'):
        off = ''.join('+%s*%s' % (k, show(a)) if k != 1 else '+' + show(a) for a, k in t[2])
        if t[3] % 8 == 0 and t[4] % 8 == 0:
            return '%s%d@%s[%s%s]' % ('u' if tag == 'u' else 'i', t[4], show(t[1]), t[3] // 8, off)
        return '%s-bits%d..%d@%s[0%s]' % (tag, t[3], t[3] + t[4] - 1, show(t[1]), off)
    if tag == 'd':
        off = ''.join('+%s*%s' % (k, show(a)) if k != 1 else '+' + show(a) for a, k in t[2])
        return 'f%d@%s[%d%s]' % (t[4] * 8, show(t[1]), t[3], off)
    if tag == 'slice':
        return '%s[%s:%s]' % (show(t[1]), show(t[2]), '' if t[3] == END else show(t[3]))
    if tag == 'lin':
        s = ' + '.join(('%d*' % k if k != 1 else '') + show(a) for a, k in t[2])
        return '(%s%s)' % (s, ' + %d' % t[1] if t[1] else '')
    if tag == 'sym':
        return str(t[1])
    if tag == 'init':
        return '%s.%s' % (t[1], t[2])
    if tag == 'k':
        return 'k%s' % (t[1],)
    if tag == 'app':
        return '%s(%s)' % (t[1], ', '.join(show(x) if isinstance(x, tuple) else repr(x) for x in t[2:]))
    if tag == 'alts':
        return '{%s}' % ' | '.join(sorted(show(x) for x in t[1]))
    if tag == 'top':
        return '?'
    if tag == 'ref':
        return 'obj#%s' % t[1]
    return '%s:%s' % (tag, ','.join(map(str, t[1:3])))
