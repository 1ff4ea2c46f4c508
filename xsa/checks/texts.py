"""C82 names of cells and ranges; C85 text of formulas."""
import struct
from .common import *
from ..interp import mk_slice
from .decode_formula import pick, last_store, settle, where_fn, colname, rowtext, coltext, celltext, FORM

NAMES = ('One', 'Two Words', "It's", 'Four', "Five's six")


def quoted(n):
    if "'" in n:
        return "'" + n.replace("'", "''") + "'"
    return "'" + n + "'" if ' ' in n else n


def sheets(slo, shi):
    t = quoted(NAMES[slo])
    return t if slo == shi - 1 else t + ':' + quoted(NAMES[shi - 1])


def value_of(c, q, args, unroll=0):
    s = Setup(c.prog, 80, maxsize=200000)
    s.it.symkinds.update((k, 'int') for k in ('rowx', 'colx', 'rlo', 'rhi', 'clo', 'chi', 'slo', 'shi', 'browx', 'bcolx', 'rrel', 'crel', 'r2', 'c2', 'r1c1'))
    s.it.set_attr_raw(s.st, s.book, '_sheet_names', s.it.new_list(s.st, [const(x) for x in NAMES]))
    if unroll:
        s.it.unroll = {q: unroll}
    a = [s.book if x == 'book' else ('sym', x) if isinstance(x, str) else x(s) if callable(x) else x for x in args]
    s.run(q, a)
    return s.value


def env(**kw):
    return E.Env(kw)


def absolute(r, k, r1c1=0):
    return 'R%dC%d' % (r + 1, k + 1) if r1c1 else '$%s$%d' % (colname(k), r + 1)


def relative(r, k, rr, cr, base, r1c1):
    if not rr and not cr:
        return absolute(r, k, r1c1)
    if rr and base[0] is None or cr and base[1] is None:
        r1c1 = True
    return celltext((r, k, rr, cr), base, r1c1)


ROWS = (0, 1, 9, 255, 4095, 16383, 16384, 65534, 65535)
COLS = (0, 1, 24, 25, 26, 27, 51, 52, 255, 254)


def C82(c):
    """The functions that name columns, cells and ranges are interpreted with unknown arguments; the text they return, a term over the arguments,
    is folded over every column a sheet can have (and, for the labelling of columns beyond, every column of up to three letters), boundary rows,
    all combinations of relative flags, base cells and reference styles, and compared with the documented notation."""
    c.rule('column', 'column numbers map one to one to A..Z, AA..')
    c.rule('cell', 'the name of a cell denotes that cell')
    c.rule('range', 'the name of a range denotes its first and last cell')
    c.rule('sheets', 'the name of a box of sheets names the first and last sheet, quoted where necessary')

    def columns():
        v = value_of(c, FORM + 'colname', ['colx'])
        settle(c, 'column', 'formula.colname', lambda e: E.ev(v, e), [(env(colx=i), colname(i)) for i in range(256)], where_fn(c, 'colname'))
    c.guard('column', columns)

    def columns_b():
        w = value_of(c, 'xlrd.book.colname', ['colx'], unroll=4)
        settle(c, 'column', 'book.colname', lambda e: E.ev(w, e), [(env(colx=i), colname(i)) for i in range(26 + 26 ** 2 + 26 ** 3)], 'xlrd/book.py colname')
    c.guard('column', columns_b)

    def cells():
        v = value_of(c, FORM + 'cellname', ['rowx', 'colx'])
        cs = [(r, k) for r in ROWS for k in COLS]
        settle(c, 'cell', 'cellname', lambda e: E.ev(v, e), [(env(rowx=r, colx=k), '%s%d' % (colname(k), r + 1)) for r, k in cs], where_fn(c, 'cellname'))
        for m in (0, 1):
            w = value_of(c, FORM + 'cellnameabs', ['rowx', 'colx', const(m)])
            settle(c, 'cell', 'cellnameabs r1c1=%d' % m, lambda e: E.ev(w, e), [(env(rowx=r, colx=k), absolute(r, k, m)) for r, k in cs], where_fn(c, 'cellnameabs'))
        w2 = value_of(c, FORM + 'cellnameabs', ['rowx', 'colx'])
        settle(c, 'cell', 'cellnameabs', lambda e: E.ev(w2, e), [(env(rowx=r, colx=k), absolute(r, k)) for r, k in cs], where_fn(c, 'cellnameabs'))
    c.guard('cell', cells)

    bases = ((None, None), (0, 0), (10, 5), (65535, 255))
    rel = [(r, k) for r in (-65535, -32768, -11, -10, -1, 0, 1, 32767, 65535) for k in (-255, -128, -5, -1, 0, 1, 127, 255)]

    def valid(r, k, rr, cr):
        return (rr or r >= 0) and (cr or k >= 0)

    def rels():
        for base in bases:
            ba = [const(None) if b is None else ('sym', n) for b, n in zip(base, ('browx', 'bcolx'))]
            bv = dict((n, b) for n, b in zip(('browx', 'bcolx'), base) if b is not None)
            for m in (0, 1):
                v = value_of(c, FORM + 'cellnamerel', ['rowx', 'colx', 'rrel', 'crel', ba[0], ba[1], const(m)])
                cs = [(env(rowx=r, colx=k, rrel=rr, crel=cr, **bv), relative(r, k, rr, cr, base, m))
                      for r, k in rel for rr in (0, 1) for cr in (0, 1) if valid(r, k, rr, cr)]
                settle(c, 'cell', 'cellnamerel base %s r1c1=%d' % (base, m), lambda e: E.ev(v, e), cs, where_fn(c, 'cellnamerel'))
                w = value_of(c, FORM + 'rownamerel', ['rowx', 'rrel', ba[0], const(m)])
                settle(c, 'cell', 'rownamerel base %s r1c1=%d' % (base, m), lambda e: E.ev(w, e),
                       [(env(rowx=r, rrel=rr, **bv), rowtext(r, rr, base[0], m or base[0] is None)) for r, k in rel[::8] for rr in (0, 1) if rr or r >= 0], where_fn(c, 'rownamerel'))
                x = value_of(c, FORM + 'colnamerel', ['colx', 'crel', ba[1], const(m)])
                settle(c, 'cell', 'colnamerel base %s r1c1=%d' % (base, m), lambda e: E.ev(x, e),
                       [(env(colx=k, crel=cr, **bv), coltext(k, cr, base[1], m or base[1] is None)) for k in (-255, -128, -5, -1, 0, 1, 127, 255) for cr in (0, 1) if cr or k >= 0],
                       where_fn(c, 'colnamerel'))
    c.guard('cell', rels)

    boxes = [(r, r + dr, k, k + dk) for r in (0, 5, 255, 65530) for dr in (1, 2, 6) for k in (0, 7, 25, 250) for dk in (1, 2, 6)]
    four = ['rlo', 'rhi', 'clo', 'chi']

    def two(b):
        a, z = absolute(b[0], b[2]), absolute(b[1] - 1, b[3] - 1)
        return a if b[1] == b[0] + 1 and b[3] == b[2] + 1 else a + ':' + z

    def ranges():
        v = value_of(c, FORM + 'rangename2d', four)
        settle(c, 'range', 'rangename2d', lambda e: E.ev(v, e), [(env(**dict(zip(four, b))), two(b)) for b in boxes], where_fn(c, 'rangename2d'))
    c.guard('range', ranges)

    flags = [(a, b, d, e) for a in (0, 1) for b in (0, 1) for d in (0, 1) for e in (0, 1)]

    def tworel(b, f, base, m):
        if (f[0] or f[1]) and base[0] is None or (f[2] or f[3]) and base[1] is None:
            m = True
        return relative(b[0], b[2], f[0], f[2], base, m) + ':' + relative(b[1] - 1, b[3] - 1, f[1], f[3], base, m)
    nf = ('f0', 'f1', 'f2', 'f3')
    rboxes = [b for b in boxes if b[0] in (0, 5)] + [(-12, -2, 3, 9), (-12, 4, -3, 9), (4, 9, -3, 9), (-3, 0, -2, 0)]

    def ok(b, f):
        return all(fl or v >= 0 for v, fl in zip((b[0], b[1] - 1, b[2], b[3] - 1), f))

    def relranges():
        for base in bases:
            ba = [const(None) if b is None else ('sym', n) for b, n in zip(base, ('browx', 'bcolx'))]
            bv = dict((n, b) for n, b in zip(('browx', 'bcolx'), base) if b is not None)
            for m in (0, 1):
                tup = ('tuple', tuple(('sym', x) for x in four))
                ftup = ('tuple', tuple(('sym', x) for x in nf))
                v = value_of(c, FORM + 'rangename2drel', [tup, ftup, ba[0], ba[1], const(m)])
                cs = [(env(**dict(zip(four, b), **dict(zip(nf, f), **bv))), tworel(b, f, base, m)) for b in rboxes for f in flags if ok(b, f)]
                settle(c, 'range', 'rangename2drel base %s r1c1=%d' % (base, m), lambda e: E.ev(v, e), cs, where_fn(c, 'rangename2drel'))
    c.guard('range', relranges)

    pairs = [(a, b) for a in range(5) for b in range(a + 1, 6)]

    def shranges():
        v = value_of(c, FORM + 'sheetrange', ['book', 'slo', 'shi'])
        settle(c, 'sheets', 'sheetrange', lambda e: E.ev(v, e), [(env(slo=a, shi=b), sheets(a, b)) for a, b in pairs], where_fn(c, 'sheetrange'))
        six = ['slo', 'shi'] + four

        def ref(rel):
            def mk(s):
                at = {'coords': ('tuple', tuple(('sym', x) for x in six))}
                if rel:
                    at['relflags'] = ('tuple', (const(0), const(0)) + tuple(('sym', x) for x in nf))
                return s.it.new_opaque(s.st, FORM + 'Ref3D', 'ref3d', **at)
            return mk
        w = value_of(c, FORM + 'rangename3d', ['book', ref(0)])
        cs = [(env(**dict(zip(six, p + b))), sheets(*p) + '!' + two(b)) for p in pairs for b in boxes[::7]]
        settle(c, 'sheets', 'rangename3d', lambda e: E.ev(w, e), cs, where_fn(c, 'rangename3d'))
        for base in bases[:3]:
            ba = [const(None) if b is None else ('sym', n) for b, n in zip(base, ('browx', 'bcolx'))]
            bv = dict((n, b) for n, b in zip(('browx', 'bcolx'), base) if b is not None)
            for m in (0, 1):
                x = value_of(c, FORM + 'rangename3drel', ['book', ref(1), ba[0], ba[1], const(m)])
                cs = [(env(**dict(zip(six, p + b), **dict(zip(nf, f), **bv))), sheets(*p) + '!' + tworel(b, f, base, m))
                      for p in pairs[::3] for b in rboxes[::5] for f in flags if ok(b, f)]
                settle(c, 'sheets', 'rangename3drel base %s r1c1=%d' % (base, m), lambda e: E.ev(x, e), cs, where_fn(c, 'rangename3drel'))

        def refcur(s):
            return s.it.new_opaque(s.st, FORM + 'Ref3D', 'ref3d', coords=('tuple', (const(0), const(1)) + tuple(('sym', x) for x in four)),
                                   relflags=('tuple', (const(1), const(1)) + tuple(('sym', x) for x in nf)))
        y = value_of(c, FORM + 'rangename3drel', ['book', refcur, const(None), const(None), const(1)])
        cs = [(env(**dict(zip(four, b), **dict(zip(nf, f)))), tworel(b, f, (None, None), 1)) for b in rboxes[::5] for f in flags if ok(b, f)]
        settle(c, 'sheets', 'rangename3drel on the current sheet', lambda e: E.ev(y, e), cs, where_fn(c, 'rangename3drel'))
    c.guard('sheets', shranges)


# ---------------------------------------------------------------- C85
BIN = {'+': (3, 30), '-': (4, 30), '*': (5, 40), '/': (6, 40), '^': (7, 50), '&': (8, 20), '<': (9, 10), '<=': (10, 10), '=': (11, 10),
       '>=': (12, 10), '>': (13, 10), '<>': (14, 10), ' ': (15, 80), ',': (16, 75), ':': (17, 85)}
PRE = {'+': (0x12, 70), '-': (0x13, 70)}
FUNCS = {'PI': (19, 0), 'SIN': (15, 1), 'ROUND': (27, 2), 'MID': (31, 3)}      # fixed argument counts
ERRORS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0f: '#VALUE!', 0x17: '#REF!', 0x1d: '#NAME?', 0x24: '#NUM!', 0x2a: '#N/A'}
VARS = {'ROW': (8, (0, 1)), 'COLUMN': (9, (0, 1)), 'IF': (1, (2, 3)), 'SUM': (4, (1, 2, 3)), 'CHOOSE': (100, (2, 3, 4))}


class BadText(Exception):
    pass


class Parse(object):
    """the grammar of a formula: comparison < & < + - < * / < ^ < % < unary < union < intersection < range"""

    def __init__(self, text):
        self.s = text
        self.i = 0

    def peek(self, t):
        return self.s.startswith(t, self.i)

    def whole(self):
        t = self.expr(0, True)
        if self.i != len(self.s):
            raise BadText
        return t

    def expr(self, floor, union):
        for op in PRE:
            if self.peek(op):
                self.i += 1
                left = ('pre', op, self.expr(PRE[op][1], union))
                break
        else:
            left = self.leaf()
        while 1:
            if self.peek('%') and 60 >= floor:
                self.i += 1
                left = ('%', left)
                continue
            for op in sorted(BIN, key=len, reverse=True):
                if self.peek(op) and (union or op != ','):
                    break
            else:
                return left
            rank = BIN[op][1]
            if rank < floor:
                return left
            self.i += len(op)
            left = ('bin', op, left, self.expr(rank + 1, union))

    def leaf(self):
        s = self.s
        if self.peek('('):
            self.i += 1
            t = self.expr(0, True)
            if not self.peek(')'):
                raise BadText
            self.i += 1
            return t
        if self.peek('"'):
            j = self.i + 1
            out = ''
            while 1:
                k = s.find('"', j)
                if k < 0:
                    raise BadText
                out += s[j:k]
                if s[k + 1:k + 2] != '"':
                    break
                out += '"'
                j = k + 2
            self.i = k + 1
            return ('str', out)
        import re
        m = re.compile(r"(?:(?:'(?:[^']|'')*'|\w+)(?::(?:'(?:[^']|'')*'|\w+))?!)?\$?[A-Z]{1,2}\$?[0-9]+").match(s, self.i)
        if m:
            self.i = m.end()
            return ('ref', m.group())
        m = re.compile(r'[0-9]+(\.[0-9]*)?(e[+-][0-9]+)?').match(s, self.i)
        if m:
            self.i = m.end()
            return ('num', float(m.group()))
        m = re.compile(r'([A-Z][A-Z0-9.]*)\(').match(s, self.i)
        if m:
            self.i = m.end()
            args = []
            if self.peek(')'):
                self.i += 1
                return ('func', m.group(1))
            while 1:
                args.append(('missing',) if self.peek(',') or self.peek(')') else self.expr(0, False))
                if self.peek(')'):
                    self.i += 1
                    return ('func', m.group(1)) + tuple(args)
                if not self.peek(','):
                    raise BadText
                self.i += 1
        for x in ERRORS.values():
            if self.peek(x):
                self.i += len(x)
                return ('err', x)
        m = re.compile(r'TRUE|FALSE').match(s, self.i)
        if m:
            self.i = m.end()
            return ('bool', m.group())
        raise BadText


class Formula(object):
    """a formula as tree, with the token string it is stored as; operand bytes are slices of an unknown string"""

    def __init__(self, bv):
        self.bv = bv
        self.parts = []      # bytes or (offset, size)
        self.size = 0
        self.data = 0        # bytes of the unknown string in use
        self.leaves = []     # (offset, kind)

    def raw(self, b):
        self.size += len(b)
        if self.parts and isinstance(self.parts[-1], bytes):
            self.parts[-1] += b
        else:
            self.parts.append(b)

    def unknown(self, n, kind):
        self.parts.append((self.data, n))
        self.leaves.append((self.data, kind))
        self.data += n
        self.size += n

    def emit(self, t):
        k = t[0]
        bv = self.bv
        if k == 'int':
            self.raw(b'\x1e')
            self.unknown(2, 'int')
        elif k == 'numb':
            self.raw(b'\x1f')
            self.unknown(8, 'num')
        elif k == 'boolb':
            self.raw(b'\x1d')
            self.unknown(1, 'bool')
        elif k == 'str':
            raw = t[1].encode('latin-1')
            self.raw(b'\x17' + bytes([len(raw)]) + (b'\0' if bv >= 80 else b'') + raw)
        elif k == 'ref':
            self.raw(b'\x5a' + struct.pack('<H', 0) if bv >= 80 else b'\x5a' + struct.pack('<h8xhh', -1, 0, 0))
            self.unknown(1, 'row')
            self.raw(b'\0')
            self.raw(b'\x03\0' if bv >= 80 else b'\x03')
        elif k == 'err':
            self.raw(b'\x1c')
            self.unknown(1, 'err')
        elif k == 'missing':
            self.raw(b'\x16')
        elif k == 'bin':
            self.emit(t[2])
            self.emit(t[3])
            self.raw(bytes([BIN[t[1]][0]]))
        elif k == 'pre':
            self.emit(t[2])
            self.raw(bytes([PRE[t[1]][0]]))
        elif k == '%':
            self.emit(t[1])
            self.raw(b'\x14')
        elif k == 'paren':
            self.emit(t[1])
            self.raw(b'\x15')
        elif k == 'attrsum':
            self.emit(t[1])
            self.raw(b'\x19\x10\0\0')
        elif k == 'func':
            for x in t[2:]:
                self.emit(x)
            if t[1] in FUNCS:
                self.raw(b'\x41' + struct.pack('<H' if bv >= 40 else '<B', FUNCS[t[1]][0]))
            else:
                self.raw(b'\x42' + bytes([len(t) - 2]) + struct.pack('<H' if bv >= 40 else '<B', VARS[t[1]][0]))
        else:
            raise ValueError(k)

    def term(self):
        out = [const(p) if isinstance(p, bytes) else mk_slice(('sym', 'data'), const(p[0]), const(p[0] + p[1])) for p in self.parts]
        return out[0] if len(out) == 1 else ('app', 'cat') + tuple(out)


def wanted(t, vals):
    """the tree the text has to parse to; vals: iterator over the unknown operand values"""
    k = t[0]
    if k == 'int':
        return ('num', float(next(vals)))
    if k == 'numb':
        return ('num', next(vals))
    if k == 'boolb':
        return ('bool', 'TRUE' if next(vals) else 'FALSE')
    if k == 'ref':
        return ('ref', 'One!$D$%d' % (next(vals) + 1))
    if k == 'err':
        return ('err', ERRORS[next(vals)])
    if k in ('str', 'missing'):
        return t
    if k == 'paren':
        return wanted(t[1], vals)
    if k == 'attrsum':
        return ('func', 'SUM', wanted(t[1], vals))
    if k == 'func':
        return t[:2] + tuple(wanted(x, vals) for x in t[2:])
    if k == 'bin':
        a = wanted(t[2], vals)
        return ('bin', t[1], a, wanted(t[3], vals))
    return t[:-1] + (wanted(t[-1], vals),)


INT = ('int',)
REF = ('ref',)
ERR = ('err',)


def trees():
    """(label, tree)"""
    out = []
    value_ops = [o for o in BIN if BIN[o][1] < 75]
    for o in value_ops:
        out.append(('%s' % o, ('bin', o, INT, INT)))
    reps = ('<', '&', '+', '-', '*', '/', '^')
    for o in reps:
        for q in reps:
            out.append(('(a%sb)%sc' % (o, q), ('bin', q, ('bin', o, INT, INT), INT)))
            out.append(('(a%sb)%sc kept' % (o, q), ('bin', q, ('paren', ('bin', o, INT, INT)), INT)))
            if BIN[o][1] != BIN[q][1]:
                out.append(('a%s(b%sc)' % (q, o), ('bin', q, INT, ('bin', o, INT, INT))))
            out.append(('a%s(b%sc) kept' % (q, o), ('bin', q, INT, ('paren', ('bin', o, INT, INT)))))
        for u in PRE:
            out.append(('%s(a%sb)' % (u, o), ('pre', u, ('bin', o, INT, INT))))
            out.append(('%sa%sb' % (u, o), ('bin', o, ('pre', u, INT), INT)))
            out.append(('a%s%sb' % (o, u), ('bin', o, INT, ('pre', u, INT))))
        out.append(('(a%sb)%%' % o, ('%', ('bin', o, INT, INT))))
        out.append(('a%%%sb' % o, ('bin', o, ('%', INT), INT)))
        out.append(('a%sb%%' % o, ('bin', o, INT, ('%', INT))))
    for u in PRE:
        out.append(('%sa' % u, ('pre', u, INT)))
        out.append(('%s%sa' % (u, u), ('pre', u, ('pre', u, INT))))
        out.append(('%s(a%%)' % u, ('pre', u, ('%', INT))))
        out.append(('(%sa)%%' % u, ('%', ('pre', u, INT))))
    out.append(('a%', ('%', INT)))
    out.append(('a%%', ('%', ('%', INT))))
    out.append(('(a)', ('paren', INT)))
    for st in ('', 'a', 'q"q', '"', '""', 'a,b', '(', "it's"):
        out.append(('string %s' % st, ('str', st)))
        out.append(('string %s &' % st, ('bin', '&', ('str', st), INT)))
    out.append(('number', ('numb',)))
    out.append(('boolean', ('boolb',)))
    out.append(('error', ERR))
    out.append(('error in sum', ('bin', '+', ERR, INT)))
    out.append(('a=TRUE', ('bin', '=', INT, ('boolb',))))
    return out


def call_trees():
    out = []
    for f, (_, n) in sorted(FUNCS.items()):
        out.append((f, ('func', f) + (INT,) * n))
        out.append((f + ' in sum', ('bin', '+', ('func', f) + (INT,) * n, INT)))
        if n > 1:
            out.append((f + ' nested', ('func', f) + (('func', 'SIN', INT),) + (INT,) * (n - 2) + (('bin', '-', INT, INT),)))
            out.append((f + ' beside', ('bin', '*', INT, ('func', f) + (('bin', '+', INT, INT),) + (INT,) * (n - 1))))
    for f, (_, ns) in sorted(VARS.items()):
        for n in ns:
            out.append(('%s/%d' % (f, n), ('func', f) + (INT,) * n))
            if n > 1:
                out.append(('%s/%d missing' % (f, n), ('func', f, INT, ('missing',)) + (INT,) * (n - 2)))
                out.append(('%s/%d string' % (f, n), ('func', f, INT) + (('str', 'x,"y'),) * (n - 1)))
            out.append(('%s/%d in sum' % (f, n), ('bin', '-', INT, ('func', f) + (INT,) * n)))
    out.append(('attribute SUM', ('attrsum', INT)))
    out.append(('attribute SUM last', ('bin', '-', INT, ('attrsum', INT))))
    out.append(('attribute SUM in IF', ('func', 'IF', INT, ('attrsum', INT), ('attrsum', ('bin', '*', INT, INT)))))
    out.append(('attribute SUM in sum', ('bin', '+', ('attrsum', ('bin', '-', INT, INT)), INT)))
    return out


def ref_trees():
    out = []
    for o in (' ', ',', ':'):
        out.append(('refs a%sb' % o, ('paren', ('bin', o, REF, REF)) if o == ',' else ('bin', o, REF, REF)))
        out.append(('refs SUM(a%sb)' % o, ('func', 'SUM', ('paren', ('bin', o, REF, REF)), REF)))
        out.append(('refs attribute SUM(a%sb)' % o, ('attrsum', ('paren', ('bin', o, REF, REF)))))
        out.append(('refs (a%sb)*c' % o, ('bin', '*', ('paren', ('bin', o, REF, REF)), INT)))
        out.append(('refs -(a%sb)' % o, ('pre', '-', ('paren', ('bin', o, REF, REF)))))
        out.append(('refs err%sa' % o, ('func', 'SUM', ('paren', ('bin', o, ERR, REF)))))
        out.append(('refs a%serr' % o, ('func', 'SUM', ('paren', ('bin', o, REF, ERR)))))
    out.append(('refs SUM(a,b)', ('func', 'SUM', REF, REF)))
    return out


def formula_text(c, bv, how, label, tree):
    f = Formula(bv)
    f.emit(tree)
    s = Setup(c.prog, bv, maxsize=30000)
    s.it.set_attr_raw(s.st, s.book, '_sheet_names', s.it.new_list(s.st, [const(x) for x in NAMES]))

    if bv < 80:
        s.it.set_attr_raw(s.st, s.book, 'encoding', const('latin_1'))

    def local(it, st, fn, a, kw, node):
        return ('tuple', (const(0), const(0)))
    for h in ('get_externsheet_local_range', 'get_externsheet_local_range_b57'):
        s.it.hooks[FORM + h] = local
    lab = '%s biff%d: %s' % (how, bv, label)
    if how == 'name':
        nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=f.term(), basic_formula_len=const(f.size))
        s.run(FORM + 'evaluate_name_formula', [s.book, nobj, const(0)])
        res = attr_of(s, s.st, nobj, 'result')
        where = where_fn(c, 'evaluate_name_formula')
    else:
        s.run(FORM + 'decompile_formula', [s.book, f.term(), const(f.size)],
              {'fmlatype': const(32 if how == 'name text' else 1), 'browx': const(10), 'bcolx': const(7)})
        res = s.value
        where = where_fn(c, 'decompile_formula')
    # an exception that ends the walk whatever the operands are
    ends = s.it.events[-1] if s.it.events else None
    fails = ends is not None and ends.kind == 'raise' and not ends.guards and (how == 'name' and attr_of(s, s.st, nobj, 'result') is None or s.value in (None, TOP))

    def got(e):
        if fails:
            raise E.Raised
        if how == 'name':
            if res is None:
                raise E.Undef('no result')
            ob = pick(res, e)
            if ob[0] != 'ref':
                raise E.Undef('no single result')
            v = last_store(s, ob, 'text', e)
            if v is None:
                raise E.Undef('no text')
        else:
            v = res
        x = E.ev(v, e)
        if not isinstance(x, str):
            raise E.Undef('no text')
        try:
            return Parse(x).whole(), x
        except BadText:
            return None, x

    cases = []
    import random
    rnd = random.Random(5)
    for i in range(6):
        b = bytearray(f.data)
        vals = []
        for n, (off, kind) in enumerate(f.leaves):
            if kind == 'num':
                v = (0.5, 2.0, 1e22, 1.5e-7, 123456.0, 0.0)[(i + n) % 6]
                b[off:off + 8] = struct.pack('<d', v)
            elif kind == 'bool':
                v = (i + n) & 1
                b[off] = v
            elif kind == 'err':
                v = b[off] = sorted(ERRORS)[(i + n) % len(ERRORS)]
            elif kind == 'row':
                v = b[off] = (i * 11 + n * 50 + 1) & 255
            else:
                v = (1, 0)[i] if i < 2 and n == 0 else rnd.randrange(1, 65536)
                b[off:off + 2] = struct.pack('<H', v)
            vals.append(v)
        w = wanted(tree, iter(vals))
        cases.append((E.Env({'data': bytes(b)}), w))
    n = und = 0
    why = ''
    for e, w in cases:
        try:
            g, t = got(e)
        except E.Undef as x:
            und += 1
            why = str(x)
            continue
        except E.Raised:
            g, t = None, 'an exception'
        n += 1
        if g != w:
            c.bad('text', where, '%s: text %r does not denote the formula %s' % (lab, t, show(w)), 'text|%s|%s' % (how, label))
            return
    if und:
        c.open('text', '%s: %d decided, %d not %s' % (lab, n, und, why[:80]))
    else:
        c.ok('text', sample=lab)


def show(t):
    k = t[0]
    if k == 'bin':
        return '(%s %s %s)' % (show(t[2]), t[1], show(t[3]))
    if k == 'pre':
        return '(%s %s)' % (t[1], show(t[2]))
    if k == '%':
        return '(%s %%)' % show(t[1])
    if k == 'func':
        return '%s[%s]' % (t[1], '; '.join(show(x) for x in t[2:]))
    return str(t[-1]) if len(t) > 1 else ''


def C85(c):
    """The two formula walkers (evaluation of defined names, text of cell formulas) are interpreted on token strings for every
    operator, every pair of operator classes in both groupings, with and without parenthesis tokens, string constants and function
    calls, the operand bytes unknown; the text term is folded, parsed by the grammar of formulas and compared with the formula."""
    c.rule('text', 'the text of a formula, read by the grammar of formulas, denotes the operands, operators, arguments and grouping of its tokens')
    for bv in (80, 50, 40, 30, 20):
        for how in ('name', 'cell'):
            ts = trees() if bv in (80, 50) else trees()[:16]
            ts = ts + [x for x in call_trees() if bv >= 30 or 'attribute' not in x[0]]
            if bv >= 50:
                ts = ts + ref_trees()
            for label, tree in ts:
                c.guard('text', formula_text, c, bv, how, label, tree)
