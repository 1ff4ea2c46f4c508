"""C37 cell addresses inside formulas; C38 token and function tables."""
import itertools
import struct
from .common import *
from .decode_cells import word
from .decode_globals import genv, clip

FORM = 'xlrd.formula.'


# ---------------------------------------------------------------- published layout
def spec_addr(row, col, bv, delta, base):
    """(row, column, row relative, column relative) of one packed address"""
    if bv >= 80:
        rr, cr = col >> 15 & 1, col >> 14 & 1
        r, c = row, col & 0xff
        rspan = 65536
    else:
        rr, cr = row >> 15 & 1, row >> 14 & 1
        r, c = row & 0x3fff, col
        rspan = 16384
    if delta:
        if rr and r >= rspan // 2:
            r -= rspan
        if cr and c >= 128:
            c -= 256
    else:
        if rr:
            r -= base[0]
        if cr:
            c -= base[1]
    return r, c, rr, cr


def pack_addr(row, col, rr, cr, bv):
    """-> (row field, column field)"""
    if bv >= 80:
        return row & 0xffff, (col & 0xff) | rr << 15 | cr << 14
    return (row & 0x3fff) | rr << 15 | cr << 14, col & 0xff


ROWS8 = (0, 1, 2, 0x100, 0x1fff, 0x2000, 0x3fff, 0x4000, 0x7ffe, 0x7fff, 0x8000, 0x8001, 0xfffe, 0xffff)
ROWS5 = (0, 1, 2, 0x100, 0xfff, 0x1000, 0x1ffe, 0x1fff, 0x2000, 0x2001, 0x3ffe, 0x3fff)
COLS = (0, 1, 2, 0x3f, 0x40, 0x7e, 0x7f, 0x80, 0x81, 0xfe, 0xff)


def addr_samples(bv):
    rows = ROWS8 if bv >= 80 else ROWS5
    out = []
    for rr, cr in itertools.product((0, 1), (0, 1)):
        for i, r in enumerate(rows):
            out.append((r, COLS[(i * 3 + rr) % len(COLS)], rr, cr))
        for i, c in enumerate(COLS):
            out.append((rows[(i * 5 + cr) % len(rows)], c, rr, cr))
    return out


def pack_ref(a, bv):
    r, c = pack_addr(*a, bv)
    return struct.pack('<HH' if bv >= 80 else '<HB', r, c)


def pack_area(a, b, bv):
    r1, c1 = pack_addr(*a, bv)
    r2, c2 = pack_addr(*b, bv)
    return struct.pack('<HHHH' if bv >= 80 else '<HHBB', r1, r2, c1, c2)


def area_samples(bv):
    s = addr_samples(bv)
    n = len(s)
    return [(s[i], s[(i * 7 + 11) % n]) for i in range(n)] + [(s[(i * 5 + 3) % n], s[i]) for i in range(n)]


def spec_of(a, bv, delta, base):
    r, c = pack_addr(*a, bv)
    return spec_addr(r, c, bv, delta, base)


BASE = (10, 7)


def settle(c, rule, label, got, cases, where):
    """got: callable(env) -> value; cases: [(env, specified value)]"""
    n = und = 0
    why = ''
    for e, want in cases:
        try:
            g = got(e)
        except E.Undef as x:
            und += 1
            why = str(x)
            continue
        except E.Raised:
            g = 'an exception'
        n += 1
        if g != want:
            d = e.syms.get('data')
            c.bad(rule, where, '%s: yields %r, specified %r for formula bytes %s' % (
                label, clip(g), clip(want), d.hex() if isinstance(d, bytes) else '?'), '%s|%s' % (rule, label))
            return False
    if n and not und:
        c.ok(rule, sample=label)
        c.count('samples_folded', n)
        return True
    c.open(rule, '%s: %d decided, %d not %s' % (label, n, und, why[:80]))
    return None


# ---------------------------------------------------------------- C37
def C37(c):
    """The address decoders and the two formula walkers are interpreted on one-token formulas whose operand bytes are
    unknown, for every file version that has formulas and every token class; the addresses they hand on are extracted as
    terms over the operand bytes and folded on boundary rows, columns and all flag combinations."""
    c.rule('address', 'row, column and relative flags are the published bit fields; relative parts are signed offsets, or are taken relative to the base cell')
    c.rule('area', 'an area reference carries both corners in row, row, column, column order')
    c.rule('operand', 'a reference token of a defined name yields the half-open box and the relative flags its bytes denote')
    c.rule('text', 'the text of a reference token names the cells its bytes denote, relative to the base cell')
    c.rule('expand', 'the address splitter used outside formulas follows the version 8 layout with signed offsets')
    for bv in (20, 30, 40, 50, 70, 80):
        for delta in (0, 1):
            c.guard('address', cell_addr, c, bv, delta)
            c.guard('area', range_addr, c, bv, delta)
    c.guard('expand', expand, c)
    for bv in (50, 70, 80):
        for tok in ('ref', 'area', 'ref3d', 'area3d'):
            for optype in (1, 2, 3):
                c.guard('operand', operand, c, bv, tok, optype)
        for tok in ('ref', 'area', 'refn', 'arean', 'ref3d', 'area3d'):
            for ftype in ('CELL', 'SHARED', 'NAME'):
                for r1c1 in (0, 1):
                    c.guard('text', text, c, bv, tok, ftype, r1c1)


def where_fn(c, q):
    f = c.prog.func(FORM + q)
    try:
        return 'xlrd/formula.py:%d %s' % (f[1].node.lineno, q)
    except Exception:
        return 'xlrd/formula.py %s' % q


def cell_addr(c, bv, delta):
    for pos in (1, 3):
        s = Setup(c.prog, bv)
        s.run(FORM + 'get_cell_addr', [DATA, const(pos), const(bv), const(delta), ('sym', 'brow'), ('sym', 'bcol')])
        v = s.value
        cases = []
        for a in addr_samples(bv):
            for base in (BASE, (0, 0), (300, 200)):
                e = genv(b'\xee' * pos + pack_ref(a, bv) + b'\xdd' * 4, syms={'brow': base[0], 'bcol': base[1]})
                cases.append((e, spec_of(a, bv, delta, base)))
        settle(c, 'address', 'get_cell_addr biff%d %s at %d' % (bv, 'offset' if delta else 'base', pos),
               lambda e: tuple(E.ev(x, e) for x in seq(s, v)), cases, where_fn(c, 'get_cell_addr'))


def seq(s, v):
    if v[0] == 'tuple':
        return v[1]
    if v[0] == 'ref':
        h = s.obj(v)
        if h is not None and h.items is not None:
            return h.items
    raise E.Undef


def deep(s, v, e):
    """value of a term that may be built of tuples and lists"""
    if v[0] == 'app' and v[1] == 'ite':
        return deep(s, v[3] if E.truth(v[2], e) else v[4], e)
    try:
        items = seq(s, v)
    except E.Undef:
        return E.ev(v, e)
    return tuple(deep(s, x, e) for x in items)


def range_addr(c, bv, delta):
    s = Setup(c.prog, bv)
    s.run(FORM + 'get_cell_range_addr', [DATA, const(1), const(bv), const(delta), ('sym', 'brow'), ('sym', 'bcol')])
    v = s.value
    cases = []
    for a, b in area_samples(bv):
        for base in (BASE, (300, 200)):
            e = genv(b'\xee' + pack_area(a, b, bv) + b'\xdd' * 4, syms={'brow': base[0], 'bcol': base[1]})
            cases.append((e, (spec_of(a, bv, delta, base), spec_of(b, bv, delta, base))))
    settle(c, 'area', 'get_cell_range_addr biff%d %s' % (bv, 'offset' if delta else 'base'),
           lambda e: deep(s, v, e), cases, where_fn(c, 'get_cell_range_addr'))


def expand(c):
    if c.prog.func('xlrd.book.expand_cell_address') is None:
        return
    s = Setup(c.prog, 80)
    s.run('xlrd.book.expand_cell_address', [('sym', 'inrow'), ('sym', 'incol')])
    v = s.value
    cases = []
    for a in addr_samples(80):
        r, cc = pack_addr(*a, 80)
        cases.append((genv(b'', syms={'inrow': r, 'incol': cc}), spec_addr(r, cc, 80, 1, None)))
    settle(c, 'expand', 'expand_cell_address', lambda e: deep(s, v, e), cases, 'xlrd/book.py expand_cell_address')


TOK = {'ref': 0x04, 'area': 0x05, 'refn': 0x0c, 'arean': 0x0d, 'ref3d': 0x1a, 'area3d': 0x1b}


def token_bytes(tok, bv, body):
    """operand bytes after the token byte -> (prefix kind, bytes)"""
    if tok.endswith('3d'):
        if bv >= 80:
            return struct.pack('<H', 5) + body
        return struct.pack('<h8xhh', -2, 1, 3) + body
    return body


def token_size(tok, bv):
    body = {'ref': (4, 3), 'area': (8, 6)}['area' if tok.startswith('area') else 'ref'][0 if bv >= 80 else 1]
    pre = (2 if bv >= 80 else 14) if tok.endswith('3d') else 0
    return 1 + pre + body


def walker(c, bv, tok, optype, qual, args):
    size = token_size(tok, bv)
    op = TOK[tok] | optype << 5
    s = Setup(c.prog, bv, maxsize=6000)
    formula = ('app', 'cat', const(bytes([op])), sl(0, size - 1))

    def local(it, st, fn, a, kw, node):
        it.emit('sheetrange', tuple(a[1:]), st, node)
        return ('tuple', (('sym', 'sh1'), ('sym', 'sh2')))
    for f in ('get_externsheet_local_range', 'get_externsheet_local_range_b57'):
        s.it.hooks[FORM + f] = local
    s.it.symkinds.update({'sh1': 'int', 'sh2': 'int'})
    return s, formula, size


def operand(c, bv, tok, optype):
    s, formula, size = walker(c, bv, tok, optype, None, None)
    nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=formula, basic_formula_len=const(size))
    s.run(FORM + 'evaluate_name_formula', [s.book, nobj, const(0)])
    res = attr_of(s, s.st, nobj, 'result')
    label = 'name t%s class %d biff%d' % (tok, optype, bv)
    where = where_fn(c, 'evaluate_name_formula')
    # the box, as seen on the one reference object of the result (there may be one per branch)
    stores = {}
    for e in s.it.events:
        if e.kind == 'setattr' and e.data[1] in ('coords', 'relflags'):
            stores.setdefault(e.data[0], {}).setdefault(e.data[1], []).append(e)

    def got(e):
        out = None
        if res is None or res[0] != 'ref':
            raise E.Undef('no single result')
        v = last_store(s, res, 'value', e)
        if v is None or (v[0] == 'c' and v[2] is None):
            return None
        refs = seq(s, v)
        if len(refs) != 1:
            raise E.Undef
        ref = pick(refs[0], e)
        if ref[0] != 'ref' or ref not in stores:
            raise E.Undef
        co = last_store(s, ref, 'coords', e)
        rf = last_store(s, ref, 'relflags', e)
        kind = last_store(s, res, 'kind', e)
        return deep(s, co, e), deep(s, rf, e), E.ev(kind, e)

    cases = []
    area = tok.startswith('area')
    d3 = tok.endswith('3d')
    for smp in (area_samples(bv) if area else addr_samples(bv)):
        a, b = smp if area else (smp, smp)
        body = pack_area(a, b, bv) if area else pack_ref(a, bv)
        data = token_bytes(tok, bv, body)
        p, q = spec_of(a, bv, 1, None), spec_of(b, bv, 1, None)
        for shs in ((0, 0), (1, 3), (-1, -1)):
            if not d3 and shs != (0, 0):
                continue
            e = genv(data, syms={'sh1': shs[0], 'sh2': shs[1]})
            sh = shs if d3 else (0, 0)
            coords = (sh[0], sh[1] + 1, p[0], q[0] + 1, p[1], q[1] + 1)
            srel = 0 if d3 else 1
            flags = (srel, srel, p[2], q[2], p[3], q[3])
            rel = any(flags)
            if optype == 1:
                cases.append((e, (coords, flags, -2 if rel else -1)))
            else:
                cases.append((e, None))
    settle(c, 'operand', label, got, cases, where)
    if d3:
        sheet_args(c, s, bv, label, where)


def sheet_args(c, s, bv, label, where):
    evs = [e for e in s.it.events if e.kind == 'sheetrange']
    if len(evs) != 1:
        c.open('operand', label + ' sheet fields: %d resolutions' % len(evs))
        return
    want = [u16(0)] if bv >= 80 else [s16(0), s16(10), s16(12)]
    ok = True
    for i, w in enumerate(want):
        if i >= len(evs[0].data):
            return
        r, info = differ(evs[0].data[i], w, envs(32))
        if r == 'differ':
            c.bad('operand', evs[0].where(), '%s: sheet field %d is %s, specified %s (%s)' % (
                label, i, brief(evs[0].data[i], 60), brief(w, 60), info), 'operand|%s sheet %d' % (label, i))
            ok = False
        elif r == 'open':
            c.open('operand', '%s sheet field %d' % (label, i))
            ok = False
    if ok:
        c.ok('operand')


def pick(t, e):
    while t[0] == 'app' and t[1] == 'ite':
        t = t[3] if E.truth(t[2], e) else t[4]
    return t


def last_store(s, ref, attr, e):
    """the value an attribute of one object ends with under a valuation (straight-line walker: guards, no loops)"""
    v = attr_of(s, s.st, ref, attr)
    if v is not None and not has_unknown(v):
        return pick(v, e)
    out = None
    for x in s.it.events:
        if x.kind == 'setattr' and x.data[0] == ref and x.data[1] == attr and guards_hold(x, e):
            out = x.data[2]
    return pick(out, e) if out is not None else None


# ------------------------------------------------------------ reference texts
def colname(n):
    s = ''
    n += 1
    while n:
        n, r = divmod(n - 1, 26)
        s = chr(65 + r) + s
    return s


def rowtext(r, rel, base, r1c1):
    if not rel:
        return 'R%d' % (r + 1) if r1c1 else '$%d' % (r + 1)
    if r1c1:
        return 'R[%d]' % r if r else 'R'
    return '%d' % ((base + r) % 65536 + 1)


def coltext(k, rel, base, r1c1):
    if not rel:
        return 'C%d' % (k + 1) if r1c1 else '$' + colname(k)
    if r1c1:
        return 'C[%d]' % k if k else 'C'
    return colname((base + k) % 256)


def celltext(p, base, r1c1):
    r, k = rowtext(p[0], p[2], base[0], r1c1), coltext(p[1], p[3], base[1], r1c1)
    return r + k if r1c1 else k + r


def text(c, bv, tok, ftype, r1c1):
    if tok in ('refn', 'arean') and ftype == 'CELL':
        return
    s, formula, size = walker(c, bv, tok, 1, None, None)
    ft = {'CELL': 1, 'SHARED': 2, 'NAME': 32}[ftype]
    delta = 0 if ftype == 'CELL' else 1
    names = ('One', 'Two Words', 'Three', 'It\'s', 'Five')
    s.st.heap[s.book[1]] = s.obj(s.book).copy(attrs=dict(
        s.obj(s.book).attrs, _sheet_names=s.it.new_list(s.st, [const(x) for x in names])))
    s.run(FORM + 'decompile_formula', [s.book, formula, const(size)],
          {'fmlatype': const(ft), 'browx': const(BASE[0]), 'bcolx': const(BASE[1]), 'r1c1': const(r1c1)})
    v = s.value
    area = tok.startswith('area')
    d3 = tok.endswith('3d')
    cases = []
    for smp in (area_samples(bv) if area else addr_samples(bv)):
        a, b = smp if area else (smp, smp)
        body = pack_area(a, b, bv) if area else pack_ref(a, bv)
        p, q = spec_of(a, bv, delta, BASE), spec_of(b, bv, delta, BASE)
        if d3:
            continue
        t = celltext(p, BASE, r1c1)
        if area:
            t += ':' + celltext(q, BASE, r1c1)
        cases.append((genv(token_bytes(tok, bv, body)), t))
    if cases:
        settle(c, 'text', 'text t%s %s biff%d r1c1=%d' % (tok, ftype, bv, r1c1), lambda e: E.ev(v, e), cases,
               where_fn(c, 'decompile_formula'))
        return
    # three-dimensional references: the address handed to the naming helpers, as the box of the reference object
    n = 0
    for smp in (area_samples(bv) if area else addr_samples(bv))[::3]:
        a, b = smp if area else (smp, smp)
        body = pack_area(a, b, bv) if area else pack_ref(a, bv)
        p, q = spec_of(a, bv, delta, BASE), spec_of(b, bv, delta, BASE)
        cases.append((genv(token_bytes(tok, bv, body), syms={'sh1': 1, 'sh2': 1}),
                      ((1, 2, p[0], q[0] + 1, p[1], q[1] + 1), (0, 0, p[2], q[2], p[3], q[3]))))

    def box(e):
        out = None
        for x in s.it.events:
            if x.kind == 'typeerror' and guards_hold(x, e):
                raise E.Raised
        for x in s.it.events:
            if x.kind == 'setattr' and x.data[1] == 'coords' and guards_hold(x, e):
                out = (deep(s, x.data[2], e), deep(s, last_store(s, x.data[0], 'relflags', e), e))
        if out is None:
            raised = [x for x in s.it.events if x.kind in ('raise', 'typeerror') and guards_hold(x, e)]
            if raised:
                raise E.Raised
            raise E.Undef('no reference object')
        return out
    settle(c, 'text', 'box of t%s %s biff%d' % (tok, ftype, bv), box, cases, where_fn(c, 'decompile_formula'))
