"""C12 numeric cells, C13 text cells, C14 formula results / booleans / errors / blanks.

The record loop of a sheet is interpreted abstractly with the opcode and the file version fixed and the record
bytes unknown; the resulting store events (row, column, type, value, format index, each a term over the record
bytes, with the condition under which it happens) are compared with the published record layout.
"""
import struct
from .common import *

TYPEMAP = {i: (3 if i % 7 == 0 else 2) for i in range(65536)}
SST = tuple('string-%d' % i for i in range(4096))
ENC = 'cp437'
T_EMPTY, T_TEXT, T_NUM, T_DATE, T_BOOL, T_ERR, T_BLANK = range(7)


class Rand(object):
    def __init__(self, seed):
        self.x = seed * 2654435761 % (1 << 32) or 1

    def n(self, m):
        self.x = (self.x * 1103515245 + 12345) & 0x7fffffff
        return (self.x >> 8) % m

    def bytes(self, n):
        return bytes(self.n(256) for _ in range(n))


def word(v):
    return struct.pack('<H', v)


def walking(n, fixed=None):
    """byte vectors of exactly n bytes (fixed: {offset: bytes} laid over them)"""
    out = []
    for v in E.vectors(n):
        b = bytearray(v)
        for o, x in (fixed or {}).items():
            b[o:o + len(x)] = x
        out.append(bytes(b[:n]))
    return out


def rk(b):
    f = b[0]
    if f & 2:
        v = struct.unpack('<i', b)[0] >> 2
        return v / 100.0 if f & 1 else float(v)
    d = struct.unpack('<d', bytes(4) + bytes([f & 0xFC]) + b[1:4])[0]
    return d / 100.0 if f & 1 else d


def cell_env(d, extra_syms=None, extra_inits=None):
    syms = {'data': d, 'data_len': len(d), 'enc': ENC, 'xfx': 5}
    syms.update(extra_syms or {})
    inits = {('sheet', '_xf_index_to_xl_type_map'): TYPEMAP, ('book', '_xf_index_to_xl_type_map'): TYPEMAP,
             ('book', '_sharedstrings'): SST, ('book', '_rich_text_runlist_map'): {}, ('sheet', '_ixfe'): 77}
    inits.update(extra_inits or {})
    return E.Env(syms, inits, {}, {})


def same_cell(g, w):
    for i in range(5):
        if i == 2 and w[i] is None:
            if g[i] is None or g[i] == TYPEMAP.get(w[4]):
                continue
            return False
        if not same_value(g[i], w[i]):
            return False
    return True


def check_cells(c, rule, tag, s, envs_, spec):
    """the cells stored for each valuation of the record bytes are the specified ones"""
    evs = [e for e in s.it.events if e.kind == 'put_cell']
    c.count('record_variants')
    c.count('statements_interpreted', s.it.stats['stmts'])
    c.count('store_events', len(evs))
    done = und = 0
    for env in envs_:
        want = spec(env)
        if want is None:
            continue
        try:
            got = cells_of(s, env)
        except E.Raised:
            got = None
        except (E.Undef, Undecidable):
            und += 1
            continue
        done += 1
        gv = [g[0] for g in got] if got is not None else None
        if gv is None or len(gv) != len(want) or not all(same_cell(g, w) for g, w in zip(gv, want)):
            k = 0
            if gv is not None:
                while k < min(len(gv), len(want)) and same_cell(gv[k], want[k]):
                    k += 1
            where = got[k][1].where() if gv and k < len(got) else evs[-1].where() if evs else 'xlrd/sheet.py'
            c.bad(rule, where, '%s: record %s is stored as %s, specified %s (row, column, type, value, format index)'
                  % (tag, env.syms['data'][:24].hex(), _cells(gv), _cells(want)), key='%s|%s' % (rule, tag))
            return False
    if done and not und:
        c.ok(rule, sample='%s: %s' % (tag, '; '.join('(%s)' % ', '.join(brief(x, 40) for x in e.data) for e in evs[:2])))
    else:
        c.open(rule, '%s: %d samples decided, %d not' % (tag, done, und))
    return True


def _cells(v):
    if v is None:
        return 'an exception'
    return ', '.join(repr(x) for x in v[:3]) + (', ... (%d cells)' % len(v) if len(v) > 3 else '') if v else 'nothing'


class Undecidable(Exception):
    pass


def biff2_hook(c, rule, tag, box):
    def hook(interp, st, fn, args, kwargs, node):
        names = ('self', 'cell_attr', 'rowx', 'colx', 'true_xfx')
        d = dict(zip(names, args))
        d.update(kwargs)
        interp.emit('biff2xf', (d.get('cell_attr', NONE), d.get('true_xfx', NONE)), st, node)
        return ('sym', 'xfx')
    return {'xlrd.sheet.Sheet.fixed_BIFF2_xfindex': hook}


def rec(c, op, bv, fmt=1, unroll=None, box=None, **kw):
    rc = const_of(c.prog, op)
    return sheet_record(c.prog, rc, bv, fmt, hooks=biff2_hook(c, '', '', box), unroll=unroll, **kw)


def hd(d):
    return struct.unpack('<HHH', d[:6])


def check_attr(c, rule, tag, s, want=None):
    """version 2 records: the three attribute bytes handed to the format look-up are bytes 4 to 6"""
    want = want or sl(4, 7)
    evs = [e for e in s.it.events if e.kind == 'biff2xf']
    if not evs:
        c.open(rule, tag + ': no cell-attribute look-up found')
        return
    es = [cell_env(v) for v in walking(24)]
    for e in evs:
        check_term(c, rule, tag + ' cell attributes', e.data[0], want, e.where(), es)


def C12(c):
    """Numeric records (NUMBER, RK, MULRK, INTEGER and the version 2 forms) for every file version: the terms stored are
    compared with the published layout, for every entry of a multi-cell record."""
    c.rule('number', 'a NUMBER record stores its IEEE double at its row and column with its format index')
    c.rule('rk', 'an RK value denotes the 30-bit integer or truncated double its two flag bits select, divided by 100 or not')
    c.rule('mulrk', 'a MULRK record stores one RK cell per column from its first to its last column')
    c.rule('biff2-number', 'version 2 NUMBER and INTEGER records store their value at their row and column')
    c.rule('biff2-xf', 'the version 2 format index is the low six bits of the attribute byte, or that of the IXFE record')
    for bv in (80, 70, 50, 45, 40, 30):
        for fmt in (1, 0):
            c.guard('number', number, c, bv, fmt)
            c.guard('rk', rk_one, c, bv, fmt)
            c.guard('mulrk', mulrk, c, bv, fmt)
    for bv in (21, 20):
        c.guard('biff2-number', number2, c, bv)
    c.guard('biff2-xf', biff2_xf, c)
    c.guard('biff2-xf', ixfe, c)


def number(c, bv, fmt):
    s = rec(c, 'XL_NUMBER', bv, fmt)

    def spec(env):
        d = env.syms['data']
        r, cl, x = hd(d)
        return [(r, cl, None, struct.unpack('<d', d[6:14])[0], x)]
    check_cells(c, 'number', 'NUMBER biff%d fmt=%d' % (bv, fmt), s, [cell_env(v) for v in walking(14)], spec)


def rk_one(c, bv, fmt):
    s = rec(c, 'XL_RK', bv, fmt)

    def spec(env):
        d = env.syms['data']
        r, cl, x = hd(d)
        return [(r, cl, None, rk(d[6:10]), x)]
    check_cells(c, 'rk', 'RK biff%d fmt=%d' % (bv, fmt), s, [cell_env(v) for v in walking(10)], spec)


def mulrk(c, bv, fmt):
    s = rec(c, 'XL_MULRK', bv, fmt)
    es = []
    r = Rand(7)
    for n in (1, 2, 3, 5, 40):
        for first in (0, 1, 5, 200):
            d = word(r.n(65536)) + word(first) + r.bytes(6 * n) + word(first + n - 1)
            es.append(cell_env(d))

    def spec(env):
        d = env.syms['data']
        row, first = struct.unpack('<HH', d[:4])
        last, = struct.unpack('<H', d[-2:])
        return [(row, first + i, None, rk(d[6 + 6 * i:10 + 6 * i]), struct.unpack('<H', d[4 + 6 * i:6 + 6 * i])[0])
                for i in range(last - first + 1)]
    check_cells(c, 'mulrk', 'MULRK biff%d fmt=%d' % (bv, fmt), s, es, spec)


def number2(c, bv):
    for op, n, val in (('XL_NUMBER_B2', 15, lambda d: struct.unpack('<d', d[7:15])[0]),
                       ('XL_INTEGER', 9, lambda d: float(struct.unpack('<H', d[7:9])[0]))):
        s = rec(c, op, bv)

        def spec(env):
            d = env.syms['data']
            r, cl = struct.unpack('<HH', d[:4])
            return [(r, cl, None, val(d), 5)]
        tag = '%s biff%d' % (op[3:], bv)
        check_cells(c, 'biff2-number', tag, s, [cell_env(v) for v in walking(n)], spec)
        check_attr(c, 'biff2-xf', tag, s)


def biff2_xf(c):
    for true in (None, ('sym', 'true')):
        s = Setup(c.prog, 21, 1)
        s.it.symkinds['attr'] = 'bytes'
        s.it.symkinds['true'] = 'int'
        args = [s.sheet, ('sym', 'attr'), ('sym', 'rowx'), ('sym', 'colx')] + ([true] if true else [])
        s.run('xlrd.sheet.Sheet.fixed_BIFF2_xfindex', args)
        bad = n = und = 0
        for v in range(256):
            for t in (0, 7, 63):
                env = E.Env({'attr': bytes([v, 0x41, 0x80]), 'true': t, 'rowx': 1, 'colx': 2},
                            {('sheet', '_ixfe'): 77, ('book', 'xf_list'): ('x',) * 90})
                x = v & 63 if true is None else t
                want = 77 if x == 63 else x
                try:
                    g = E.ev(s.value, env)
                except (E.Undef, E.Raised):
                    und += 1
                    continue
                n += 1
                if g != want:
                    c.bad('biff2-xf', 'xlrd/sheet.py in Sheet.fixed_BIFF2_xfindex',
                          'attribute byte 0x%02x selects format %r, specified %r' % (v, g, want), 'biff2-xf|value')
                    return
        (c.ok if n and not und else c.open)('biff2-xf', *(() if n and not und else ('value: %d undecided' % und,)))


def ixfe(c):
    s = rec(c, 'XL_IXFE', 21)
    evs = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] == '_ixfe']
    if not evs:
        c.open('biff2-xf', 'IXFE record: no store found')
    for e in evs:
        check_term(c, 'biff2-xf', 'IXFE index', e.data[2], u16(0), e.where(), [cell_env(v) for v in walking(2)])


# ------------------------------------------------------------------------ C13
def bstr(r, n):
    return bytes(33 + r.n(200) for _ in range(n))


def uni_samples(lenlen=2):
    """(bytes of a version 8 string, text) pairs: narrow and wide, with and without rich/phonetic parts"""
    r = Rand(3)
    out = []
    for n in (0, 1, 2, 7, 30) + ((260, 515) if lenlen == 2 else (255,)):
        for flag in (0, 1, 8, 9, 4, 5, 12, 13):
            wide, rich, phon = flag & 1, flag & 8, flag & 4
            if wide:
                t = ''.join(chr(0x100 + r.n(0x4000)) for _ in range(n))
                body = t.encode('utf_16_le')
            else:
                body = r.bytes(n)
                t = body.decode('latin_1')
            nr, ph = 1 + r.n(3), r.n(9)
            b = (word(n) if lenlen == 2 else bytes([n])) + bytes([flag]) + (word(nr) if rich else b'') + \
                (struct.pack('<i', ph) if phon else b'') + body
            out.append((b, t, (r.bytes(4 * nr) if rich else b'') + (r.bytes(ph) if phon else b''), flag))
    return out


def C13(c):
    """LABEL, LABELSST, RSTRING and their version 2 forms for every file version: row, column, type, format index, the byte
    range and character set of the string, and the formatting runs attached to it."""
    c.rule('labelsst', 'a version 8 label stores the shared string it indexes')
    c.rule('label', 'a LABEL record stores its string, decoded as its version prescribes')
    c.rule('rstring', 'an RSTRING record stores its string and its formatting runs for the same cell')
    c.rule('biff2-label', 'a version 2 label stores its string with an 8-bit length')
    c.rule('sst-runs', 'the formatting runs of a shared string are recorded for the cell that shows it')
    for bv in (80, 70, 50, 45, 40, 30):
        for fmt in (1, 0):
            c.guard('label', label, c, bv, fmt)
            c.guard('rstring', rstring, c, bv, fmt)
    for fmt in (1, 0):
        c.guard('labelsst', labelsst, c, fmt)
    for bv in (21, 20):
        c.guard('biff2-label', label2, c, bv)


def labelsst(c, fmt):
    s = rec(c, 'XL_LABELSST', 80, fmt)
    es = []
    for i, v in enumerate(walking(10)):
        es.append(cell_env(v[:6] + struct.pack('<I', (i * 37) % 4096)))

    def spec(env):
        d = env.syms['data']
        r, cl, x = hd(d)
        return [(r, cl, T_TEXT, SST[struct.unpack('<I', d[6:10])[0]], x)]
    check_cells(c, 'labelsst', 'LABELSST fmt=%d' % fmt, s, es, spec)
    if not fmt:
        return
    sets = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'sheet', 'rich_text_runlist_map')]
    if not sets:
        c.open('sst-runs', 'no run-list store found')
        return
    n = und = 0
    for env in es[:120]:
        d = env.syms['data']
        r, cl, x = hd(d)
        i = struct.unpack('<I', d[6:10])[0]
        for m in ({i: ((0, 1),)}, {i + 1: ((0, 2),)}, {0: ((0, 3),), i - 1: ((0, 4),)}):
            e2 = cell_env(d, None, {('book', '_rich_text_runlist_map'): m})
            try:
                got = [(E.ev(e.data[1], e2), E.ev(e.data[2], e2)) for e, _ in run_events(sets, e2)]
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
            want = [((r, cl), m[i])] if i in m else []
            if got != want:
                c.bad('sst-runs', sets[-1].where(), 'runs of shared string %d shown at (%d, %d): recorded %r, specified %r'
                      % (i, r, cl, got, want), 'sst-runs|map')
                return
    if n and not und:
        c.ok('sst-runs')
    else:
        c.open('sst-runs', '%d undecided' % und)


def string_samples(bv, off, tail=False):
    """(record bytes, text) for a record whose string starts at byte off"""
    r = Rand(11)
    out = []
    heads = [h for h in walking(off)][:140:3]
    k = 0
    if bv >= 80:
        for b, t, trail, flag in uni_samples():
            if tail and flag & 12:
                continue
            for _ in range(3):
                out.append((heads[k % len(heads)] + b, t, trail))
                k += 1
    else:
        for n in (0, 1, 2, 9, 200, 255, 256, 300, 1000):
            for _ in range(3):
                body = bstr(r, n)
                out.append((heads[k % len(heads)] + word(n) + body, body.decode(ENC), b''))
                k += 1
    return out


def label(c, bv, fmt):
    s = rec(c, 'XL_LABEL', bv, fmt)
    want = {}
    es = []
    for b, t, trail in string_samples(bv, 6):
        want[b + trail] = t
        es.append(cell_env(b + trail))

    def spec(env):
        d = env.syms['data']
        r, cl, x = hd(d)
        return [(r, cl, T_TEXT, want[d], x)]
    check_cells(c, 'label', 'LABEL biff%d fmt=%d' % (bv, fmt), s, es, spec)


def rstring(c, bv, fmt):
    s = rec(c, 'XL_RSTRING', bv, fmt)
    tag = 'RSTRING biff%d fmt=%d' % (bv, fmt)
    want = {}
    runs = {}
    es = []
    r = Rand(5)
    for b, t, trail in string_samples(bv, 6, True):
        for nr in (0, 1, 3):
            if bv >= 80:
                rl = [(r.n(65536), r.n(65536)) for _ in range(nr)]
                d = b + trail + word(nr) + b''.join(word(x) + word(y) for x, y in rl)
            else:
                rl = [(r.n(256), r.n(256)) for _ in range(nr)]
                d = b + bytes([nr]) + b''.join(bytes(x) for x in rl)
            want[d] = t
            runs[d] = rl
            es.append(cell_env(d))

    def spec(env):
        d = env.syms['data']
        row, cl, x = hd(d)
        return [(row, cl, T_TEXT, want[d], x)]
    if not check_cells(c, 'rstring', tag, s, es, spec):
        return
    sets = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'sheet', 'rich_text_runlist_map')]
    if not sets:
        c.open('rstring', tag + ': no run-list store found')
        return
    n = und = 0
    for env in es:
        d = env.syms['data']
        try:
            hits = run_events(sets, env)
            got = [(E.ev(e.data[1], env), list_value(s, e.data[2], env)) for e, _ in hits]
        except (E.Undef, E.Raised, Undecidable):
            und += 1
            continue
        n += 1
        row, cl, x = hd(d)
        if got != [((row, cl), runs[d])]:
            c.bad('rstring', sets[-1].where(), '%s: runs recorded %r, specified %r' % (tag, got, [((row, cl), runs[d])]),
                  'rstring|%s runs' % tag)
            return
    if n and not und:
        c.ok('rstring', sample=tag + ' runs')
    else:
        c.open('rstring', '%s runs: %d undecided of %d' % (tag, und, n + und))


def list_value(s, ref, env):
    """contents of a list built by appends / a literal / a comprehension, under a valuation"""
    if ref[0] == 'tuple':
        return [E.ev(x, env) for x in ref[1]]
    if ref[0] != 'ref':
        v = E.ev(ref, env)
        if isinstance(v, (tuple, list)):
            return list(v)
        raise Undecidable()
    apps = [e for e in s.it.events if e.kind in ('mcall', 'container') and e.data[0] == ref and e.data[1] == 'append']
    if apps:
        out = []
        for e, e2 in run_events(apps, env):
            out.append(E.ev(e.data[2][1][0], e2))
        return out
    h = s.it.hget(s.st, ref[1])
    if h is not None and h.items is not None:
        return [E.ev(x, env) for x in h.items]
    comp = getattr(s.it, 'comps', {}).get(ref[1])
    if comp is not None:
        (lid, it), val = comp
        return [E.ev(val, env.with_k(lid, i)) for i in range(trip_count(it, env))]
    raise Undecidable()


def label2(c, bv):
    s = rec(c, 'XL_LABEL_B2', bv)
    es = []
    want = {}
    r = Rand(9)
    for i, h in enumerate(walking(7)[::4]):
        n = (0, 1, 3, 40, 255)[i % 5]
        body = bstr(r, n)
        d = h + bytes([n]) + body + (b'xx' if i % 3 == 0 else b'')
        want[d] = body.decode(ENC)
        es.append(cell_env(d))

    def spec(env):
        d = env.syms['data']
        row, cl = struct.unpack('<HH', d[:4])
        return [(row, cl, T_TEXT, want[d], 5)]
    check_cells(c, 'biff2-label', 'LABEL_B2 biff%d' % bv, s, es, spec)
    check_attr(c, 'biff2-label', 'LABEL_B2 biff%d' % bv, s)


# ------------------------------------------------------------------------ C14
def C14(c):
    """FORMULA, BOOLERR, BLANK, MULBLANK and their version 2 forms for every file version, with the kind of result the
    result bytes select and the string record that follows a text result."""
    c.rule('formula', 'a formula record stores the result its result bytes denote')
    c.rule('formula-string', 'a text result is the contents of the string record that follows, directly or after one SHRFMLA/ARRAY/TABLEOP record; any other record is rejected')
    c.rule('string-record', 'a string record is decoded as its version prescribes')
    c.rule('boolerr', 'a BOOLERR record stores a boolean or an error as its flag says')
    c.rule('blank', 'blank cells are stored exactly when formatting information was requested')
    for bv in (80, 70, 50, 45, 40, 30, 21, 20):
        for fmt in ((1, 0) if bv in (80, 50, 30) else (1,)):
            c.guard('formula', formula, c, bv, fmt)
            c.guard('boolerr', boolerr, c, bv, fmt)
    for bv in (80, 70, 50, 45, 40, 30, 21, 20):
        for fmt in (1, 0):
            c.guard('blank', blank, c, bv, fmt)
    for bv in (80, 50, 30, 21):
        c.guard('string-record', string_record, c, bv)


def formula_op(bv):
    return 'XL_FORMULA%s' % ('' if bv >= 50 or bv < 30 else '4' if bv >= 40 else '3')


FORMULA_OPS = {80: 0x0006, 70: 0x0006, 50: 0x0006, 45: 0x0406, 40: 0x0406, 30: 0x0206, 21: 0x0006, 20: 0x0006}


def formula(c, bv, fmt):
    srec = 'xlrd.sheet.Sheet.string_record_contents'

    def strrec(interp, st, fn, args, kwargs, node):
        return ('app', 'cat', const('STR:'), ('app', 'str', args[1] if len(args) > 1 else TOP))
    hooks = biff2_hook(c, '', '', None)
    hooks[srec] = strrec
    s = sheet_record(c.prog, FORMULA_OPS[bv], bv, fmt, hooks=hooks)
    tag = 'FORMULA biff%d fmt=%d' % (bv, fmt)
    off = 6 if bv >= 30 else 7
    vecs = []
    for v in walking(24):
        vecs.append(v)
    r = Rand(17)
    for kind in (1, 2, 3):
        for k in range(12):
            b = bytearray(r.bytes(24))
            b[off:off + 8] = bytes([kind]) + r.bytes(5) + b'\xff\xff'
            vecs.append(bytes(b))

    # numbers whose last two bytes come close to the special-value marker
    for hi in (b'\xff\xc0', b'\xff\xfe', b'\xff\x7f', b'\xff\x00', b'\xfe\xff', b'\xf0\xff', b'\x00\xff', b'\xff\xef'):
        for kind in (0, 1, 2, 3, 9):
            b = bytearray(r.bytes(24))
            b[off:off + 8] = bytes([kind]) + r.bytes(5) + hi
            vecs.append(bytes(b))

    def spec(env):
        d = env.syms['data']
        if bv >= 30:
            row, cl, x = hd(d)
        else:
            row, cl = struct.unpack('<HH', d[:4])
            x = 5
        res = d[off:off + 8]
        if res[6:8] != b'\xff\xff':
            return [(row, cl, None, struct.unpack('<d', res)[0], x)]
        if res[0] == 1:
            return [(row, cl, T_BOOL, res[2], x)]
        if res[0] == 2:
            return [(row, cl, T_ERR, res[2], x)]
        if res[0] == 3:
            return [(row, cl, T_TEXT, '', x)]
        return None
    check_cells(c, 'formula', tag, s, [cell_env(v) for v in vecs], spec)
    if bv < 30:
        check_attr(c, 'formula', tag, s)
    # text results: which of the following records supplies the string
    STRING, STRING_B2 = 0x207, 0x7
    skip = (0x4BC, 0x221, 0x36, 0x37, 0x236, 0x21, 0x20)
    n = und = 0
    for rc2 in range(0, 0x500):
        for rc3 in (STRING, STRING_B2, 0x203, 0x4BC):
            if rc2 not in (STRING, STRING_B2) + skip and (rc3 != STRING or rc2 > 0x100 and rc2 % 7):
                continue
            b = bytearray(r.bytes(24))
            b[off:off + 8] = b'\0' + r.bytes(5) + b'\xff\xff'
            d = bytes(b)
            sy = {'rec2.rc': rc2, 'rec3.rc': rc3, 'rec2.data': b'two', 'rec3.data': b'three', 'rec2.len': 3, 'rec3.len': 5}
            env = cell_env(d, sy)
            x = hd(d)[2] if bv >= 30 else 5
            row, cl = struct.unpack('<HH', d[:4])
            if rc2 in (STRING, STRING_B2):
                want = [(row, cl, T_TEXT, b'two', x)]
            elif rc2 in (0x4BC, 0x221, 0x36, 0x37, 0x236, 0x21) and rc3 in (STRING, STRING_B2):
                want = [(row, cl, T_TEXT, b'three', x)]
            elif rc2 == 0x20:
                continue
            else:
                want = []
            try:
                got = []
                for ev, e2 in run_events([e for e in s.it.events if e.kind == 'put_cell'], env):
                    v = ev.data[3]
                    val = pick_str(v, e2)
                    got.append(tuple(E.ev(y, e2) for y in ev.data[:3]) + (val,) + (E.ev(ev.data[4], e2),))
                raised = [ev for ev, _ in run_events([e for e in s.it.events if e.kind == 'raise'
                                                      and e.func.endswith('Sheet.read')], env)]
            except (E.Undef, E.Raised, Undecidable):
                und += 1
                continue
            n += 1
            if raised:
                got = []
            if got != want or (not want and not raised):
                c.bad('formula-string', [e for e in s.it.events if e.kind == 'put_cell'][0].where(),
                      '%s: text result followed by records 0x%x, 0x%x yields %r%s, specified %r'
                      % (tag, rc2, rc3, got, ' (no error)' if not raised else '', want or 'the library error'),
                      'formula-string|' + tag)
                return
    if n and not und:
        c.ok('formula-string', sample=tag)
    else:
        c.open('formula-string', '%s: %d decided, %d not' % (tag, n, und))


def pick_str(v, env):
    """the record bytes inside the marker left by the string-record hook"""
    if v[0] == 'app' and v[1] == 'ite':
        return pick_str(v[3] if E.truth(v[2], env) else v[4], env)
    if v[0] == 'app' and v[1] == 'cat' and v[2] == const('STR:'):
        return E.ev(v[3][2], env)
    raise Undecidable()


def string_record(c, bv):
    ll = 2 if bv >= 30 else 1
    q = 'xlrd.sheet.Sheet.string_record_contents'
    s = Setup(c.prog, bv, 1)
    s.hook_records(0)
    s.last_serial = s.it.iter_serial_outer()
    s.it.unroll = {q: 3}
    s.it.symkinds['sdata'] = 'bytes'
    s.run(q, [s.sheet, ('sym', 'sdata')])
    r = Rand(23)
    cases = []

    def enc1(txt, wide):
        if bv >= 80:
            return bytes([wide]) + txt.encode('utf_16_le' if wide else 'latin_1')
        return txt.encode(ENC)

    def rt(n, wide):
        if bv >= 80 and wide:
            return ''.join(chr(0x100 + r.n(0x4000)) for _ in range(n))
        if bv >= 80:
            return bytes(r.n(256) for _ in range(n)).decode('latin_1')
        return bytes(r.n(256) for _ in range(n)).decode(ENC)

    def ln(n):
        return word(n) if ll == 2 else bytes([n])
    for n in (1, 2, 3, 90):
        for w1 in (0, 1):
            t1 = rt(n, w1)
            cases.append((ln(n) + enc1(t1, w1), 0, b'', t1))                 # complete
            cases.append((ln(n) + enc1(t1 + 'x', w1), 0, b'', None))         # too long
            cases.append((ln(n + 3) + enc1(t1, w1), 0x207, b'', None))       # continuation missing
            for w2 in (0, 1):
                t2 = rt(3, w2)
                cases.append((ln(n + 3) + enc1(t1, w1), 0x3C, enc1(t2, w2), t1 + t2))
    n_ = und = 0
    for d, rc1, d1, want in cases:
        env = E.Env({'sdata': d, 'rec1.rc': rc1, 'rec1.data': d1, 'enc': ENC, 'rec1.len': len(d1),
                     'rec2.rc': 0, 'rec2.data': b''})
        try:
            raised = [x for x, _ in run_events([e for e in s.it.events if e.kind == 'raise'], env, 0)]
            got = None if raised else E.ev(s.value, env)
        except (E.Undef, E.Raised):
            und += 1
            continue
        n_ += 1
        if got != want:
            c.bad('string-record', 'xlrd/sheet.py in Sheet.string_record_contents',
                  'biff%d: string record %s (then record 0x%x %s) is read as %r, specified %r'
                  % (bv, d[:16].hex(), rc1, d1[:16].hex(), got, want if want is not None else 'the library error'),
                  'string-record|biff%d' % bv)
            return
    if n_ and not und:
        c.ok('string-record', sample='biff%d: %s' % (bv, brief(s.value, 120)))
    else:
        c.open('string-record', 'biff%d: %d decided, %d not' % (bv, n_, und))


def boolerr(c, bv, fmt):
    b2 = bv < 30
    s = rec(c, 'XL_BOOLERR_B2' if b2 else 'XL_BOOLERR', bv, fmt)
    tag = 'BOOLERR biff%d fmt=%d' % (bv, fmt)
    es = []
    o = 7 if b2 else 6
    for i, v in enumerate(walking(o + 2)):
        es.append(cell_env(v[:o] + bytes([v[o], i & 1])))

    def spec(env):
        d = env.syms['data']
        if b2:
            row, cl = struct.unpack('<HH', d[:4])
            x = 5
        else:
            row, cl, x = hd(d)
        return [(row, cl, T_ERR if d[o + 1] else T_BOOL, d[o], x)]
    check_cells(c, 'boolerr', tag, s, es, spec)
    if b2:
        check_attr(c, 'boolerr', tag, s)


def blank(c, bv, fmt):
    b2 = bv < 30
    s = rec(c, 'XL_BLANK_B2' if b2 else 'XL_BLANK', bv, fmt)
    tag = 'BLANK biff%d fmt=%d' % (bv, fmt)

    def spec(env):
        if not fmt:
            return []
        d = env.syms['data']
        if b2:
            row, cl = struct.unpack('<HH', d[:4])
            return [(row, cl, T_BLANK, '', 5)]
        row, cl, x = hd(d)
        return [(row, cl, T_BLANK, '', x)]
    check_cells(c, 'blank', tag, s, [cell_env(v) for v in walking(7 if b2 else 6)], spec)
    if b2:
        if fmt:
            check_attr(c, 'blank', tag, s)
        return
    s = rec(c, 'XL_MULBLANK', bv, fmt)
    tag = 'MULBLANK biff%d fmt=%d' % (bv, fmt)
    es = []
    r = Rand(31)
    for n in (1, 2, 3, 5, 40):
        for first in (0, 1, 5, 200):
            es.append(cell_env(word(r.n(65536)) + word(first) + r.bytes(2 * n) + word(first + n - 1)))

    def spec2(env):
        if not fmt:
            return []
        d = env.syms['data']
        w = struct.unpack('<%dH' % (len(d) // 2), d)
        return [(w[0], w[1] + i, T_BLANK, '', w[2 + i]) for i in range(w[-1] - w[1] + 1)]
    check_cells(c, 'blank', tag, s, es, spec2)
