"""C36 defined names, C39 version detection, C42 global settings records."""
import struct
from .common import *
from .decode_cells import Rand, word, walking, Undecidable, ENC, uni_samples, bstr

BUILTIN = {'\x00': 'Consolidate_Area', '\x01': 'Auto_Open', '\x02': 'Auto_Close', '\x03': 'Extract', '\x04': 'Database',
           '\x05': 'Criteria', '\x06': 'Print_Area', '\x07': 'Print_Titles', '\x08': 'Recorder', '\x09': 'Data_Form',
           '\x0a': 'Auto_Activate', '\x0b': 'Auto_Deactivate', '\x0c': 'Sheet_Title', '\x0d': '_FilterDatabase'}


def genv(d, extra=None, inits=None, syms=None):
    sy = {'data': d, 'data_len': len(d), 'enc': ENC}
    sy.update(syms or {})
    return E.Env(sy, inits or {}, {}, extra or {})


def fold_check(c, rule, label, got, es, want, where):
    """the term yields want(env) on every valuation it is decided on"""
    if got is None:
        c.open(rule, label + ': not found')
        return None
    n = und = 0
    for e in es:
        w = want(e)
        try:
            g = E.ev(got, e)
        except E.Undef:
            und += 1
            continue
        except E.Raised:
            g = 'an exception'
        n += 1
        if g is NotImplemented or not same_value(g, w):
            d = e.syms.get('data')
            c.bad(rule, where, '%s: yields %r, specified %r%s' % (
                label, clip(g), clip(w), ' for record bytes ' + d[:28].hex() if isinstance(d, bytes) else ''),
                '%s|%s' % (rule, label))
            return False
    if n and not und:
        c.ok(rule, sample='%s = %s' % (label, brief(got, 90)))
        c.count('terms_decided')
        return True
    c.open(rule, '%s: %d decided, %d not (%s)' % (label, n, und, brief(got, 80)))
    return None


def clip(v):
    r = repr(v)
    return v if len(r) < 120 else r[:117] + '...'


def book_attr(s, name):
    st = end_state(s) or s.st
    return attr_of(s, st, s.book, name)


def book_where(s, name):
    return where_attr(s, s.book, name)


def attr_or_events(s, name):
    v = book_attr(s, name)
    if v is not None and not has_unknown(v):
        return v
    evs = [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == s.book and e.data[1] == name]
    if len(evs) == 1:
        return evs[0].data[2]
    return v


# ------------------------------------------------------------------------ C42
def C42(c):
    """Handlers of DATEMODE, CODEPAGE, COUNTRY, WRITEACCESS, EXTERNSHEET, SUPBOOK, EXTERNNAME, reached through the dispatch
    loops of the workbook globals and of version 2-4 sheets: what they store in the workbook."""
    c.rule('setting', 'a settings record stores exactly its field in the workbook')
    c.rule('datemode', 'date mode 0 and 1 are stored, any other value is rejected')
    c.rule('username', 'the user name is the record\'s string without trailing blanks')
    c.rule('externsheet', 'version 8: one (record, first, last) triple per reference, at 6-byte steps, over the concatenated continuation data')
    c.rule('externsheet57', 'version 5/7: the kind of every reference, and the name of references to own sheets under their 1-based number')
    c.rule('supbook', 'one entry per external book, of the kind its bytes denote, with the internal and add-in books indexed')
    c.rule('externname', 'names of add-in functions, in record order, and nothing else')
    for bv in (80, 70, 50, 45):
        c.guard('setting', settings, c, bv, True)
    for bv in (45, 40, 30, 21):
        c.guard('setting', settings, c, bv, False)
    for bv in (80, 70, 50, 45):
        c.guard('setting', country, c, bv, True)
    for bv in (80, 70, 40, 30, 21):
        c.guard('setting', country, c, bv, False)
    for bv in (80, 70, 50, 45):
        c.guard('username', username, c, bv, True)
    for bv in (40, 30):
        c.guard('username', username, c, bv, False)
    c.guard('externsheet', externsheet8, c)
    for bv in (70, 50):
        c.guard('externsheet57', externsheet57, c, bv)
    c.guard('supbook', supbook, c)
    c.guard('externname', externname, c)


def record(c, op, bv, glob, **kw):
    if glob:
        return globals_record(c.prog, OPCODES[op], bv, 1, **kw)
    return sheet_record(c.prog, OPCODES[op], bv, 1, hooks={'*fixed_BIFF2_xfindex': lambda *a: ('sym', 'xfx')}, **kw)


def settings(c, bv, glob):
    where = 'globals' if glob else 'sheet'
    es = [genv(v) for v in walking(6)]
    s = record(c, 'XL_CODEPAGE', bv, glob)
    fold_check(c, 'setting', 'CODEPAGE biff%d %s' % (bv, where), attr_or_events(s, 'codepage'), es,
               lambda e: struct.unpack('<H', e.syms['data'][:2])[0], book_where(s, 'codepage'))
    s = record(c, 'XL_DATEMODE', bv, glob)
    v = attr_or_events(s, 'datemode')
    tag = 'DATEMODE biff%d %s' % (bv, where)
    fold_check(c, 'datemode', tag, v, [genv(word(k) + b'\x55\x66') for k in (0, 1)],
               lambda e: e.syms['data'][0], book_where(s, 'datemode'))
    evs = [e for e in s.it.events if e.kind == 'raise' and e.loops]
    ok = True
    for k in range(2, 70000, 97):
        if k > 65535:
            break
        env = genv(word(k))
        if not any(guard_true(e, env) for e in evs):
            sets = [e for e in s.it.events if e.kind == 'setattr' and e.data[:2] == (s.book, 'datemode') and e.loops]
            if any(guard_true(e, env) for e in sets):
                c.bad('datemode', book_where(s, 'datemode'), '%s: value %d is accepted' % (tag, k), 'datemode|%s range' % tag)
                ok = False
                break
    if ok:
        c.ok('datemode')


def guard_true(ev, env):
    try:
        return guards_hold(ev, env)
    except (E.Undef, E.Raised):
        return False


def country(c, bv, glob):
    s = record(c, 'XL_COUNTRY', bv, glob)
    es = [genv(v) for v in walking(6)]
    fold_check(c, 'setting', 'COUNTRY biff%d %s' % (bv, 'globals' if glob else 'sheet'), attr_or_events(s, 'countries'), es,
               lambda e: struct.unpack('<HH', e.syms['data'][:4]), book_where(s, 'countries'))


def username(c, bv, glob):
    s = record(c, 'XL_WRITEACCESS', bv, glob, book={'encoding': ('sym', 'enc')}, maxsize=6000)
    want = {}
    es = []
    r = Rand(3)
    if bv >= 80:
        for b, t, trail, flag in uni_samples():
            if flag & 12:
                continue
            d = b + (b'' if flag & 1 else b'')
            want[d] = t.rstrip()
            es.append(genv(d))
        for t in ('Jane Doe', 'x  ', ' lead', '\u0416\u0410  '):
            for wide in (0, 1):
                if not wide and any(ord(ch) > 255 for ch in t):
                    continue
                body = t.encode('utf_16_le' if wide else 'latin_1')
                d = word(len(t)) + bytes([wide]) + body + b' ' * 9
                want[d] = t.rstrip()
                es.append(genv(d))
    else:
        for n in (0, 1, 5, 31, 200, 255):
            body = bstr(r, n)
            d = bytes([n]) + body + b'   '
            want[d] = body.decode(ENC).rstrip()
            es.append(genv(d))
    evs = [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == s.book and e.data[1] == 'user_name' and e.loops
           and not any(isinstance(g[0], tuple) and g[0][0] == 'app' and g[0][1] == 'except' for g in e.guards)]
    for e in es:
        e.noexc = True
    got = attr_or_events(s, 'user_name')
    if (got is None or has_unknown(got)) and evs:
        got = None
    tag = 'WRITEACCESS biff%d %s' % (bv, 'globals' if glob else 'sheet')
    if got is None:
        # several stores: decide the ones that happen
        n = und = 0
        for env in es:
            try:
                vals = [E.ev(e.data[2], env) for e in evs if guards_hold(e, env)]
            except E.Undef:
                und += 1
                continue
            except E.Raised:
                vals = ['an exception']
            n += 1
            if not vals or vals[-1] != want[env.syms['data']]:
                c.bad('username', book_where(s, 'user_name'), '%s: yields %r, specified %r for record bytes %s' % (
                    tag, clip(vals[-1:]), clip(want[env.syms['data']]), env.syms['data'][:24].hex()), 'username|' + tag)
                return
        if n and not und:
            c.ok('username')
        else:
            c.open('username', '%s: %d decided, %d not' % (tag, n, und))
        return
    fold_check(c, 'username', tag, got, [e for e in es], lambda e: want[e.syms['data']], book_where(s, 'user_name'))


def is_attr_list(t, name):
    return t == ('init', 'book', name)


def appends(s, name):
    return [e for e in s.it.events if e.kind == 'mcall' and e.data[0] == ('init', 'book', name) and e.data[1] == 'append']


def arg0(e):
    a = e.data[2]
    if a[0] == 'tuple' and len(a[1]) == 1:
        return a[1][0]
    return None


def externsheet8(c):
    s = globals_record(c.prog, OPCODES['XL_EXTERNSHEET'], 80, 1)
    evs = appends(s, '_externsheet_info')
    if not evs:
        c.open('externsheet', 'no append to the reference table found')
        return
    r = Rand(21)
    n = und = 0
    for nref in (0, 1, 2, 5, 40):
        for extra in (0, 3):
            d = word(nref) + r.bytes(6 * nref + extra)
            env = genv(d)
            want = [struct.unpack('<HHH', d[2 + 6 * i:8 + 6 * i]) for i in range(nref)]
            env = with_tables(s, env, d)
            try:
                got = [E.ev(arg0(e), e2) for e, e2 in run_events(evs, env)]
            except (E.Undef, TypeError):
                und += 1
                continue
            except E.Raised:
                got = 'an exception'
            n += 1
            if got != want:
                c.bad('externsheet', evs[0].where(), 'version 8 references of %s are %s, specified %s'
                      % (d[:20].hex(), clip(got), clip(want)), 'externsheet|items')
                return
    if n and not und:
        c.ok('externsheet', sample='reference k = %s' % brief(arg0(evs[0]), 120))
    else:
        c.open('externsheet', '%d decided, %d not' % (n, und))


def with_tables(s, env, d):
    """values of the phi/exit names that stand for the record data after its (absent) continuations"""
    ex = dict(env.extra)
    for e in s.it.events:
        for t in list(e.data) + [g[0] for g in e.guards] + [l[2] for l in e.loops]:
            if not isinstance(t, tuple) or not t:
                continue
            for x in walk(t):
                if x[0] == 'app' and x[1] == '*' and any(y[0] == 'sym' and str(y[1]).startswith('rec') for y in walk(x)):
                    ex[x] = b''
                if x[0] in ('exit', 'phi') and 'data' in repr(x[2:]):
                    ex[x] = d
                elif x[0] == 'exit':
                    ex.setdefault(x, 0)
    return E.Env(env.syms, env.inits, env.ks, ex)


def externsheet57(c, bv):
    s = globals_record(c.prog, OPCODES['XL_EXTERNSHEET'], bv, 1)
    ty = appends(s, '_externsheet_type_b57')
    nm = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'book', '_extnsht_name_from_num')]
    if not ty or not nm:
        c.open('externsheet57', 'biff%d: stores not found' % bv)
        return
    r = Rand(22)
    cnt = ('phi',)
    n = und = 0
    for t in list(range(0, 8)) + [255]:
        for k in (0, 1, 8, 31):
            d = bytes([k, t]) + bstr(r, k) + b'\x07'
            env = phi_env(s, genv(d), {'_extnsht_count': 6})
            try:
                g1 = [E.ev(arg0(e), e2) for e, e2 in run_events(ty, env)]
                g2 = [(E.ev(e.data[1], e2), E.ev(e.data[2], e2)) for e, e2 in run_events(nm, env)]
            except E.Undef:
                und += 1
                continue
            except E.Raised:
                g1, g2 = 'an exception', ''
            n += 1
            w1 = [t if 1 <= t <= 4 else 0]
            w2 = [(7, d[2:2 + k].decode(ENC))] if t == 3 else []
            if g1 != w1 or g2 != w2:
                c.bad('externsheet57', (ty if g1 != w1 else nm)[0].where(), 'biff%d: reference record %s is stored as kind %s, name %s; '
                      'specified %s, %s (record number 7)' % (bv, d[:12].hex(), clip(g1), clip(g2), clip(w1), clip(w2)),
                      'externsheet57|biff%d' % bv)
                return
    if n and not und:
        c.ok('externsheet57')
    else:
        c.open('externsheet57', 'biff%d: %d decided, %d not' % (bv, n, und))


def phi_env(s, env, vals):
    """give loop-carried attributes of the workbook the stated value on entry of the iteration"""
    ex = dict(env.extra)
    for e in s.it.events:
        for t in list(e.data) + [g[0] for g in e.guards]:
            if not isinstance(t, tuple) or not t:
                continue
            for x in walk(t):
                if x[0] == 'phi':
                    for name, v in vals.items():
                        if name in repr(x):
                            ex[x] = v
                elif x[0] == 'init' and x[2] in vals:
                    ex[x] = vals[x[2]]
    return E.Env(env.syms, env.inits, env.ks, ex)


def supbook(c):
    s = globals_record(c.prog, OPCODES['XL_SUPBOOK'], 80, 1)
    ap = appends(s, '_supbook_types')
    st = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'book', '_supbook_types')]
    at = {a: [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == s.book and e.data[1] == a and e.loops]
          for a in ('_supbook_locals_inx', '_supbook_addins_inx', '_supbook_count')}
    if not ap:
        c.open('supbook', 'no append to the table of external books found')
        return
    consts = [const_src(c, 'SUPBOOK_' + n) for n in ('UNK', 'INTERNAL', 'EXTERNAL', 'ADDIN', 'DDEOLE')]
    if len(set(consts)) != 5:
        c.bad('supbook', 'xlrd/book.py', 'the kinds of external book are not distinct: %r' % (consts,), 'supbook|kinds')
        return
    unk, internal, external, addin, ddeole = consts
    samples = []
    for ns in (0, 1, 3, 700):
        samples.append((word(ns) + b'\x01\x04', internal))
    samples.append((b'\x01\x00\x01\x3a', addin))
    for url in ('u', 'http://x', '\u0416\u0417'):
        wide = any(ord(ch) > 255 for ch in url)
        u = word(len(url)) + bytes([wide]) + url.encode('utf_16_le' if wide else 'latin_1')
        samples.append((b'\0\0' + u, ddeole))
        samples.append((b'\x01\0' + u + b'\x02\0\0ab', external))
        samples.append((b'\x02\0' + u + b'\x02\0\0ab\x01\0\0c', external))
    n = und = 0
    for d, kind in samples:
        env = phi_env(s, genv(d), {'_supbook_count': 4})
        try:
            got = [(E.ev(arg0(e), e2)) for e, e2 in run_events(ap, env)]
            for e, e2 in run_events(st, env):
                if E.ev(e.data[1], e2) in (-1, 4):
                    got[-1:] = [E.ev(e.data[2], e2)]
            loc = [E.ev(e.data[2], e2) for e, e2 in run_events(at['_supbook_locals_inx'], env)]
            adi = [E.ev(e.data[2], e2) for e, e2 in run_events(at['_supbook_addins_inx'], env)]
            cnt = [E.ev(e.data[2], e2) for e, e2 in run_events(at['_supbook_count'], env)]
        except E.Undef:
            und += 1
            continue
        except E.Raised:
            got, loc, adi, cnt = 'an exception', [], [], []
        n += 1
        want = ([kind], [4] if kind == internal else [], [4] if kind == addin else [], [5])
        if (got, loc, adi, cnt) != want:
            c.bad('supbook', (st or ap)[0].where(), 'external book %s is stored as (kinds, index of internal, of add-ins, count) %s, specified %s'
                  % (d[:12].hex(), clip((got, loc, adi, cnt)), clip(want)), 'supbook|entry')
            return
    if n and not und:
        c.ok('supbook', n)
    else:
        c.open('supbook', '%d decided, %d not' % (n, und))


def const_src(c, name, mod='xlrd.book'):
    v = c.prog.func(mod + '.' + name)
    return v[2] if v is not None and v[0] == 'c' else None


def externname(c):
    s = globals_record(c.prog, OPCODES['XL_EXTERNNAME'], 80, 1)
    ap = appends(s, 'addin_func_names')
    if not ap:
        c.open('externname', 'no append found')
        return
    addin = const_src(c, 'SUPBOOK_ADDIN')
    n = und = 0
    for k in (addin, 0, 1, 2, 4):
        for b, t, trail, flag in uni_samples(1):
            d = b'\x10\x20\x30\x40\x50\x60' + b + trail
            env = genv(d, inits={('book', '_supbook_types'): (None, addin, 0, k)})
            try:
                got = [E.ev(arg0(e), e2) for e, e2 in run_events(ap, env)]
            except E.Undef:
                und += 1
                continue
            except E.Raised:
                got = 'an exception'
            n += 1
            want = [t] if k == addin else []
            if got != want:
                c.bad('externname', ap[0].where(), 'after an external book of kind %r the record %s yields add-in names %s, specified %s'
                      % (k, d[:24].hex(), clip(got), clip(want)), 'externname|names')
                return
    if n and not und:
        c.ok('externname')
    else:
        c.open('externname', '%d decided, %d not' % (n, und))


# ------------------------------------------------------------------------ C36
def C36(c):
    """The NAME record handler for versions 5, 7 and 8, and the pass over all names at the end of the globals: attribute terms,
    scope terms per version, and the keys and values of the two name maps."""
    c.rule('field', 'every attribute of a defined name is its field of the record')
    c.rule('name', 'the name text, with built-in codes replaced by their names; the formula is what follows the name')
    c.rule('list', 'every NAME record adds one object to the list of names, numbered in record order')
    c.rule('old', 'versions before 5 add no name')
    c.rule('scope', 'the scope is the sheet the record names, -1 for global names, below that for unusable references')
    c.rule('maps', 'the name maps hold every name under its lower-cased text (and its scope), and are installed in the workbook')
    for bv in (80, 70, 50):
        c.guard('field', name_fields, c, bv)
    for bv in (45,):
        c.guard('old', name_old, c, bv)
    for bv in (80, 70, 50):
        c.guard('scope', name_epilogue, c, bv)


def name_fields(c, bv):
    s = globals_record(c.prog, OPCODES['XL_NAME'], bv, 1)
    objs = new_objects(s, 'Name')
    if len(objs) != 1:
        c.open('list', 'biff%d: %d objects made per record' % (bv, len(objs)))
        return
    o = objs[0]
    st = end_state(s)
    es = envs()
    spec = [('option_flags', u16(0)), ('hidden', bit(0, 0)), ('func', bit(0, 1)), ('vbasic', bit(0, 2)), ('macro', bit(0, 3)),
            ('complex', bit(0, 4)), ('builtin', bit(0, 5)), ('funcgroup', bits(0, 6, 6)), ('binary', bit(0, 12)),
            ('extn_sheet_num', u16(6)), ('excel_sheet_index', u16(8)), ('basic_formula_len', u16(4)), ('book', s.book)]
    for attr, t in spec:
        got = obj_attr(s, st, o, attr)
        if attr == 'book':
            if got == t:
                c.ok('field')
            else:
                c.open('field', 'biff%d book' % bv)
            continue
        check_term(c, 'field', 'biff%d NAME.%s' % (bv, attr), got, t, where_attr(s, o, attr), es)
    ap = appends(s, 'name_obj_list')
    ap = [e for e in ap if e.loops]
    unguarded = [e for e in ap if arg0(e) == o]
    idx = obj_attr(s, st, o, 'name_index')
    if len(unguarded) == 1 and len(ap) == 1:
        g = [x for x in ap[0].guards if x[0] != TOP]
        c.ok('list')
        c.open('list', 'guarded append') if g else None
    elif not ap:
        c.open('list', 'biff%d: append not found' % bv)
    else:
        c.bad('list', ap[0].where(), 'biff%d: %d entries are added to the list of names per record' % (bv, len(ap)), 'list|biff%d' % bv)
    fold_check(c, 'list', 'biff%d NAME.name_index' % bv, idx,
               [genv(bytes(20), inits={('book', 'name_obj_list'): tuple(range(k))}) for k in (0, 1, 7)],
               lambda e: len(e.inits[('book', 'name_obj_list')]), where_attr(s, o, 'name_index'))
    # text and formula
    wantn = {}
    wantf = {}
    es = []
    r = Rand(31)
    texts = ['A', 'Total', 'x' * 30, ''] + (['\u0416\u0418', '\u00e9t\u00e9'] if bv >= 80 else []) + sorted(BUILTIN) + ['\x0e', '\x7f', '\x06x']
    for t in texts:
        for builtin in (0, 1):
            for fm in (b'', b'\x1e\x05\x00', r.bytes(11)):
                flags = (r.n(65536) & ~0x20) | (0x20 if builtin else 0)
                if bv >= 80:
                    wide = any(ord(ch) > 255 for ch in t)
                    body = bytes([wide]) + t.encode('utf_16_le' if wide else 'latin_1')
                    if not t and not fm:
                        body = b''
                else:
                    body = t.encode(ENC)
                d = struct.pack('<HBBHHH4B', flags, 0x41, len(t), len(fm), r.n(9), r.n(9), 1, 2, 3, 4) + body + fm
                wantn[d] = BUILTIN.get(t, '??Unknown??') if builtin else t
                wantf[d] = fm
                es.append(genv(d))
    fold_check(c, 'name', 'biff%d NAME.name' % bv, obj_attr(s, st, o, 'name'), es, lambda e: wantn[e.syms['data']],
               where_attr(s, o, 'name'))
    fold_check(c, 'name', 'biff%d NAME.raw_formula' % bv, obj_attr(s, st, o, 'raw_formula'), es, lambda e: wantf[e.syms['data']],
               where_attr(s, o, 'raw_formula'))


def name_old(c, bv):
    s = globals_record(c.prog, OPCODES['XL_NAME'], bv, 1)
    if new_objects(s, 'Name') or [e for e in appends(s, 'name_obj_list') if e.loops]:
        c.open('old', 'biff%d: a name object is made' % bv)
    else:
        c.ok('old')


def name_epilogue(c, bv):
    s = Setup(c.prog, bv)
    hooks = {}

    def evalname(interp, st, fn, args, kw, node):
        interp.emit('evalname', tuple(args[1:3]), st, node)
        return NONE
    s.it.hooks['xlrd.formula.evaluate_name_formula'] = evalname
    s.run('xlrd.book.Book.names_epilogue', [s.book])
    sc = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] == 'scope' and e.loops]
    if not sc:
        c.open('scope', 'biff%d: no scope assignment found' % bv)
        return
    names = {1: 'Sheet1', 2: 'Gone', 3: 'Two', 9: 'Sheet1'}
    nums = {'Sheet1': 0, 'Two': 1}
    n = und = 0
    for amap, x in [(m, x) for m in ((0, -1, 1, 2, -1), (0, 1), (-1, 0), (0,), ()) for x in range(0, 14)]:
        ex = {}
        inits = {('book', '_all_sheets_map'): amap, ('book', '_extnsht_name_from_num'): names,
                 ('book', '_sheet_num_from_name'): nums, ('book', 'name_obj_list'): (None,)}
        if bv >= 80:
            a, b = x, 77
            want = -1 if x == 0 else amap[x - 1] if x <= len(amap) else None
            unusable = x > len(amap) or (x and amap[x - 1] == -1)
        else:
            if x and x not in names:
                continue
            a, b = 66, x
            want = -1 if x == 0 else nums.get(names[x])
            unusable = x and want is None
        got = None
        try:
            for ev in sc:
                o = ev.data[0]
                ex = {('app', 'attr', o, const('excel_sheet_index')): a, ('app', 'attr', o, const('extn_sheet_num')): b}
                for l in ev.loops:
                    ex[('k', l[0])] = 0
                env = E.Env({'enc': ENC}, inits, {}, ex)
                for l in ev.loops:
                    env = env.with_k(l[0], 0)
                if guards_hold(ev, env):
                    got = E.ev(ev.data[2], env)
        except E.Undef:
            und += 1
            continue
        except E.Raised:
            got = 'an exception'
        n += 1
        if unusable:
            good = isinstance(got, int) and got < -1
        else:
            good = got == want and isinstance(got, int)
        if not good:
            c.bad('scope', sc[0].where(), 'biff%d: a name with sheet reference %d gets scope %r, specified %s (sheets %r)'
                  % (bv, x, got, 'below -1' if unusable else want, amap if bv >= 80 else names), 'scope|biff%d' % bv)
            break
    else:
        if n and not und:
            c.ok('scope', n, 'biff%d scope = %s' % (bv, brief(sc[0].data[2], 100)))
        else:
            c.open('scope', 'biff%d: %d decided, %d not' % (bv, n, und))
    # every name is evaluated unless macro, binary or done
    c.guard('maps', name_maps, c, s, bv)


def name_maps(c, s, bv):
    A = lambda o, a: ('app', 'attr', o, const(a))
    for which in ('name_and_scope_map', 'name_map'):
        inst = [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == s.book and e.data[1] == which]
        v = attr_of(s, s.st, s.book, which)
        if v is None or v[0] != 'ref':
            if not inst and (v is None or v == ('init', 'book', which)):
                c.bad('maps', 'xlrd/book.py in Book.names_epilogue', 'biff%d: %s is never installed' % (bv, which), 'maps|%s installed' % which)
            else:
                c.open('maps', 'biff%d: %s is %s' % (bv, which, brief(v) if v else None))
            continue
        stores = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == v]
        if which == 'name_and_scope_map':
            if len(stores) != 1 or len(stores[0].loops) != 1:
                c.open('maps', 'biff%d: %d stores into %s' % (bv, len(stores), which))
                continue
            e = stores[0]
            o = e.data[2]
            if any(g[0] != TOP and not const_guard(g) for g in e.guards):
                c.open('maps', 'biff%d: store into %s is conditional' % (bv, which))
                continue
            l = e.loops[0]
            env = E.Env({}, {('book', 'name_obj_list'): (1, 2, 3)}, {}, {A(o, 'name'): 'AbC', A(o, 'scope'): 3, A(o, 'name_index'): 5})
            env = env.with_k(l[0], 1)
            try:
                key = E.ev(e.data[1], env)
            except (E.Undef, E.Raised):
                c.open('maps', 'biff%d: key %s' % (bv, brief(e.data[1])))
                continue
            if key != ('abc', 3):
                c.bad('maps', e.where(), 'biff%d: the name AbC of scope 3 is filed under %r in %s, specified (\'abc\', 3)'
                      % (bv, key, which), 'maps|%s key' % which)
            else:
                c.ok('maps')
            try:
                if trip_count(l[2], env) != 3:
                    c.bad('maps', e.where(), 'biff%d: only %d of 3 names are filed in %s' % (bv, trip_count(l[2], env), which), 'maps|%s all' % which)
                else:
                    c.ok('maps')
            except (E.Undef, E.Raised):
                c.open('maps', 'trip count')
        else:
            ok = 0
            for e in stores:
                o = None
                for x in walk(e.data[1]):
                    if x[0] == 'app' and x[1] == 'attr' and x[3] == const('name'):
                        o = x[2]
                if o is None:
                    continue
                env = E.Env({}, {}, {}, {A(o, 'name'): 'AbC', A(o, 'scope'): 3, A(o, 'name_index'): 5})
                try:
                    key = E.ev(e.data[1], env)
                except (E.Undef, E.Raised):
                    continue
                if key != 'abc':
                    c.bad('maps', e.where(), 'biff%d: the name AbC is filed under %r in %s' % (bv, key, which), 'maps|%s key' % which)
                else:
                    ok += 1
            if ok:
                c.ok('maps')
            else:
                c.open('maps', 'biff%d: keys of %s' % (bv, which))


def const_guard(g):
    return g[0][0] == 'c'


# ------------------------------------------------------------------------ C39
SPEC_OPS = {0x0809: 8, 0x0409: 6, 0x0209: 6, 0x0009: 4}


def bof_spec(d, rqd):
    """-> version or 'XLRDError' (None: either)"""
    if len(d) < 4:
        return 'XLRDError'
    op, ln = struct.unpack('<HH', d[:4])
    if op not in SPEC_OPS or not 4 <= ln <= 20 or len(d) < 4 + ln:
        return 'XLRDError'
    p = d[4:4 + ln] + bytes(max(0, SPEC_OPS[op] - ln))
    v2, st = struct.unpack('<HH', p[:4])
    ver = 0
    if op == 0x0809:
        build, year = struct.unpack('<HH', p[4:8])
        if v2 == 0x0600:
            ver = 80
        elif v2 == 0x0500:
            ver = 50 if year < 1994 or build in (2412, 3218, 3321) else 70
        else:
            ver = {0: 21, 7: 21, 0x200: 21, 0x300: 30, 0x400: 40}.get(v2, 0)
    else:
        ver = {0x0409: 40, 0x0209: 30, 0x0009: 21}[op]
    if ver == 40 and st == 0x100:
        ver = 45
    got_globals = st == 5 or (ver == 45 and st == 0x100)
    if (rqd == 5 and got_globals) or st == rqd or (ver < 50 and st == 0x10):
        return ver if ver else None
    return 'XLRDError'


def outcome(s, env):
    """what a top-level call does under a valuation: ('raise', class) or ('return', value)"""
    for e in s.it.events:
        if e.kind == 'raise' and guards_hold(e, env):
            return 'raise', E.ev(e.data[0], env) if e.data[0][0] != 'c' else e.data[0][2]
    return 'return', E.ev(s.value, env)


def C39(c):
    """The beginning-of-file reader, interpreted over symbolic file bytes for the two kinds of stream it is asked for: the term it
    returns and the conditions under which it raises, against the documented decision table."""
    c.rule('version', 'the version returned, and rejection, follow the documented table for every record type, version, build, year and stream type')
    c.rule('position', 'the read position is just after the record')
    for rqd in (5, 0x10):
        c.guard('version', bof, c, rqd)


def bof(c, rqd):
    mem = ('sym', 'data')
    s = Setup(c.prog, 80, book={'mem': mem, '_position': const(0), 'base': const(0), 'filestr': mem,
                                'stream_len': ('app', 'len', mem)})
    s.it.maxsize = 20000
    s.it.implications = True
    s.run('xlrd.book.Book.getbof', [s.book, const(rqd)])
    n = und = 0
    pos = attr_of(s, s.st, s.book, '_position')
    fails = []
    posbad = posn = 0
    for d in bof_samples(c.tier):
        env = genv(d)
        want = bof_spec(d, rqd)
        try:
            got = outcome(s, env)
        except E.Undef:
            und += 1
            continue
        except E.Raised:
            got = 'raise', 'another exception'
        n += 1
        if want is None:
            good = got[0] == 'raise' and got[1] == 'XLRDError' or got[0] == 'return' and got[1] in (0, None)
        elif want == 'XLRDError':
            good = got == ('raise', 'XLRDError')
        else:
            good = got == ('return', want)
            if good:
                try:
                    p = E.ev(pos, env)
                    posn += 1
                    if p != 4 + struct.unpack('<H', d[2:4])[0]:
                        posbad = (d, p)
                except (E.Undef, E.Raised):
                    pass
        if not good:
            c.bad('version', 'xlrd/book.py in Book.getbof', 'beginning-of-file record %s (stream type 0x%x asked for): %s %s, documented: %s'
                  % (d[:14].hex(), rqd, got[0], got[1], want if want is not None else 'no supported version'), 'version|%x' % rqd)
            return
    if n and not und:
        c.count('rows_of_decision_table', n)
        c.ok('version', 1, 'decision table of %d rows for stream type 0x%x' % (n, rqd))
    else:
        c.open('version', '%x: %d decided, %d not' % (rqd, n, und))
    if posbad:
        c.bad('position', 'xlrd/book.py in Book.getbof', 'after record %s the position is %r' % (posbad[0][:14].hex(), posbad[1]), 'position|%x' % rqd)
    elif posn:
        c.ok('position')
    else:
        c.open('position', 'position undecided')


def bof_samples(tier):
    out = []
    ops = (0x0809, 0x0409, 0x0209, 0x0009, 0x0109, 0x0A09, 0x0808, 0, 0xFFFF, 0x0609, 0x0909)
    vers = (0, 7, 0x200, 0x300, 0x400, 0x500, 0x600, 0x501, 0x601, 2, 0x700, 0x1234, 0x5, 0x800)
    sts = (5, 0x10, 0x100, 6, 0x20, 0x40, 0, 0x105, 0x110)
    by = ((0, 0), (2412, 1993), (2412, 1999), (3218, 1996), (3321, 1997), (3322, 1993), (4000, 1994), (4000, 1993), (4000, 1995),
          (0, 1994), (9420, 65535), (2411, 1997), (3219, 1994), (3320, 1994), (1994, 3218), (1993, 2412), (1994, 1900))
    for op in ops:
        for v in vers:
            for st in sts:
                for b, y in (by if op == 0x809 and v in (0x500, 0x600, 0) else by[1:3]):
                    out.append(struct.pack('<HHHHHHII', op, 16, v, st, b, y, 1, 2) + b'\x85\0')
    for op in (0x0809, 0x0409, 0x0209, 0x0009):
        for ln in (0, 1, 2, 3, 4, 5, 6, 7, 8, 16, 20, 21, 22, 255, 65535):
            for have in (0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 24, 40):
                for v, st in ((0x600, 5), (0x500, 0x10), (0x400, 0x100), (0, 0x10)):
                    out.append((struct.pack('<HHHHHHII', op, ln, v, st, 4000, 1996, 1, 2) + bytes(30))[:4 + have])
        for k in range(4):
            out.append(struct.pack('<HH', op, 8)[:k])
    return out
