"""C18 row/column records, C19 view/pane/magnification records, C20 ranges, breaks, links, comments."""
import struct
from .common import *
from .decode_cells import (cell_env, walking, Rand, word, biff2_hook, list_value, Undecidable, ENC, uni_samples)

MAXROWS = {80: 65536}


def sheet_rec(c, op, bv, fmt=1, unroll=None, **kw):
    rc = op if isinstance(op, int) else const_of(c.prog, op)
    return sheet_record(c.prog, rc, bv, fmt, hooks=biff2_hook(c, '', '', None), unroll=unroll, **kw)


def senv(d, bv, extra=None, inits=None):
    i = {('sheet', 'utter_max_rows'): 65536 if bv >= 80 else 16384, ('sheet', 'utter_max_cols'): 256}
    i.update(inits or {})
    return cell_env(d, extra, i)


def map_stores(s, attr):
    return [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'sheet', attr)]


def stored_keys(evs, env):
    out = []
    for e, e2 in run_events(evs, env):
        out.append((E.ev(e.data[1], e2), e, e2))
    return out


def check_keys(c, rule, tag, s, attr, envs_, spec, where=None):
    """the keys stored into a map attribute of the sheet, in order, for each valuation"""
    evs = map_stores(s, attr)
    done = und = 0
    for env in envs_:
        want = spec(env)
        if want is None:
            continue
        try:
            got = [k for k, _, _ in stored_keys(evs, env)]
        except E.Raised:
            got = 'an exception'
        except (E.Undef, Undecidable):
            und += 1
            continue
        done += 1
        if got != 'an exception':
            # a store that may not happen (already present) counts once
            got = dedup(got)
        if got != want:
            c.bad(rule, evs[-1].where() if evs else 'xlrd/sheet.py in Sheet.read',
                  '%s: record %s is stored for %s, specified %s' % (tag, env.syms['data'][:20].hex(), clip(got), clip(want)),
                  '%s|%s keys' % (rule, tag))
            return
    if done and not und:
        c.ok(rule, sample='%s: %s[...]' % (tag, attr))
    else:
        c.open(rule, '%s keys of %s: %d decided, %d not' % (tag, attr, done, und))


def dedup(l):
    out = []
    for x in l:
        if x not in out:
            out.append(x)
    return out


def clip(v):
    s = repr(v)
    return s if len(s) < 200 else s[:200] + '...'


def obj_attrs(c, rule, tag, s, ref, spec, es):
    st = end_state(s)
    if st is None:
        c.open(rule, tag + ': record handling never completes')
        return
    for attr, want in sorted(spec.items()):
        want = want if isinstance(want, tuple) else const(want)
        check_term(c, rule, '%s %s' % (tag, attr), obj_attr(s, st, ref, attr), want, where_attr(s, ref, attr), es)


def sheet_attrs(c, rule, tag, s, spec, es):
    obj_attrs(c, rule, tag, s, s.sheet, spec, es)


def stored_obj(s, cls, evs):
    """the object of class cls that reaches a store"""
    objs = new_objects(s, cls)
    return objs[-1] if objs else None


# ------------------------------------------------------------------------ C18
def C18(c):
    """ROW, ROW_B2, COLINFO, COLWIDTH, COLUMNDEFAULT, DEFCOLWIDTH, STANDARDWIDTH, GCW and DEFAULTROWHEIGHT for every
    version they occur in: attribute terms, the rows/columns they are stored for, and that nothing is stored without
    formatting information."""
    c.rule('row', 'every row attribute is the published bit field, stored for the row the record names')
    c.rule('row-sharing', 'two rows share one attribute object only if all their attributes agree')
    c.rule('col', 'every column attribute is the published field, stored for exactly the columns the record names')
    c.rule('defaults', 'default widths, heights and global column flags are the published fields')
    c.rule('on-request', 'row and column attributes are stored only when formatting information was requested')
    for bv in (80, 70, 50, 45, 40, 30):
        c.guard('row', row, c, bv)
    for bv in (80, 70, 50, 45, 40, 30):
        c.guard('col', colinfo, c, bv)
    for bv in (21, 20):
        c.guard('row', row_b2, c, bv)
        c.guard('col', colwidth, c, bv)
        c.guard('col', columndefault, c, bv)
    for bv in (80, 50, 45, 30, 21):
        c.guard('defaults', defaults, c, bv)
    for bv, ops in ((80, ('XL_ROW', 'XL_COLINFO')), (50, ('XL_ROW', 'XL_COLINFO')), (30, ('XL_ROW', 'XL_COLINFO')),
                    (21, ('XL_ROW_B2', 'XL_COLWIDTH', 'XL_COLUMNDEFAULT'))):
        for op in ops:
            c.guard('on-request', unrequested, c, op, bv)


def unrequested(c, op, bv):
    s = sheet_rec(c, op, bv, 0)
    evs = map_stores(s, 'rowinfo_map') + map_stores(s, 'colinfo_map')
    if evs:
        c.bad('on-request', evs[0].where(), '%s biff%d: stored although formatting information was not requested' % (op, bv))
    else:
        c.ok('on-request', sample='%s biff%d' % (op, bv))


def sharing(c, tag, s, ref, attrs, key_ev, bv, n):
    """attributes must be a function of the sharing key"""
    st = end_state(s)
    if not key_ev:
        c.open('row-sharing', tag + ': no sharing key found')
        return
    key = key_ev[-1].data[1]
    seen = {}
    for v in walking(n):
        env = senv(v, bv)
        try:
            k = E.ev(key, env)
            vals = tuple(E.ev(obj_attr(s, st, ref, a), env) for a in attrs)
        except (E.Undef, E.Raised):
            c.open('row-sharing', tag)
            return
        if k in seen and seen[k][0] != vals:
            i = [j for j in range(len(vals)) if vals[j] != seen[k][0][j]][0]
            c.bad('row-sharing', key_ev[-1].where(), '%s: records %s and %s share one object but differ in %s'
                  % (tag, v.hex(), seen[k][1].hex(), attrs[i]), 'row-sharing|' + tag)
            return
        seen[k] = (vals, v)
    c.ok('row-sharing', sample='%s: key %s' % (tag, brief(key)))


def row(c, bv):
    s = sheet_rec(c, 'XL_ROW', bv)
    tag = 'ROW biff%d' % bv
    r = stored_obj(s, 'Rowinfo', None)
    if r is None:
        c.open('row', tag + ': no row object')
        return
    es = [senv(v, bv) for v in walking(16)]
    flag = bit(12, 7)
    spec = dict(height=bits(6, 0, 15), has_default_height=bit(6, 15), outline_level=bits(12, 0, 3),
                outline_group_starts_ends=bit(12, 4), hidden=bit(12, 5), height_mismatch=bit(12, 6),
                has_default_xf_index=flag, xf_index=ite(ne0(flag), bits(12, 16, 12), const(-1)),
                additional_space_above=bit(12, 28), additional_space_below=bit(12, 29))
    obj_attrs(c, 'row', tag, s, r, spec, es)
    check_keys(c, 'row', tag, s, 'rowinfo_map', es, lambda e: row_keys(e, bv))
    share = [e for e in s.it.events if e.kind == 'setitem' and e.data[2] == r and e.data[0][0] == 'ref']
    sharing(c, tag, s, r, sorted(spec), share, bv, 16)


def row_keys(e, bv):
    x = struct.unpack('<H', e.syms['data'][:2])[0]
    return [x] if x < (65536 if bv >= 80 else 16384) else []


def row_b2(c, bv):
    s = sheet_rec(c, 'XL_ROW_B2', bv)
    tag = 'ROW_B2 biff%d' % bv
    r = stored_obj(s, 'Rowinfo', None)
    if r is None:
        c.open('row', tag + ': no row object')
        return
    flag = bit(10, 0)
    spec = dict(height=bits(6, 0, 15), has_default_height=bit(6, 15), has_default_xf_index=flag,
                xf_index=ite(ne0(flag), ('sym', 'xfx'), const(-1)))
    for n in (18, 16):
        es = [senv(v, bv) for v in walking(n)]
        obj_attrs(c, 'row', tag + ' length %d' % n, s, r, spec, es)
        check_keys(c, 'row', tag + ' length %d' % n, s, 'rowinfo_map', es, lambda e: row_keys(e, bv))
    look = [e for e in s.it.events if e.kind == 'biff2xf']
    n = und = 0
    for size in (18, 16):
        for v in walking(size):
            d = bytearray(v)
            d[10] |= 1
            d[0:2] = b'\1\0'
            env = senv(bytes(d), bv)
            try:
                got = [(E.ev(e.data[0], e2), E.ev(e.data[1], e2)) for e, e2 in run_events(look, env)]
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
            want = (None, struct.unpack('<H', d[16:18])[0]) if size == 18 else (bytes(d[13:16]), None)
            if len(got) != 1 or got[0] != want and not (size == 18 and got[0][1] == want[1]):
                c.bad('row', look[0].where() if look else tag, '%s: format looked up by %r, specified %r' % (tag, got, want),
                      'row|%s xf' % tag)
                return
    (c.ok if n and not und else c.open)('row', *(() if n and not und else (tag + ' xf',)))


def colinfo(c, bv):
    s = sheet_rec(c, 'XL_COLINFO', bv)
    tag = 'COLINFO biff%d' % bv
    o = stored_obj(s, 'Colinfo', None)
    if o is None:
        c.open('col', tag + ': no column object')
        return
    es = [senv(word(3) + word(9) + v, bv) for v in walking(8)]
    spec = dict(width=u16(4), xf_index=u16(6), hidden=bit(8, 0), bit1_flag=bit(8, 1), outline_level=bits(8, 8, 3),
                collapsed=bit(8, 12))
    obj_attrs(c, 'col', tag, s, o, spec, es)
    ks = [senv(word(a) + word(b) + bytes(range(8)), bv) for a in (0, 1, 7, 100, 254, 255, 256, 300)
          for b in (0, 1, 2, 7, 99, 255, 256, 257, 400)]

    def keys(e):
        a, b = struct.unpack('<HH', e.syms['data'][:4])
        if not a <= b <= 256:
            return []
        return list(range(a, min(b, 255) + 1))
    evs = map_stores(s, 'colinfo_map')
    if any(e.data[2] != o for e in evs):
        c.open('col', tag + ': stored object unknown')
    # the early exit of the loop is not part of the event; entries beyond the last column are cut off
    done = und = 0
    for env in ks:
        want = keys(env)
        try:
            got = [k for k, _, _ in stored_keys(evs, env)]
        except (E.Undef, E.Raised):
            und += 1
            continue
        done += 1
        if dedup(got) != want:
            c.bad('col', evs[-1].where() if evs else 'xlrd/sheet.py', '%s: columns %d to %d are stored as %s, specified %s'
                  % ((tag,) + struct.unpack('<HH', env.syms['data'][:4]) + (clip(got), clip(want))), 'col|%s keys' % tag)
            return
    (c.ok if done and not und else c.open)('col', *(() if done and not und else ('%s keys: %d undecided' % (tag, und),)))


def colwidth(c, bv):
    s = sheet_rec(c, 'XL_COLWIDTH', bv)
    tag = 'COLWIDTH biff%d' % bv
    es = [senv(bytes([a, b]) + word(1000 + a + b), bv, None, {('sheet', 'colinfo_map'): m})
          for a in (0, 1, 7, 255) for b in (0, 1, 2, 7, 99, 255) for m in ({}, {7: 1})]
    sets = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] == 'width']
    if not sets:
        c.open('col', tag + ': no width store')
        return
    for e in sets:
        check_term(c, 'col', tag + ' width', e.data[2], u16(2), e.where(), es)

    def keys(e):
        a, b = e.syms['data'][:2]
        m = e.inits[('sheet', 'colinfo_map')]
        return [x for x in range(a, b + 1) if x not in m]
    check_keys(c, 'col', tag, s, 'colinfo_map', es, keys)


def columndefault(c, bv):
    s = sheet_rec(c, 'XL_COLUMNDEFAULT', bv)
    tag = 'COLUMNDEFAULT biff%d' % bv
    es = [senv(word(a) + word(b) + bytes(range(48)) * 17, bv, None, {('sheet', 'colinfo_map'): m})
          for a in (0, 1, 7, 250) for b in (0, 1, 2, 9, 99, 256) if a < b for m in ({}, {8: 1})]

    def keys(e):
        a, b = struct.unpack('<HH', e.syms['data'][:4])
        m = e.inits[('sheet', 'colinfo_map')]
        return [x for x in range(a, b) if x not in m]
    check_keys(c, 'col', tag, s, 'colinfo_map', es, keys)
    look = [e for e in s.it.events if e.kind == 'biff2xf']
    n = und = 0
    for env in es:
        d = env.syms['data']
        a, b = struct.unpack('<HH', d[:4])
        try:
            got = [E.ev(e.data[0], e2) for e, e2 in run_events(look, env)]
        except (E.Undef, E.Raised):
            und += 1
            continue
        n += 1
        want = [d[4 + 3 * i:7 + 3 * i] for i in range(b - a)]
        if got != want:
            c.bad('col', look[0].where() if look else tag, '%s: columns %d to %d take attributes %s, specified %s'
                  % (tag, a, b, clip(got), clip(want)), 'col|%s attr' % tag)
            return
    (c.ok if n and not und else c.open)('col', *(() if n and not und else (tag + ' attributes',)))
    sets = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] == 'xf_index']
    for e in sets:
        check_term(c, 'col', tag + ' xf_index', e.data[2], ('sym', 'xfx'), e.where(), es)


def defaults(c, bv):
    es2 = [senv(v, bv) for v in walking(2)]
    es4 = [senv(v, bv) for v in walking(4)]
    for op, attr in (('XL_DEFCOLWIDTH', 'defcolwidth'), ('XL_STANDARDWIDTH', 'standardwidth')):
        s = sheet_rec(c, op, bv)
        sheet_attrs(c, 'defaults', '%s biff%d' % (op[3:], bv), s, {attr: u16(0)}, es2)
    s = sheet_rec(c, 'XL_DEFAULTROWHEIGHT', bv)
    tag = 'DEFAULTROWHEIGHT biff%d' % bv
    sheet_attrs(c, 'defaults', tag, s, dict(
        default_row_height=u16(2), default_row_height_mismatch=bit(0, 0), default_row_hidden=bit(0, 1),
        default_additional_space_above=bit(0, 2), default_additional_space_below=bit(0, 3)), es4)
    sheet_attrs(c, 'defaults', tag + ' (2 bytes)', s, dict(
        default_row_height=u16(0), default_row_height_mismatch=0, default_row_hidden=0,
        default_additional_space_above=0, default_additional_space_below=0), es2)
    s = sheet_rec(c, 'XL_GCW', bv)
    st = end_state(s)
    got = attr_of(s, st, s.sheet, 'gcw')
    if got is None or has_unknown(got):
        gcw_folded(c, s, bv)
        return
    es = [senv(b'\x20\0' + v, bv) for v in walking(32)]
    want = ('tuple', tuple(bit(2 + i // 8, i % 8) for i in range(256)))
    check_term(c, 'defaults', 'GCW biff%d' % bv, got, want, where_attr(s, s.sheet, 'gcw'), es)


def gcw_folded(c, s, bv):
    c.open('defaults', 'GCW biff%d: value not extracted' % bv)


# ------------------------------------------------------------------------ C19
WIN2 = ('show_formulas', 'show_grid_lines', 'show_sheet_headers', 'panes_are_frozen', 'show_zero_values',
        'automatic_grid_line_colour', 'columns_from_right_to_left', 'show_outline_symbols',
        'remove_splits_if_pane_freeze_is_removed', 'sheet_selected', 'sheet_visible', 'show_in_page_break_preview')


def nearest_hook(interp, st, fn, args, kwargs, node):
    a = list(args) + [kwargs.get('rgb')]
    return ('app', 'nearest', a[1] if a[1] is not None else TOP)


def C19(c):
    """WINDOW2 (both layouts), the version 2 form, PANE and SCL, and the derivation of the effective zoom factors."""
    c.rule('window2', 'every view option is its option bit; positions, grid colour and cached zooms are their fields')
    c.rule('window2-b2', 'the version 2 options are one byte each')
    c.rule('pane', 'split positions, first visible cells and active pane are their fields')
    c.rule('scl', 'the magnification is num*100//den, or 100 when outside 10..400')
    c.rule('zoom', 'the effective zooms follow the documented defaults')
    for bv in (80, 70, 50, 45, 40, 30):
        c.guard('window2', window2, c, bv)
    for bv in (21, 20):
        c.guard('window2-b2', window2_b2, c, bv)
    for bv in (80, 50, 45, 30, 21):
        c.guard('pane', pane, c, bv)
        c.guard('scl', scl, c, bv)
    c.guard('zoom', zoom, c)


def wrec(c, op, bv):
    h = biff2_hook(c, '', '', None)
    h['xlrd.formatting.nearest_colour_index'] = nearest_hook
    return sheet_record(c.prog, const_of(c.prog, op), bv, 1, hooks=h)


def window2(c, bv):
    s = wrec(c, 'XL_WINDOW2', bv)
    tag = 'WINDOW2 biff%d' % bv
    r = Rand(19)
    spec = {n: bit(0, i) for i, n in enumerate(WIN2)}
    spec.update(first_visible_rowx=u16(2), first_visible_colx=u16(4))
    if bv >= 80:
        es = [senv(v, bv) for v in walking(18)] + [senv(r.bytes(n), bv) for n in (14, 15, 16, 17, 19, 20, 26) for _ in range(4)]
        spec.update(gridline_colour_index=u16(6), cached_page_break_preview_mag_factor=u16(10),
                    cached_normal_view_mag_factor=u16(12))
    else:
        es = [senv(v, bv) for v in walking(10)] + [senv(r.bytes(n), bv) for n in (9, 11, 14, 18) for _ in range(4)]
        spec.update(gridline_colour_rgb=('tuple', (u8(6), u8(7), u8(8))))
    st = end_state(s)
    left = {}       # what an attribute is worth when the record does not set it from its own field
    if st is not None:
        for a in spec:
            t = obj_attr(s, st, s.sheet, a)
            for x in walk(t) if t is not None else ():
                if x[0] == 'phi' and a in x[2:] or x[0] == 'app' and x[1] == 'nearest':
                    left[x] = -77
    es = [E.Env(e.syms, e.inits, e.ks, {**e.extra, **left}) for e in es]
    sheet_attrs(c, 'window2', tag, s, spec, es)
    if bv < 80:
        got = attr_of(s, end_state(s), s.sheet, 'gridline_colour_index')
        want = ('app', 'nearest', ('tuple', (u8(6), u8(7), u8(8))))
        if got == want:
            c.ok('window2')
        else:
            c.open('window2', tag + ' gridline_colour_index')


def window2_b2(c, bv):
    s = wrec(c, 'XL_WINDOW2_B2', bv)
    tag = 'WINDOW2_B2 biff%d' % bv
    es = [senv(v, bv) for v in walking(14)]
    spec = {n: ite(ne0(u8(i)), const(1), const(0)) for i, n in enumerate(WIN2[:5])}
    spec.update(first_visible_rowx=u16(5), first_visible_colx=u16(7), automatic_grid_line_colour=u8(9),
                gridline_colour_rgb=('tuple', (u8(10), u8(11), u8(12))))
    sheet_attrs(c, 'window2-b2', tag, s, spec, es)


def pane(c, bv):
    s = wrec(c, 'XL_PANE', bv)
    es = [senv(v, bv) for v in walking(10)]
    sheet_attrs(c, 'pane', 'PANE biff%d' % bv, s, dict(
        vert_split_pos=u16(0), horz_split_pos=u16(2), horz_split_first_visible=u16(4), vert_split_first_visible=u16(6),
        split_active_pane=u8(8), has_pane_record=1), es)


def scl(c, bv):
    s = wrec(c, 'XL_SCL', bv)
    es = [senv(word(a) + word(b), bv) for a in (0, 1, 2, 3, 9, 10, 40, 41, 75, 99, 100, 399, 400, 401, 65535)
          for b in (0, 1, 2, 3, 4, 9, 10, 100, 65535)]
    st = end_state(s)
    got = attr_of(s, st, s.sheet, 'scl_mag_factor')
    n = und = 0
    for e in es:
        a, b = struct.unpack('<HH', e.syms['data'])
        w = a * 100 // b if b else 0
        w = w if 10 <= w <= 400 else 100
        try:
            g = E.ev(got, e)
        except (E.Undef, E.Raised):
            und += 1
            continue
        n += 1
        if g != w:
            c.bad('scl', where_attr(s, s.sheet, 'scl_mag_factor'), 'biff%d: magnification %d/%d gives %r, specified %r'
                  % (bv, a, b, g, w), 'scl|biff%d' % bv)
            return
    (c.ok if n and not und else c.open)('scl', *(() if n and not und else ('biff%d: %s' % (bv, brief(got or TOP)),)))


def zoom(c):
    """effective zooms: the current view's is the SCL value (or 100), the other's is the cached value if valid"""
    s = Setup(c.prog, 80, 1)
    s.run('xlrd.sheet.Sheet.update_cooked_mag_factors', [s.sheet])
    pb = attr_of(s, s.st, s.sheet, 'cooked_page_break_preview_mag_factor')
    nv = attr_of(s, s.st, s.sheet, 'cooked_normal_view_mag_factor')
    if pb is None or nv is None:
        c.open('zoom', 'attributes not found')
        return
    n = und = 0
    for pbp in (0, 1):
        for sclv in (None, 10, 75, 400):
            for cn in (0, 9, 10, 100, 400, 401):
                for cp in (0, 9, 10, 60, 400, 401):
                    env = E.Env({}, {('sheet', 'show_in_page_break_preview'): pbp, ('sheet', 'scl_mag_factor'): sclv,
                                     ('sheet', 'cached_normal_view_mag_factor'): cn,
                                     ('sheet', 'cached_page_break_preview_mag_factor'): cp})
                    cur = 100 if sclv is None else sclv
                    if pbp:
                        want = (cur, cn if 10 <= cn <= 400 else cur)
                    else:
                        want = (60 if not cp else cp if 10 <= cp <= 400 else cur, cur)
                    try:
                        got = (E.ev(pb, env), E.ev(nv, env))
                    except (E.Undef, E.Raised):
                        und += 1
                        continue
                    n += 1
                    if got != want:
                        c.bad('zoom', 'xlrd/sheet.py in Sheet.update_cooked_mag_factors',
                              'preview=%d scl=%r cached=(%d, %d): effective zooms (preview, normal) %r, documented %r'
                              % (pbp, sclv, cp, cn, got, want), 'zoom|value')
                        return
    (c.ok if n and not und else c.open)('zoom', *(() if n and not und else ('%d undecided' % und,)))


# ------------------------------------------------------------------------ C20
def C20(c):
    """MERGEDCELLS, page breaks, LABELRANGES, HLINK, QUICKTIP and NOTE: the items stored, for several item counts, and every
    attribute of hyperlinks and comments."""
    c.rule('ranges', 'merged ranges and label ranges become half-open ranges, one per item')
    c.rule('breaks', 'page breaks are reported one per item with their bounds')
    c.rule('hlink', 'hyperlink rows, columns and texts are the published fields; the map covers exactly the linked cells')
    c.rule('quicktip', 'a quick tip is attached to the last hyperlink')
    c.rule('note', 'comment row, column, flags, author and text are the published fields')
    for bv in (80, 70, 50):
        c.guard('ranges', merged, c, bv)
    for bv in (80, 50, 45, 30, 21):
        c.guard('breaks', breaks, c, bv)
    c.guard('ranges', labelranges, c)
    c.guard('hlink', hlink, c)
    c.guard('quicktip', quicktip, c)
    c.guard('note', note8, c)
    c.guard('note', note_old, c)
    c.guard('note', txo, c)


def appended(s, attr):
    return [e for e in s.it.events if e.kind == 'mcall' and e.data[1] == 'append' and e.data[0] == ('init', 'sheet', attr)]


def check_items(c, rule, tag, s, evs, envs_, want_fn):
    n = und = 0
    for env in envs_:
        want = want_fn(env.syms['data'])
        try:
            got = [E.ev(e.data[2][1][0], e2) for e, e2 in run_events(evs, env)]
        except E.Raised:
            got = 'an exception'
        except (E.Undef, Undecidable):
            und += 1
            continue
        n += 1
        if got != want:
            c.bad(rule, evs[0].where() if evs else 'xlrd/sheet.py in Sheet.read', '%s: record %s gives %s, specified %s'
                  % (tag, env.syms['data'][:24].hex(), clip(got), clip(want)), '%s|%s' % (rule, tag))
            return
    if n and not und:
        c.ok(rule, sample='%s: %s' % (tag, brief(evs[0].data[2], 100) if evs else '-'))
    else:
        c.open(rule, '%s: %d decided, %d not' % (tag, n, und))


def addr_list(r, n):
    return word(n) + b''.join(word(r.n(60000)) + word(r.n(60000)) + word(r.n(256)) + word(r.n(256)) for _ in range(n))


def read_list(d, p=0):
    n, = struct.unpack('<H', d[p:p + 2])
    out = []
    for i in range(n):
        a, b, x, y = struct.unpack('<4H', d[p + 2 + 8 * i:p + 10 + 8 * i])
        out.append((a, b + 1, x, y + 1))
    return out, p + 2 + 8 * n


def merged(c, bv):
    s = sheet_rec(c, 'XL_MERGEDCELLS', bv)
    r = Rand(3)
    es = [senv(addr_list(r, n), bv) for n in (0, 1, 2, 3, 17)]
    check_items(c, 'ranges', 'MERGEDCELLS biff%d' % bv, s, appended(s, 'merged_cells'), es, lambda d: read_list(d)[0])


def labelranges(c):
    s = sheet_rec(c, 'XL_LABELRANGES', 80)
    r = Rand(4)
    es = [senv(addr_list(r, n) + addr_list(r, m), 80) for n in (0, 1, 3) for m in (0, 1, 2)]
    check_items(c, 'ranges', 'LABELRANGES rows', s, appended(s, 'row_label_ranges'), es, lambda d: read_list(d)[0])
    check_items(c, 'ranges', 'LABELRANGES columns', s, appended(s, 'col_label_ranges'), es,
                lambda d: read_list(d, read_list(d)[1])[0])


def breaks(c, bv):
    r = Rand(5)
    for op, attr, hi in (('XL_HORIZONTALPAGEBREAKS', 'horizontal_page_breaks', 255),
                         ('XL_VERTICALPAGEBREAKS', 'vertical_page_breaks', 65535)):
        s = sheet_rec(c, op, bv)
        if bv >= 80:
            es = [senv(word(n) + r.bytes(6 * n), bv) for n in (0, 1, 2, 5)]

            def want(d):
                return [struct.unpack('<HHH', d[2 + 6 * i:8 + 6 * i]) for i in range((len(d) - 2) // 6)]
        else:
            es = [senv(word(n) + r.bytes(2 * n), bv) for n in (0, 1, 2, 5)]

            def want(d):
                return [(struct.unpack('<H', d[2 + 2 * i:4 + 2 * i])[0], 0, hi) for i in range((len(d) - 2) // 2)]
        check_items(c, 'breaks', '%s biff%d' % (op[3:], bv), s, appended(s, attr), es, want)


# ---- hyperlinks
URL = bytes.fromhex('e0c9ea79f9bace118c8200aa004ba90b')
FILE = bytes.fromhex('0303000000000000c000000000000046')


def ntu(t):
    b = (t + '\0').encode('utf_16_le')
    return struct.pack('<I', len(b) // 2) + b


def hlink_cases():
    guid = bytes.fromhex('d0c9ea79f9bace118c8200aa004ba90b')
    out = []
    k = 0
    for desc in (None, 'a description'):
        for target in (None, 'frame1'):
            for mark in (None, 'Sheet1!A1'):
                for kind in ('url', 'file', 'file-short', 'unc', 'workbook', 'none'):
                    opt = 0
                    if desc is not None:
                        opt |= 0x14
                    if target is not None:
                        opt |= 0x80
                    if mark is not None:
                        opt |= 8
                    body = b''
                    want = dict(desc=desc, target=target, textmark=mark)
                    if kind == 'url':
                        opt |= 3
                        u = 'http://x.example/%d' % k
                        b = (u + '\0').encode('utf_16_le')
                        x = b'' if k % 2 else bytes(24)
                        body = URL + struct.pack('<I', len(b) + len(x)) + b + x
                        want.update(type='url', url_or_path=u)
                    elif kind in ('file', 'file-short'):
                        opt |= 1
                        short = b'dir\\f%d.xls' % k
                        up = k % 3
                        body = FILE + struct.pack('<Hi', up, len(short) + 1) + short + b'\0' + b'\xff\xff\xad\xde' + bytes(20)
                        if kind == 'file':
                            l = 'directory\\file%d.xls' % k
                            e = l.encode('utf_16_le')
                            body += struct.pack('<ii', len(e) + 6, len(e)) + b'\3\0' + e
                            want.update(type='local file', url_or_path=l)
                        else:
                            body += struct.pack('<i', 0)
                            want.update(type='local file', url_or_path=b'..\\' * up + short)
                    elif kind == 'unc':
                        opt |= 0x103
                        body = ntu('\\\\server\\share%d' % k)
                        want.update(type='unc', url_or_path='\\\\server\\share%d' % k)
                    elif kind == 'workbook':
                        if not mark:
                            continue
                        want.update(type='workbook', url_or_path=None)
                    else:
                        if mark:
                            continue
                        want.update(type='unknown', url_or_path=None)
                    r0, r1, c0, c1 = 5 + k, 5 + k + k % 3, 2, 2 + k % 2
                    head = struct.pack('<4H', r0, r1, c0, c1) + guid + b'\2\0\0\0' + struct.pack('<I', opt)
                    d = head + (ntu(desc) if desc is not None else b'') + (ntu(target) if target is not None else b'') + \
                        body + (ntu(mark) if mark is not None else b'')
                    want.update(frowx=r0, lrowx=r1, fcolx=c0, lcolx=c1)
                    out.append((d, want))
                    k += 1
    return out


def hlink(c):
    s = sheet_rec(c, 'XL_HLINK', 80, maxsize=8000)
    objs = new_objects(s, 'Hyperlink')
    st = end_state(s)
    if not objs or st is None:
        c.open('hlink', 'no hyperlink object')
        return
    h = objs[-1]
    cases = hlink_cases()
    for attr in ('frowx', 'lrowx', 'fcolx', 'lcolx', 'desc', 'target', 'textmark', 'type', 'url_or_path'):
        t = obj_attr(s, st, h, attr)
        if t is None:
            c.open('hlink', attr + ' not found')
            continue
        n = und = 0
        bad = False
        for d, want in cases:
            env = senv(d, 80, {'hl.len': len(d)})
            try:
                g = E.ev(t, env)
            except E.Undef:
                und += 1
                continue
            except E.Raised:
                g = 'an exception'
            n += 1
            if g != want[attr]:
                c.bad('hlink', where_attr(s, h, attr), '%s of %s link with options 0x%x is %r, specified %r'
                      % (attr, want['type'], struct.unpack('<I', d[28:32])[0], g, want[attr]), 'hlink|' + attr)
                bad = True
                break
        if not bad:
            if n and not und:
                c.ok('hlink', sample='%s decided on %d link layouts' % (attr, n))
            else:
                c.open('hlink', '%s: %d decided, %d not' % (attr, n, und))
    # the map of linked cells, and no rejection of well-formed links
    evs = [e for e in map_stores(s, 'hyperlink_map')]
    raises = [e for e in s.it.events if e.kind == 'raise']
    n = und = 0
    for d, want in cases:
        env = senv(d, 80)
        w = [(r, x) for r in range(want['frowx'], want['lrowx'] + 1) for x in range(want['fcolx'], want['lcolx'] + 1)]
        try:
            got = [k for k, _, _ in stored_keys(evs, env)]
        except (E.Undef, E.Raised):
            und += 1
            continue
        n += 1
        if got != w:
            c.bad('hlink', evs[0].where() if evs else 'xlrd/sheet.py', 'cells linked by %s: %r, specified %r'
                  % (d[:8].hex(), got, w), 'hlink|map')
            return
    (c.ok if n and not und else c.open)('hlink', *(() if n and not und else ('map: %d undecided' % und,)))


def quicktip(c):
    s = sheet_rec(c, 'XL_QUICKTIP', 80)
    sets = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] == 'quicktip']
    if not sets:
        c.open('quicktip', 'no store')
        return
    es = [senv(b'\0\x08' + bytes(8) + t.encode('utf_16_le') + b'\0\0', 80) for t in ('', 'a', 'A quick tip \u20ac')]
    n = und = 0
    for e in sets:
        for env in es:
            w = env.syms['data'][10:-2].decode('utf_16_le')
            try:
                g = E.ev(e.data[2], env)
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
            if g != w:
                c.bad('quicktip', e.where(), 'text %r, specified %r' % (g, w), 'quicktip|text')
                return
        b = e.data[0]
        lst = ('init', 'sheet', 'hyperlink_list')
        if b[0] == 'app' and b[1] == 'item' and b[2] == lst:
            if b[3] == const(-1) or b[3] == sub(('app', 'len', lst), const(1)):
                c.ok('quicktip', sample='attached to %s' % brief(b))
            elif is_int_const(b[3]):
                c.bad('quicktip', e.where(), 'attached to %s, not to the last hyperlink' % brief(b), 'quicktip|owner')
            else:
                c.open('quicktip', 'owner')
        else:
            c.open('quicktip', 'owner')
    (c.ok if n and not und else c.open)('quicktip', *(() if n and not und else ('text',)))


def note8(c):
    s = sheet_rec(c, 'XL_NOTE', 80)
    objs = new_objects(s, 'Note')
    st = end_state(s)
    if not objs or st is None:
        c.open('note', 'no note object')
        return
    o = objs[-1]
    r = Rand(12)
    cases = []
    for i, (b, t, trail, flag) in enumerate(uni_samples()):
        if flag & 12:
            continue
        for opt in range(0, 512, 37):
            cases.append((struct.pack('<4H', r.n(65536), r.n(256), opt, r.n(65536)) + b + (b'\0' if opt % 2 else b''), t))
    for v in walking(8):
        cases.append((v + b'\1\0\0A', 'A'))
    vals = {'rowx': lambda d, t: struct.unpack('<H', d[0:2])[0], 'colx': lambda d, t: struct.unpack('<H', d[2:4])[0],
            'show': lambda d, t: d[4] >> 1 & 1, 'row_hidden': lambda d, t: d[4] >> 7 & 1,
            'col_hidden': lambda d, t: d[5] & 1, '_object_id': lambda d, t: struct.unpack('<H', d[6:8])[0],
            'author': lambda d, t: t}
    for attr, f in sorted(vals.items()):
        g = obj_attr(s, st, o, attr)
        n = und = 0
        bad = False
        for d, t in cases:
            try:
                v = E.ev(g, senv(d, 80)) if g is not None else None
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
            if v != f(d, t):
                c.bad('note', where_attr(s, o, attr), '%s of comment record %s is %r, specified %r'
                      % (attr, d[:16].hex(), v, f(d, t)), 'note|8 ' + attr)
                bad = True
                break
        if not bad:
            (c.ok if n and not und else c.open)('note', *(() if n and not und else ('%s: %d undecided' % (attr, und),)))


def note_old(c):
    s = sheet_rec(c, 'XL_NOTE', 50, unroll={'xlrd.sheet.Sheet.handle_note': 1})
    objs = new_objects(s, 'Note')
    st = end_state(s)
    if not objs or st is None:
        c.open('note', 'biff50: no note object')
        return
    o = objs[-1]
    cases = []
    r = Rand(8)
    for n in (1, 2, 30):
        b = bytes(33 + r.n(90) for _ in range(n))
        cases.append((struct.pack('<3H', r.n(65536), r.n(256), n) + b, b.decode(ENC)))
    for attr, f in (('rowx', lambda d, t: struct.unpack('<H', d[0:2])[0]), ('colx', lambda d, t: struct.unpack('<H', d[2:4])[0]),
                    ('text', lambda d, t: t), ('author', lambda d, t: '')):
        g = obj_attr(s, st, o, attr)
        n = und = 0
        bad = False
        for d, t in cases:
            try:
                v = E.ev(g, senv(d, 50)) if g is not None else None
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
            if v != f(d, t):
                c.bad('note', where_attr(s, o, attr), 'biff50: %s of comment record %s is %r, specified %r'
                      % (attr, d[:16].hex(), v, f(d, t)), 'note|5 ' + attr)
                bad = True
                break
        if not bad:
            (c.ok if n and not und else c.open)('note', *(() if n and not und else ('biff50 %s: %d undecided' % (attr, und),)))


def txo(c):
    q = 'xlrd.sheet.Sheet.handle_txo'
    s = Setup(c.prog, 80, 1)
    s.hook_records(0)
    s.last_serial = s.it.iter_serial_outer()
    s.it.unroll = {q: 2}
    s.it.symkinds['tdata'] = 'bytes'
    s.run(q, [s.sheet, ('sym', 'tdata')])
    objs = new_objects(s, 'MSTxo')
    if not objs:
        c.open('note', 'TXO: no object')
        return
    o = objs[-1]
    t = attr_of(s, s.st, o, 'text')
    n = und = 0
    r = Rand(21)
    for wide in (0, 1):
        for k in (1, 2, 40):
            txt = ''.join(chr(0x400 + r.n(200)) if wide else chr(33 + r.n(200)) for _ in range(k))
            head = struct.pack('<HH6sHHH', 0, 0, bytes(6), k, 0, 0)
            body = bytes([wide]) + txt.encode('utf_16_le' if wide else 'latin_1')
            env = E.Env({'tdata': head, 'rec1.rc': 0x3C, 'rec1.data': body, 'rec1.len': len(body), 'rec2.rc': 0,
                         'rec2.data': b'', 'rec2.len': 0, 'enc': ENC})
            try:
                g = E.ev(t, env)
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
            if g != txt:
                c.bad('note', where_attr(s, o, 'text'), 'comment text %r is read as %r' % (txt, g), 'note|txo text')
                return
    (c.ok if n and not und else c.open)('note', *(() if n and not und else ('TXO text: %d undecided: %s' % (und, brief(t or TOP, 200)),)))
