"""C16 XF records, C17 FONT / STYLE / FORMAT / PALETTE records.

Specification: the published record layouts (OpenOffice.org documentation of the
Excel file format, sections on XF, FONT, STYLE, FORMAT, PALETTE).
"""
from .common import *
from .common import _f

ONE = const(1)
ZERO = const(0)


def xf_spec(bv):
    """{(part, attribute): term}; part '' is the XF itself"""
    d = {}

    def put(part, **kw):
        for k, v in kw.items():
            d[(part, k)] = v if isinstance(v, tuple) else const(v)

    def orient(t):
        return ('app', 'table', t, ('tuple', tuple(('tuple', (const(i), const(v))) for i, v in enumerate((0, 255, 90, 180)))))

    def flags(off):
        # used-attribute flags: number format, font, alignment, border, background, protection
        for i, n in enumerate(('format', 'font', 'alignment', 'border', 'background', 'protection')):
            put('', **{'_%s_flag' % n: bit(off, 2 + i)})
    if bv >= 80:
        put('', font_index=u16(0), format_key=u16(2), is_style=bit(4, 2), lotus_123_prefix=bit(4, 3),
            parent_style_index=bits(4, 4, 12))
        put('protection', cell_locked=bit(4, 0), formula_hidden=bit(4, 1))
        put('alignment', hor_align=bits(6, 0, 3), text_wrapped=bit(6, 3), vert_align=bits(6, 4, 3), rotation=u8(7),
            indent_level=bits(8, 0, 4), shrink_to_fit=bit(8, 4), text_direction=bits(8, 6, 2))
        flags(9)
        put('border', left_line_style=bits(10, 0, 4), right_line_style=bits(10, 4, 4), top_line_style=bits(10, 8, 4),
            bottom_line_style=bits(10, 12, 4), left_colour_index=bits(10, 16, 7), right_colour_index=bits(10, 23, 7),
            diag_down=bit(10, 30), diag_up=bit(10, 31), top_colour_index=bits(14, 0, 7),
            bottom_colour_index=bits(14, 7, 7), diag_colour_index=bits(14, 14, 7), diag_line_style=bits(14, 21, 4))
        put('background', fill_pattern=bits(14, 26, 6), pattern_colour_index=bits(18, 0, 7),
            background_colour_index=bits(18, 7, 7))
    elif bv >= 50:
        put('', font_index=u16(0), format_key=u16(2), is_style=bit(4, 2), lotus_123_prefix=bit(4, 3),
            parent_style_index=bits(4, 4, 12))
        put('protection', cell_locked=bit(4, 0), formula_hidden=bit(4, 1))
        put('alignment', hor_align=bits(6, 0, 3), text_wrapped=bit(6, 3), vert_align=bits(6, 4, 3),
            rotation=orient(bits(7, 0, 2)))
        flags(7)
        put('background', pattern_colour_index=bits(8, 0, 7), background_colour_index=bits(8, 7, 7),
            fill_pattern=bits(8, 16, 6))
        put('border', bottom_line_style=bits(8, 22, 3), bottom_colour_index=bits(8, 25, 7), top_line_style=bits(12, 0, 3),
            left_line_style=bits(12, 3, 3), right_line_style=bits(12, 6, 3), top_colour_index=bits(12, 9, 7),
            left_colour_index=bits(12, 16, 7), right_colour_index=bits(12, 23, 7))
    elif bv >= 30:
        put('', font_index=u8(0), format_key=u8(1), is_style=bit(2, 2), lotus_123_prefix=bit(2, 3))
        put('protection', cell_locked=bit(2, 0), formula_hidden=bit(2, 1))
        if bv >= 40:
            put('', parent_style_index=bits(2, 4, 12))
            put('alignment', hor_align=bits(4, 0, 3), text_wrapped=bit(4, 3), vert_align=bits(4, 4, 2),
                rotation=orient(bits(4, 6, 2)))
            flags(5)
        else:
            flags(3)
            put('', parent_style_index=bits(4, 4, 12))
            put('alignment', hor_align=bits(4, 0, 3), text_wrapped=bit(4, 3), vert_align=2, rotation=0)
        put('background', fill_pattern=bits(6, 0, 6), pattern_colour_index=bits(6, 6, 5),
            background_colour_index=bits(6, 11, 5))
        put('border', top_line_style=bits(8, 0, 3), top_colour_index=bits(8, 3, 5), left_line_style=bits(8, 8, 3),
            left_colour_index=bits(8, 11, 5), bottom_line_style=bits(8, 16, 3), bottom_colour_index=bits(8, 19, 5),
            right_line_style=bits(8, 24, 3), right_colour_index=bits(8, 27, 5))
    else:
        put('', font_index=u8(0), format_key=bits(2, 0, 6), parent_style_index=0)
        put('protection', cell_locked=bit(2, 6), formula_hidden=bit(2, 7))
        put('alignment', hor_align=bits(3, 0, 3), vert_align=2, rotation=0)
        for i, side in enumerate(('left', 'right', 'top', 'bottom')):
            b = bit(3, 3 + i)
            put('border', **{side + '_line_style': ite(ne0(b), ONE, ZERO), side + '_colour_index': ite(ne0(b), const(8), ZERO)})
        put('background', fill_pattern=ite(ne0(bit(3, 7)), const(17), ZERO), background_colour_index=9,
            pattern_colour_index=8)
        for n in ('format', 'font', 'alignment', 'border', 'background', 'protection'):
            put('', **{'_%s_flag' % n: 1})
    if bv < 80:
        put('alignment', indent_level=0, shrink_to_fit=0, text_direction=0)
        put('border', diag_up=0, diag_down=0, diag_colour_index=0, diag_line_style=0)
    return d


def C16(c):
    """Each XF branch is interpreted abstractly over an unknown record; the term left in every attribute of the
    resulting format object is compared with the bit field the published layout assigns to it for that version."""
    c.rule('xf-field', 'every XF attribute is the published bit field of the record in that version')
    c.rule('xf-number', 'the XF index is the number of XFs seen before, and the XF is appended to the list')
    c.assumptions.append('records are at least as long as their version prescribes; shorter ones raise')
    fields_dep = {}
    for bv in (80, 70, 50, 45, 40, 30, 21):
        for fmt in (1, 0):
            c.guard('xf-field', xf_one, c, bv, fmt)


def xf_one(c, bv, fmt):
    rc = {21: 'XL_XF2', 30: 'XL_XF3', 40: 'XL_XF4', 45: 'XL_XF4'}.get(bv, 'XL_XF')
    op = const_of(c.prog, rc)
    if bv in (40, 45, 30, 21):
        # these versions have no globals stream of their own: the records occur in the worksheet stream
        s = sheet_record(c.prog, op, bv, fmt) if bv != 45 else globals_record(c.prog, const_of(c.prog, 'XL_XF4'), bv, fmt)
    else:
        s = globals_record(c.prog, op, bv, fmt)
    tag = 'biff%d' % bv
    objs = new_objects(s, 'XF')
    if not objs:
        if bv == 45:
            s = sheet_record(c.prog, op, bv, fmt)
            objs = new_objects(s, 'XF')
        if not objs:
            c.open('xf-field', '%s: no XF object is created' % tag)
            return
    st = end_state(s)
    if st is None:
        c.open('xf-field', '%s: record handling never completes' % tag)
        return
    c.count('xf_record_variants')
    c.count('statements_interpreted', s.it.stats['stmts'])
    xf = objs[-1]
    parts = {'': xf}
    for p in ('alignment', 'border', 'background', 'protection'):
        parts[p] = attr_of(s, st, xf, p)
    es = envs()
    # the second part of an XF may be replaced when its format key is unknown
    for (part, attr), want in sorted(xf_spec(bv).items()):
        label = '%s %s%s' % (tag, part + '.' if part else '', attr)
        ref = parts.get(part)
        if ref is None or ref[0] != 'ref':
            c.open('xf-field', label + ': part object not found')
            continue
        got = attr_of(s, st, ref, attr)
        if attr == 'format_key' and got is not None and got[0] == 'app' and got[1] == 'ite':
            # replaced by 0 when no such format exists
            got = strip_missing_format(got, want)
        check_term(c, 'xf-field', label, got, want, where_attr(s, ref, attr), es)
    app = [e for e in s.it.events if e.kind in ('mcall', 'container') and e.data[1] == 'append'
           and xf in args_of(e)]
    idx = attr_of(s, st, xf, 'xf_index')
    if len(app) == 1 and idx is not None:
        base = app[0].data[0]
        want = ('app', 'len', base)
        if idx == want or strip_len(idx) == strip_len(want):
            c.ok('xf-number', sample='%s xf_index = %s' % (tag, brief(idx)))
        elif to_lin(idx) is not None and strip_len(idx) != strip_len(want) and not has_unknown(idx) \
                and is_int_const(sub(strip_len(idx), strip_len(want))):
            c.bad('xf-number', where_attr(s, xf, 'xf_index'), '%s: xf_index is %s, not the position in the list'
                  % (tag, brief(idx)))
        else:
            c.open('xf-number', '%s: %s' % (tag, brief(idx)))
    elif not app:
        c.open('xf-number', '%s: XF is never appended' % tag)


def strip_len(t):
    return subst(t, lambda x: ('app', 'len', x[2]) if x[0] == 'app' and x[1] == 'len' and len(x) > 3 else None)


def args_of(e):
    a = e.data[2] if len(e.data) > 2 else None
    if e.kind == 'mcall':
        return a[1] if a is not None and a[0] == 'tuple' else ()
    return a[1] if isinstance(a, tuple) and a and a[0] == 'tuple' else tuple(a or ())


def strip_missing_format(got, want):
    c0, a, b = got[2], got[3], got[4]
    if a == const(0) and any(x[0] == 'app' and x[1] == 'in' for x in walk(c0)):
        return b
    if b == const(0) and any(x[0] == 'app' and x[1] == 'in' for x in walk(c0)):
        return a
    return got


# ------------------------------------------------------------------------ C17

FONT_FLAGS = ('bold', 'italic', 'underlined', 'struck_out', 'outline', 'shadow')


def uni(off, lenlen, src=DATA):
    """version 8 Unicode string (option byte after the length) as the reader's own definition;
    the string layout itself is the business of C23"""
    return ('app', 'unistr', const(off), const(lenlen))


def font_spec(bv):
    d = {}
    if bv >= 50:
        d.update(height=u16(0), colour_index=u16(4), weight=u16(6), escapement=u16(8), underline_type=u8(10),
                 family=u8(11), character_set=u8(12))
        for i, n in enumerate(FONT_FLAGS):
            d[n] = bit(2, i)
        if bv < 80:
            d['name'] = dec(sl(15, add(u8(14), const(15))), ('sym', 'enc'))
    else:
        d.update(height=u16(0), escapement=const(0), family=const(0), character_set=const(1),
                 underline_type=bit(2, 2), weight=ite(ne0(bit(2, 0)), const(700), const(400)))
        for i, n in enumerate(FONT_FLAGS):
            d[n] = bit(2, i) if bv >= 30 or i < 4 else const(0)
        if bv >= 30:
            d['colour_index'] = u16(4)
            d['name'] = dec(sl(7, add(u8(6), const(7))), ('sym', 'enc'))
        else:
            d['colour_index'] = const(0x7FFF)
            d['name'] = dec(sl(5, add(u8(4), const(5))), ('sym', 'enc'))
    return d


BIFF8_STR = {}


def uni8(off, lenlen):
    """published layout of a version 8 string without rich text / phonetic part, as a term"""
    n = u8(off) if lenlen == 1 else u16(off)
    o = off + lenlen
    rich, phon, wide = bit(o, 3), bit(o, 2), bit(o, 0)
    body = add(add(const(o + 1), scale(rich, 2)), scale(phon, 4))
    narrow = dec(mk_slice(DATA, body, add(body, n)), 'latin_1')
    w = dec(mk_slice(DATA, body, add(body, scale(n, 2))), 'utf_16_le')
    return ite(eq(n, 0), const(''), ite(ne0(wide), w, narrow))


def C17(c):
    """FONT, STYLE, FORMAT and PALETTE handling is interpreted abstractly for every version; attribute terms, list
    numbering and map keys are compared with the published layouts."""
    c.rule('font-field', 'every font attribute is the published field of the FONT record in that version')
    c.rule('font-number', 'font numbers skip 4: record k of the list gets index k, with a dummy inserted at 4')
    c.rule('efont', 'the BIFF2 font-colour record sets the colour of the font record before it')
    c.rule('style', 'a style maps its (built-in or stored) name to (built-in flag, 12-bit XF index)')
    c.rule('format', 'a number format is stored under its key with its string')
    c.rule('palette', 'palette entry i replaces colour 8+i with the red, green, blue bytes of the record')
    for bv in (80, 70, 50, 45, 40, 30, 21):
        c.guard('font-field', font_one, c, bv)
    for bv in (80, 50):
        c.guard('style', style_one, c, bv)
        c.guard('palette', palette_one, c, bv)
    for bv in (80, 70, 50, 45, 40, 30, 21):
        c.guard('format', format_one, c, bv)
    c.guard('efont', efont, c)


def font_one(c, bv):
    if bv >= 45:
        s = globals_record(c.prog, const_of(c.prog, 'XL_FONT'), bv, 1)
        if not new_objects(s, 'Font'):
            s = sheet_record(c.prog, const_of(c.prog, 'XL_FONT'), bv, 1)
    else:
        s = sheet_record(c.prog, const_of(c.prog, 'XL_FONT' if bv != 30 and bv != 40 else 'XL_FONT_B3B4'), bv, 1)
    tag = 'biff%d' % bv
    objs = new_objects(s, 'Font')
    st = end_state(s)
    if not objs or st is None:
        c.open('font-field', '%s: no Font object' % tag)
        return
    f = objs[-1]
    spec = font_spec(bv)
    if bv >= 80:
        spec['name'] = uni8(14, 1)
    es = envs(syms={'enc': 'cp437'})
    for attr, want in sorted(spec.items()):
        check_term(c, 'font-field', '%s %s' % (tag, attr), attr_of(s, st, f, attr), want, where_attr(s, f, attr), es)
    # numbering
    apps = [e for e in s.it.events if e.kind == 'mcall' and e.data[1] == 'append' and any(o in args_of(e) for o in objs)]
    if len(apps) < 1:
        c.open('font-number', tag)
        return
    lst = apps[-1].data[0]
    idx = attr_of(s, st, f, 'font_index')
    for n in range(0, 12):
        ex = {}
        for x in walk(idx):
            if x[0] == 'app' and x[1] == 'len' and x[2] == lst:
                ex[x] = n
        for e in apps:
            for g in e.guards:
                for x in walk(g[0]):
                    if x[0] == 'app' and x[1] == 'len' and x[2] == lst:
                        ex[x] = n
        env = E.Env({'data': bytes(64)}, {}, {}, ex)
        want = n + 1 if n == 4 else n
        try:
            got = E.ev(idx, env)
            added = len([e for e in apps if guards_hold(e, env)])
        except (E.Undef, E.Raised):
            c.open('font-number', '%s with %d fonts' % (tag, n))
            continue
        if got != want or added != (2 if n == 4 else 1):
            c.bad('font-number', where_attr(s, f, 'font_index'),
                  '%s: with %d fonts present the next font gets index %r and %d entries are appended (specified: %d, %d)'
                  % (tag, n, got, added, want, 2 if n == 4 else 1), key='font-number|%s' % tag)
        else:
            c.ok('font-number')


def efont(c):
    s = sheet_record(c.prog, const_of(c.prog, 'XL_EFONT'), 21, 1)
    evs = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] == 'colour_index']
    if not evs:
        c.open('efont', 'no colour assignment')
        return
    for e in evs:
        check_term(c, 'efont', 'biff21 colour_index', e.data[2], u16(0), e.where(), envs())


def style_one(c, bv):
    s = globals_record(c.prog, const_of(c.prog, 'XL_STYLE'), bv, 1)
    sets = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'book', 'style_name_map')]
    tag = 'biff%d' % bv
    if not sets:
        c.open('style', tag)
        return
    names = c.prog.const_table('xlrd.formatting.built_in_style_names') or []
    spec_names = ["Normal", "RowLevel_", "ColLevel_", "Comma", "Currency", "Percent", "Comma [0]", "Currency [0]",
                  "Hyperlink", "Followed Hyperlink"]
    if list(names)[:10] != spec_names:
        c.bad('style', 'xlrd/formatting.py built_in_style_names', 'built-in style names are %r' % (names,), 'style|names')
    builtin = ne0(bit(0, 15))
    xfx = bits(0, 0, 12)
    base = ('app', 'table', u8(2), ('tuple', tuple(('tuple', (const(i), const(n))) for i, n in enumerate(spec_names))))
    isrc = ('app', 'inset', u8(2), ('tuple', (const(1), const(2))))
    bname = ite(isrc, ('app', 'cat', base, ('app', 'str', add(u8(3), const(1)))), base)
    uname = uni8(2, 2) if bv >= 80 else dec(sl(3, add(u8(2), const(3))), ('sym', 'enc'))
    wname = ite(builtin, bname, uname)
    wval = ('tuple', (ite(builtin, ONE, ZERO), xfx))
    es = []
    for e in envs(syms={'enc': 'cp437'}):
        d = bytearray(e.syms['data'])
        for b2 in (None, 0, 1, 2, 3, 5, 9):
            dd = bytearray(d)
            if b2 is not None:
                dd[2] = b2
            es.append(E.Env({'data': bytes(dd), 'enc': 'cp437'}, {('book', 'style_name_map'): {}}, {}, {}))
    for label, i, want in (('name', 1, wname), ('value', 2, wval)):
        bad = dec_n = und = 0
        for e in es:
            try:
                w = E.ev(want, e)
            except (E.Undef, E.Raised):
                continue
            hit = None
            try:
                for ev in sets:
                    if guards_hold(ev, e):
                        hit = (ev, E.ev(ev.data[i], e))
            except E.Raised:
                continue
            except E.Undef:
                und += 1
                continue
            dec_n += 1
            if hit is None or hit[1] != w:
                c.bad('style', sets[-1].where(), '%s: record %s gives %s %r, specified %r'
                      % (tag, e.syms['data'][:8].hex(), label, hit[1] if hit else None, w), 'style|%s|%s' % (tag, label))
                bad = 1
                break
        if not bad:
            (c.ok if dec_n and not und else c.open)('style', *(() if dec_n and not und else ('%s %s' % (tag, label),)))


def format_one(c, bv):
    op = {21: 'XL_FORMAT2', 30: 'XL_FORMAT2', 40: 'XL_FORMAT', 45: 'XL_FORMAT'}.get(bv, 'XL_FORMAT')
    rc = const_of(c.prog, op)
    hooks = {'xlrd.formatting.is_date_format_string': lambda *a: ('app', 'truth', ('sym', 'isdate'))}
    s = (globals_record if bv >= 50 else sheet_record)(c.prog, rc, bv, 1, hooks=hooks)
    tag = 'biff%d' % bv
    st = end_state(s)
    if bv == 45 and not new_objects(s, 'Format'):
        s = globals_record(c.prog, rc, bv, 1, hooks=hooks)
        st = end_state(s)
    sets = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'book', 'format_map')
            and e.func.endswith('handle_format')]
    objs = [o for o in new_objects(s, 'Format')]
    if not sets or not objs or st is None:
        c.open('format', tag)
        return
    ev = sets[-1]
    o = ev.data[2]
    cnt = None
    if bv >= 50:
        key = u16(0)
        name = uni8(2, 2) if bv >= 80 else dec(sl(3, add(u8(2), const(3))), ('sym', 'enc'))
    else:
        key = None
        off = 0 if bv <= 30 else 2
        name = dec(sl(off + 1, add(u8(off), const(off + 1))), ('sym', 'enc'))
    es = envs(syms={'enc': 'cp437'})
    if key is not None:
        check_term(c, 'format', tag + ' key', ev.data[1], key, ev.where(), es)
        check_term(c, 'format', tag + ' format_key', attr_of(s, st, o, 'format_key'), key, where_attr(s, o, 'format_key'), es)
    else:
        k = ev.data[1]
        end = attr_of(s, st, s.book, 'actualfmtcount')
        if end is not None and k is not None:
            d = sub(end, k)
            if d == const(1):
                c.ok('format', sample='%s: key is the count of formats before, count grows by 1' % tag)
            elif is_int_const(d):
                c.bad('format', ev.where(), '%s: format key and format counter are out of step (%s)' % (tag, brief(d)),
                      'format|%s key' % tag)
            else:
                c.open('format', tag + ' key ' + brief(k))
    check_term(c, 'format', tag + ' format_str', attr_of(s, st, o, 'format_str'), name, where_attr(s, o, 'format_str'), es)


def palette_one(c, bv):
    s = globals_record(c.prog, const_of(c.prog, 'XL_PALETTE'), bv, 1,
                       book={'palette_record': ('init', 'book', 'palette_record')})
    tag = 'biff%d' % bv
    sets = [e for e in s.it.events if e.kind == 'setitem' and len(e.loops) >= 2 and e.data[2][0] == 'tuple'
            and 'palette' in e.func]
    if not sets:
        c.open('palette', tag)
        return
    for e in sets:
        lid = e.loops[-1][0]
        k = ('k', lid)
        want = ('tuple', tuple(_f('u', DATA, add(const(2 + j), scale(k, 4)), 8) for j in range(3)))
        es = [x.with_k(lid, i) for x in envs() for i in (0, 1, 5)]
        check_term(c, 'palette', tag + ' rgb', e.data[2], want, e.where(), es)
        check_term(c, 'palette', tag + ' index', e.data[1], add(k, const(8)), e.where(), es)
        it = e.loops[-1][2]
        if e.loops[-1][1] == 'for':
            bad = None
            n = 0
            for v in (0, 1, 3, 16, 56):
                d = bytes([v, 0]) + bytes(300)
                try:
                    t = trip_count(it, E.Env({'data': d}, {}, {}, {}))
                except (E.Undef, E.Raised):
                    continue
                n += 1
                if t != v:
                    bad = (v, t)
            if bad:
                c.bad('palette', e.where(), '%s: a record of %d colours is processed for %d entries' % ((tag,) + bad),
                      'palette|%s|count' % tag)
            elif n:
                c.ok('palette')
            else:
                c.open('palette', tag + ' count')
