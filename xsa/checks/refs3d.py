"""C45 sheets and boxes of 3-D references; C46 what a defined name hands back."""
import struct
from .common import *
from .decode_globals import genv, supbook, externsheet8, externsheet57
from .decode_formula import FORM, settle, deep, seq, pick, last_store, pack_area, spec_of
from .decode_cells import run_events

NS = 5
MAP = (0, -1, 1, 2, -1)        # worksheets 0..2, a chart and a macro sheet among them
LOCAL, ADDIN, FOREIGN = 1, 2, 0


# ---------------------------------------------------------------- C45
def C45(c):
    """The functions that turn the sheet fields of a 3-D reference into worksheet numbers, interpreted over the reference table and
    the map of all sheets; and the three reference operators of the name evaluator, interpreted over symbolic operand bytes."""
    c.rule('biff8', 'version 8: own sheets map to their worksheet numbers; external, unspecified, deleted, chart/macro, add-in and broken ones to their markers')
    c.rule('biff57', 'version 5/7: the same for the sheet fields inside the reference')
    c.rule('operators', 'a reference operator yields the list, the intersection or the bounding box of exactly its two operands')
    c.rule('supbook', 'the table of workbooks referred to: one entry per record, the entries for this workbook and for add-ins indexed')
    c.rule('externsheet', 'version 8: one (workbook, first sheet, last sheet) triple per reference')
    c.rule('externsheet57', 'version 5/7: the kind of every reference')
    c.guard('supbook', supbook, c)
    c.guard('externsheet', externsheet8, c)
    for bv in (70, 50):
        c.guard('externsheet57', externsheet57, c, bv)
    c.guard('biff8', local8, c)
    c.guard('biff57', local57, c)
    for bv in (50, 80):
        for op in (0x0f, 0x10, 0x11):
            c.guard('operators', combine, c, bv, op)


def local_spec(f, l):
    if not 0 <= f <= l < NS:
        return 'broken'
    a, b = MAP[f], MAP[l]
    return (a, b) if 0 <= a <= b else (-3, -3)


def excepts(s):
    out = set()
    for t in [s.value] + [g[0] for e in s.it.events for g in e.guards]:
        for x in walk(t):
            if x[0] == 'app' and x[1] == 'except':
                out.add(x)
    return out


def result_of(s, e):
    """the pair returned, or the name of what is raised, under a valuation"""
    for ev in s.it.events:
        if ev.kind == 'raise' or ev.kind == 'return' and not ev.sites:
            if all(E.truth(g[0], e) == bool(g[1]) for g in ev.guards):
                if ev.kind == 'raise':
                    return 'an exception'
                break
    v = deep(s, s.value, e)
    if isinstance(v, tuple) and len(v) == 2 and all(isinstance(x, int) for x in v):
        return v
    return v


def judge(s, want):
    def got(e):
        g = result_of(s, e)
        if want == 'broken' and isinstance(g, tuple) and all(isinstance(x, int) and x < -1 for x in g):
            return 'broken'
        return g
    return got


def local8(c):
    q = FORM + 'get_externsheet_local_range'
    s = Setup(c.prog, 80)
    s.run(q, [s.book, ('sym', 'refx')])
    exc = excepts(s)
    groups = {}
    pairs = [(f, l) for f in range(-1, NS + 2) for l in range(-1, NS + 2) if f >= 0 and l >= 0]
    pairs += [(0xfffe, 0xfffe), (0xffff, 0xffff), (0xfffe, 0xffff), (0, 0xffff), (0xfffe, 0), (0x7fff, 0x7fff)]
    for f, l in pairs:
        for rec in (LOCAL, FOREIGN, ADDIN, 3):
            if rec == ADDIN and not f == l == 0xfffe:
                continue
            if rec == ADDIN:
                w = (-5, -5)
            elif rec != LOCAL:
                w = (-4, -4)
            elif f == l == 0xfffe:
                w = (-1, -1)
            elif f == l == 0xffff:
                w = (-2, -2)
            else:
                w = local_spec(f, l)
            for refx in (0, 1, 2):
                table = [(FOREIGN, 9, 9)] * 3
                table[refx] = (rec, f, l)
                groups.setdefault(w, []).append((refx, table))
    groups['broken'] += [(3, [(LOCAL, 0, 0)] * 3), (70, [(LOCAL, 0, 0)]), (0, [])]
    for w, rows in sorted(groups.items(), key=str):
        cases = []
        for refx, table in rows:
            ex = {x: refx >= len(table) for x in exc}
            cases.append((E.Env({'refx': refx}, {('book', '_externsheet_info'): tuple(table), ('book', '_all_sheets_map'): MAP,
                                                 ('book', '_supbook_locals_inx'): LOCAL, ('book', '_supbook_addins_inx'): ADDIN}, {}, ex), w))
        settle(c, 'biff8', 'references that resolve to %s' % (w,), judge(s, w), cases, where_fn(c, 'get_externsheet_local_range'))


def local57(c):
    q = FORM + 'get_externsheet_local_range_b57'
    s = Setup(c.prog, 50)
    s.run(q, [s.book, ('sym', 'raw'), ('sym', 'first'), ('sym', 'last')])
    groups = {}
    pairs = [(f, l) for f in range(-2, NS + 2) for l in range(-2, NS + 2)] + [(-1, -1), (0x7fff, 0x7fff), (-32768, 3), (0, 0x7fff)]
    for raw in (-32768, -3, -2, -1, 1, 2, 300, 32767):
        for f, l in pairs:
            w = (-4, -4) if raw > 0 else (-2, -2) if f == l == -1 else local_spec(f, l)
            groups.setdefault(w, []).append((raw, f, l))
    for w, rows in sorted(groups.items(), key=str):
        cases = [(E.Env({'raw': r, 'first': f, 'last': l}, {('book', '_all_sheets_map'): MAP}), w) for r, f, l in rows]
        settle(c, 'biff57', 'references that resolve to %s' % (w,), judge(s, w), cases, where_fn(c, 'get_externsheet_local_range_b57'))


OPNAME = {0x0f: 'intersection', 0x10: 'union', 0x11: 'range'}


def combine(c, bv, op):
    body = 8 if bv >= 80 else 6
    pre = 2 if bv >= 80 else 14
    n = pre + body
    s = Setup(c.prog, bv, maxsize=20000)

    def local(it, st, fn, a, kw, node):
        x = a[1] if bv >= 80 else a[2]
        return ('tuple', (x, x))
    for f in ('get_externsheet_local_range', 'get_externsheet_local_range_b57'):
        s.it.hooks[FORM + f] = local
    formula = ('app', 'cat', const(b'\x3b'), sl(0, n), const(b'\x3b'), sl(n, 2 * n), const(bytes([op])))
    nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=formula, basic_formula_len=const(2 * n + 3))
    s.run(FORM + 'evaluate_name_formula', [s.book, nobj, const(0)])
    res = attr_of(s, s.st, nobj, 'result')
    label = 'name %s biff%d' % (OPNAME[op], bv)

    def got(e):
        if res is None:
            raise E.Undef('no result')
        r = pick(res, e)
        if r[0] != 'ref':
            raise E.Undef('no single result')
        v = last_store(s, r, 'value', e)
        kind = last_store(s, r, 'kind', e)
        if v is None or kind is None:
            raise E.Undef('no value')
        k = E.ev(kind, e)
        items = listed(s, v, e)
        if items is None:
            return k, None
        out = []
        for x in items:
            x = pick(x, e)
            co = last_store(s, x, 'coords', e)
            rf = last_store(s, x, 'relflags', e)
            out.append((deep(s, co, e), deep(s, rf, e)))
        return k, out

    cases = []
    boxes = [((1, 2), (3, 4)), ((2, 1), (9, 6)), ((0, 0), (0, 0)), ((5, 3), (5, 200)), ((0, 7), (0x3ff0, 7)), ((3, 3), (3, 3)), ((1, 0), (8, 0xff))]
    for i, p in enumerate(boxes):
        for j, q in enumerate(boxes):
            for rel in (0, 1):
                sa, sb = (0, 0) if (i + j) % 3 else (i, j)
                d = b''
                co = []
                fl = None
                for sh, (lo, hi) in ((sa, p), (sb, q)):
                    a, b = lo + (rel, rel), hi + (rel, rel)
                    d += (struct.pack('<H', sh) if bv >= 80 else struct.pack('<h8xhh', -1, sh, sh)) + pack_area(a, b, bv)
                    A, B = spec_of(a, bv, 1, None), spec_of(b, bv, 1, None)
                    co.append((sh, sh + 1, A[0], B[0] + 1, A[1], B[1] + 1))
                    fl = (0, 0, rel, rel, rel, rel)
                x, y = co
                if op == 0x10:
                    w = [(x, fl), (y, fl)]
                elif op == 0x0f:
                    w = [(tuple((max, min)[k % 2](x[k], y[k]) for k in range(6)), fl)]
                else:
                    w = [(tuple((min, max)[k % 2](x[k], y[k]) for k in range(6)), fl)]
                cases.append((genv(d), (-2 if rel else -1, w)))
    settle(c, 'operators', label, got, cases, where_fn(c, 'evaluate_name_formula'))


def listed(s, v, e):
    """the elements of a list value (possibly one list joined to another), None for no value"""
    v = pick(v, e)
    if v[0] == 'c' and v[2] is None:
        return None
    if v[0] == 'app' and v[1] in ('+', 'cat', 'concat') and len(v) >= 4:
        out = []
        for x in v[2:]:
            y = listed(s, x, e)
            if y is None:
                raise E.Undef('value')
            out += y
        return out
    h = s.obj(v) if v[0] == 'ref' else None
    if h is not None and h.items is None and h.elems:
        # a list whose order was lost: one reference object is all that it can hold
        boxes = {x.data[0] for x in s.it.events if x.kind == 'setattr' and x.data[1] == 'coords'}
        got = [x for x in h.elems if x in boxes]
        if len(got) == 1:
            return got
    return list(seq(s, v))


def where_fn(c, name):
    f = c.prog.func(FORM + name)
    if f is None:
        return 'xlrd/formula.py'
    return 'xlrd/formula.py:%d in %s' % (f.node.lineno if hasattr(f, 'node') else 0, name)


# ---------------------------------------------------------------- C46
SH = 'xlrd.sheet.Sheet.'


def C46(c):
    """Name.cell and Name.area2d interpreted over a result of every kind and over symbolic boxes; what they return, ask the workbook and
    the sheet for, and raise is folded over boundary boxes and sheet sizes."""
    c.rule('cell', 'a name for one cell of one sheet yields that cell of that sheet')
    c.rule('area', 'a name for one box of one sheet yields the sheet and the box, clipped to the sheet unless asked otherwise')
    c.rule('other', 'any other name, or one without a constant value, is answered by XLRDError and by nothing else')
    for how, clip in (('cell', None), ('area2d', 0), ('area2d', 1), ('area2d', None)):
        for shape in ('one', 'none', 'no result', 'two', 'empty'):
            c.guard('other' if shape != 'one' else 'cell' if how == 'cell' else 'area', named, c, how, clip, shape)


def named(c, how, clip, shape):
    s = Setup(c.prog, 80, verbosity=0)
    at = where_name(c, how)
    asked = []

    def sheet_by_index(it, st, fn, a, kw, node):
        x = a[1] if len(a) > 1 else list(kw.values())[0]
        asked.append(x)
        it.emit('hook', (const('sheet'), x), st, node)
        return s.sheet

    def cell(it, st, fn, a, kw, node):
        b = it.bind(it.func_info(fn), a, kw, st)
        return ('app', 'cellof', b.get('rowx', TOP), b.get('colx', TOP))
    s.it.hooks['xlrd.book.Book.sheet_by_index'] = sheet_by_index
    s.it.hooks[SH + 'cell'] = cell
    s.it.hooks['xlrd.biffh.BaseObject.dump'] = lambda *a: NONE
    for a in ('nrows', 'ncols'):
        s.it.set_attr_raw(s.st, s.sheet, a, ('sym', a))
    names = ('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi')

    def box(i):
        t = [('sym', n if not i else n + str(i)) for n in names]
        return s.it.new_opaque(s.st, 'xlrd.formula.Ref3D', 'ref%d' % i, coords=('tuple', tuple(t)), **dict(zip(names, t)))
    if shape == 'no result':
        result = NONE
    else:
        value = NONE if shape == 'none' else s.it.new_list(s.st, [box(i) for i in range({'one': 1, 'two': 2, 'empty': 0}[shape])])
        result = s.it.new_opaque(s.st, 'xlrd.formula.Operand', 'operand', kind=('sym', 'kind'), value=value)
    nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', result=result, book=s.book)
    args = [nobj] + ([const(clip)] if clip is not None else [])
    s.run('xlrd.book.Name.' + how, args)
    c.count('runs')
    groups = {}
    for kind in (-1, -2, 0, 1, 2, 3, 4, 5):
        for sl_ in ((0, 1), (2, 3), (0, 2), (-1, 0), (-4, -3), (-3, -2), (3, 3)):
            for r in ((0, 1), (4, 5), (4, 9), (0, 65536), (9, 12), (200, 201), (7, 5)):
                for k in ((0, 1), (3, 4), (3, 5), (0, 256), (7, 9), (150, 151), (6, 3)):
                    for nr, nc in ((10, 8), (0, 0), (300, 200), (6, 120)) if kind == -1 else ((10, 8),):
                        v = dict(zip(names, sl_ + r + k))
                        v.update(kind=kind, nrows=nr, ncols=nc)
                        for n in names:
                            v[n + '1'] = v[n]
                        good = shape == 'one' and kind == -1 and 0 <= sl_[0] == sl_[1] - 1
                        if how == 'cell':
                            good = good and r[1] == r[0] + 1 and k[1] == k[0] + 1
                            w = ('cell', sl_[0], r[0], k[0]) if good else 'XLRDError'
                        elif not good:
                            w = 'XLRDError'
                        elif clip == 0:
                            w = ('area', sl_[0]) + r + k
                        else:
                            a, b = min(r[0], nr), min(k[0], nc)
                            w = ('area', sl_[0], a, max(a, min(r[1], nr)), b, max(b, min(k[1], nc)))
                        groups.setdefault(w if w == 'XLRDError' else w[0], []).append((E.Env(v), w))
    for g, cases in sorted(groups.items()):
        rule = 'other' if g == 'XLRDError' else g
        label = '%s%s of a name with %s: %s' % (how, '' if clip is None else ' clipped=%d' % clip, {'one': 'one box', 'none': 'no constant value',
                                                'no result': 'no result', 'two': 'two boxes', 'empty': 'no box'}[shape], g)
        settle_named(c, rule, label, s, cases, at)


def named_outcome(s, e):
    sheet = None
    for ev in s.it.events:
        if ev.kind in ('raise', 'keyerror', 'implicit_raise', 'typeerror', 'badcall', 'hook') or ev.kind == 'return' and not ev.sites:
            if not all(E.truth(g[0], e) == bool(g[1]) for g in ev.guards):
                continue
            if ev.kind == 'hook':
                sheet = E.ev(ev.data[1], e)
            elif ev.kind == 'return':
                break
            elif ev.kind == 'raise':
                return ev.data[0][2] if ev.data[0][0] == 'c' else 'an exception'
            else:
                return {'typeerror': 'TypeError', 'keyerror': 'a lookup error'}.get(ev.kind, 'an internal error')
    v = s.value
    v = pick(v, e)
    if v[0] == 'app' and v[1] == 'cellof':
        return ('cell', sheet, E.ev(v[2], e), E.ev(v[3], e))
    if v[0] == 'tuple' and len(v[1]) == 5:
        if v[1][0] != s.sheet:
            raise E.Undef('sheet')
        return ('area', sheet) + tuple(E.ev(x, e) for x in v[1][1:])
    if v[0] == 'c':
        return v[2]
    raise E.Undef('value')


def settle_named(c, rule, label, s, cases, at):
    n = und = 0
    for e, want in cases:
        try:
            g = named_outcome(s, e)
        except E.Undef:
            und += 1
            continue
        except E.Raised:
            g = 'an exception'
        n += 1
        if g != want:
            c.bad(rule, at, '%s: box %s of kind %d yields %s, documented: %s' % (
                label, tuple(e.syms[x] for x in ('shtxlo', 'shtxhi', 'rowxlo', 'rowxhi', 'colxlo', 'colxhi')), e.syms['kind'], g, want),
                '%s|%s' % (rule, label))
            return
    if n and not und:
        c.ok(rule, sample=label)
        c.count('valuations', n)
    else:
        c.open(rule, '%s: %d decided, %d not' % (label, n, und))


def where_name(c, how):
    f = c.prog.func('xlrd.book.Name.' + how)
    try:
        return 'xlrd/book.py:%d in Name.%s' % (Setup(c.prog, 80).it.func_info(f).node.lineno, how)
    except Exception:
        return 'xlrd/book.py in Name.%s' % how
