"""C10 sheet tables stay aligned."""
from .common import *
from .opening import Opening, sym_args

BOOK = 'xlrd.book.Book'
SHEET = 'xlrd.sheet.Sheet'
OLD = (20, 21, 30, 40)


def newlist(s, items):
    return s.it.alloc(s.st, HObj('list', items=tuple(items)))


def give(s, obj, attr, items):
    r = newlist(s, items)
    s.it.set_attr_raw(s.st, obj, attr, r)
    return r


class Tables(object):
    """which attributes of a workbook hold names, positions, visibility and sheets, seen from how loading uses them"""

    def __init__(self, c):
        s = self.s = Setup(c.prog, 80, hooks={BOOK + '.getbof': lambda *a: ('sym', 'bofbv'), SHEET + '.read': lambda *a: const(1)})
        s.it.symkinds['n'] = 'int'
        s.run(BOOK + '.get_sheet', [s.book, ('sym', 'n')])
        self.events = s.it.events
        self.names = self.positions = self.visibility = self.sheets = self.object = None
        for e in s.it.events:
            if e.kind == 'new' and e.data[1][2] == SHEET:
                self.object = e.data[0]
        for e in s.it.events:
            if e.kind != 'setattr' or e.data[0] != self.object:
                if e.kind == 'setattr' and e.data[0] == s.book and e.data[1] == '_position' and self.positions is None:
                    self.positions = self.indexed(e.data[2])
                if e.kind == 'setitem' and self.object is not None and e.data[2] == self.object and e.data[0][0] == 'init':
                    self.sheets = e.data[0][2]
                continue
            if e.data[1] == 'name':
                self.names = self.indexed(e.data[2])
            if e.data[1] == 'visibility':
                self.visibility = self.indexed(e.data[2])

    def indexed(self, t):
        if t[0] == 'app' and t[1] == 'item' and t[2][0] == 'init' and t[2][1] == 'book':
            return t[2][2]
        return None

    def ok(self):
        return None not in (self.names, self.positions, self.visibility, self.sheets)


def load_rule(c, T):
    """loading sheet n uses entry n of every table and stores the sheet there"""
    rule = 'load'
    for up in (True, False):
        s = Setup(c.prog, 80, hooks={BOOK + '.getbof': lambda *a: ('sym', 'bofbv'), SHEET + '.read': lambda *a: const(1)})
        s.it.symkinds['n'] = 'int'
        s.run(BOOK + '.get_sheet', [s.book, ('sym', 'n'), const(up)])
        obj = None
        for e in s.it.events:
            if e.kind == 'new' and e.data[1][2] == SHEET:
                obj = e.data[0]
        if obj is None:
            c.open(rule, 'no sheet object is created')
            return
        n = ('sym', 'n')
        env = E.Env({'n': 2, 'bofbv': 80}, {('book', T.names): ('a', 'b', 'c', 'd'), ('book', T.positions): (11, 22, 33, 44),
                                            ('book', T.visibility): (0, 1, 2, 3), ('book', '_position'): 777,
                                            ('book', '_all_sheets_map'): (0, -1, 1, 2, 3, -1, 4)}, {}, {})
        info = c.prog.func(BOOK + '.get_sheet')
        at = 'xlrd/book.py:%d' % s.it.func_info(info).node.lineno
        checks = [('name', attr_of(s, s.st, obj, 'name'), 'c'), ('number', attr_of(s, s.st, obj, 'number'), 2),
                  ('visibility', attr_of(s, s.st, obj, 'visibility'), 2)]
        pos = None
        for e in s.it.events:
            if e.kind == 'setattr' and e.data[0] == s.book and e.data[1] == '_position':
                pos = e.data[2]
                break
        if up:
            checks.append(('stream position read from', pos, 33))
        elif pos is None:
            c.ok(rule)
        else:
            checks.append(('stream position', pos, 777))
        for what, t, want in checks:
            try:
                g = E.ev(t, env) if t is not None else None
                if t is None:
                    raise E.Undef
            except (E.Undef, E.Raised):
                c.open(rule, what)
                continue
            if g == want:
                c.ok(rule, sample='sheet n: %s = %s' % (what, brief(t, 60)))
            else:
                c.bad(rule, at, 'loading sheet number 2 takes %s from the wrong place: %s' % (what, brief(t, 100)), key='load|%s' % what)
        st = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == ('init', 'book', T.sheets)]
        if len(st) == 1 and st[0].data[1] == n and st[0].data[2] == obj:
            c.ok(rule)
        elif len(st) == 1 and not has_unknown(st[0].data[1]) and st[0].data[1] != n and not any(g[0] == TOP for g in st[0].guards):
            c.bad(rule, st[0].where(), 'sheet number n is stored at %s' % brief(st[0].data[1], 60), key='load|store')
        else:
            c.open(rule, 'storing the sheet')
        if s.value == obj:
            c.ok(rule)
        else:
            c.open(rule, 'value returned')


def simulate(s, refs, env, undecidable):
    """the lists after the events of the run, under a valuation"""
    out = {a: list(v) for a, (r, v) in refs.items()}
    by = {r: a for a, (r, v) in refs.items()}
    dicts = {}
    for e in s.it.events:
        if e.kind == 'container' and e.data[0] in by:
            if e.loops:
                raise E.Undef
            if not guards_hold(e, env):
                continue
            a, m, args = by[e.data[0]], e.data[1], [E.ev(x, env) for x in e.data[2][1]]
            if m == 'append':
                out[a].append(args[0])
            elif m == 'extend' and isinstance(args[0], tuple):
                out[a].extend(args[0])
            elif m == 'insert':
                out[a].insert(args[0], args[1])
            elif m == 'pop':
                out[a].pop(*args)
            elif m in ('index', 'count', '__len__'):
                pass
            else:
                raise E.Undef
        elif e.kind == 'setitem' and e.data[0] in by:
            if not guards_hold(e, env):
                continue
            out[by[e.data[0]]][E.ev(e.data[1], env)] = E.ev(e.data[2], env)
        elif e.kind == 'setattr' and e.data[0] == s.book and e.data[1] in out:
            h = s.it.hget(s.st, e.data[2][1]) if e.data[2][0] == 'ref' else None
            if h is None or h.items is None:
                raise E.Undef
            if guards_hold(e, env):
                out[e.data[1]] = [E.ev(x, env) for x in h.items]
                by[e.data[2]] = e.data[1]
        elif e.kind in ('setitem', 'mcall') and e.data[0][0] == 'init' and e.data[0][1] == 'book':
            a = e.data[0][2]
            if a in out:
                raise E.Undef
            if e.kind == 'setitem' and guards_hold(e, env):
                dicts.setdefault(a, {})[E.ev(e.data[1], env)] = E.ev(e.data[2], env)
    return out, dicts


def records(bv):
    """(record bytes, name, offset, visibility, type)"""
    out = []
    for typ in ((0, 1, 2, 3, 4, 5, 6, 7, 16, 255) if bv != 45 else (0,)):
        for vis in (0, 1, 2):
            for off, name in ((0x123456, 'Sheet1'), (0x7ffffff0, 'x'), (77, 'N0')):
                if bv == 45:
                    d = bytes([len(name)]) + name.encode('ascii')
                elif bv < 80:
                    d = off.to_bytes(4, 'little') + bytes([vis, typ, len(name)]) + name.encode('ascii')
                else:
                    d = off.to_bytes(4, 'little') + bytes([vis, typ, len(name), 0]) + name.encode('latin-1')
                out.append((d, name, off, vis if bv != 45 else 0, typ))
    if bv == 80:
        for typ in (0, 2):
            name = u'\u0416\u03b1'
            out.append(((99).to_bytes(4, 'little') + bytes([1, typ, 2, 1]) + name.encode('utf-16-le'), name, 99, 1, typ))
    return out


def boundsheet(c, T, bv, before):
    rule = 'record'
    s = Setup(c.prog, bv)
    init = {T.names: ['N%d' % i for i in range(before)], T.positions: [1000 + i for i in range(before)],
            T.visibility: [0] * before, '_all_sheets_map': ([-1] + list(range(before))) if before else []}
    refs = {a: (give(s, s.book, a, [const(x) for x in v]), v) for a, v in init.items()}
    s.run(BOOK + '.handle_boundsheet', [s.book, ('sym', 'data')])
    at = 'xlrd/book.py:%d' % s.it.func_info(c.prog.func(BOOK + '.handle_boundsheet')).node.lineno
    c.count('boundsheet_runs')
    for d, name, off, vis, typ in records(bv):
        env = E.Env({'data': d, 'data_len': len(d), 'enc': 'latin-1'},
                    {('book', 'base'): 512, ('book', '_sheetsoffset'): 64, ('book', '_all_sheets_count'): before}, {}, {})
        label = 'version %d, type %d, %d sheets before' % (bv, typ, before)
        try:
            got, dicts = simulate(s, refs, env, None)
        except (E.Undef, E.Raised, IndexError):
            c.open(rule, label)
            continue
        want = {a: list(v) for a, v in init.items()}
        if typ == 0:
            want[T.names].append(name)
            want[T.visibility].append(vis)
            want[T.positions].append(off + 512 if bv != 45 else got[T.positions][-1] if len(got[T.positions]) > before else None)
            want['_all_sheets_map'].append(before)
        else:
            want['_all_sheets_map'].append(-1)
        for a in want:
            what = {T.names: 'sheet names', T.positions: 'stream positions', T.visibility: 'visibility'}.get(a, 'map of all sheets to worksheets')
            if got[a] == want[a]:
                c.ok(rule, sample='%s: %s %s' % (label, what, got[a][-2:]))
            else:
                c.bad(rule, at, '%s: after record %s the table of %s is %s, not %s'
                      % (label, d[:16].hex(), what, got[a], want[a]), key='record|%s' % what)
        nums = dicts.get('_sheet_num_from_name')
        if nums is not None or typ != 0:
            w = {name: before} if typ == 0 else {}
            if (nums or {}) == w:
                c.ok(rule)
            else:
                c.bad(rule, at, '%s: look-up of names gets %s, not %s' % (label, nums, w), key='record|numbers')


def sheethdr(c, T):
    rule = 'embedded'
    calls = []

    def get_sheet(it, st, fn, a, kw, node):
        b = it.bind(it.func_info(fn), a, kw, st)
        it.emit('hook', (const('get_sheet'), b.get('sh_number', TOP), b.get('update_pos', TOP)), st, node)
        return ('app', 'sheet')
    for n in (0, 2):
        s = Setup(c.prog, 45, hooks={BOOK + '.get_sheet': get_sheet, BOOK + '.initialise_format_info': lambda *a: NONE},
                  book={'_sheethdr_count': const(n)})
        names = [const('S%d' % i) for i in range(4)]
        give(s, s.book, T.names, names)
        L = give(s, s.book, T.sheets, [('app', 'sheet')] * n)
        s.run(BOOK + '.handle_sheethdr', [s.book, ('sym', 'data')])
        at = 'xlrd/book.py:%d' % s.it.func_info(c.prog.func(BOOK + '.handle_sheethdr')).node.lineno
        ev = [e for e in s.it.events if e.kind == 'hook']
        h = s.it.hget(s.st, L[1])
        grown = [i for i, e in enumerate(s.it.events) if e.kind == 'container' and e.data[0] == L and e.data[1] == 'append']
        if len(ev) == 1 and len(grown) == 1 and h.items is not None and len(h.items) == n + 1:
            c.ok(rule, sample='SHEETHDR number %d: the list grows by one' % n)
            if s.it.events.index(ev[0]) > grown[0]:
                c.ok(rule)
            else:
                c.bad(rule, ev[0].where(), 'the sheet is loaded before its place in the list exists', key='embedded|order')
        elif h.items is not None and len(h.items) != n + 1:
            c.bad(rule, at, 'after SHEETHDR number %d the sheet list has %d entries' % (n, len(h.items)), key='embedded|grow')
        else:
            c.open(rule, 'sheet list')
        for e in ev[:1]:
            if e.data[1] == const(n):
                c.ok(rule)
            elif e.data[1][0] == 'c':
                c.bad(rule, e.where(), 'SHEETHDR number %d loads sheet %s' % (n, e.data[1][2]), key='embedded|number')
            else:
                c.open(rule, 'number loaded')
            if e.data[2] == FALSE or e.data[2] == const(0):
                c.ok(rule)
            elif e.data[2][0] == 'c':
                c.bad(rule, e.where(), 'the embedded sheet is read from the table of positions, which is not filled for version 4',
                      key='embedded|position')
        cnt = attr_of(s, s.st, s.book, '_sheethdr_count')
        if cnt is not None:
            check_term(c, rule, 'number of the next SHEETHDR after %d' % n, cnt, const(n + 1), at, envs(16))
        p = attr_of(s, s.st, s.book, '_position')
        want = add(('init', 'book', '_position'), u32(0))
        env = envs(16, inits={('book', '_position'): 5000})
        check_term(c, rule, 'position after the embedded sheet', p, want, at, env)


def single(c, T):
    rule = 'single'
    for bv in OLD:
        s = Setup(c.prog, bv, hooks={BOOK + '.get_sheets': lambda *a: NONE, 'xlrd.formatting.initialise_book': lambda *a: NONE})
        for a in (T.names, T.positions, T.visibility, T.sheets):
            give(s, s.book, a, [])
        s.run(BOOK + '.fake_globals_get_sheet', [s.book])
        at = 'xlrd/book.py:%d' % s.it.func_info(c.prog.func(BOOK + '.fake_globals_get_sheet')).node.lineno
        for a, what, want in ((T.names, 'names', None), (T.positions, 'positions', 0), (T.visibility, 'visibility', 0), (T.sheets, 'sheets', None)):
            v = attr_of(s, s.st, s.book, a)
            h = s.it.hget(s.st, v[1]) if v is not None and v[0] == 'ref' else None
            if h is None or h.items is None:
                c.open(rule, 'version %d %s' % (bv, what))
            elif len(h.items) != 1:
                c.bad(rule, at, 'version %d: the table of %s has %d entries for the only sheet' % (bv, what, len(h.items)), key='single|%s' % what)
            elif want is not None and h.items[0][0] == 'c' and h.items[0] != const(want):
                c.bad(rule, at, 'version %d: %s of the only sheet is %s' % (bv, what, h.items[0][2]), key='single|%s' % what)
            else:
                c.ok(rule, sample='version %d: one entry in %s' % (bv, what))


def opened(c, T):
    """after the globals the list of sheets has one empty place per name, and the count of sheets is its length"""
    rule = 'open'
    for bv in (50, 70, 80, 45, 40, 21):
        names = tuple(const('S%d' % i) for i in range(3))

        def pg(it, st, fn, a, kw, node):
            r = it.alloc(st, HObj('list', items=names))
            it.set_attr_raw(st, a[0], T.names, r)
            if bv < 50:
                it.set_attr_raw(st, a[0], T.sheets, it.alloc(st, HObj('list', items=(('app', 'sheet'),) * 3)))
            it.emit('hook', (const('globals'),), st, node)
            return NONE

        def gs(it, st, fn, a, kw, node):
            v = attr_of(s0, st, a[0], T.sheets)
            h = it.hget(st, v[1]) if v is not None and v[0] == 'ref' else None
            it.emit('hook', (const('get_sheets'), const(len(h.items) if h is not None and h.items is not None else -1)), st, node)
            return NONE
        for od in (0, 1):
            o = object.__new__(Opening)
            s0 = o.s = Setup(c.prog, bv)
            o.calls, o.entry_state, o.book = [], None, None
            it = s0.it
            mark = {}

            def getbof(interp, st, fn, a, kw, node):
                mark['book'] = a[0]
                return const(bv)
            it.hooks.update({BOOK + '.getbof': getbof, BOOK + '.parse_globals': pg, BOOK + '.get_sheets': gs,
                             BOOK + '.fake_globals_get_sheet': pg, BOOK + '.biff2_8_load': lambda *a: NONE,
                             BOOK + '.release_resources': lambda *a: NONE})
            s0.run('xlrd.book.open_workbook_xls', [], {'filename': const('f'), 'on_demand': const(bool(od)), 'verbosity': const(0)})
            if 'book' not in mark:
                c.open(rule, 'opening version %d' % bv)
                continue
            at = 'xlrd/book.py:%d' % it.func_info(c.prog.func('xlrd.book.open_workbook_xls')).node.lineno
            b = mark['book']
            n = attr_of(s0, s0.st, b, 'nsheets')
            v = attr_of(s0, s0.st, b, T.sheets)
            h = it.hget(s0.st, v[1]) if v is not None and v[0] == 'ref' else None
            label = 'version %d, on demand %d' % (bv, od)
            if h is None or h.items is None:
                c.open(rule, label + ': sheet list')
            elif len(h.items) != 3:
                c.bad(rule, at, '%s: the sheet list has %d places for 3 names' % (label, len(h.items)), key='open|list')
            elif bv >= 50 and any(x != NONE and x[0] == 'c' for x in h.items):
                c.bad(rule, at, '%s: places of sheets not loaded are not None' % label, key='open|none')
            else:
                c.ok(rule, sample=label + ': 3 places for 3 names')
            if n == const(3):
                c.ok(rule)
            elif n is not None and n[0] == 'c':
                c.bad(rule, at, '%s: nsheets is %s for 3 sheets' % (label, n[2]), key='open|nsheets')
            else:
                c.open(rule, label + ': nsheets')
            ev = [e for e in it.events if e.kind == 'hook' and e.data[0] == const('get_sheets')]
            if bv >= 50:
                if od:
                    if not ev:
                        c.ok(rule)
                    else:
                        c.bad(rule, ev[0].where(), '%s: the sheets are loaded although loading on demand was asked for' % label, key='open|demand')
                elif len(ev) == 1 and ev[0].data[1] == const(3):
                    c.ok(rule)
                elif not ev:
                    c.bad(rule, at, '%s: the sheets are not loaded' % label, key='open|load')
                elif ev[0].data[1][2] not in (-1, 3):
                    c.bad(rule, ev[0].where(), '%s: loading starts with %d places for 3 sheets' % (label, ev[0].data[1][2]), key='open|order')
                else:
                    c.open(rule, label)


def all_loaded(c, T):
    """get_sheets loads numbers 0..n-1 once each, in order"""
    rule = 'open'

    def get_sheet(it, st, fn, a, kw, node):
        b = it.bind(it.func_info(fn), a, kw, st)
        it.emit('hook', (const('get_sheet'), b.get('sh_number', TOP)), st, node)
        return ('app', 'sheet')
    for n in (0, 1, 3):
        s = Setup(c.prog, 80, hooks={BOOK + '.get_sheet': get_sheet})
        give(s, s.book, T.names, [const('S%d' % i) for i in range(n)])
        give(s, s.book, T.sheets, [NONE] * n)
        s.it.set_attr_raw(s.st, s.book, 'nsheets', const(0))
        s.run(BOOK + '.get_sheets', [s.book])
        ev = [e.data[1] for e in s.it.events if e.kind == 'hook']
        w = [const(i) for i in range(n)]
        at = 'xlrd/book.py:%d' % s.it.func_info(c.prog.func(BOOK + '.get_sheets')).node.lineno
        if ev == w:
            c.ok(rule, sample='get_sheets loads %d sheets' % n)
        elif all(x[0] == 'c' for x in ev) and not any(e.loops for e in s.it.events if e.kind == 'hook'):
            c.bad(rule, at, 'loading all of %d sheets loads numbers %s' % (n, [x[2] for x in ev]), key='open|all')
        else:
            c.open(rule, 'get_sheets with %d sheets' % n)


def lookups(c, T):
    rule = 'look-up'
    prog = c.prog
    names = ('alpha', 'beta', 'gamma')

    def setup(loaded):
        def get_sheet(it, st, fn, a, kw, node):
            b = it.bind(it.func_info(fn), a, kw, st)
            k = b.get('sh_number', TOP)
            v = ('app', 'loaded', k)
            it.emit('hook', (const('get_sheet'), k), st, node)
            L = attr_of(s, st, s.book, T.sheets)
            h = it.hget(st, L[1])
            if k[0] == 'c' and h.items is not None and isinstance(k[2], int):
                xs = list(h.items)
                try:
                    xs[k[2]] = v
                except IndexError:
                    pass
                st.heap[L[1]] = h.copy(items=tuple(xs))
            return v
        s = Setup(prog, 80, hooks={BOOK + '.get_sheet': get_sheet})
        give(s, s.book, T.names, [const(x) for x in names])
        objs = []
        for i in range(3):
            objs.append(s.it.new_opaque(s.st, SHEET, 'sh%d' % i, number=const(i)) if loaded[i] else NONE)
        s.L = give(s, s.book, T.sheets, objs)
        s.it.set_attr_raw(s.st, s.book, '_sheet_num_from_name', s.it.alloc(s.st, HObj('dict', items=tuple(
            (const(n), const(i)) for i, n in enumerate(names)))))
        s.it.set_attr_raw(s.st, s.book, 'nsheets', const(3))
        s.objs = objs
        return s

    def want(s, i):
        return s.objs[i] if s.objs[i] != NONE else ('app', 'loaded', const(i % 3 if i >= 0 else i))
    for loaded in ((1, 1, 1), (0, 0, 0), (1, 0, 1), (0, 1, 0)):
        for meth, mk in (('sheet_by_index', lambda i: const(i)), ('sheet_by_name', lambda i: const(names[i])),
                         ('__getitem__', lambda i: const(i)), ('__getitem__', lambda i: const(names[i]))):
            for i in range(3):
                s = setup(loaded)
                arg = mk(i)
                s.run(BOOK + '.' + meth, [s.book, arg])
                at = 'xlrd/book.py:%d' % s.it.func_info(prog.func(BOOK + '.' + meth)).node.lineno
                label = '%s(%r), loaded %s' % (meth, arg[2], loaded)
                raised = [e for e in s.it.events if e.kind in ('raise', 'implicit_raise')]
                if s.value == want(s, i):
                    c.ok(rule, sample=label)
                elif s.value[0] in ('ref', 'c') or s.value[0] == 'app' and s.value[1] == 'loaded' and s.value[2][0] == 'c':
                    c.bad(rule, at, '%s yields %s' % (label, 'nothing' if s.value == NONE else 'a different sheet'), key='look-up|%s' % meth)
                else:
                    c.open(rule, '%s: %s' % (label, brief(s.value, 60)))
        # a name that does not exist
        for meth in ('sheet_by_name', '__getitem__', 'sheet_loaded', 'unload_sheet'):
            s = setup(loaded)
            s.run(BOOK + '.' + meth, [s.book, const('delta')])
            r = [e for e in s.it.events if e.kind == 'raise']
            at = 'xlrd/book.py:%d' % s.it.func_info(prog.func(BOOK + '.' + meth)).node.lineno
            if r and r[0].data[0] == const('XLRDError'):
                c.ok(rule)
            elif s.value is not None and s.value[0] in ('ref', 'c') and (s.value != NONE or meth == 'unload_sheet'):
                c.bad(rule, at, '%s of a name that does not exist is answered' % meth, key='look-up|missing %s' % meth)
            else:
                c.open(rule, '%s of a missing name' % meth)
        for i in range(3):
            for arg in (const(i), const(names[i])):
                s = setup(loaded)
                s.run(BOOK + '.sheet_loaded', [s.book, arg])
                at = 'xlrd/book.py:%d' % s.it.func_info(prog.func(BOOK + '.sheet_loaded')).node.lineno
                if s.value[0] == 'c':
                    if bool(s.value[2]) == bool(loaded[i]):
                        c.ok(rule)
                    else:
                        c.bad(rule, at, 'sheet_loaded(%r) is %s when loaded is %s' % (arg[2], s.value[2], bool(loaded[i])), key='look-up|sheet_loaded')
                else:
                    c.open(rule, 'sheet_loaded(%r)' % arg[2])
                s = setup(loaded)
                s.run(BOOK + '.unload_sheet', [s.book, arg])
                h = s.it.hget(s.st, s.L[1])
                at = 'xlrd/book.py:%d' % s.it.func_info(prog.func(BOOK + '.unload_sheet')).node.lineno
                v = attr_of(s, s.st, s.book, T.sheets)
                w = tuple(NONE if j == i else x for j, x in enumerate(s.objs))
                if v != s.L or h.items is None:
                    c.open(rule, 'unload_sheet(%r)' % arg[2])
                elif h.items == w:
                    c.ok(rule)
                else:
                    c.bad(rule, at, 'unload_sheet(%r) leaves %d sheets instead of dropping exactly that one' % (arg[2], len(h.items)), key='look-up|unload')
        s = setup(loaded)
        s.run(BOOK + '.sheets', [s.book])
        h = s.it.hget(s.st, s.value[1]) if s.value[0] == 'ref' else None
        at = 'xlrd/book.py:%d' % s.it.func_info(prog.func(BOOK + '.sheets')).node.lineno
        if h is None or h.items is None:
            c.open(rule, 'sheets(), loaded %s' % (loaded,))
        elif h.items == tuple(want(s, i) for i in range(3)):
            c.ok(rule)
        else:
            c.bad(rule, at, 'sheets() with %s loaded yields %s' % (loaded, [brief(x, 30) for x in h.items]), key='look-up|sheets')
        s = setup(loaded)
        s.run(BOOK + '.__iter__', [s.book])
        ys = [e.data[0] for e in s.it.events if e.kind == 'yield' and not e.loops]
        at = 'xlrd/book.py:%d' % s.it.func_info(prog.func(BOOK + '.__iter__')).node.lineno
        if ys == [want(s, i) for i in range(3)]:
            c.ok(rule)
        elif ys and all(y[0] == 'ref' or y == NONE or y[0] == 'app' and y[1] == 'loaded' and y[2][0] == 'c' for y in ys):
            c.bad(rule, at, 'iteration with %s loaded yields %s' % (loaded, [brief(x, 30) for x in ys]), key='look-up|iter')
        else:
            c.open(rule, 'iteration, loaded %s' % (loaded,))
        s = setup(loaded)
        s.run(BOOK + '.sheet_names', [s.book])
        h = s.it.hget(s.st, s.value[1]) if s.value[0] == 'ref' else None
        if h is None or h.items is None:
            c.open(rule, 'sheet_names()')
        elif h.items == tuple(const(x) for x in names):
            c.ok(rule)
        else:
            c.bad(rule, 'xlrd/book.py', 'sheet_names() yields %s' % [brief(x, 30) for x in h.items], key='look-up|names')


def C10(c):
    """The attributes that hold names, positions, visibility and sheets are found from how loading uses them. The sheet record
    handler is interpreted for each version over an unknown record with concrete tables before it; its table changes are folded
    over records of every sheet type and visibility. Embedded sheets (version 4), single-sheet files, the end of opening,
    loading and every look-up are interpreted over small concrete tables."""
    T = Tables(c)
    c.rule('load', 'loading sheet n uses entry n of each table and stores the sheet in place n')
    c.rule('record', 'a sheet record adds one entry to each table, or none if it is not a worksheet')
    c.rule('embedded', 'each embedded sheet adds one place and is loaded into it')
    c.rule('single', 'files with one sheet have one entry in each table')
    c.rule('open', 'after opening there is one place per name, all sheets are loaded unless on demand')
    c.rule('look-up', 'look-up by index, by name and by iteration yield the same sheet')
    c.count('tables_identified', 4 if T.ok() else 0)
    if not T.ok():
        c.open('load', 'the sheet tables were not recognised: %s' % [T.names, T.positions, T.visibility, T.sheets])
        T.names, T.positions, T.visibility, T.sheets = (T.names or '_sheet_names', T.positions or '_sh_abs_posn',
                                                        T.visibility or '_sheet_visibility', T.sheets or '_sheet_list')
    c.guard('load', load_rule, c, T)
    for bv in (45, 50, 70, 80):
        for before in (0, 2):
            c.guard('record', boundsheet, c, T, bv, before)
    c.guard('embedded', sheethdr, c, T)
    c.guard('single', single, c, T)
    c.guard('open', opened, c, T)
    c.guard('open', all_loaded, c, T)
    c.guard('look-up', lookups, c, T)
