"""C09 sheets loaded on demand: the same content in every load order."""
from .common import *
import ast

from .. import sweep
from . import shared

LOADED = (50, 70, 80)              # versions whose sheets can be loaded one by one
CHANGES = ('setattr', 'setitem', 'container', 'delitem', 'setslice')
MUTATORS = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'update', 'setdefault', 'popitem', 'sort', 'reverse', 'add', 'discard', '__setitem__')
READ = 'xlrd.sheet.Sheet.read'
GET = 'xlrd.book.Book.get_sheet'


def rooted(t, book):
    """the attribute of the workbook through which t is reached: 'x' / ('x', 'y') for attribute y of something inside x / None"""
    tail = None
    while isinstance(t, tuple) and t:
        if t == book:
            return tail
        if t[0] == 'init' and len(t) == 3:
            if t[1] != 'book':
                return None
            return t[2] if tail is None else (t[2], tail)
        if t[0] == 'app' and t[1] == 'attr' and len(t) > 3:
            tail = tail or (t[3][2] if t[3][0] == 'c' else str(t[3]))
            t = t[2]
        elif t[0] == 'app' and t[1] in ('index', 'slice', 'get', 'element', 'iter', 'item') and len(t) > 2:
            t = t[2]
        else:
            return None
    return None


def mentioned(ts):
    """book attributes whose earlier value occurs in the terms, and the attribute names read below them"""
    out = set()

    def walk(t):
        if isinstance(t, (frozenset, list)):
            for x in t:
                walk(x)
            return
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'init' and len(t) == 3 and t[1] == 'book':
            out.add(t[2])
        if t == ('sym', 'enc'):
            out.update(('encoding', 'encoding_override', 'codepage'))    # what derive_encoding goes by
        if t[0] == 'app' and t[1] == 'attr' and len(t) > 3:
            r = rooted(t, None)
            if isinstance(r, tuple):
                out.add(r)
        for x in t:
            walk(x)
    for t in ts:
        walk(t)
    return out


def target(e, book):
    """the part of the workbook an event changes, or None"""
    if e.kind == 'setattr':
        if e.data[0] == book:
            return e.data[1]
        r = rooted(e.data[0], book)
        return None if r is None else (r if isinstance(r, str) else r[0], e.data[1])
    if e.kind in CHANGES or (e.kind == 'mcall' and e.data[1] in MUTATORS):
        if e.kind == 'container' and e.data[1] not in MUTATORS:
            return None
        return rooted(e.data[0], book)
    return None


def own(e, sheet):
    """the attribute of the sheet whose container an event changes"""
    if e.kind in ('setitem', 'container', 'delitem', 'setslice', 'mcall'):
        b = e.data[0]
        if e.kind in ('mcall', 'container') and e.data[1] not in MUTATORS:
            return None
        if isinstance(b, tuple) and b and b[0] == 'init' and len(b) == 3 and b[1] == 'sheet':
            return b[2]
    return None


def unchanged(e, what):
    """does the event put back what was there"""
    return e.kind == 'setattr' and e.data[2] == ('init', 'book', what)


def facts(s, j):
    out = []
    for e in s.it.events:
        w = target(e, s.book)
        if w is not None:
            if not (isinstance(w, str) and unchanged(e, w)):
                val = e.data[2] if e.kind == 'setattr' else e.data
                srcs = sources(val)
                out.append(('write', w, e.where(), srcs, e.kind))
            continue
        o = own(e, s.sheet)
        if o:
            out.append(('own', o, e.where()))
        if e.kind in ('put_cell', 'setattr', 'setitem', 'container', 'raise') or (e.kind == 'mcall' and o):
            for a in mentioned([e.data] + [g[0] for g in e.guards]):
                out.append(('read', a, e.where()))
    return [(j, x) for x in set(out)]


def sources(val):
    """what a value stored in the workbook is made of: 'record', 'sheet', and workbook attributes"""
    out = set()

    def walk(t):
        if isinstance(t, (frozenset, list)):
            for x in t:
                walk(x)
            return
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'sym' and str(t[1]).split('.')[0] in ('data', 'data_len', 'cond') or t[0] == 'sym' and str(t[1]).startswith('rec'):
            out.add('record')
        elif t[0] == 'init' and len(t) == 3:
            out.add('sheet' if t[1] == 'sheet' else 'book.' + t[2])
        elif t[0] == 'app' and t[1] == 'unpack':
            out.add('record')
        for x in t:
            walk(x)
    walk(val)
    return tuple(sorted(out))


def state_rule(c, rule):
    ops = sorted(set(sweep.record_opcodes(c.prog).values()))
    js = [('sheet', rc, bv, f, 0) for bv in LOADED for rc in ops for f in (0, 1)]
    c.prog.funcs
    fs, visited, errs = sweep.sweep(c.prog, facts, js)
    for e in errs:
        c.open(rule, 'analysis: ' + e)
    c.count('functions_analysed', len(visited))
    writes, reads, owns = {}, {}, {}
    for j, x in fs:
        d = writes if x[0] == 'write' else reads if x[0] == 'read' else owns
        d.setdefault(x[1], []).append((j, x))
    r2, w2 = loads(c)
    for d, d2 in ((reads, r2), (writes, w2)):
        for k, v in d2.items():
            d.setdefault(k, []).extend(v)
    c.count('record_runs', len(js) - len(errs))
    c.ok(rule, n=len(js) - len(errs))
    for w in sorted(writes, key=str):
        if w == '_position':
            continue                    # rule position
        hits = reads.get(w)
        j, x = min(writes[w], key=lambda v: (v[1][2], v[0]))
        tag = 'record 0x%x, version %d' % (j[1], j[2]) if j[0] == 'sheet' else '%s, version %d' % (j[0], j[2])
        name = 'book.' + w if isinstance(w, str) else 'attribute %s of what book.%s holds' % (w[1], w[0])
        if not hits:
            c.ok(rule, sample='%s changes %s, which no sheet is read with' % (tag, name))
            continue
        src = x[3]
        if x[4] == 'setattr' and not [q for q in src if q in ('record', 'sheet')] and 'book.%s' % (w,) not in src \
                and not [q for q in src if q[5:] in writes]:
            c.ok(rule, sample='%s sets %s to a value that every sheet would set' % (tag, name))
            continue
        rj, rx = min(hits, key=lambda v: (v[1][2], str(v[0])))
        c.bad(rule, x[2], 'loading or unloading a sheet (%s) changes %s, which another sheet is read with (%s)' % (tag, name, rx[2]),
              key='%s|%s' % (rule, w))
    owns[None] = visited
    owns[''] = reads
    return owns


def loads(c):
    """what Book.get_sheet and Book.unload_sheet themselves read and write of the workbook"""
    reads, writes = {}, {}
    for bv in LOADED:
        for s, n in ((loader(c.prog, bv), 'get_sheet'), (unloader(c.prog, bv), 'unload_sheet')):
            if s is None:
                continue
            for e in s.it.events:
                w = target(e, s.book)
                if w is not None:
                    if not (isinstance(w, str) and unchanged(e, w)):
                        writes.setdefault(w, []).append(((n, 0, bv), ('write', w, e.where(), ('sheet',), e.kind)))
                elif e.kind in ('setattr', 'setitem', 'raise') and n == 'get_sheet':
                    for a in mentioned([e.data] + [g[0] for g in e.guards]):
                        reads.setdefault(a, []).append(((n, 0, bv), ('read', a, e.where())))
            at = created(s)
            for k in at or ():
                for a in mentioned([at[k]]):
                    reads.setdefault(a, []).append(((n, 0, bv), ('read', a, 'sheet.' + k)))
    return reads, writes


def created(s):
    """attributes of the new sheet when its reading begins"""
    r = getattr(s, 'read_self', None)
    if r is None or r[0] != 'ref':
        return None
    return s.it.hget(s.read_state, r[1]).attrs


def unloader(prog, bv):
    s = Setup(prog, bv)
    s.it.symkinds['n'] = 'int'
    try:
        s.run('xlrd.book.Book.unload_sheet', [s.book, ('sym', 'n')])
    except (LookupError, Unsupported):
        return None
    return s


def loader(prog, bv, formatting=1):
    s = Setup(prog, bv, fmt=formatting)
    s.it.load_events = True
    s.began = []

    def read(interp, st, fn, args, kwargs, node):
        s.began.append((args, st))
        s.read_self = args[0] if args else None
        s.read_state = st
        return const(1)
    s.it.hooks[READ] = read
    s.it.symkinds['n'] = 'int'
    s.run(GET, [s.book, ('sym', 'n')])
    return s


def has(t, what):
    if isinstance(t, (frozenset, list)):
        return any(has(x, what) for x in t)
    if not isinstance(t, tuple):
        return False
    return t == what or any(has(x, what) for x in t)


def position_rule(c, rule):
    """where the reading of a sheet starts is decided by its own entry in the position table"""
    old = ('init', 'book', '_position')
    table = ('init', 'book', '_sh_abs_posn')
    for bv in LOADED:
        s = loader(c.prog, bv)
        reads = [e for e in s.it.events if e.kind == 'unpack' or (e.kind in ('slice', 'load') and has(e.data[0], ('init', 'book', 'mem')))]
        if not reads:
            c.open(rule, 'version %d: no access to the stream seen in get_sheet' % bv)
            continue
        for e in reads:
            if has(e.data, old):
                c.bad(rule, e.where(), 'version %d: loading a sheet on demand reads the stream at the position where earlier reading stopped' % bv,
                      key='%s|stream|%s' % (rule, e.func))
            elif has(e.data, table):
                c.ok(rule, sample='version %d: %s reads at the sheet\'s own position' % (bv, e.where()))
            else:
                c.open(rule, 'version %d: %s: position not resolved' % (bv, e.where()))
        # what the sheet object is given
        if s.read_self is not None and s.read_self[0] == 'ref':
            p = s.it.hget(s.read_state, s.read_self[1]).attrs
            for k in sorted(p):
                v = p[k]
                if not has(v, old):
                    continue
                c.bad(rule, 'xlrd/book.py get_sheet', 'version %d: the sheet\'s %s depends on where earlier reading stopped' % (bv, k),
                      key='%s|attr|%s' % (rule, k))
            c.ok(rule)
        # and the reader starts there
        first = []
        s = Setup(c.prog, bv)
        s.hook_records(OPCODES['XL_EOF'])
        s.hook_put_cell()
        inner = s.it.hooks['xlrd.book.Book.get_record_parts']

        def parts(interp, st, fn, args, kwargs, node, s=s, first=first, inner=inner):
            first.append(interp.get_attr(s.book, '_position', st))
            return inner(interp, st, fn, args, kwargs, node)
        s.it.hooks['xlrd.book.Book.get_record_parts'] = parts
        s.it.symkinds['n'] = 'int'
        s.run(GET, [s.book, ('sym', 'n')])
        if not first:
            c.open(rule, 'version %d: the reader reads no record' % bv)
            continue
        v = entry(s.it, first[0])
        if has(v, old):
            c.bad(rule, 'xlrd/sheet.py Sheet.read', 'version %d: the records of a sheet are read from a place that depends on where earlier reading stopped' % bv,
                  key='%s|read' % rule)
        elif has(v, table):
            c.ok(rule, sample='version %d: Sheet.read starts at its own position' % bv)
        else:
            c.open(rule, 'version %d: start of Sheet.read: %s' % (bv, str(v)[:80]))


def entry(it, v):
    """the value of a loop variable before the loop"""
    n = 0
    while isinstance(v, tuple) and v and v[0] == 'phi' and n < 5:
        e = it.phis.get((v[1], v[2]))
        if e is None:
            break
        v = e[0]
        n += 1
    return v


def own_rule(c, rule, owns):
    """the containers a sheet fills belong to it alone"""
    for bv in LOADED:
        s = loader(c.prog, bv)
        if s.read_self is None or s.read_self[0] != 'ref':
            c.open(rule, 'version %d: no sheet object seen' % bv)
            continue
        at = s.it.hget(s.read_state, s.read_self[1]).attrs
        shared = class_containers(c.prog, 'xlrd/sheet.py', 'Sheet')
        for a in sorted(x for x in owns if x):
            where = owns[a][0][1][2]
            v = at.get(a)
            if v is None:
                if a in shared:
                    c.bad(rule, where, 'version %d: every sheet adds to the one %s of the class, which is not created for each sheet' % (bv, a),
                          key='%s|%s' % (rule, a))
                else:
                    c.open(rule, 'version %d: sheet.%s is not created by Sheet.__init__' % (bv, a))
                continue
            r = rooted(v, s.book)
            if r is not None:
                c.bad(rule, where, 'version %d: a sheet adds to sheet.%s, which is the workbook\'s %s and so belongs to all sheets' % (bv, a, r),
                      key='%s|%s' % (rule, a))
            elif v[0] == 'ref' and s.it.hget(s.read_state, v[1]) is not None:
                c.ok(rule, sample='version %d: sheet.%s is created for each sheet' % (bv, a))
            else:
                c.open(rule, 'version %d: sheet.%s: %s' % (bv, a, str(v)[:60]))


def class_containers(prog, path, cls):
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and n.name == cls:
                for b in n.body:
                    if isinstance(b, ast.Assign) and isinstance(b.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.Call)):
                        for t in b.targets:
                            if isinstance(t, ast.Name):
                                out.add(t.id)
    return out


def encoding_rule(c, rule):
    """deriving the encoding twice gives the same encoding, whatever the code page"""
    q = 'xlrd.book.Book.derive_encoding'
    pages = [None, 0, 367, 437, 1200, 1252, 932, 10000, 10007, 21010, 32768, 32769, 850, 1000, 1999, 2000, 65001]
    for bv in LOADED:
        for over in (NONE, const('cp1251')):
            for cp in pages:
                s = Setup(c.prog, bv, book={'codepage': NONE if cp is None else const(cp), 'encoding_override': over, 'encoding': NONE,
                                            'raw_user_name': const(False)}, keep_encoding=True)
                try:
                    s.run(q, [s.book])
                    a = s.value
                    s.it.retvals = None
                    s.run(q, [s.book])
                    b = s.value
                except (LookupError, Unsupported) as e:
                    c.open(rule, '%s' % e)
                    continue
                tag = 'version %d, code page %s%s' % (bv, cp, '' if over == NONE else ', encoding_override')
                if a[0] == 'c' and b[0] == 'c':
                    if a == b:
                        c.ok(rule, sample='%s: %r both times' % (tag, a[2]))
                    else:
                        c.bad(rule, 'xlrd/book.py derive_encoding', '%s: the encoding is %r for the first sheet that asks and %r for the next' % (tag, a[2], b[2]),
                              key='%s|%s' % (rule, tag))
                elif a == b:
                    c.ok(rule)
                else:
                    c.open(rule, '%s: %s / %s' % (tag, str(a)[:40], str(b)[:40]))


def listed(prog, loaded, call):
    """-> (setup, value, calls of get_sheet, final _sheet_list items or None)"""
    s = Setup(prog, 80)
    it = s.it
    items = []
    for i, on in enumerate(loaded):
        items.append(it.new_opaque(s.st, 'xlrd.sheet.Sheet', 'old%d' % i) if on else NONE)
    lst = it.alloc(s.st, HObj('list', items=tuple(items)))
    names = it.alloc(s.st, HObj('list', items=tuple(const('s%d' % i) for i in range(len(loaded)))))
    it.set_attr_raw(s.st, s.book, '_sheet_list', lst)
    it.set_attr_raw(s.st, s.book, '_sheet_names', names)
    it.set_attr_raw(s.st, s.book, 'nsheets', const(len(loaded)))
    it.set_attr_raw(s.st, s.book, '_resources_released', const(0))
    it.set_attr_raw(s.st, s.book, 'on_demand', const(1))
    calls = []

    def get(interp, st, fn, args, kwargs, node):
        if node is None:
            return None
        calls.append((args[1:], tuple(sorted(kwargs.items()))))
        n = (args[1] if len(args) > 1 else kwargs.get('sh_number', TOP))
        new = interp.new_opaque(st, 'xlrd.sheet.Sheet', 'new%s' % (n[2] if n[0] == 'c' else '?'))
        o = interp.get_attr(s.book, '_sheet_list', st)
        if n[0] == 'c' and o[0] == 'ref':
            h = interp.hget(st, o[1])
            its = list(h.items)
            its[n[2]] = new
            st.heap[o[1]] = h.copy(items=tuple(its))
        return new
    it.hooks[GET] = get
    args = [s.book] + [const(x) for x in call[1:]]
    s.run('xlrd.book.Book.' + call[0], args)
    o = it.get_attr(s.book, '_sheet_list', s.st)
    h = it.hget(s.st, o[1]) if o[0] == 'ref' else None
    final = list(h.items) if h is not None and h.items is not None else None
    s.old = items
    return s, s.value, calls, final


def lists_rule(c, rule):
    """the accessors load what is not loaded, once, and give back what is at the index"""
    import itertools
    for loaded in itertools.product((0, 1), repeat=3):
        for k in range(3):
            for call in (('sheet_by_index', k), ('sheet_by_name', 's%d' % k), ('unload_sheet', k), ('unload_sheet', 's%d' % k), ('sheet_loaded', k)):
                one(c, rule, loaded, call, k)
        one(c, rule, loaded, ('sheets',), None)


def one(c, rule, loaded, call, k):
    tag = '%s(%s) with %s loaded' % (call[0], ', '.join(repr(x) for x in call[1:]), ', '.join(str(i) for i in range(3) if loaded[i]) or 'nothing')
    try:
        s, v, calls, final = listed(c.prog, loaded, call)
    except (LookupError, Unsupported) as e:
        c.open(rule, '%s: %s' % (tag, e))
        return
    where = 'xlrd/book.py %s' % call[0]
    if s.it.stats.get('cut_loops') or final is None:
        c.open(rule, '%s: the list of sheets was not followed' % tag)
        return

    def bad(what):
        c.bad(rule, where, '%s %s' % (tag, what), key='%s|%s' % (rule, call[0]))
    want = set(range(3)) - set(i for i in range(3) if loaded[i])
    if call[0] == 'sheets':
        exp = want
    elif call[0] in ('sheet_by_index', 'sheet_by_name'):
        exp = want & {k}
    else:
        exp = set()
    got = set()
    for a, kw in calls:
        n = a[0] if a else dict(kw).get('sh_number', TOP)
        if n[0] != 'c':
            c.open(rule, '%s: loads a sheet that was not determined' % tag)
            return
        got.add(n[2])
        up = a[1] if len(a) > 1 else dict(kw).get('update_pos', const(True))
        if up[0] == 'c' and not up[2]:
            bad('loads sheet %s from where earlier reading stopped' % n[2])
            return
    if got - exp or exp - got:
        # loading more than asked for is visible too: it replaces sheets the caller has
        again = [n for n in got - exp if n >= 0 and loaded[n]]
        if exp - got:
            bad('does not load sheet %s' % sorted(exp - got))
        elif again:
            bad('loads sheet %s again although it is loaded' % sorted(again))
        else:
            c.ok(rule)
        return
    want_final = ['gone' if (call[0] == 'unload_sheet' and i == k) else s.old[i] if loaded[i] else ('new' if i in exp else NONE) for i in range(3)]
    if len(final) != 3:
        bad('leaves %d sheets of 3 in the list' % len(final))
        return
    for i, w in enumerate(want_final):
        f = final[i]
        if w == 'gone':
            if f[0] == 'c' and not f[2]:
                continue
            bad('keeps sheet %d' % i) if f == s.old[i] and f != NONE else c.open(rule, '%s: entry %d is %s' % (tag, i, str(f)[:40]))
            return
        if w == 'new':
            if f[0] == 'ref' and f not in s.old:
                continue
            bad('leaves entry %d without the sheet it loaded' % i)
            return
        if f != w:
            bad('changes the entry of sheet %d' % i)
            return
    if call[0] in ('sheet_by_index', 'sheet_by_name'):
        if v == final[k]:
            c.ok(rule, sample='%s gives back sheet %d' % (tag, k))
        elif v[0] in ('ref', 'c'):
            bad('does not give back sheet %d' % k)
        else:
            c.open(rule, '%s: result %s' % (tag, str(v)[:60]))
    elif call[0] == 'sheets':
        h = s.it.hget(s.st, v[1]) if v[0] == 'ref' else None
        if h is None or h.items is None:
            c.open(rule, '%s: result %s' % (tag, str(v)[:60]))
        elif list(h.items) == final:
            c.ok(rule, sample='%s gives back all three' % tag)
        else:
            bad('gives back other sheets than the workbook holds')
    elif call[0] == 'sheet_loaded':
        if v[0] == 'c':
            c.ok(rule) if bool(v[2]) == bool(loaded[k]) else bad('answers %r' % v[2])
        else:
            c.open(rule, '%s: result %s' % (tag, str(v)[:60]))
    else:
        c.ok(rule)


def stored_rule(c, rule):
    """get_sheet(n) reads sheet n, files it under n, and returns it"""
    for bv in LOADED:
        s = loader(c.prog, bv)
        if not s.began:
            c.bad(rule, 'xlrd/book.py get_sheet', 'version %d: the sheet is not read' % bv, key=rule + '|read')
            continue
        at = s.it.hget(s.read_state, s.read_self[1]).attrs if s.read_self and s.read_self[0] == 'ref' else None
        puts = [e for e in s.it.events if e.kind == 'setitem' and rooted(e.data[0], s.book) == '_sheet_list']
        if not puts:
            c.open(rule, 'version %d: no entry of the sheet list is written' % bv)
        for e in puts:
            if e.data[1] == ('sym', 'n') and e.data[2] == s.read_self:
                c.ok(rule, sample='version %d: filed under its number' % bv)
            elif e.data[1] != ('sym', 'n') and e.data[1][0] in ('sym', 'c', 'app'):
                c.bad(rule, e.where(), 'version %d: sheet n is filed under %s' % (bv, str(e.data[1])[:60]), key=rule + '|index')
            else:
                c.open(rule, 'version %d: %s' % (bv, str(e.data)[:80]))
        if s.value == s.read_self:
            c.ok(rule)
        elif s.value[0] in ('c', 'ref', 'init'):
            c.bad(rule, 'xlrd/book.py get_sheet', 'version %d: something else than the sheet just read is returned' % bv, key=rule + '|value')
        else:
            c.open(rule, 'version %d: result %s' % (bv, str(s.value)[:60]))
        if at is not None:
            for a, table in (('name', '_sheet_names'), ('visibility', '_sheet_visibility')):
                v = at.get(a)
                if v == ('app', 'item', ('init', 'book', table), ('sym', 'n')):
                    c.ok(rule)
                elif v is not None and has(v, ('init', 'book', table)) and not has(v, ('sym', 'n')):
                    c.bad(rule, 'xlrd/book.py get_sheet', 'version %d: %s of the sheet does not depend on its number' % (bv, a), key=rule + '|' + a)
                else:
                    c.open(rule, 'version %d: sheet.%s is %s' % (bv, a, str(v)[:60]))


BOOK = 'xlrd.book.Book'


def globals_facts(s, j):
    """changes of the workbook made while its globals are read that go by whether sheets are loaded on demand"""
    out = []
    od = ('init', 'book', 'on_demand')
    for e in s.it.events:
        w = target(e, s.book)
        if w is not None and (has(e.data, od) or any(has(g[0], od) for g in e.guards)):
            out.append((j, w, e.where()))
    return out


def upfront_rule(c, rule, reads):
    """what sheets are read with is the same whether they are loaded up front or on demand"""
    names = set(x if isinstance(x, str) else x[0] for x in reads) | {'formatting_info', 'ragged_rows', 'biff_version', 'base', 'mem'}
    if 'on_demand' in reads:
        j, x = min(reads['on_demand'], key=lambda v: (v[1][2], str(v[0])))
        c.bad(rule, x[2], 'a sheet is read differently when it is loaded on demand', key=rule + '|read')
    else:
        c.ok(rule, sample='no sheet is read by on_demand')
    ops = sorted(set(sweep.record_opcodes(c.prog).values()))
    js = [('globals', rc, bv, f, 0) for bv in LOADED for rc in ops for f in (0, 1)]
    fs, visited, errs = sweep.sweep(c.prog, globals_facts, js)
    for e in errs:
        c.open(rule, 'analysis: ' + e)
    c.ok(rule, n=len(js) - len(errs))
    for j, w, where in sorted(fs, key=str):
        if (w if isinstance(w, str) else w[0]) in names:
            c.bad(rule, where, 'record 0x%x: book.%s, which sheets are read with, is set differently when sheets are loaded on demand' % (j[1], w),
                  key='%s|globals|%s' % (rule, w))
    for bv in LOADED:
        snaps = []
        for od in (False, True):
            s = Setup(c.prog, bv)
            it = s.it
            mark = {}

            def getbof(interp, st, fn, a, kw, node, mark=mark, bv=bv):
                mark['book'] = a[0]
                return const(bv)

            def pg(interp, st, fn, a, kw, node):
                h = interp.hget(st, a[0][1])
                at = dict(h.attrs)
                at.update((k, ('init', 'book', k)) for k in names)
                at['_sheet_names'] = interp.alloc(st, HObj('list', items=(const('a'), const('b'))))
                st.heap[a[0][1]] = h.copy(attrs=at)
                return NONE

            def gs(interp, st, fn, a, kw, node, mark=mark):
                mark['at'] = dict(interp.hget(st, a[0][1]).attrs)
                return NONE
            it.hooks.update({BOOK + '.getbof': getbof, BOOK + '.parse_globals': pg, BOOK + '.get_sheets': gs,
                             BOOK + '.biff2_8_load': lambda *a: NONE, BOOK + '.release_resources': lambda *a: NONE})
            s.run('xlrd.book.open_workbook_xls', [], {'filename': const('f'), 'on_demand': const(od), 'verbosity': const(0)})
            if 'book' in mark:
                snaps.append((mark.get('at') or dict(it.hget(s.st, mark['book'][1]).attrs), s))
        if len(snaps) != 2:
            c.open(rule, 'version %d: opening was not followed' % bv)
            continue
        for k in sorted(names - {'_position', 'on_demand'}):
            a, b = (x[0].get(k) for x in snaps)
            if a == b:
                c.ok(rule)
            elif (a is not None and a[0] in ('init', 'c')) and (b is not None and b[0] in ('init', 'c')):
                c.bad(rule, 'xlrd/book.py open_workbook_xls', 'version %d: book.%s, which sheets are read with, differs between loading up front and on demand'
                      % (bv, k), key='%s|open|%s' % (rule, k))
            else:
                c.open(rule, 'version %d: book.%s: %s / %s' % (bv, k, str(a)[:40], str(b)[:40]))


def C09(c):
    """Every record type of the versions that support on-demand loading is interpreted with and without formatting. What reading a sheet changes
in the workbook (attributes, containers, objects inside them) is compared with what sheets are read with: the two must not meet unless every
sheet would store the same value. The stream position at which a sheet is read, and every attribute the new sheet is given, must not depend on
the position where earlier reading stopped; the containers a sheet fills must be created per sheet; deriving the encoding must be idempotent; the
loading accessors are interpreted over all load states of three sheets."""
    c.rule('state', 'what reading one sheet changes in the workbook is not what another sheet is read with')
    owns = {}

    def state():
        owns.update(state_rule(c, 'state'))
    c.guard('state', state)
    c.rule('position', 'a sheet is read from its own position, wherever earlier reading stopped')
    c.guard('position', position_rule, c, 'position')
    c.rule('own', 'the containers a sheet fills are created for that sheet')
    c.guard('own', own_rule, c, 'own', owns)
    c.rule('outlives', 'reading a sheet changes no object that outlives it, other than a memo of pure values')

    def outlives():
        seen = set(str(q) for q in owns.get(None, ()))
        sh = shared.Shared(c.prog)
        # what only compares or decodes is reached from the readers as well
        only = lambda f: ('xlrd.' + f.qual) in seen or f.qual in seen
        shared.mutations(c, sh, 'outlives', only)
        shared.globals_rule(c, sh, 'outlives', only)
    c.guard('outlives', outlives)
    c.rule('upfront', 'what sheets are read with is the same whether they are loaded up front or on demand')
    c.guard('upfront', upfront_rule, c, 'upfront', owns.get('', {}))
    c.rule('encoding', 'deriving the encoding again gives the same encoding')
    c.guard('encoding', encoding_rule, c, 'encoding')
    c.rule('lists', 'loading, unloading and looking up a sheet concern that sheet only')
    c.guard('lists', lists_rule, c, 'lists')
    c.rule('stored', 'sheet n is read with the name and visibility of n, filed under n and returned')
    c.guard('stored', stored_rule, c, 'stored')
