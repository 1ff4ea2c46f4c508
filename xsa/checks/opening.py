"""C33 option wiring, C24 encoding override, C25 rejected files, C06 storage kinds."""
import ast
import struct
from .common import *
from ..interp import *
from ..terms import *
from .values import fold, sole_value, report_value, at

OPTIONS = ('filename', 'logfile', 'verbosity', 'use_mmap', 'file_contents', 'encoding_override', 'formatting_info', 'on_demand',
           'ragged_rows', 'ignore_workbook_corruption')
KEPT = ('logfile', 'verbosity', 'encoding_override', 'formatting_info', 'on_demand', 'ragged_rows')
LOADERS = ('parse_globals', 'get_sheets', 'fake_globals_get_sheet')
DOCUMENTED = {'verbosity': 0, 'encoding_override': None, 'formatting_info': False, 'on_demand': False, 'ragged_rows': False}


class Opening(object):
    """one abstract opening of a workbook, the record readers replaced by markers"""

    def __init__(self, prog, bv, args, inspect='xls', compdoc=True, load=True, entry='xlrd.open_workbook', keep=(), stream=None, tell=None):
        s = self.s = Setup(prog, bv)
        it = s.it
        self.calls = []
        self.entry_state = None

        def hook(name, ret):
            def h(interp, st, fn, a, kw, node):
                interp.emit('hook', (const(name), tuple(a), tuple(sorted(kw.items()))), st, node)
                if name == 'getbof' and self.entry_state is None:
                    self.entry_state = st.copy()
                    self.book = a[0]
                return ret
            return h
        if inspect is not None:
            it.hooks['xlrd.inspect_format'] = hook('inspect_format', const(inspect) if inspect != 'any' else NONE)
        if 'getbof' not in keep:
            it.hooks['xlrd.book.Book.getbof'] = hook('getbof', const(bv))
        if load:
            for n in LOADERS:
                it.hooks['xlrd.book.Book.' + n] = hook(n, NONE)
        if compdoc:
            it.hooks['xlrd.compdoc.CompDoc.__init__'] = hook('CompDoc', NONE)
            it.hooks['xlrd.compdoc.CompDoc.locate_named_stream'] = lambda *a: stream or (
                ('tuple', (('sym', 'stream'), ('sym', 'stream_base'), ('sym', 'stream_size'))))
        if tell is not None:
            it.method_hooks = dict(it.method_hooks)
            it.method_hooks['tell'] = lambda *a: tell
        it.symkinds.update(opt_verbosity='int', stream='bytes', stream_base='int', stream_size='int')
        self.book = None
        s.run(entry, [], args)

    def attr(self, st, name):
        if self.book is None:
            return None
        o = self.s.it.hget(st, self.book[1])
        return o.attrs.get(name) if o is not None else None

    def hooks(self, name):
        return [e for e in self.s.it.events if e.kind == 'hook' and e.data[0] == const(name)]


def sym_args(**kw):
    d = {n: ('sym', 'opt_' + n) for n in OPTIONS}
    d.update(kw)
    return d


def C33(c):
    """Opening is interpreted with every option an unknown and the record readers replaced by markers; the workbook the markers
    receive must hold each option's own value, and the actions an option controls must be guarded by exactly that option."""
    R = 'option-stored'
    c.rule(R, 'when reading starts and when it ends, the workbook holds the value passed for each option')
    for bv in (20, 30, 40, 45, 50, 70, 80):
        c.guard(R, c33_stored, c, R, bv)
    R2 = 'option-acts'
    c.rule(R2, 'the file is opened, mapped and loaded as the options say')
    for bv in (50, 70, 80):
        c.guard(R2, c33_acts, c, R2, bv)
    R3 = 'defaults'
    c.rule(R3, 'omitted options take their documented defaults')
    c.guard(R3, c33_defaults, c, R3)
    R4 = 'container-options'
    c.rule(R4, 'the compound-file reader gets the log destination and the corruption option')
    c.guard(R4, c33_compdoc, c, R4)
    R5 = 'sheet-options'
    c.rule(R5, 'a sheet works with its workbook\'s options')
    c.guard(R5, c33_sheet, c, R5)


def c33_stored(c, R, bv):
    o = Opening(c.prog, bv, sym_args())
    if o.entry_state is None:
        c.open(R, 'version %d: reading never starts' % bv)
        return
    ev0 = o.hooks('getbof')[0]
    for n in KEPT:
        for when, st in (('starts', o.entry_state), ('has ended', o.s.st)):
            v = o.attr(st, n)
            want = ('sym', 'opt_' + n)
            label = 'version %d, %s when reading %s' % (bv, n, when)
            if v is None or has_unknown(v):
                c.open(R, label)
            elif v == want:
                c.ok(R, sample=label)
            elif n == 'on_demand' and bv < 50 and settles(v, want):
                c.ok(R, sample=label)
            else:
                r = differing(v, want)
                if r:
                    c.bad(R, set_where(o, n) or ev0.where(), 'option %s: when reading %s (version %d) the workbook holds %s (%s)'
                          % (n, when, bv, brief(v, 60), r), '%s|%s' % (R, n))
                else:
                    c.open(R, label + ': ' + brief(v, 60))


def settles(v, want):
    """the passed value, or off for the versions that cannot load on demand"""
    for x in (True, False, 1, 0):
        try:
            r = E.ev(v, E.Env({want[1]: x}))
        except (E.Undef, E.Raised):
            return False
        if bool(r) and not x:
            return False
    return True


VALUES = {'logfile': ['LOG1', 'LOG2'], 'verbosity': [0, 1, 2, 3, -1], 'encoding_override': [None, 'cp1252', 'utf-8', 'ascii'],
          'formatting_info': [False, True, 0, 1], 'on_demand': [False, True, 0, 1], 'ragged_rows': [False, True, 0, 1],
          'use_mmap': [False, True], 'ignore_workbook_corruption': [False, True]}


def differing(v, want):
    """a valuation of the options under which the value held is not the value passed (truth for switches)"""
    n = want[1][4:]
    others = {'opt_' + k: vs[-1] for k, vs in VALUES.items()}
    for flip in (0, 1):
        base = {'opt_' + k: vs[0] if flip else vs[-1] for k, vs in VALUES.items()}
        for x in VALUES[n]:
            syms = dict(base)
            syms['opt_' + n] = x
            try:
                r = E.ev(v, E.Env(syms))
            except (E.Undef, E.Raised):
                continue
            same = bool(r) == bool(x) if n in ('formatting_info', 'on_demand', 'ragged_rows') else r == x and type(r) is type(x)
            if not same:
                return 'with %s=%r it is %r' % (n, x, r)
    return None


def set_where(o, n):
    ws = [e for e in o.s.it.events if e.kind == 'setattr' and e.data[0] == o.book and e.data[1] in (n, const(n))]
    return ws[-1].where() if ws else None


def c33_acts(c, R, bv):
    o = Opening(c.prog, bv, sym_args())
    evs = o.s.it.events
    base = {'opt_' + k: vs[0] for k, vs in VALUES.items()}
    base.update(opt_filename='F', opt_file_contents=None, stream=b'x', stream_base=0, stream_size=1)

    def happens(sel, **kw):
        """True/False/None: one of the selected events happens under these options"""
        syms = dict(base)
        syms.update(kw)
        res = False
        for e in sel:
            r = certain(e, syms)
            if r:
                return True
            if r is None:
                res = None
        return res

    def certain(e, syms):
        env = E.Env(syms)
        env.noexc = True
        out = True
        for g in e.guards:
            try:
                if g[0] == TOP:
                    out = None
                elif E.truth(g[0], env) != g[1]:
                    return False
            except (E.Undef, E.Raised):
                opts = [x for x in walk(g[0]) if x[0] == 'sym' and x[1].startswith('opt_')]
                # a condition on what is in the file, not on an option: it can go either way
                if opts and not all(o_[1] in ('opt_file_contents', 'opt_filename', 'opt_use_mmap') for o_ in opts):
                    out = None
        return out
    opens = [e for e in evs if e.kind == 'extcall' and e.data[0] == ('ext', 'builtins.open')]
    maps = [e for e in evs if e.kind == 'extcall' and e.data[0] == ('ext', 'mmap.mmap')]
    loads = o.hooks('get_sheets')

    def must(got, want, what, where):
        label = 'version %d: %s' % (bv, what)
        if isinstance(got, list):
            if want in got and all(g is want for g in got if g is not None) or not any(g is (not want) for g in got):
                got = want if want in got else None
            else:
                got = not want
        if got is None:
            c.open(R, label)
        elif got == want:
            c.ok(R, sample=label + (' happens' if want else ' does not happen'))
        else:
            c.bad(R, where, '%s %s' % (label, 'does not happen' if want else 'happens'), '%s|%s' % (R, what))
    w = at(opens[0]) if opens else 'xlrd/book.py'
    def both(sel, **kw):
        last = {'opt_' + k: vs[1] for k, vs in VALUES.items() if k not in ('use_mmap',)}
        last.update(kw)
        return [happens(sel, **kw), happens(sel, **last)]
    must(both(opens), True, 'the named file is opened when no contents are given', w)
    must(both(opens, opt_file_contents=b'abcdefghijkl'), False, 'the named file is opened although contents are given', w)
    for e in opens:
        a = e.data[1][1]
        if a and a[0] == ('sym', 'opt_filename') and (len(a) < 2 or a[1] == const('rb')):
            c.ok(R, sample='open(filename, "rb")')
        elif a and a[0][0] == 'sym' and len(a) > 1 and a[1][0] == 'c' or a and a[0][0] == 'c':
            c.bad(R, e.where(), 'the file opened is %s' % brief(e.data[1], 80), R + '|file')
        else:
            c.open(R, 'open(%s)' % brief(e.data[1], 60))
    w = at(maps[0]) if maps else 'xlrd/book.py'
    must(both(maps, opt_use_mmap=True), True, 'the file is mapped with use_mmap on', w)
    must(both(maps, opt_use_mmap=False), False, 'the file is mapped with use_mmap off', w)
    must(both(maps, opt_use_mmap=True, opt_file_contents=b'abcdefghijkl'), False, 'a file is mapped although contents are given', w)
    w = at(loads[0]) if loads else 'xlrd/book.py'
    must(both(loads, opt_on_demand=False), True, 'all sheets are loaded with on_demand off', w)
    must(both(loads, opt_on_demand=True), False, 'all sheets are loaded with on_demand on', w)


def c33_defaults(c, R):
    for entry in ('xlrd.open_workbook', 'xlrd.book.open_workbook_xls'):
        o = Opening(c.prog, 80, {'filename': ('sym', 'opt_filename')}, entry=entry)
        if o.entry_state is None:
            c.open(R, 'reading never starts')
            return
        for n, want in DOCUMENTED.items():
            v = o.attr(o.entry_state, n)
            if v is None or v[0] != 'c':
                c.open(R, n)
            elif v[2] == want and (want is not None or v[2] is None):
                c.ok(R, sample='%s defaults to %r' % (n, want))
            else:
                c.bad(R, set_where(o, n) or entry, 'option %s defaults to %r, documented is %r' % (n, v[2], want), '%s|%s' % (R, n))
        v = o.attr(o.entry_state, 'logfile')
        if v is not None and v[0] == 'ext' and v[1] == 'sys.stdout':
            c.ok(R, sample='logfile defaults to sys.stdout')
        elif v is not None and v[0] in ('c', 'ext'):
            c.bad(R, set_where(o, 'logfile') or entry, 'option logfile defaults to %s, documented is sys.stdout' % brief(v), R + '|logfile')
        else:
            c.open(R, 'logfile default %s' % brief(v or TOP, 40))
        maps = [e for e in o.s.it.events if e.kind == 'extcall' and e.data[0] == ('ext', 'mmap.mmap')]
        if maps:
            c.ok(R, sample='mapping is on by default')
        else:
            c.bad(R, entry, 'a file is not mapped by default', R + '|use_mmap')
        for e in o.hooks('CompDoc'):
            kw = dict(e.data[2])
            v = kw.get('ignore_workbook_corruption', e.data[1][3] if len(e.data[1]) > 3 else NONE)
            if v[0] == 'c' and not v[2]:
                c.ok(R, sample='corruption is not ignored by default')
            elif v[0] == 'c':
                c.bad(R, e.where(), 'corruption is ignored by default', R + '|corruption')
            else:
                c.open(R, 'corruption default')


def c33_compdoc(c, R):
    o = Opening(c.prog, 80, sym_args())
    hs = o.hooks('CompDoc')
    if not hs:
        c.open(R, 'no compound file reader')
    f = c.prog.func('xlrd.compdoc.CompDoc.__init__')
    for e in hs:
        names = [a.arg for a in o.s.it.func_info(f).node.args.args]
        d = dict(zip(names, e.data[1]))
        d.update(dict(e.data[2]))
        for p, opt in (('logfile', 'logfile'), ('ignore_workbook_corruption', 'ignore_workbook_corruption')):
            v = d.get(p)
            want = ('sym', 'opt_' + opt)
            if v == want:
                c.ok(R, sample='%s reaches the compound-file reader' % opt)
            elif v is None and p in names:
                c.bad(R, e.where(), 'option %s is not passed to the compound-file reader' % opt, '%s|%s' % (R, opt))
            elif v is not None and (v[0] in ('c', 'ext') or differing(v, want)):
                c.bad(R, e.where(), 'option %s: the compound-file reader gets %s' % (opt, brief(v, 50)), '%s|%s' % (R, opt))
            else:
                c.open(R, '%s: %s' % (opt, brief(v or TOP, 60)))
    # the reader keeps them
    s = Setup(c.prog, 80)
    cd = s.it.new_opaque(s.st, 'xlrd.compdoc.CompDoc', 'cd')
    s.it.symkinds['mem'] = 'bytes'
    s.it.budget = 200000
    try:
        s.run('xlrd.compdoc.CompDoc.__init__', [cd, ('sym', 'mem'), ('sym', 'opt_logfile'), const(0), ('sym', 'opt_ignore_workbook_corruption')])
    except Exception as e:
        pass
    for n in ('logfile', 'ignore_workbook_corruption'):
        sets = [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == cd and e.data[1] in (n, const(n))]
        if not sets:
            c.open(R, 'CompDoc.%s' % n)
        for e in sets[:1]:
            if e.data[2] == ('sym', 'opt_' + n):
                c.ok(R, sample='CompDoc.%s' % n)
            elif e.data[2][0] in ('c', 'ext', 'sym'):
                c.bad(R, e.where(), 'the compound-file reader keeps %s as its %s' % (brief(e.data[2]), n), '%s|keep %s' % (R, n))
            else:
                c.open(R, 'CompDoc.%s = %s' % (n, brief(e.data[2], 40)))


def sheet_differs(v, want):
    for fmt in (False, True):
        for od in (False, True):
            env = E.Env({'opt_formatting_info': fmt, 'opt_verbosity': 2, 'opt_on_demand': od, 'opt_logfile': 'LOG', 'name': 'N', 'number': 3}, {'on_demand': od})
            try:
                if E.ev(v, env) != (want[2] if want[0] == 'c' else E.ev(want, env)):
                    return True
            except (E.Undef, E.Raised):
                continue
    return False


def c33_sheet(c, R):
    for bv in (20, 50, 80):
        for ragged, fmt in ((0, None), (1, None), (0, False), (0, True), (1, False), (1, True)):
            s = Setup(c.prog, bv)
            sfmt = ('sym', 'opt_formatting_info') if fmt is None else const(fmt)
            o = s.obj(s.book)
            at_ = {k: v for k, v in o.attrs.items()}
            at_.update(logfile=('sym', 'opt_logfile'), verbosity=('sym', 'opt_verbosity'), formatting_info=sfmt,
                       ragged_rows=const(ragged), on_demand=('sym', 'opt_on_demand'))
            s.st.heap[s.book[1]] = o.copy(attrs=at_)
            sh = s.it.new_opaque(s.st, 'xlrd.sheet.Sheet', 'newsheet')
            s.run('xlrd.sheet.Sheet.__init__', [sh, s.book, ('sym', 'pos'), ('sym', 'name'), ('sym', 'number')])
            at2 = s.obj(sh).attrs
            for n, want in (('logfile', ('sym', 'opt_logfile')), ('verbosity', ('sym', 'opt_verbosity')),
                            ('formatting_info', sfmt), ('ragged_rows', const(ragged)),
                            ('biff_version', const(bv)), ('name', ('sym', 'name')), ('number', ('sym', 'number'))):
                v = at2.get(n)
                if v is None:
                    c.open(R, 'Sheet.%s' % n)
                elif v == want:
                    c.ok(R, sample='Sheet.%s' % n)
                elif v[0] in ('c', 'sym', 'ext') or sheet_differs(v, want):
                    ev_ = [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == sh and e.data[1] in (n, const(n))]
                    c.bad(R, ev_[-1].where() if ev_ else 'xlrd/sheet.py', 'a new sheet has %s %s instead of its workbook\'s' % (n, brief(v, 40)),
                          '%s|%s' % (R, n))
                else:
                    c.open(R, 'Sheet.%s = %s' % (n, brief(v, 40)))
            # which store function does a cell go through?
            v = at2.get('put_cell')
            nm = None
            if v is not None and v[0] == 'bm' and v[2][0] == 'func':
                nm = s.it.func_info(v[2]).qual.rsplit('.', 1)[-1]
            if nm is None or nm not in ('put_cell_ragged', 'put_cell_unragged'):
                c.open(R, 'cell store function %s' % nm)
            elif nm == ('put_cell_ragged' if ragged else 'put_cell_unragged'):
                c.ok(R, sample='ragged_rows=%d stores through %s' % (ragged, nm))
            else:
                ev_ = [e for e in s.it.events if e.kind == 'setattr' and e.data[0] == sh and e.data[1] in ('put_cell', const('put_cell'))]
                c.bad(R, ev_[-1].where() if ev_ else 'xlrd/sheet.py', 'with ragged_rows=%d cells are stored through %s' % (ragged, nm), R + '|ragged')


# ------------------------------------------------------------------ C24

CODEPAGES = {1200: 'utf_16_le', 10000: 'mac_roman', 10006: 'mac_greek', 10007: 'mac_cyrillic', 10029: 'mac_latin2',
             10079: 'mac_iceland', 10081: 'mac_turkish', 32768: 'mac_roman', 32769: 'cp1252'}
STEP = {c_: 'cp%d' % c_ for c_ in (300, 437, 720, 737, 850, 852, 866, 874, 932, 936, 949, 950, 1250, 1251, 1252, 1253, 1254, 1257, 1258, 1361, 1999)}
# records whose text is a byte string in the code page before version 8 and Unicode from version 8 on
TEXT_RECORDS = ('XL_LABEL', 'XL_LABEL_B2', 'XL_RSTRING', 'XL_STRING', 'XL_STRING_B2', 'XL_FORMULA', 'XL_FORMULA3', 'XL_FORMULA4',
                'XL_FONT', 'XL_FONT_B3B4', 'XL_FORMAT', 'XL_FORMAT2', 'XL_STYLE', 'XL_NAME', 'XL_BOUNDSHEET', 'XL_SHEETHDR',
                'XL_EXTERNSHEET', 'XL_WRITEACCESS', 'XL_NOTE')
OVERRIDE = 'koi8-r'


def C24(c):
    """derive_encoding is interpreted for every code page class, version and override; then every decoding of file bytes in the
    reader (each record type x version, formula tokens) is checked to use the override when one is given, and otherwise the
    encoding so derived, version 8 text being Latin-1/UTF-16 Unicode."""
    R = 'derivation'
    c.rule(R, 'the override decides the encoding whenever it is given, else the code page, else the version\'s default')
    for bv in (20, 30, 40, 45, 50, 70, 80):
        c.guard(R, c24_derive, c, R, bv)
    R2 = 'stored'
    c.rule(R2, 'no record can replace the override in Book.encoding')
    R3 = 'decodings'
    c.rule(R3, 'file bytes are decoded with the derived encoding, version 8 text as Unicode')
    c.guard(R3, c24_decodings, c, R2, R3)


def c24_derive(c, R, bv):
    pages = [(None, None)] + sorted(CODEPAGES.items()) + sorted(STEP.items())
    pages += [(p, None) for p in (0, 1, 299, 2000, 65000, 10001)]
    for cp, name in pages:
        if cp is None:
            want = 'iso-8859-1' if bv < 80 else 'utf_16_le'
        elif name is not None:
            want = name
        else:
            want = 'utf_16_le' if bv >= 80 else None    # unknown page: any name no codec has
        for ov in (OVERRIDE, None, ''):
            for before, record in ((None, 0), ('cp850', 0), (ov or None, 1), ('cp850', 1)):
                if record and (cp is None or ov and before != ov):
                    continue
                od = const(1 if before else 0)
                s = Setup(c.prog, bv, keep_encoding=True, book={'on_demand': od, 'encoding_override': const(ov), 'codepage': const(None if record else cp),
                          'encoding': const(before), 'raw_user_name': const(False)})
                try:
                    if record:      # through the CODEPAGE record
                        s.run('xlrd.book.Book.handle_codepage', [s.book, const(struct.pack('<H', cp))])
                    else:
                        s.run('xlrd.book.Book.derive_encoding', [s.book])
                except Unsupported:
                    pass
                label = 'version %d, code page %s, override %r' % (bv, cp, ov)
                w = [e for e in s.it.events if e.kind == 'setattr' and e.data[1] in ('encoding', const('encoding'))]
                where = w[-1].where() if w else 'xlrd/book.py in xlrd.book.Book.derive_encoding'
                try:
                    ret, enc = s.value, s.obj(s.book).attrs.get('encoding')
                except Exception:
                    ret = enc = None
                for what, v in (('the encoding kept', enc),) + ((('the encoding returned', ret),) if not record else ()):
                    if v is None or v[0] != 'c':
                        c.open(R, '%s: %s %s' % (label, what, brief(v or TOP, 40)))
                        continue
                    got = v[2]
                    if ov:
                        ok = got == ov
                        exp = ov
                    elif want is None:
                        ok = isinstance(got, str) and not codec_of(got)
                        exp = 'a name of no codec'
                    else:
                        ok = isinstance(got, str) and codec_of(got) == codec_of(want)
                        exp = want
                    if ok:
                        c.ok(R, sample=label)
                    else:
                        c.bad(R, where, '%s: %s is %r, expected %r' % (label, what, got, exp), '%s|%s|%s|%s' % (R, bv >= 80, cp, bool(ov)))


def codec_of(n):
    import codecs
    try:
        return codecs.lookup(n).name
    except Exception:
        # the page number names the codec even where this interpreter has none
        return n.replace('_', '-') if n.startswith('cp') or n.startswith('mac') else None


def c24_select(s, j):
    out = []
    env0 = dict(opt_ovr=OVERRIDE)
    for e in s.it.events:
        if e.kind == 'decode':
            if e.data[0][0] == 'c' or e.data[0] == TOP:
                continue
            out.append(('decode', e.origin(('xlrd.timemachine', 'xlrd.biffh')), j[:3], c24_values(e, e.data[1], j)))
        elif e.kind == 'setattr' and e.data[1] in ('encoding', const('encoding')) and e.data[0] == s.book:
            out.append(('set', e.where(), j[:3], c24_values(e, e.data[2], j)))
    return out


def c24_values(e, enc, j):
    """(override, initial encoding, code page) -> the encoding used, '?' undecided, absent when the event does not happen"""
    from ..terms import walk as tw
    phis = set(t for x in (enc,) + tuple(g[0] for g in e.guards) if isinstance(x, tuple) for t in tw(x)
               if t[0] == 'phi' and t[2] in ('encoding', 'codepage'))
    out = []
    for ov in (OVERRIDE, None):
        for init in ((OVERRIDE, None) if ov else ('cp850', None)):
            if init is None and j[0] == 'formula':
                continue            # formulas are evaluated after the globals
            for cp in (None, 1200, 1252, 10000):
                ex = {t: init if t[2] == 'encoding' else cp for t in phis}
                env = E.Env({'ovr': ov, 'enc': 'x'} if j[1] != OPCODES['XL_CODEPAGE'] else {'ovr': ov, 'data': struct.pack('<H', cp or 1252)}, {('book', 'encoding'): init, ('book', 'codepage'): cp}, {}, ex)
                env.noexc = True
                for t in phis:
                    env.extra[t] = ex[t]
                dead = False
                und = False
                for g in e.guards:
                    try:
                        if g[0] == TOP:
                            continue
                        if E.truth(g[0], env) != g[1]:
                            dead = True
                            break
                    except (E.Undef, E.Raised):
                        if any(t in phis or t[0] == 'init' and t[2] in ('encoding', 'codepage') or t == ('sym', 'ovr') for t in tw(g[0])):
                            und = True
                if dead:
                    continue
                try:
                    v = E.ev(enc, env)
                except (E.Undef, E.Raised):
                    v = c24_set(enc, env)
                out.append((ov, init, cp, '?' if und and v != OVERRIDE else v))
    return out


def c24_set(enc, env):
    """an encoding picked by a file bit: the name when the choice is among the Unicode ones, else undecided"""
    leaves = []

    def go(t):
        if t[0] == 'app' and t[1] == 'ite':
            try:
                b = E.truth(t[2], env)
                go(t[3] if b else t[4])
            except (E.Undef, E.Raised):
                go(t[3])
                go(t[4])
        elif t[0] == 'alts':
            for x in t[1]:
                go(x)
        else:
            leaves.append(t)
    go(enc)
    vals = []
    for l in leaves:
        try:
            vals.append(E.ev(l, env))
        except (E.Undef, E.Raised):
            return '?'
    if vals and all(isinstance(v, str) and codec_of(v) in ('utf-16-le', 'iso8859-1') for v in vals):
        return 'utf_16_le'
    return '?'


class _Kept(object):
    """while sweeping: the workbook's own encoding logic is interpreted and the override is unknown"""

    def __enter__(self):
        from .. import drive, sweep
        self.old = drive.Setup.__init__
        old = self.old

        def init(s, *a, **k):
            k['keep_encoding'] = True
            b = dict(k.get('book') or {})
            b['encoding_override'] = ('sym', 'ovr')
            k['book'] = b
            old(s, *a, **k)
            s.it.symkinds['ovr'] = 'str'
        drive.Setup.__init__ = init

    def __exit__(self, *a):
        from .. import drive
        drive.Setup.__init__ = self.old


def c24_decodings(c, R2, R3):
    from .. import sweep
    ops = {v: k for k, v in OPCODES.items() if k in TEXT_RECORDS}
    with _Kept():
        facts, visited, errs = sweep.sweep(c.prog, c24_select, sweep.jobs(c.prog, versions=(20, 30, 40, 45, 50, 70, 80)))
    c.count('functions', len(visited))
    for e in errs[:5]:
        c.open(R3, e)
    for kind, where, j, vals in facts:
        bv = j[2]
        text = j[0] == 'formula' or j[1] in ops
        what = 'record 0x%X' % j[1] if isinstance(j[1], int) else j[1]
        for ov, init, cp, v in vals:
            rule = R2 if kind == 'set' else R3
            label = 'version %d, %s at %s: override %r, code page %s' % (bv, what, where.split(' in ')[0], ov, cp)
            if v == '?':
                c.open(rule, label)
                continue
            if kind == 'set':
                if ov and v != OVERRIDE:
                    c.bad(rule, where, 'Book.encoding becomes %r although the override is %r (version %d, %s)' % (v, OVERRIDE, bv, what),
                          '%s|%s' % (rule, where.split(' in ')[-1]))
                else:
                    c.ok(rule, sample=label)
                continue
            if not text:
                c.ok(rule, sample=label)
                continue
            if bv >= 80:
                good = isinstance(v, str) and codec_of(v) in ('utf-16-le', 'iso8859-1')
                if where.split(' in ')[-1].endswith('derive_encoding') or what == 'record 0x8F':
                    good = True     # the user name, or a record, of an earlier version
                exp = 'Unicode'
            elif ov:
                good, exp = v == OVERRIDE, repr(OVERRIDE)
            else:
                der = 'iso-8859-1' if cp is None else {1200: 'utf_16_le', 1252: 'cp1252', 10000: 'mac_roman'}[cp]
                # a record carrying a code page of its own: any derived name
                good = v == init if init else isinstance(v, str) and codec_of(v) == codec_of(der)
                good = good or isinstance(v, str) and codec_of(v) == codec_of(der)
                exp = repr(init or der)
            if good:
                c.ok(rule, sample=label)
            else:
                c.bad(rule, where, 'text is decoded with %r, expected %s (version %d, %s, override %r, code page %s)'
                      % (v, exp, bv, what, ov, cp), '%s|%s|%s' % (rule, where.split(' in ')[-1], bool(ov)))


# ------------------------------------------------------------------ C25

NAMES = [
    (('[Content_Types].xml', '_rels/.rels', 'xl/workbook.xml', 'xl/worksheets/sheet1.xml'), 'xlsx'),
    (('xl\\workbook.xml', 'xl\\styles.xml'), 'xlsx'), (('XL/Workbook.XML',), 'xlsx'), (('Xl\\WorkBook.xml',), 'xlsx'),
    (('[Content_Types].xml', 'xl/workbook.bin', 'xl/worksheets/sheet1.bin'), 'xlsb'), (('XL\\WORKBOOK.BIN',), 'xlsb'),
    (('mimetype', 'content.xml', 'META-INF/manifest.xml'), 'ods'), (('Content.XML',), 'ods'),
    (('a.txt', 'b/c.txt'), 'zip'), ((), 'zip'), (('word/document.xml',), 'zip'), (('xl/workbook.xml.bak', 'sub/content.xml'), 'zip'),
]
SUPPORTED = (20, 21, 30, 40, 45, 50, 70, 80)
REJECTED_KINDS = ('xlsx', 'xlsb', 'ods', 'zip')


def C25(c):
    """The kind detector is interpreted over constant signatures and archive listings; opening is interpreted for every kind it can
    report, every version the BOF reader can report and a missing workbook stream; and the FILEPASS record is interpreted in every
    version, formatting option and verbosity: each of the rejected cases must end in the library error."""
    R = 'kinds'
    c.rule(R, 'every kind the detector can report has a description')
    c.guard(R, c25_kinds, c, R)
    R2 = 'detected'
    c.rule(R2, 'a file is taken for the kind its signature and listing say')
    c.guard(R2, c25_detect, c, R2)
    R3 = 'foreign'
    c.rule(R3, 'recognised files of other kinds raise the library error before anything is read')
    R4 = 'versions'
    c.rule(R4, 'versions the library does not read raise the library error, the others are read')
    R5 = 'no-workbook'
    c.rule(R5, 'an empty file, or a compound file without workbook stream, raises the library error')
    c.guard(R3, c25_open, c, R3, R4, R5)
    R6 = 'encrypted'
    c.rule(R6, 'a FILEPASS record ends reading with the library error, whatever its contents and at any verbosity')
    c.guard(R6, c25_filepass, c, R6)


def kinds_reported(prog):
    s = Setup(prog, 80)
    s.it.symkinds.update(content='bytes', path='str')
    s.run('xlrd.inspect_format', [('sym', 'path'), ('sym', 'content')])
    out = set()

    def go(v, e):
        if v[0] == 'app' and v[1] == 'ite':
            go(v[3], e)
            go(v[4], e)
        elif v[0] == 'alts':
            for x in v[1]:
                go(x, e)
        else:
            out.add((v[2] if v[0] == 'c' else '?', e.where() if e else None))
    evs = [e for e in s.it.events if e.kind == 'return' and e.func == 'xlrd.inspect_format']
    for e in evs:
        go(e.data[0], e)
    go(s.value, evs[-1] if evs else None)
    return s, out


def c25_kinds(c, R):
    s, kinds = kinds_reported(c.prog)
    d = c.prog.func('xlrd.FILE_FORMAT_DESCRIPTIONS')
    table = None
    if d is not None and d[0] == 'ref':
        o = s.it.hget(s.st, d[1])
        table = dict(o.items) if o is not None and o.items is not None else None
    done = set()
    for k, where in sorted(kinds, key=str):
        if k in done:
            continue
        done.add(k)
        if k == '?' or table is None:
            c.open(R, 'kind %r' % (k,))
            continue
        v = table.get(const(k), table.get(k))
        if v is None:
            c.bad(R, where or 'xlrd/__init__.py', 'the detector reports %r, which has no description' % (k,), '%s|%r' % (R, k))
        elif v[0] == 'c' and not (isinstance(v[2], str) and v[2].strip()):
            c.bad(R, where or 'xlrd/__init__.py', 'the description of kind %r is %r' % (k, v[2]), '%s|%r' % (R, k))
        elif v[0] == 'c':
            c.ok(R, sample='%r: %s' % (k, v[2]))
        else:
            c.open(R, 'description of %r: %s' % (k, brief(v, 40)))


def c25_detect(c, R):
    cases = [(b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + b'\0' * 40, (), 'xls'), (b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe2' + b'\0' * 40, (), None),
             (b'\x09\x08\x10\x00\x00\x06\x05\x00' + b'\0' * 40, (), None), (b'\x09\0\x04\0\x02\0\x10\0', (), None), (b'<html>', (), None),
             (b'PK\x05\x06' + b'\0' * 20, (), None), (b'P', (), None), (b' PK\x03\x04', ('content.xml',), None)]
    cases += [(b'PK\x03\x04' + b'\x14\0' * 20, names, want) for names, want in NAMES]
    for by_path in (False, True):
        for content, names, want in cases:
            s = Setup(c.prog, 80)
            ns = ('tuple', tuple(const(n) for n in names))
            s.it.method_hooks = dict(s.it.method_hooks)

            def namelist(*a, **k):
                return ns

            def read(interp, st, base, args, kwargs, node, content=content):
                n = args[0] if args else None
                if n is None:
                    return const(content)
                return const(content[:n[2]]) if n[0] == 'c' else None
            s.it.method_hooks['namelist'] = namelist
            s.it.method_hooks['read'] = read
            s.run('xlrd.inspect_format', [const('book.xls'), NONE] if by_path else [NONE, const(content)])
            v = s.value
            label = '%s %r with members %s' % ('file' if by_path else 'contents', content[:8], list(names))
            if v is None or v[0] != 'c':
                c.open(R, label + ': ' + brief(v or TOP, 40))
            elif v[2] == want:
                c.ok(R, sample='%s is %r' % (label, want))
            else:
                ev_ = [e for e in s.it.events if e.kind == 'return' and e.func == 'xlrd.inspect_format']
                c.bad(R, ev_[-1].where() if ev_ else 'xlrd/__init__.py', '%s is reported as %r, expected %r' % (label, v[2], want), '%s|%r' % (R, want))


def ends_in_library_error(c, o, syms):
    """'raises XLRDError' / 'goes on' / 'raises X' / None undecided, under option values"""
    env = E.Env(syms)
    und = False
    for e in o.s.it.events:
        if e.kind not in ('raise', 'implicit_raise', 'keyerror', 'typeerror', 'hook'):
            continue
        if e.kind == 'hook' and e.data[0][2] not in LOADERS:
            continue
        live = True
        for g in e.guards:
            try:
                if g[0] == TOP:
                    live = None
                elif g[0][0] == 'app' and g[0][1] == 'except':
                    if g[1]:        # only after some other raise, which is judged itself
                        live = False
                        break
                elif E.truth(g[0], env) != g[1]:
                    live = False
                    break
            except (E.Undef, E.Raised):
                live = None
        if live is False:
            continue
        if e.kind == 'hook':
            if live is None:
                und = True
                continue
            return 'goes on to read the workbook', e
        if live is None:
            und = True
            continue
        nm = e.data[0][2] if e.kind == 'raise' and e.data and e.data[0][0] == 'c' else e.kind
        if e.kind == 'raise' and e.data[0][0] != 'c':
            return None, e
        return ('raises %s' % nm), e
    return (None if und else 'goes on to read the workbook'), None


def c25_open(c, R3, R4, R5):
    base = {'opt_' + k: vs[0] for k, vs in VALUES.items()}
    base.update(opt_filename='F', opt_file_contents=b'0123456789', stream=b'x', stream_base=0, stream_size=1)
    s, kinds = kinds_reported(c.prog)
    names = {k for k, w in kinds if isinstance(k, str) and k != '?'} | set(REJECTED_KINDS)

    def judge(rule, o, want_error, label, key, syms=base, anchor='xlrd/__init__.py'):
        v, e = ends_in_library_error(c, o, syms)
        where = e.where() if e is not None else anchor
        if v is None:
            c.open(rule, label)
        elif want_error and v == 'raises XLRDError' or not want_error and v.startswith('goes on'):
            c.ok(rule, sample=label + ': ' + v)
        else:
            c.bad(rule, where, '%s: opening %s' % (label, v), '%s|%s' % (rule, key))
    for k in sorted(names, key=str) + [None]:
        for opts in (0, -1):
            syms = dict(base)
            for n, vs in VALUES.items():
                syms['opt_' + n] = vs[opts]
            for contents in (True, False):
                o = Opening(c.prog, 80, sym_args(file_contents=('sym', 'opt_file_contents') if contents else NONE), inspect=k if k else 'any', tell=const(4096))
                judge(R3, o, k is not None and k != 'xls', 'kind %r%s' % (k, '' if contents else ', by name'), k, syms)
    for bv in SUPPORTED + (0,):
        for opts in (0, -1):
            syms = dict(base)
            for n, vs in VALUES.items():
                syms['opt_' + n] = vs[opts]
            o = Opening(c.prog, bv, sym_args())
            judge(R4, o, bv not in SUPPORTED, 'version %d' % bv, bv, syms, 'xlrd/book.py in xlrd.book.open_workbook_xls')
    # no workbook in a compound file
    for res, ok in (((NONE, const(0), const(0)), False), ((('sym', 'stream'), const(0), const(5)), True)):
        o = Opening(c.prog, 80, sym_args(file_contents=const(b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1' + bytes(504))), stream=('tuple', res))
        judge(R5, o, not ok, 'compound file %s a workbook stream' % ('with' if ok else 'without'), ok, base, 'xlrd/book.py in xlrd.book.Book.biff2_8_load')
    for mm in (False, True):
        o = Opening(c.prog, 80, sym_args(file_contents=NONE, use_mmap=const(mm)), tell=const(0), inspect='any')
        judge(R5, o, True, 'empty file', 'empty', base, 'xlrd/book.py in xlrd.book.Book.biff2_8_load')


def c25_filepass(c, R):
    rc = OPCODES['XL_FILEPASS']
    datas = [b'', b'\0', b'\0\0', b'\1\0', b'\0\0\x12\x34', b'\1\0\1\0', b'\0\0\x12\x34\x56\x78', b'\0\0\x12\x34\x56\x78\x9a', b'\1\0\1\0\1\0' + bytes(48),
             b'\1\0\2\0\2\0' + bytes(40), b'\1\0\1\0\3\0', b'\2\0\1\0\3\0' + bytes(10), b'\x12\x34\x56\x78', b'\xff' * 60, bytes(4), bytes(6), bytes(54),
             b'\0\0\0\0\x34\x12', b'\0\0\x34\x12\0\0', b'\1\0\0\0', b'\1\0\0\0\0\0' + bytes(48), b'\1\0\1\0\0\0' + bytes(range(48)), b'\3\0\1\0\1\0']
    for bv in SUPPORTED:
        for vb in (0, 1, 2, 3):
            for fmt in (0, 1):
                kinds = [sheet_record] if bv <= 40 else [globals_record]
                if bv == 45:
                    kinds = [globals_record, sheet_record]
                for kind in kinds:
                    s = kind(c.prog, rc, bv, fmt=fmt, verbosity=vb)
                    bad = None
                    und = 0
                    for d in datas:
                        for init in (0, 1):
                            env = E.Env({'data': d, 'data_len': len(d)}, _All(init))
                            r = c25_record(s, env)
                            if r is None:
                                und += 1
                            elif r[0] != 'XLRDError' and bad is None:
                                bad = r, d
                    label = 'version %d, verbosity %d, formatting %d, %s' % (bv, vb, fmt, 'sheet' if kind is sheet_record else 'globals')
                    if bad:
                        (what, e), d = bad
                        c.bad(R, e.where() if e is not None else ('xlrd/sheet.py' if kind is sheet_record else 'xlrd/book.py'),
                              'FILEPASS record %s (%s): %s' % (d[:12].hex(), label, what), '%s|%s' % (R, what))
                    elif und:
                        c.open(R, label)
                    else:
                        c.ok(R, sample=label)


class _All(dict):
    """every initial attribute has the same plain value"""

    def __init__(self, v):
        self.v = v

    def __bool__(self):
        return True

    def __contains__(self, k):
        return True

    def __getitem__(self, k):
        return self.v


def inside_left(e, left):
    f, p = e.func, e.sites
    while p:
        if (f, p) in left:
            return True
        f, p = p[1], p[3]
    return False


def c25_record(s, env):
    und = False
    left = []       # calls that have returned
    for e in s.it.events:
        if e.kind == 'return' and len(e.loops) <= 1 and e.sites:     # (the record loop only)
            try:
                if guards_hold(e, env):
                    left.append((e.func, e.sites))
            except (E.Undef, E.Raised):
                pass
            continue
        if left and inside_left(e, left):
            continue
        if e.kind not in ('raise', 'unpack', 'badunpack', 'keyerror', 'implicit_raise', 'typeerror'):
            continue
        try:
            if not guards_hold(e, env):
                continue
        except (E.Undef, E.Raised):
            und = und or e.kind == 'raise'
            continue
        if e.kind == 'raise':
            if e.data[0][0] == 'c':
                return e.data[0][2] if e.data[0][2] == 'XLRDError' else 'raises %s' % e.data[0][2], e
            return None
        if e.kind == 'unpack':
            try:
                n = struct.calcsize(e.data[0][2] if isinstance(e.data[0][2], str) else e.data[0][2].decode())
                b = E.ev(e.data[1], env)
            except (E.Undef, E.Raised, struct.error, TypeError, IndexError):
                continue
            if isinstance(b, bytes) and len(b) != n:
                return 'raises struct.error (%d bytes for a layout of %d)' % (len(b), n), e
        elif e.kind in ('keyerror', 'badunpack', 'implicit_raise', 'typeerror'):
            return 'raises another error (%s)' % e.kind, e
    if und:
        return None
    return 'reading goes on', None


# ------------------------------------------------------------------ C06

BOTH = {'find', 'rfind'}
BYTES_ONLY = {'startswith', 'endswith', 'decode', 'index', 'rindex', 'count', 'split', 'rsplit', 'partition', 'rpartition', 'replace', 'strip',
              'lstrip', 'rstrip', 'join', 'translate', 'hex', 'upper', 'lower', 'title', 'isalpha', 'isdigit', 'isspace', 'splitlines',
              'ljust', 'rjust', 'center', 'zfill', 'removeprefix', 'removesuffix', 'expandtabs'}
MMAP_ONLY = {'size', 'seek', 'tell', 'read', 'readline', 'read_byte', 'write', 'write_byte', 'flush', 'move', 'resize', 'close', 'madvise', 'closed'}


def C06(c):
    """Opening is interpreted for the three ways of supplying the bytes; under the same contents each must hand the record readers
    the same buffer, offset, length and start position or end in the same error. Every use of the buffer in the package is then
    checked to be an operation bytes and memory maps define alike."""
    R = 'same-start'
    c.rule(R, 'reading starts from the same buffer, offset and length however the contents were supplied')
    c.guard(R, c06_modes, c, R)
    R2 = 'whole-file'
    c.rule(R2, 'the file is read, or mapped read-only, from its first byte to its last')
    c.guard(R2, c06_file, c, R2)
    R3 = 'common-operations'
    c.rule(R3, 'the buffer is only used through operations that bytes and mappings define alike')
    c.guard(R3, c06_uses, c, R3)
    R4 = 'kind-by-path'
    c.rule(R4, 'the kind of file found is the same by name and by contents')
    c.guard(R4, c06_kind, c, R4)


SIG = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'
CONTENTS = [SIG + bytes(range(256)) * 3, SIG, SIG + b'x', b'\x09\x08\x10\0\0\6\5\0' + bytes(40), b'\x09\0\4\0\2\0\x10\0' + b'\1' * 91,
            bytes(range(64)), b'\xd0' * 600, b'0123456789' * 700000]


def subst_modes(t, B):
    """values of the terms that stand for the file's contents and size"""
    ex = {}
    for w in walk(t):
        if w[0] != 'app':
            continue
        if w[1] == 'method' and len(w) > 3 and w[2] == const('tell'):
            ex[w] = len(B)
        elif w[1] == 'method' and w[2] == const('read') and len(w) == 4:
            ex[w] = B
        elif isinstance(w[1], str) and w[1].startswith('ext:') and w[1].endswith('getsize'):
            ex[w] = len(B)
        elif w[1] == 'ext:mmap.mmap':
            ex[w] = B
    return ex


def c06_value(v, syms, B):
    env = E.Env(syms, None, None, subst_modes(v, B))
    return E.ev(v, env)


MODES = (('mapped file', dict(file_contents=NONE, use_mmap=const(True))), ('file read', dict(file_contents=NONE, use_mmap=const(False))),
         ('in-memory', dict(filename=NONE)))


def c06_modes(c, R):
    runs = []
    for name, kw in MODES:
        for opts in (0, 1):
            args = sym_args(**kw)
            o = Opening(c.prog, 80, args)
            runs.append((name, opts, o))
    names = ('mem', 'base', 'stream_len', '_position')
    for B in CONTENTS + [b'']:
        for stream in (b'stream bytes', B):
            for opts in (0, 1):
                got = {}
                for name, op, o in runs:
                    if op != opts:
                        continue
                    syms = {'opt_' + k: vs[-opts] for k, vs in VALUES.items()}
                    syms.update(opt_filename='F', opt_file_contents=B, stream=stream, stream_base=512, stream_size=len(stream) - 512)
                    if name == 'in-memory':
                        syms['opt_use_mmap'] = False
                    outc = c06_outcome(o, syms, B)
                    vals = [outc]
                    if outc == 'reads':
                        for n in names:
                            v = o.attr(o.entry_state, n) if o.entry_state is not None else None
                            try:
                                vals.append(c06_value(v, syms, B) if v is not None else '?')
                            except (E.Undef, E.Raised):
                                vals.append('?')
                        for e in o.hooks('CompDoc'):
                            try:
                                vals.append(c06_value(e.data[1][1], syms, B) if happens06(e, syms, B) else None)
                            except (E.Undef, E.Raised, IndexError):
                                vals.append('?')
                    got[name] = vals
                ref = got['file read']
                for name, vals in got.items():
                    if name == 'file read':
                        continue
                    label = '%s against plain reading, contents %s' % (name, B[:10].hex() or 'empty')
                    pairs = list(zip(('outcome',) + names + ('buffer of the compound file',) * 9, ref, vals))
                    for n, a, b in pairs:
                        if a == '?' or b == '?' or a is None and n == 'outcome' or b is None and n == 'outcome':
                            c.open(R, '%s: %s' % (label, n))
                        elif a == b:
                            c.ok(R, sample='%s: %s' % (label, n))
                        else:
                            o = [o for nm, op, o in runs if nm == name][0]
                            c.bad(R, set_where(o, n) or 'xlrd/book.py in xlrd.book.Book.biff2_8_load', '%s is %s for a %s but %s when the same bytes are read from the file'
                                  % (n, shorten(b), name if 'file' in name else name + ' workbook', shorten(a)), '%s|%s|%s' % (R, n, name))


def shorten(v):
    r = repr(v)
    return r if len(r) < 50 else r[:40] + '...(%d)' % len(v) if hasattr(v, '__len__') else r[:50]


def happens06(e, syms, B):
    for g in e.guards:
        if g[0] == TOP:
            raise E.Undef
        if g[0][0] == 'app' and g[0][1] == 'except':
            if g[1]:
                return False
            continue
        env = E.Env(syms, None, None, subst_modes(g[0], B))
        try:
            v = E.truth(g[0], env)
        except E.Raised:
            # a comparison of a slice with a longer constant
            if not (g[0][0] == 'app' and g[0][1] in ('eq0', 'truth', 'not')):
                raise
            v = g[0][1] == 'not'
        if v != g[1]:
            return False
    return True


def c06_outcome(o, syms, B):
    """'reads', 'raises X', or None when undecided"""
    und = False
    for e in o.s.it.events:
        if e.kind == 'hook' and e.data[0][2] == 'getbof':
            if e.data[0][2] == 'getbof':
                try:
                    if happens06(e, syms, B):
                        return None if und else 'reads'
                except (E.Undef, E.Raised):
                    und = True
        elif opens_nothing(e):
            try:
                if happens06(e, syms, B):
                    return 'raises TypeError'
            except (E.Undef, E.Raised):
                und = True
        elif e.kind in ('raise', 'implicit_raise', 'keyerror', 'typeerror'):
            try:
                if happens06(e, syms, B):
                    if e.kind == 'raise' and e.data[0][0] == 'c':
                        return 'raises %s' % e.data[0][2]
                    return 'raises (%s)' % e.kind
            except (E.Undef, E.Raised):
                und = und or e.kind == 'raise'
    return None


def opens_nothing(e):
    """open(None): the bytes were given in memory and no file name with them"""
    if e.kind != 'extcall' or e.data[0] != ('ext', 'builtins.open') or not plain(e.data[1]):
        return False
    a = plain(e.data[1])[0]
    while a[0] == 'app' and str(a[1]).startswith('ext:os.path.') and len(a) == 3:
        a = a[2]
    return a == NONE


def plain(a):
    return a[1] if isinstance(a, tuple) and len(a) == 2 and a[0] == 'tuple' else a


def c06_file(c, R):
    for name, kw in MODES[:2]:
        o = Opening(c.prog, 80, sym_args(**kw))
        pos = {}
        size = {}
        acted = False
        for e in o.s.it.events:
            if e.kind == 'extcall' and e.data[0] == ('ext', 'builtins.open'):
                a, k = plain(e.data[1]), dict(plain(e.data[2]))
                mode = a[1] if len(a) > 1 else k.get('mode', const('r'))
                if mode == const('rb'):
                    c.ok(R, sample='the file is opened for reading bytes')
                elif mode[0] == 'c':
                    c.bad(R, e.where(), 'the file is opened with mode %r' % (mode[2],), R + '|mode')
                else:
                    c.open(R, 'mode %s' % brief(mode))
            elif e.kind == 'mcall' and e.data[0][0] == 'app' and str(e.data[0][1]).startswith('ext:open'):
                f, meth, a = e.data[0], e.data[1], e.data[2]
                meth = meth[2] if isinstance(meth, tuple) else meth
                a = plain(a)
                if meth == 'seek':
                    w = a[1] if len(a) > 1 else const(0)
                    pos[f] = {(const(0), const(0)): 'start', (const(0), const(2)): 'end'}.get((a[0], w), 'unknown')
                elif meth == 'tell':
                    size[f] = pos.get(f, 'start')
                elif meth == 'read':
                    acted = True
                    p = pos.get(f, 'start')
                    whole = not a or a[0] == const(-1) or a[0] == NONE
                    if p == 'start' and (whole or a[0][0] == 'app' and a[0][1] == 'method' and a[0][2] == const('tell') and size.get(f) == 'end'):
                        c.ok(R, sample='the whole file is read')
                    elif p == 'unknown' or not whole and a[0][0] != 'c':
                        c.open(R, 'read %s from %s' % (brief(e.data[2]), p))
                    else:
                        c.bad(R, e.where(), 'the file is read from its %s, %s' % (p, 'to its end' if whole else 'at most %s bytes' % brief(a[0])), R + '|read')
            elif e.kind == 'extcall' and e.data[0] == ('ext', 'mmap.mmap'):
                acted = True
                a, k = plain(e.data[1]), dict(plain(e.data[2]))
                ln = a[1] if len(a) > 1 else k.get('length')
                off = k.get('offset', const(0))
                acc = k.get('access')
                tells = ln is not None and ln[0] == 'app' and ln[1] == 'method' and ln[2] == const('tell')
                wrong = None
                if ln is not None and not tells:
                    for n_ in (1, 100, 4096, 5000, 70000, 2 ** 24 + 1, 2 ** 31 + 5, 2 ** 32 + 4096):
                        ex = {w: n_ for w in walk(ln) if w[0] == 'app' and w[1] == 'method' and w[2] == const('tell')}
                        try:
                            got = E.ev(ln, E.Env({}, None, None, ex))
                            if got not in (0, n_):
                                wrong = 'with a file of %d bytes %s' % (n_, got)
                                break
                        except (E.Undef, E.Raised):
                            pass
                if wrong:
                    c.bad(R, e.where(), 'the mapping covers %s bytes' % wrong, R + '|length')
                elif ln == const(0) or tells and set(size.values()) == {'end'} or ln is not None and ln[0] == 'app' and 'getsize' in str(ln[1]):
                    c.ok(R, sample='the whole file is mapped')
                elif tells and set(size.values()) <= {'start', 'end'} or ln is not None and ln[0] in ('c', 'lin'):
                    c.bad(R, e.where(), 'the mapping covers %s, which is not the size of the file' % brief(ln), R + '|length')
                else:
                    c.open(R, 'mapping of %s' % brief(ln or TOP, 60))
                if off == const(0):
                    c.ok(R, sample='the mapping starts at the first byte')
                elif off[0] == 'c':
                    c.bad(R, e.where(), 'the mapping starts at %s' % brief(off), R + '|offset')
                if acc in (('ext', 'mmap.ACCESS_READ'), ('ext', 'mmap.ACCESS_COPY')) or k.get('prot') == ('ext', 'mmap.PROT_READ'):
                    c.ok(R, sample='the mapping is read-only')
                elif acc is not None and acc[0] == 'ext' or acc is None and 'prot' not in k and len(a) < 4:
                    c.bad(R, e.where(), 'the mapping is not read-only (access %s): files without write permission cannot be opened' % brief(acc or NONE), R + '|access')
                else:
                    c.open(R, 'access %s' % brief(acc or TOP))
        if not acted:
            c.open(R, '%s: no reading seen' % name)


def c06_kind(c, R):
    """the two ways of looking at the first bytes, under constant contents"""
    for content in [SIG + bytes(60), SIG[:7] + bytes(60), b'PK\x03\x04' + bytes(60), b'PK\x03\x05' + bytes(60), b'\x09\x08\x10\0' + bytes(60), b'PK\x03\x04',
                    SIG, b'abc', b'']:
        for names in ((), ('xl/workbook.xml',), ('content.xml',)):
            got = []
            for by_path in (False, True):
                s = Setup(c.prog, 80)
                s.it.method_hooks = dict(s.it.method_hooks)
                s.it.method_hooks['namelist'] = lambda *a, names=names: ('tuple', tuple(const(n) for n in names))

                def read(interp, st, base, args, kwargs, node, content=content):
                    n = args[0] if args else None
                    return const(content) if n is None else const(content[:n[2]]) if n[0] == 'c' else None
                s.it.method_hooks['read'] = read
                s.run('xlrd.inspect_format', [const('book.xls'), NONE] if by_path else [NONE, const(content)])
                got.append(s.value)
                if not by_path and any(opens_nothing(e) and not e.guards for e in s.it.events):
                    c.bad(R, 'xlrd/__init__.py in xlrd.inspect_format', 'contents %r given in memory are looked for in a file without a name' % (content[:8],),
                          '%s|open|%r' % (R, content[:8]))
                    got[-1] = const('an exception')
            label = 'contents %s' % (content[:8].hex() or 'empty')
            if any(v is None or v[0] != 'c' for v in got):
                c.open(R, label)
            elif got[0] == got[1]:
                c.ok(R, sample='%s: %r' % (label, got[0][2]))
            else:
                c.bad(R, 'xlrd/__init__.py in xlrd.inspect_format', '%s are reported as %r in memory but as %r by name' % (label, got[0][2], got[1][2]),
                      '%s|%r' % (R, got[0][2]))


def c06_uses(c, R):
    from ..src import Source
    from ..taint import Taint
    src = Source(c.prog)

    def source(fn, n):
        if isinstance(n, ast.Call):
            fs, cs, e = src.resolve(fn, n.func)
            return e == 'mmap.mmap'
        return False
    t = Taint(src, source)
    c.count('functions', len(src.fns))
    if not t.attrs and not t.vars:
        c.open(R, 'no mapping found')
    uses = 0
    for fn in src.fns:
        for n in fn.body_nodes():
            if not isinstance(n, (ast.Name, ast.Attribute, ast.Call)) or isinstance(getattr(n, 'ctx', None), (ast.Store, ast.Del)):
                continue
            if not t.expr(fn, n):
                continue
            uses += 1
            c06_use(c, R, src, t, fn, n)
    c.count('uses_of_the_buffer', uses)
    # a decision on how the bytes were supplied outside the loading code
    loading = Opening(c.prog, 80, sym_args()).s.it.visited
    for fn in src.fns:
        if fn.qual in loading:
            continue
        for n in fn.body_nodes():
            if isinstance(n, ast.Attribute) and n.attr == 'use_mmap' and isinstance(n.ctx, ast.Load):
                p = src.parents.get(n)
                while p is not None and isinstance(p, (ast.BoolOp, ast.UnaryOp, ast.Compare)):
                    p = src.parents.get(p)
                if isinstance(p, (ast.If, ast.While, ast.IfExp)):
                    c.bad(R, fn.where(n), 'reading depends on use_mmap', '%s|use_mmap %s' % (R, fn.qual))
                else:
                    c.open(R, 'use of use_mmap at %s' % fn.where(n))


def c06_use(c, R, src, t, fn, n):
    p = src.parents.get(n)
    where = fn.where(n)
    txt = ast.unparse(n)

    def bad(msg):
        c.bad(R, where, '%s: %s (it may be bytes or a memory map)' % (txt, msg), '%s|%s|%s' % (R, fn.qual, msg[:40]))
    if isinstance(p, ast.Attribute) and p.value is n:
        gp = src.parents.get(p)
        if p.attr in BOTH or p.attr.startswith('__'):
            c.ok(R, sample='%s at %s' % (p.attr, where))
        elif p.attr in BYTES_ONLY or p.attr in MMAP_ONLY:
            if guarded_by_hasattr(src, fn, n, p.attr):
                c.ok(R, sample='%s where it exists, at %s' % (p.attr, where))
            else:
                bad('.%s exists only on %s' % (p.attr, 'bytes' if p.attr in BYTES_ONLY else 'memory maps'))
        else:
            c.ok(R, sample='attribute %s at %s' % (p.attr, where))      # an object of the package with the same attribute name
        return
    if isinstance(p, ast.BinOp):
        if isinstance(p.op, (ast.Add, ast.Mult)):
            bad('operator %s is not defined alike' % type(p.op).__name__)
            return
    elif isinstance(p, ast.AugAssign) and p.value is n:
        bad('it is added to something')
        return
    elif isinstance(p, ast.Compare):
        ops = [p.left] + p.comparators
        i = [k for k, x in enumerate(ops) if x is n]
        kinds = []
        for k in i:
            if k > 0:
                kinds.append(p.ops[k - 1])
            if k < len(p.ops):
                kinds.append(p.ops[k])
        for o in kinds:
            if not isinstance(o, (ast.Is, ast.IsNot)):
                other = [x for x in ops if x is not n]
                if all(isinstance(x, ast.Constant) and x.value is None for x in other):
                    continue
                bad('comparison %s of the whole buffer' % type(o).__name__)
                return
    elif isinstance(p, (ast.For, ast.comprehension)) and p.iter is n:
        bad('iteration gives numbers for bytes and single bytes for a map')
        return
    elif isinstance(p, ast.Call) and n in p.args:
        fs, cs, e = src.resolve(fn, p.func)
        if e in ('hash', 'iter', 'list', 'tuple', 'sum', 'max', 'min', 'sorted', 'enumerate', 'set', 'map', 'zip') and not fs:
            bad('%s() does not treat them alike' % e)
            return
        if e in ('isinstance', 'type') and not fs:
            q = src.parents.get(p)
            while isinstance(q, (ast.BoolOp, ast.UnaryOp, ast.Compare)):
                q = src.parents.get(q)
            if isinstance(q, (ast.If, ast.While, ast.IfExp)):
                c.open(R, 'decision on the type of the buffer at %s' % where)
                return
    c.ok(R, sample='%s at %s' % (type(p).__name__, where))


def guarded_by_hasattr(src, fn, n, attr):
    txt = ast.dump(n)

    def tests(e):
        for x in ast.walk(e):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) >= 2 \
                    and isinstance(x.args[1], ast.Constant) and x.args[1].value == attr:
                return True
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'isinstance':
                return True
        return False
    k, q = n, src.parents.get(n)
    while q is not None and not isinstance(q, (ast.FunctionDef, ast.Lambda)):
        if isinstance(q, ast.If) and tests(q.test) or isinstance(q, ast.IfExp) and tests(q.test) or isinstance(q, ast.BoolOp) and any(tests(v) for v in q.values):
            return True
        if isinstance(q, ast.Try) and k in q.body and q.handlers:
            return True
        body = getattr(q, 'body', None)
        if isinstance(body, list) and k in body:
            for s in body[:body.index(k)]:
                if isinstance(s, ast.If) and tests(s.test):
                    return True     # an early exit on the same question
        k, q = q, src.parents.get(q)
    if q is not None and isinstance(q, ast.FunctionDef):
        for s in q.body:
            if s is k:
                break
            if isinstance(s, ast.If) and tests(s.test):
                return True
    return False
