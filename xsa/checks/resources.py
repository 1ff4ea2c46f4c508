"""C01 nothing acquired while opening is leaked, C02 releasing a workbook."""
import ast
from .common import *
from ..interp import *
from ..terms import *
from ..src import Source
from ..typestate import Typestate, Resources, TooMany, text
from .values import fold, sole_value, report_value, at
from .opening import Opening, sym_args

RAW = {'open', 'io.open', 'builtins.open', 'codecs.open', 'os.fdopen', 'mmap.mmap', 'zipfile.ZipFile', 'gzip.open', 'bz2.open',
       'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'io.FileIO', 'os.popen', 'socket.socket'}
BOOK = 'xlrd.book.Book'
CODE = ('xlrd.', )


class BookResources(Resources):
    def __init__(self, src):
        self.src = src
        self.release = src.method_of(BOOK, 'release_resources')
        self.exit = src.method_of(BOOK, '__exit__')
        self.closes = {}
        self.exit_ok = True

    def acquisition(self, fn, call):
        fs, cs, ext = self.src.resolve(fn, call.func)
        if ext in RAW:
            return 'raw'
        if any(q == BOOK or BOOK in self.src.mro(q) for q in cs):
            return 'owner'
        return None

    def is_release(self, f):
        return f is self.release or f is self.exit

    def keeper_attr(self, attr):
        if attr not in self.closes:
            self.closes[attr] = closes_attr(self.src.prog, attr)
        return self.closes[attr]

    def returned(self, ts, st):
        flags = [y for y in st if y[0] == 'f' and y[1].split('.')[-1] == 'on_demand']
        if flags and all(y[2] for y in flags):
            return frozenset(('s', x[1], 'lent') if x[0] == 's' and x[2] == 'open' and ts.kinds[x[1]] == 'owner' else x for x in st)
        return st

    def flag(self, t):
        return t.split('.')[-1] == 'on_demand'

    def manager_exit_releases(self):
        return self.exit_ok


def closes_attr(prog, attr):
    """does interpreting the release method close what the attribute holds"""
    m = Map(b'mapping')
    s = Setup(prog, 80, book={'mem': const(b''), 'filestr': const(b''), attr: ('sym', 'held')})
    s.run(BOOK + '.release_resources', [s.book])
    env = E.Env({'held': m})
    env.noexc = True
    und = False
    for e in s.it.events:
        if e.kind == 'mcall' and e.data[1] in ('close', '__exit__'):
            v = valued(e.data[0], env)
            if v is m and settle(e, env):
                return True
            und = und or v is E.Undef or v is m and settle(e, env) is None
    return und


def acquiring(src, spec):
    """functions with an acquisition in their own body, and everything that can reach one"""
    direct = {}
    for f in src.fns:
        for call, fs, cs, ext in src.calls(f):
            k = spec.acquisition(f, call)
            if k:
                direct.setdefault(f, []).append((k, call))
    touches = set(direct)
    for f in src.fns:
        if spec.is_release(f):
            touches.add(f)
        for n in f.body_nodes():
            if isinstance(n, ast.Attribute) and n.attr in ('close', '__exit__', 'enter_context', 'release_resources'):
                touches.add(f)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == 'on_demand':
                touches.add(f)

    def upward(base):
        up = set(base)
        changed = True
        while changed:
            changed = False
            for f in src.fns:
                if f not in up and any(g in up for call, fs, cs, ext in src.calls(f) for g in fs):
                    up.add(f)
                    changed = True
        return up
    return direct, upward(direct), upward(touches)


def C01(c):
    """Typestate of every file, mapping, archive and workbook the package acquires, on every path of every function that can acquire
    one; then the fate of the mapping when the stream inside the file is copied out; then leaving a with-block."""
    R = 'released-on-every-path'
    c.rule(R, 'no path out of a function, exceptional ones included, leaves something it acquired open')
    src = Source(c.prog, normal=True)
    spec = BookResources(src)
    R3 = 'with-block'
    c.rule(R3, 'leaving a with-block on a workbook releases it whether or not the block raised, and does not hide the exception')
    c.guard(R3, c01_with, c, R3, spec)
    c.guard(R, c01_paths, c, R, src, spec)
    R2 = 'mapping-not-dropped'
    c.rule(R2, 'when opening ends the mapping is either still held by the workbook, or closed')
    c.guard(R2, c01_mapping, c, R2)


def c01_paths(c, R, src, spec):
    if spec.release is None:
        c.bad(R, 'xlrd/book.py', 'Book has no release_resources method')
        return
    direct, up, follow = acquiring(src, spec)
    ts = Typestate(src, spec, follow)
    done = set()
    for f in sorted(up, key=lambda f: f.qual):
        try:
            res = ts.function(f, frozenset())
        except (TooMany, RecursionError):
            c.open(R, '%s: too many path states' % f.qual)
            continue
        judge(c, R, src, ts, f, res, done)
    for key, (fn, node, msg) in ts.problems.items():
        c.bad(R, fn.where(node), '%s %s' % (describe(node), msg), '%s|keep|%s' % (R, fn.qual))
    n = 0
    for f, l in direct.items():
        for k, call in l:
            n += 1
            if not any((k, call.lineno, call.col_offset, f.qual) == x[0] for x in done):
                c.ok(R, sample='%s: %s' % (f.where(call), describe(call)))
    c.count('acquisitions', n)
    c.count('functions followed', len(up))
    c.count('path steps', ts.steps)


def describe(call):
    return '%s(...)' % (text(call.func) or ast.dump(call.func)[:30]) if isinstance(call, ast.Call) else 'the object'


def judge(c, R, src, ts, f, res, done):
    for st, ret in res['ret']:
        for x in st:
            if x[0] != 's' or x[2] != 'open':
                continue
            rid = x[1]
            if ts.kinds[rid] == 'raw':
                if rid == ret:
                    continue            # handed to the caller, who is analysed with it
                report(c, R, ts, rid, f, 'is not closed when %s returns' % f.name, done)
            else:
                flags = [y for y in st if y[0] == 'f' and y[1].split('.')[-1] == 'on_demand']
                if any(not y[2] for y in flags) and derived_flag(f, st):
                    c.open(R, '%s: depends on a value computed from on_demand' % f.qual)
                elif any(not y[2] for y in flags):
                    report(c, R, ts, rid, f, 'still holds its file mapping when %s returns without on-demand loading' % f.name, done)
                elif not flags:
                    if derived_flag(f, st):
                        c.open(R, '%s: depends on a value computed from on_demand' % f.qual)
                    elif not is_entry_with_option(f):
                        report(c, R, ts, rid, f, 'still holds its file mapping when %s returns' % f.name, done) if rid != ret else None
                    else:
                        report(c, R, ts, rid, f, 'still holds its file mapping when %s returns, on-demand or not' % f.name, done)
    for st, k in res['exc']:
        for x in st:
            if x[0] != 's' or x[2] not in ('open', 'lent'):
                continue
            rid = x[1]
            kind = 'an exception' if k == 'E' else 'an exception such as KeyboardInterrupt'
            report(c, R, ts, rid, f, 'is not closed when %s leaves %s' % (kind, f.name), done)


def is_entry_with_option(f):
    return 'on_demand' in f.params


def derived_flag(f, st):
    """a flag tested on this path is computed from on_demand"""
    tested = {y[1].split('.')[0] for y in st if y[0] == 'f'} | {y[1].split('.')[-1] for y in st if y[0] == 'f'}
    known = {y[1] for y in st if y[0] == 'a'}
    for n in f.body_nodes():
        if isinstance(n, ast.Assign):
            if all(text(t) in known or text(t) is not None and text(t).split('.')[-1] == 'on_demand' for t in n.targets):
                continue
            src = {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)} | \
                {x.attr for x in ast.walk(n.value) if isinstance(x, ast.Attribute)}
            if 'on_demand' in src:
                for t in n.targets:
                    for x in ast.walk(t):
                        nm = x.id if isinstance(x, ast.Name) else getattr(x, 'attr', None)
                        if nm in tested:
                            return True
    return False


def report(c, R, ts, rid, f, msg, done):
    fn, node = ts.sites[rid]
    key = (rid, f.qual)
    # the innermost function that lets it go is the one to name
    if any(k[0] == rid for k in done):
        return
    done.add(key)
    c.bad(R, fn.where(node), '%s acquired here %s' % (describe(node), msg), '%s|%s|%s|%s' % (R, fn.qual, describe(node), f.qual))


# ------------------------------------------------------------ abstract objects with an identity
class Map(bytes):
    """stands for one memory mapping"""
    xsa_identity = True

    def close(self):
        raise AssertionError


class Raw(bytes):
    """stands for one plain buffer"""
    xsa_identity = True


def settle(e, env):
    """does the event happen under the valuation (None when undecided)"""
    for g in e.guards:
        if g[0] == TOP:
            return None
        if g[0][0] == 'app' and g[0][1] == 'except':
            if g[1]:
                return False
            continue
        try:
            v = E.truth(g[0], env)
        except (E.Undef, E.Raised):
            return None
        if v != g[1]:
            return False
    return True


def valued(t, env):
    try:
        return E.ev(t, env)
    except (E.Undef, E.Raised):
        return E.Undef


# ------------------------------------------------------------ the mapping and the stream inside it
SIG = b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1'


def c01_mapping(c, R):
    o = Opening(c.prog, 80, sym_args(file_contents=NONE, use_mmap=TRUE, on_demand=TRUE))
    if o.entry_state is None:
        c.open(R, 'reading never starts')
        return
    attrs = ('mem', 'filestr')
    terms = {n: o.attr(o.s.st, n) for n in attrs}
    other = {}
    h = o.s.it.hget(o.s.st, o.book[1])
    for k, v in h.attrs.items():
        other[k] = v
    for label, B, mk in (('a bare BIFF file', Map(b'\x09\x08' + bytes(600)), None), ('a compound file whose stream is in one piece', Map(SIG + bytes(600)), 'same'),
                         ('a compound file whose stream is fragmented', Map(SIG + bytes(600)), 'copy')):
        stream = B if mk == 'same' else Raw(b'stream bytes')
        syms = {'opt_filename': 'F', 'stream': stream, 'stream_base': 512, 'stream_size': 1024, 'opt_on_demand': True, 'opt_verbosity': 0,
                'opt_encoding_override': None, 'opt_formatting_info': False, 'opt_ragged_rows': False, 'opt_ignore_workbook_corruption': False}
        everything = list(terms.values()) + [g[0] for e in o.s.it.events for g in e.guards if isinstance(g[0], tuple)]
        extra = {}
        for t in everything + [x for e in o.s.it.events if e.kind == 'mcall' for x in (e.data[0],)]:
            for w in walk(t):
                if w[0] == 'app' and w[1] == 'ext:mmap.mmap':
                    extra[w] = B
                elif w[0] == 'app' and w[1] == 'method' and len(w) > 3 and w[2] == const('tell'):
                    extra[w] = len(B)
        env = E.Env(syms, None, None, extra)
        env.noexc = True
        held, und = False, None
        vals = {}
        for n in attrs:
            v = valued(terms[n], env) if terms[n] is not None else None
            vals[n] = v
            if v is E.Undef:
                und = n
            held = held or v is B
        closed = False
        site = None
        for e in o.s.it.events:
            if e.kind == 'extcall' and e.data[0] == ('ext', 'mmap.mmap'):
                site = e.where()
            if e.kind == 'mcall' and e.data[1] in ('close', '__exit__'):
                v = valued(e.data[0], env)
                hp = settle(e, env)
                if v is E.Undef or hp is None:
                    if v is E.Undef or v is B:
                        und = und or 'close'
                elif hp and v is B:
                    closed = True
        if und and not (held or closed):
            c.open(R, '%s: %s' % (label, und))
            continue
        if not held and not closed:
            c.bad(R, site or 'xlrd/book.py', 'reading %s: the mapping made here is neither held by the workbook nor closed when reading starts' % label, R + '|' + label)
        elif closed and held and not und:
            c.bad(R, site or 'xlrd/book.py', 'reading %s: the workbook goes on using a mapping that has been closed' % label, R + '|closed|' + label)
        else:
            c.ok(R, sample=label)


# ------------------------------------------------------------ with-blocks
def c01_with(c, R, spec):
    spec.exit_ok = False
    en = c.prog.func(BOOK + '.__enter__')
    ex = c.prog.func(BOOK + '.__exit__')
    if en is None or ex is None:
        c.bad(R, 'xlrd/book.py', 'a workbook cannot be used in a with-statement', R + '|missing')
        return
    s = Setup(c.prog, 80)
    s.run(BOOK + '.__enter__', [s.book])
    if s.value == s.book:
        c.ok(R, sample='__enter__ returns the workbook')
    elif s.value is not None and not has_unknown(s.value):
        c.bad(R, spec.src.method_of(BOOK, '__enter__').where(), 'entering a with-block gives %s instead of the workbook' % brief(s.value, 40), R + '|enter')
    else:
        c.open(R, '__enter__')
    fn = spec.src.method_of(BOOK, '__exit__')
    for label, args in (('without an exception', [NONE, NONE, NONE]), ('with an exception', [('sym', 'exc_type'), ('sym', 'exc_value'), ('sym', 'exc_tb')])):
        s = Setup(c.prog, 80, book={'on_demand': ('sym', 'on_demand')})
        s.it.hooks[BOOK + '.release_resources'] = lambda interp, st, f, a, kw, node: (interp.emit('hook', (const('release'),), st, node), NONE)[1]
        s.run(BOOK + '.__exit__', [s.book] + args)
        calls = [e for e in s.it.events if e.kind == 'hook']
        und = False
        for od in (True, False):
            env = E.Env({'exc_type': ValueError, 'exc_value': ValueError(), 'exc_tb': 'tb', 'on_demand': od})
            got = [settle(e, env) for e in calls]
            if any(x is True for x in got):
                c.ok(R, sample='leaving %s, on_demand=%s: released' % (label, od))
                continue
            # closing the attributes by itself is as good
            if any(x is None for x in got) or any(e.kind == 'mcall' and e.data[1] == 'close' for e in s.it.events):
                c.open(R, 'leaving %s' % label)
                und = True
                continue
            c.bad(R, fn.where(), 'leaving a with-block %s does not release the workbook (on_demand=%s)' % (label, od), R + '|exit|' + label)
            und = True
        if not und:
            spec.exit_ok = True
        v = s.value
        env = E.Env({'exc_type': ValueError, 'exc_value': ValueError(), 'exc_tb': 'tb', 'on_demand': True})
        r = valued(v, env) if v is not None else E.Undef
        if args[0] == NONE:
            continue
        if r is E.Undef:
            c.open(R, 'what __exit__ returns')
        elif r:
            c.bad(R, fn.where(), 'leaving a with-block hides the exception raised in it (__exit__ returns %r)' % (r,), R + '|hides')
        else:
            c.ok(R)


# ------------------------------------------------------------ C02
def C02(c):
    """The release method is interpreted on a workbook whose buffers are a mapping, plain bytes, or one of each; then run again; then
    sheets are asked for; and the accessors of loaded sheets are shown not to reach the buffers released."""
    R = 'releases-everything'
    c.rule(R, 'the mapping is closed and no raw buffer is still referenced')
    c.guard(R, c02_release, c, R)
    R2 = 'keeps-no-other-reference'
    c.rule(R2, 'the raw file or stream is kept in no attribute the release does not reset')
    c.guard(R2, c02_copies, c, R2)
    R3 = 'not-loaded'
    c.rule(R3, 'after the release a sheet not loaded raises XLRDError, a loaded one is returned')
    for how in ('get_sheet', 'sheet_by_index', 'sheet_by_name', '__getitem__', 'sheets'):
        c.guard(R3, c02_not_loaded, c, R3, how)
    R4 = 'loaded-sheets-usable'
    c.rule(R4, 'no accessor of a loaded sheet or of the workbook reaches what the release drops')
    c.guard(R4, c02_accessors, c, R4)


BUFFERS = ('mem', 'filestr', '_sharedstrings', '_rich_text_runlist_map')


def c02_release(c, R):
    src = Source(c.prog)
    rel = src.method_of(BOOK, 'release_resources')
    if rel is None:
        c.bad(R, 'xlrd/book.py', 'Book has no release_resources method', R)
        return
    m, m2, r = Map(b'mapping'), Map(b'another'), Raw(b'raw')
    for label, mem, fs in (('stream inside the mapping', m, m), ('stream copied, file mapped', r, m), ('mapping under mem only', m, Raw(b'')),
                           ('two mappings', m, m2), ('plain bytes', r, r)):
        s = Setup(c.prog, 80, book=dict([(b, ('sym', b)) for b in BUFFERS], _resources_released=const(0), verbosity=('sym', 'verbosity'),
                                        on_demand=('sym', 'on_demand')))
        s.run(BOOK + '.release_resources', [s.book])
        n1 = len(s.it.events)
        ev1 = list(s.it.events)
        first = dict(s.obj(s.book).attrs)
        env = E.Env({'mem': mem, 'filestr': fs, '_sharedstrings': ['s'], '_rich_text_runlist_map': {0: 1}, 'verbosity': 0, 'on_demand': True})
        env.noexc = True
        for name, obj in (('mem', mem), ('filestr', fs)):
            if not isinstance(obj, Map):
                continue
            got = []
            for e in ev1:
                if e.kind == 'mcall' and e.data[1] == 'close':
                    v = valued(e.data[0], env)
                    if v is obj or v is E.Undef:
                        got.append(settle(e, env) if v is obj else None)
            if any(x is True for x in got):
                c.ok(R, sample='%s: %s is closed' % (label, name))
            elif any(x is None for x in got):
                c.open(R, '%s: closing %s' % (label, name))
            else:
                c.bad(R, rel.where(), 'releasing a workbook (%s) does not close the mapping held as %s' % (label, name), '%s|close|%s' % (R, name))
        for b in BUFFERS:
            v = valued(first[b], env) if b in first else None
            if v is E.Undef:
                c.open(R, '%s: %s afterwards' % (label, b))
            elif v:
                c.bad(R, rel.where(), 'releasing a workbook leaves %s referenced' % b, '%s|keeps|%s' % (R, b))
            else:
                c.ok(R, sample='%s dropped' % b)
        bad_events(c, R, ev1, env, rel, 'releasing a workbook (%s)' % label)
        flag = valued(first['_resources_released'], env)
        # and again
        s.run(BOOK + '.release_resources', [s.book])
        again = s.it.events[n1:] if len(s.it.events) >= n1 else list(s.it.events)
        if not bad_events(c, R, again, env, rel, 'releasing a workbook a second time'):
            c.ok(R, sample='%s: a second release is harmless' % label)


def bad_events(c, R, events, env, rel, what):
    found = False
    for e in events:
        if e.kind in ('keyerror', 'implicit_raise', 'typeerror', 'badcall', 'raise'):
            if settle(e, env):
                c.bad(R, e.where(), '%s raises' % what, '%s|raises|%s' % (R, what))
                found = True
        elif e.kind == 'mcall' and e.data[1] == 'close':
            v = valued(e.data[0], env)
            if v is not E.Undef and not hasattr(v, 'close') and settle(e, env):
                c.bad(R, e.where(), '%s calls close() on %s' % (what, type(v).__name__), '%s|noclose|%s' % (R, what))
                found = True
    return found


def c02_copies(c, R):
    src = Source(c.prog, normal=True)
    rel = src.method_of(BOOK, 'release_resources')
    reset = set(BUFFERS)
    for f in [rel] + [g for g in src.reach([rel]) if g.cls == rel.cls]:
        for n in f.body_nodes():
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                reset.add(n.attr)
    n = 0
    for f in src.fns:
        if f.cls is None or f.module.name not in ('xlrd.book', 'xlrd.sheet', 'xlrd.formatting'):
            continue
        cds = set()
        alias = set()
        for x in f.body_nodes():
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Name):
                        if isinstance(x.value, ast.Call) and any(q.endswith('.CompDoc') for q in src.resolve(f, x.value.func)[1]):
                            cds.add(t.id)
                        if isinstance(x.value, ast.Attribute) and x.value.attr in ('mem', 'filestr'):
                            alias.add(t.id)
        for x in f.body_nodes():
            if not isinstance(x, ast.Assign):
                continue
            for t in x.targets:
                if not isinstance(t, ast.Attribute):
                    continue
                v = x.value
                whole = isinstance(v, ast.Attribute) and v.attr in ('mem', 'filestr') or isinstance(v, ast.Name) and v.id in alias \
                    or isinstance(v, ast.Name) and v.id == 'file_contents'
                cd = isinstance(v, ast.Name) and v.id in cds or isinstance(v, ast.Call) and any(q.endswith('.CompDoc') for q in src.resolve(f, v.func)[1])
                if not (whole or cd):
                    continue
                n += 1
                if t.attr in reset:
                    c.ok(R, sample=f.where(x))
                else:
                    c.bad(R, f.where(x), 'attribute %s keeps %s and releasing the workbook does not drop it'
                          % (t.attr, 'the compound file reader, and with it the file' if cd else 'the raw file'), '%s|%s' % (R, t.attr))
    c.count('places that keep the raw file', n)


def c02_not_loaded(c, R, how):
    src = Source(c.prog)
    rel = src.method_of(BOOK, 'release_resources')
    cases = [('not loaded', 0), ('loaded', 1)] if how not in ('get_sheet', 'sheets') else [('not loaded', 0)]
    for state, ix, od in [(a, b, d) for a, b in cases for d in (True, False)]:
        s = Setup(c.prog, 80, book=dict([(b, ('sym', b)) for b in BUFFERS], on_demand=const(od), use_mmap=('sym', 'use_mmap')))
        attrs = s.obj(s.book).attrs
        attrs['_sheet_list'] = s.it.new_list(s.st, [NONE, s.sheet])
        attrs['_sheet_names'] = s.it.new_list(s.st, [const('A'), const('B')])
        attrs['_sh_abs_posn'] = s.it.new_list(s.st, [const(100), const(200)])
        attrs['nsheets'] = const(2)
        attrs['base'] = const(0)
        attrs['_resources_released'] = const(0)
        s.run(BOOK + '.release_resources', [s.book])
        n0 = len(s.it.events)
        arg = const(ix)
        if how == 'sheet_by_name':
            arg = const('AB'[ix])
        s.run(BOOK + '.' + how, [s.book] + ([arg] if how != 'sheets' else []))
        evs = s.it.events[n0:] if len(s.it.events) >= n0 else s.it.events
        env = E.Env({'mem': Raw(b'x'), 'filestr': Raw(b'x'), '_sharedstrings': [], '_rich_text_runlist_map': {}, 'use_mmap': True})
        env.noexc = True
        first = None
        for e in evs:
            if e.kind in ('raise', 'keyerror', 'implicit_raise', 'typeerror', 'badcall') or e.kind == 'mcall' and e.data[1] == 'read':
                h = settle(e, env)
                if h is None:
                    first = first or 'undecided'
                elif h:
                    first = first or e
                    break
        label = '%s of a sheet %s' % (how, state)
        if state == 'loaded':
            if first is None and s.value == s.sheet:
                c.ok(R, sample=label)
            elif first not in (None, 'undecided'):
                c.bad(R, first.where(), 'after a release, %s raises' % label, '%s|%s' % (R, label))
            else:
                c.open(R, label)
            continue
        if first == 'undecided':
            c.open(R, label)
        elif first is None:
            if s.it.exhausted() if hasattr(s.it, 'exhausted') else False:
                c.open(R, label)
            else:
                c.bad(R, src.method_of(BOOK, how).where(), 'after a release, %s does not raise' % label, '%s|%s' % (R, label))
        elif first.kind == 'raise' and raised_kind(first) in ('XLRDError',):
            c.ok(R, sample=label)
        elif first.kind == 'raise' and raised_kind(first) is None:
            c.open(R, label)
        else:
            c.bad(R, first.where(), 'after a release, %s ends in %s instead of XLRDError' % (label, raised_kind(first) if first.kind == 'raise' else 'another error'),
                  '%s|%s' % (R, label))


def raised_kind(e):
    t = e.data[0] if e.data else None
    s = repr(t)
    import re
    m = re.search(r"'(?:xlrd\.[\w.]*\.)?(\w*(?:Error|Exception|Interrupt|Exit))'", s)
    return m.group(1) if m else None


SHEET_ACCESSORS = ('cell', 'cell_value', 'cell_type', 'cell_xf_index', 'row_len', 'row', '__getitem__', 'get_rows', '__iter__', 'row_types', 'row_values',
                   'row_slice', 'col_slice', 'col_values', 'col_types', 'col', 'computed_column_width')
BOOK_ACCESSORS = ('sheet_names', 'sheet_loaded', 'unload_sheet')


def c02_accessors(c, R):
    src = Source(c.prog, normal=True)
    roots = [src.method_of('xlrd.sheet.Sheet', n) for n in SHEET_ACCESSORS] + [src.method_of(BOOK, n) for n in BOOK_ACCESSORS]
    for r in roots:
        if r is None:
            continue
        seen, todo, bad = {r}, [r], None
        while todo:
            f = todo.pop()
            for n in f.body_nodes():
                if isinstance(n, ast.Attribute) and n.attr in BUFFERS and isinstance(n.ctx, ast.Load):
                    bad = bad or (f, n)
            for call, fs, cs, ext in src.calls(f):
                for g in fs:
                    if g not in seen:
                        seen.add(g)
                        todo.append(g)
        if bad:
            c.bad(R, bad[0].where(bad[1]), '%s reads %s, which a release drops' % (r.name, bad[1].attr), '%s|%s|%s' % (R, r.name, bad[1].attr))
        else:
            c.ok(R, sample='%s: %d functions' % (r.name, len(seen)))
