"""C40 compound-file layout; C28 corrupt sector chains and directories are reported."""
import ast
import struct
from .common import *
from ..src import Source

MEM = ('sym', 'mem')
DENT = ('sym', 'dent')
SAT = ('sym', 'sat')
EOC = -2
CD = 'xlrd.compdoc.CompDoc'
NSECS = 20


# ---- valuations
def atoms(t, out):
    if t[0] in ('phi', 'elem', 'exit', 'sym', 'init', 'k', 'unbound'):
        out.add(t)
        if t[0] != 'elem':
            return
        return
    if t[0] == 'app' and t[1] in ('item', 'attr', 'len', 'truth', 'in', 'get', 'is') or t[0] in ('u', 's'):
        out.add(t)
    for x in t[1:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                atoms(x, out)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], str):
                            atoms(y, out)
                        elif y and isinstance(y[0], tuple):
                            atoms(y[0], out)


class Case(object):
    """a partial valuation: assign(atom) -> value or None"""

    def __init__(self, assign, syms=None, inits=None, exc=False):
        self.assign = assign
        self.syms = syms or {}
        self.inits = inits or {}
        self.exc = exc
        self.extra = {}
        self.ks = {}
        self.seen = set()

    def env(self, t):
        if t not in self.seen:
            self.seen.add(t)
            s = set()
            atoms(t, s)
            for a in s:
                if a in self.extra:
                    continue
                v = self.assign(a)
                if v is not None:
                    self.extra[a] = v
                    if a[0] == 'k':
                        self.ks[a[1]] = v
        return E.Env(self.syms, self.inits, self.ks, self.extra)

    def val(self, t):
        return E.ev(t, self.env(t))

    def guard(self, cond, pol):
        """True, False, or None when undecided"""
        if cond == TOP:
            return None
        if cond[0] == 'app' and cond[1] == 'except':
            return self.exc == pol
        try:
            return bool(E.truth(cond, self.env(cond))) == bool(pol)
        except (E.Undef, E.Raised):
            return None

    def holds(self, ev):
        r = True
        for g in ev.guards:
            h = self.guard(g[0], g[1])
            if h is False:
                return False
            if h is None:
                r = None
        return r


def outcome(case, events):
    """'raises' (some raise certainly happens), 'accepts' (certainly none), or None; with the raise"""
    res = 'accepts'
    for e in events:
        if e.kind != 'raise':
            continue
        h = case.holds(e)
        if h is True:
            return 'raises', e
        if h is None:
            res = None
    return res, None


def expect(c, rule, label, case, events, want, where, msg):
    got, ev = outcome(case, events)
    if got is None:
        c.open(rule, '%s: undecided' % label)
    elif got == want:
        c.ok(rule, sample='%s: %s%s' % (label, got, ' at line %d' % ev.line if ev else ''))
    else:
        c.bad(rule, ev.where() if ev else where, '%s: %s' % (label, msg), key='%s|%s' % (rule, label))


def never(c, rule, label, case, evs, msg, events=()):
    """none of the events happens; one that a certain raise of the same loop precedes does not"""
    stop = None
    for i, e in enumerate(events):
        if e.kind == 'raise' and case.holds(e) is True:
            stop = (i, e.loops)
            break
    pos = {id(e): i for i, e in enumerate(events)}
    for e in evs:
        h = case.holds(e)
        if h is not False and stop is not None and pos.get(id(e), -1) > stop[0] and e.loops[:len(stop[1])] == stop[1]:
            h = False
        if h is True:
            c.bad(rule, e.where(), '%s: %s' % (label, msg), key='%s|%s|%s' % (rule, label, e.kind))
        elif h is None:
            c.open(rule, '%s: undecided at line %d' % (label, e.line))
        else:
            c.ok(rule, sample='%s: not used at line %d' % (label, e.line))


def always(c, rule, label, case, evs, where, msg):
    """at least one of the events certainly happens"""
    r = False
    for e in evs:
        h = case.holds(e)
        if h is True:
            c.ok(rule, sample='%s: line %d' % (label, e.line))
            return e
        if h is None:
            r = None
    if r is None:
        c.open(rule, '%s: undecided' % label)
    else:
        c.bad(rule, where, '%s: %s' % (label, msg), key='%s|%s' % (rule, label))
    return None


# ---- runs
def setup(c):
    s = Setup(c.prog)
    s.it.element_syms = True
    s.it.load_events = True
    s.it.symkinds.update(mem='bytes', dent='bytes', ignore='int', base='int', sec_size='int', start_sid='int', size='int',
                         seen_id='int', parent='int', child='int')
    s.it.hooks['xlrd.compdoc.dump_list'] = lambda *a: NONE
    return s


def opaque(s, cls, name, **kw):
    return s.it.new_opaque(s.st, cls, name, **kw)


_SRC = {}


def source(c):
    if id(c.prog) not in _SRC:
        _SRC.clear()
        _SRC[id(c.prog)] = Source(c.prog)
    return _SRC[id(c.prog)]


def func_where(c, q):
    f = source(c).by_qual.get(q)
    return f.where() if f is not None else q


def header(ssz=9, sssz=6, nsecs=NSECS, fields=(1, 0, 0, 4096, 2, 1, 3, 1), tail=0):
    h = bytearray(512)
    h[0:8] = b'\xD0\xCF\x11\xE0\xA1\xB1\x1A\xE1'
    h[24:28] = struct.pack('<HH', 0x3e, 3)
    h[28:30] = b'\xFE\xFF'
    h[30:34] = struct.pack('<HH', ssz, sssz)
    h[44:76] = struct.pack('<8i', *fields)
    return bytes(h) + bytes((nsecs << ssz) + tail)


def run_init(c):
    s = setup(c)
    d = opaque(s, CD, 'cd')
    calls = []

    def gs(it, st, fn, args, kwargs, node):
        b = call_args(s, fn, args, kwargs)
        it.emit('getstream', (b,), st, node)
        name = 'stream%d' % node.lineno
        it.symkinds[name] = 'bytes'
        calls.append(name)
        return ('sym', name)

    def tree(it, st, fn, args, kwargs, node):
        it.emit('tree', (call_args(s, fn, args, kwargs),), st, node)
        return NONE
    s.it.hooks['xlrd.compdoc.CompDoc._get_stream'] = gs
    s.it.hooks['xlrd.compdoc._build_family_tree'] = tree
    s.run('xlrd.compdoc.CompDoc.__init__', [d, MEM], {'logfile': ('sym', 'logfile'), 'DEBUG': const(0),
                                                    'ignore_workbook_corruption': ('sym', 'ignore')})
    s.cd = d
    return s


def call_args(s, fn, args, kwargs, st):
    """{parameter name: value} of a hooked call"""
    f = s.it.func_info(fn)
    return s.it.bind(f, args, kwargs, st) or {}


def hook(s, q, result, kind='call'):
    def h(it, st, fn, args, kwargs, node):
        b = call_args(s, fn, args, kwargs, st)
        s.calls.append((q.split('.')[-1], b, st.guards, node, it.loops))
        it.emit(kind, (const(q.split('.')[-1]), const(len(s.calls) - 1)), st, node)
        return result(len(s.calls) - 1, st) if callable(result) else result
    s.calls = getattr(s, 'calls', [])
    s.it.hooks[q] = h


def has_atom(t, pred):
    s = set()
    atoms(t, s)
    return [a for a in s if pred(a)]


def attr_is(t, name):
    return t[0] == 'app' and t[1] == 'attr' and t[3] == const(name)


def sec_slices(s, container=MEM):
    """slices of the file whose position depends on a loop-carried or table-read sector number -> [(event, atom)]"""
    out = []
    for e in s.it.events:
        if e.kind == 'slice' and e.data[0] == container:
            a = has_atom(e.data[1], lambda x: x[0] in ('phi', 'elem'))
            if len(a) == 1:
                out.append((e, a[0]))
    return out


def in_try(src, node, names):
    """is the node inside a try body one of whose handlers catches one of names"""
    p, ch = src.parents.get(node), node
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
        if isinstance(p, ast.Try) and ch in p.body:
            for h in p.handlers:
                ts = [h.type] if not isinstance(h.type, ast.Tuple) else h.type.elts
                for t in ts:
                    if t is None or isinstance(t, ast.Name) and t.id in names or isinstance(t, ast.Attribute) and t.attr in names:
                        return True
        p, ch = src.parents.get(p), p
    return False


LOOKUPS = ('IndexError', 'LookupError', 'Exception', 'BaseException')


def error_types(c, rule, s, label):
    ok = {'CompDocError', 'XLRDError'}
    for e in s.it.events:
        if e.kind != 'raise' or not e.path.endswith('compdoc.py'):
            continue
        n = e.data[0][2] if e.data[0][0] == 'c' else None
        if n is None:
            c.open(rule, '%s: raise at line %d' % (label, e.line))
        elif n in ok or derives(c, n, ok):
            c.ok(rule, sample='%s: %s at line %d' % (label, n, e.line))
        else:
            c.bad(rule, e.where(), '%s: raises %s, which is not the library error' % (label, n), key='%s|%s|%s' % (rule, label, n))


def derives(c, name, ok, depth=0):
    src = source(c)
    for m in src.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ClassDef) and n.name == name and depth < 6:
                for b in n.bases:
                    if isinstance(b, ast.Name) and (b.id in ok or derives(c, b.id, ok, depth + 1)):
                        return True
    return False


# ======================================================================= the header and its loops
class InitRun(object):
    def __init__(self, c):
        s = self.s = setup(c)
        self.cd = opaque(s, CD, 'cd')
        hook(s, 'xlrd.compdoc.CompDoc._get_stream', self.stream)
        hook(s, 'xlrd.compdoc._build_family_tree', lambda n, st: NONE)
        s.run('xlrd.compdoc.CompDoc.__init__', [self.cd, MEM],
              {'logfile': ('sym', 'logfile'), 'DEBUG': const(0), 'ignore_workbook_corruption': ('sym', 'ignore')})
        self.events = s.it.events
        at = s.obj(self.cd).attrs
        self.attrs = at
        self.seen, self.sat, self.ssat, self.dirlist = at.get('seen'), at.get('SAT'), at.get('SSAT'), at.get('dirlist')
        self.slices = sec_slices(s)

    def stream(self, n, st):
        name = 'stream%d' % n
        self.s.it.symkinds[name] = 'bytes'
        return ('sym', name)

    def loop_of(self, atom):
        return atom

    def assign(self, sid=None, atom=None, seen=0, root=None, satlen=NSECS, exitk=1, k=0, nodir=False, others=None):
        root = dict({'etype': 5, 'first_SID': 4, 'tot_size': 640, 'root_DID': 1, 'name': 'Root Entry'}, **(root or {}))

        def f(t):
            if t == atom:
                return sid
            if others and t in others:
                return others[t]
            if t[0] == 'elem':
                if t[1] == self.seen:
                    return seen
                if atom is not None and atom[0] == 'elem' and t[1] == atom[1]:
                    return sid
                return None
            if t[0] == 'exit':
                return exitk
            if t[0] == 'k':
                return k
            if t[0] == 'app' and t[1] == 'attr' and t[2][0] == 'elem' and t[2][1] == self.dirlist and t[3][0] == 'c':
                return root.get(t[3][2])
            if t[0] == 'app' and t[1] == 'truth' and t[2] == self.dirlist:
                return not nodir
            if t[0] == 'app' and t[1] == 'len' and t[2] == self.sat:
                return satlen
            if t[0] == 'app' and t[1] == 'len' and t[2] == self.dirlist:
                return 0 if nodir else 4
            return None
        return f

    def case(self, mem=None, **kw):
        return Case(self.assign(**kw), {'mem': mem if mem is not None else header(), 'ignore': 0, 'logfile': None})


def C40(c):
    """The compound-file reader is interpreted over an unknown file: every header field, directory field, sector slice and the choice between
    the two stream containers is extracted as a term over the file's bytes and compared with the published layout."""
    R = 'directory-entry'
    c.rule(R, 'the fields of a directory entry sit where the layout puts them')
    c.guard(R, c40_dirent, c, R)
    c.rule('header', 'sector sizes, table counts and locations are the header fields of the layout')
    c.rule('sectors', 'sector n occupies the bytes from 512 + n * size on, and tables and chains are assembled from whole sectors')
    c.rule('streams', 'the directory and the short-stream container are the streams the header and the root entry announce')
    c.guard('header', c40_init, c)
    R = 'chains'
    c.rule(R, 'a stream is the concatenation of the sectors of its chain, cut to its size')
    c.guard(R, c40_get_stream, c, R)
    c.guard(R, c40_locate_stream, c, R)
    R = 'container-choice'
    c.rule(R, 'a stream smaller than the cut-off comes from the short-sector container, any other from the file')
    c.guard(R, c40_choice, c, R)
    R = 'search'
    c.rule(R, 'a stream is looked up by name, ignoring case, among the children of its storage')
    c.guard(R, c40_search, c, R)
    R = 'tree'
    c.rule(R, 'the directory tree is linked by left, right and child links')
    c.guard(R, c40_tree, c, R)


def dirent_envs():
    out = []
    for n, v in enumerate(E.vectors(40)):
        d = bytearray((v * (128 // max(1, len(v)) + 1))[:128])
        if n % 4 == 0:
            d[64:66] = b'\x00\x00'
        else:
            nm = ('Name%d' % n).encode('utf-16-le') + b'\0\0'
            d[0:len(nm)] = nm
            d[64:66] = struct.pack('<H', len(nm))
        out.append(E.Env({'dent': bytes(d)}))
    return out


def c40_dirent(c, R):
    s = setup(c)
    d = opaque(s, 'xlrd.compdoc.DirNode', 'dn')
    s.run('xlrd.compdoc.DirNode.__init__', [d, ('sym', 'did'), DENT, const(0), ('sym', 'logfile')])
    es = dirent_envs()
    n = u16(64, DENT)
    want = {'etype': u8(66, DENT), 'colour': u8(67, DENT), 'left_DID': s32(68, DENT), 'right_DID': s32(72, DENT), 'root_DID': s32(76, DENT),
            'first_SID': s32(116, DENT), 'tot_size': s32(120, DENT), 'DID': ('sym', 'did'), 'parent': const(-1),
            'name': ite(eq(n, 0), const(''), dec(sl(0, add(n, const(-2)), DENT), 'utf-16-le')),
            'tsinfo': ('tuple', tuple(u32(100 + 4 * i, DENT) for i in range(4)))}
    for e in es:
        e.syms['did'] = 3
    h = s.obj(d)
    for a in sorted(want):
        got = h.attrs.get(a)
        check_term(c, R, 'DirNode.' + a, got, want[a], where_attr(s, d, a), es)
    ch = h.attrs.get('children')
    hh = s.it.hget(s.st, ch[1]) if ch is not None and ch[0] == 'ref' else None
    if hh is None or hh.kind != 'list' or hh.items is None:
        c.open(R, 'DirNode.children')
    elif hh.items:
        c.bad(R, where_attr(s, d, 'children'), 'a new entry starts with children', key=R + '|children')
    else:
        c.ok(R, sample='DirNode.children = []')


def c40_init(c):
    R = 'header'
    r = InitRun(c)
    s = r.s
    c.count('events', len(r.events))
    es = []
    for ssz, sssz, n, f, tail in ((9, 6, 20, (1, 0, 0, 4096, 2, 1, -2, 0), 0), (12, 6, 5, (2, 7, 0, 4096, -2, 0, 3, 2), 0), (7, 6, 40, (1, 9, 0, 512, 5, 3, 8, 1), 17),
                                  (9, 9, 3, (1, 1, 5, 1, 1, 1, 0, 0), 1), (20, 7, 2, (1, 1, 1, 4096, 0, 0, -1, 0), 100), (9, 6, 20, (3, 11, 9, 70000, 13, 4, 15, 6), 511)):
        es.append(E.Env({'mem': header(ssz, sssz, n, f, tail)}))
    sec = ('app', '<<', const(1), u16(30, MEM))
    ln = ('app', 'len', MEM)
    want = {'sec_size': sec, 'short_sec_size': ('app', '<<', const(1), u16(32, MEM)), 'dir_first_sec_sid': s32(48, MEM), 'min_size_std_stream': s32(56, MEM),
            'mem_data_len': add(ln, const(-512)), 'mem': MEM,
            'mem_data_secs': ('app', '//', add(add(ln, const(-513)), sec), sec)}
    for a in sorted(want):
        check_term(c, R, 'CompDoc.' + a, r.attrs.get(a), want[a], where_attr(s, s_self(r, s), a), es)
    # the sector numbers the three table loops start from, and the first part of the master table
    firsts = {}
    for e, a in r.slices:
        if a[0] == 'phi':
            firsts[a] = e
    mark = {68: 'the first extension sector of the master table', 64: None}
    inits = []
    for a, e in sorted(firsts.items(), key=lambda x: x[1].line):
        init = s.it.phis.get((a[1], a[2]), (None, None))[0]
        inits.append((e, a, init))
    for off, what in ((68, 'the extension of the master table'), (60, 'the short-sector table')):
        cand = [x for x in inits if x[2] is not None and same(x[2], s32(off, MEM), es)]
        if cand:
            c.ok(R, sample='%s starts at sector s32@%d' % (what, off))
        elif len(inits) == 2:
            k = 0 if off == 68 else 1
            if inits[k][2] is not None and not has_unknown(inits[k][2]):
                c.bad(R, inits[k][0].where(), '%s is read from %s, the layout has it at the 4 bytes from %d on' % (what, brief(inits[k][2], 80), off), key='%s|first|%d' % (R, off))
            else:
                c.open(R, what)
        else:
            c.open(R, what)
    first = [e for e in r.events if e.kind == 'slice' and e.data[0] == MEM and e.data[1] == const(76)]
    unp = [e for e in r.events if e.kind == 'unpack' and e.data[1] == sl(76, 512, MEM)]
    if unp and any(e.data[0] == const('<109i') or e.data[0] == const('<109l') for e in unp):
        c.ok(R, sample='109 master-table entries at 76')
    else:
        c.open(R, 'the master-table part in the header')
    # what opens: signature, byte order
    good = header()
    for label, mem, want in (('a well-formed header', good, 'accepts'), ('a wrong signature', b'\0' + good[1:], 'raises'),
                             ('a wrong last signature byte', good[:7] + b'\0' + good[8:], 'raises'),
                             ('a big-endian marker', good[:28] + b'\xFF\xFE' + good[30:], 'raises')):
        evs = [e for e in r.events if not e.loops]
        k = {'others': {a: -2 for e, a in r.slices if a[0] == 'phi'}, 'exitk': 1}
        case = r.case(mem=mem, **k)
        expect(c, R, label, case, evs, want, func_where(c, CD + '.__init__'),
               'is rejected' if want == 'accepts' else 'is accepted')
    # --- sector slices
    R = 'sectors'
    for e, a in r.slices:
        if has_unknown(mk_slice(MEM, e.data[1], e.data[2])) and len(has_atom(e.data[1], lambda x: x[0] in ('phi', 'elem'))) != 1:
            c.open(R, 'slice at line %d' % e.line)
            continue
        for env in es:
            e2 = E.Env(env.syms, {}, {}, {a: 1})
            size = E.ev(sec, e2)
            try:
                lo, hi = E.ev(e.data[1], e2), E.ev(e.data[2], e2)
            except (E.Undef, E.Raised):
                c.open(R, 'slice at line %d' % e.line)
                break
            if (lo, hi) != (512 + size, 512 + 2 * size):
                c.bad(R, e.where(), 'sector 1 of a file with %d-byte sectors is read from bytes %r to %r, not from %d to %d'
                      % (size, lo, hi, 512 + size, 512 + 2 * size), key='%s|slice|%s' % (R, a[0] + str(a[-1] if a[0] == 'phi' else '')))
                break
        else:
            c.ok(R, sample='sector slice at line %d' % e.line)
    # valid chains are accepted by the table loops
    for e, a in r.slices:
        for sid in (0, 5, NSECS - 1):
            oth = {x: -2 for _, x in r.slices if x[0] == 'phi' and x != a}
            case = r.case(sid=sid, atom=a, others=oth)
            inl = [x for x in r.events if x.kind == 'raise' and any(l in e.loops for l in x.loops)]
            expect(c, R, 'unused sector %d of %d in the table loop at line %d' % (sid, NSECS, e.line), case, inl, 'accepts', e.where(), 'is rejected')
    # every slice of a table sector feeds a table with entries of the sector size
    for e in r.events:
        if e.kind != 'unpack' or not any(x.node is e.node or x.line == e.line for x, _ in r.slices):
            continue
        bad = False
        und = 0
        n = 0
        for env in es:
            e2 = E.Env(env.syms, {}, {}, {a: 1 for _, a in r.slices})
            try:
                f = E.ev(e.data[0], e2)
                b = E.ev(e.data[1], e2)
            except (E.Undef, E.Raised):
                und += 1
                continue
            n += 1
        c.count('table_sector_reads')
    # the follow-on sector of the short-sector table comes from the sector table
    for e, a in r.slices:
        if a[0] != 'phi':
            continue
        nxt = s.it.phis.get((a[1], a[2]), (None, None))[1]
        if nxt is not None and nxt[0] == 'elem' and nxt[1] == r.sat:
            if nxt[2] == a:
                c.ok(R, sample='next sector of the short-sector table = SAT[sector]')
            else:
                c.bad(R, e.where(), 'the chain of the short-sector table goes on with entry %s of the sector table' % brief(nxt[2], 60), key=R + '|next')
    # --- streams
    R = 'streams'
    gs = [x for x in s.calls if x[0] == '_get_stream']
    if len(gs) < 2:
        c.open(R, 'only %d stream reads recognised' % len(gs))
    by = {}
    for x in gs:
        st = x[1].get('start_sid')
        if st is None:
            continue
        if same(st, s32(48, MEM), es):
            by['dir'] = x
        elif st[0] == 'app' and attr_is(st, 'first_SID'):
            by['sscs'] = x
        else:
            by['?'] = x
    for what, key, start in (('the directory', 'dir', s32(48, MEM)), ('the short-stream container', 'sscs', None)):
        x = by.get(key)
        if x is None:
            y = by.get('?')
            if y is not None and not has_unknown(y[1]['start_sid']):
                c.bad(R, '%s:%d in %s.__init__' % (CD_PATH, y[3].lineno, CD), '%s starts at sector %s' % (what, brief(y[1]['start_sid'], 80)), key='%s|%s|start' % (R, what))
            else:
                c.open(R, what)
            continue
        w = '%s:%d in %s.__init__' % (CD_PATH, x[3].lineno, CD)
        for p, want in (('mem', MEM), ('base', const(512)), ('sec_size', sec)):
            check_term(c, R, '%s: %s' % (what, p), x[1].get(p), want, w, es)
        if x[1].get('sat') == r.sat:
            c.ok(R, sample='%s follows the sector table' % what)
        elif x[1].get('sat') is not None and x[1]['sat'][0] == 'ref':
            c.bad(R, w, '%s does not follow the sector table' % what, key='%s|%s|sat' % (R, what))
        if key == 'dir':
            check_term(c, R, '%s: size' % what, x[1].get('size', NONE), NONE, w, es)
        else:
            rt = x[1].get('start_sid')[2]
            if rt[0] == 'elem' and rt[1] == r.dirlist and rt[2] == const(0):
                c.ok(R, sample='%s starts where entry 0 says' % what)
            elif rt[0] == 'elem' and rt[2][0] == 'c':
                c.bad(R, w, '%s is described by entry %r of the directory' % (what, rt[2][2]), key='%s|%s|root' % (R, what))
            sz = x[1].get('size')
            if sz is not None and attr_is(sz, 'tot_size') and sz[2][0] == 'elem' and sz[2][1:3] == rt[1:3]:
                c.ok(R, sample='%s has the size entry 0 gives' % what)
            elif sz == NONE:
                c.bad(R, w, '%s is read without its size' % what, key='%s|%s|size' % (R, what))
            elif sz is not None and sz[0] == 'app' and sz[1] == 'attr':
                c.bad(R, w, '%s is given the size %s' % (what, brief(sz, 60)), key='%s|%s|size' % (R, what))
            else:
                c.open(R, '%s: size' % what)
            ev = [e for e in r.events if e.kind == 'call' and e.node is x[3]]
            oth = {a: -2 for _, a in r.slices if a[0] == 'phi'}
            for label, root, w2 in (('a container of 640 bytes', {}, True), ('a container of 1 byte at sector 0', {'first_SID': 0, 'tot_size': 1}, True),
                                    ('an empty container without a sector', {'first_SID': -2, 'tot_size': 0}, False),
                                    ('an empty container marked -1', {'first_SID': -1, 'tot_size': 0}, False)):
                case = r.case(root=root, others=oth)
                if w2:
                    always(c, R, label, case, ev, w, 'is not read')
                else:
                    never(c, R, label, case, ev, 'is read')
    # --- directory entries are consecutive 128-byte blocks numbered from 0
    ds = [x for x in s.calls if x[0] == '_get_stream' and by.get('dir') is x]
    if ds:
        st = ('sym', 'stream%d' % s.calls.index(ds[0]))
        news = [e for e in r.events if e.kind == 'slice' and e.data[0] == st and e.loops and e.func.startswith(CD)]
        did = [e for e in r.events if e.kind == 'setattr' and e.data[1] == 'DID' and e.loops]
        app = [e for e in r.events if e.kind == 'container' and e.data[0] == r.dirlist and e.data[1] == 'append']
        if len(news) == 1 and did:
            env = E.Env({st[1]: bytes(5 * 128)})
            try:
                its = loop_iters(news[0], env, 0)
                got = [(E.ev(did[0].data[2], x), E.ev(news[0].data[1], x), E.ev(news[0].data[2], x)) for x in its]
                want = [(i, 128 * i, 128 * i + 128) for i in range(5)]
                if got == want:
                    c.ok(R, sample='entry i is bytes 128*i .. 128*i+128')
                else:
                    c.bad(R, news[0].where(), 'the directory entries (number, from, to) are %r' % (got[:3],), key=R + '|entries')
            except (E.Undef, E.Raised):
                c.open(R, 'directory entries')
        else:
            c.open(R, 'directory entries')
        if len(app) == 1 and not [g for g in app[0].guards if g not in news_guards(news)]:
            c.ok(R, sample='every entry is kept')
        else:
            c.open(R, 'entries kept')
    tr = [x for x in s.calls if x[0] == '_build_family_tree']
    if len(tr) == 1:
        b = tr[0][1]
        v = list(b.values())
        ok = r.dirlist in v and const(0) in v and any(attr_is(x, 'root_DID') and x[2][0] == 'elem' and x[2][2] == const(0) for x in v)
        if ok:
            c.ok(R, sample='the tree starts at the child link of the root entry')
        elif any(x[0] == 'app' and x[1] == 'attr' and x[3] != const('root_DID') for x in v):
            c.bad(R, '%s:%d in %s.__init__' % (CD_PATH, tr[0][3].lineno, CD), 'the directory tree is built from %s' % ', '.join(brief(x, 50) for x in v), key=R + '|tree')
        else:
            c.open(R, 'the start of the tree')


CD_PATH = 'xlrd/compdoc.py'


def news_guards(news):
    return news[0].guards if len(news) == 1 else ()


def s_self(r, s):
    for e in r.events:
        if e.kind == 'setattr' and e.data[1] == 'sec_size':
            return e.data[0]
    return r.cd


def same(a, b, es):
    if has_unknown(a):
        return False
    return differ(a, b, es)[0] in ('same', 'agree')


# ======================================================================= the chain walkers
class Walk(object):
    """_get_stream / _locate_stream over an unknown sector table"""

    def __init__(self, c, which, size=True, seen_id=True):
        s = self.s = setup(c)
        s.it.initkinds.update({('cd', 'mem_data_secs'): 'int', ('cd', 'mem_data_len'): 'int'})
        self.cd = opaque(s, CD, 'cd', DEBUG=const(0), logfile=('sym', 'logfile'))
        self.size, self.seen_id, self.which = size, seen_id, which
        self.q = CD + '.' + which
        sid = const(9) if seen_id else NONE
        f = c.prog.func(self.q)
        if f is None:
            raise LookupError('anchor %s is gone' % self.q)
        names = [a.arg for a in s.it.func_info(f).node.args.args][1:]
        vals = {'mem': MEM, 'base': ('sym', 'base'), 'sat': SAT, 'sec_size': ('sym', 'sec_size'), 'start_sid': ('sym', 'start_sid'),
                'size': ('sym', 'size') if size else NONE, 'expected_stream_size': ('sym', 'size'), 'name': ('sym', 'name'),
                'qname': ('sym', 'name'), 'seen_id': sid}
        miss = [n for n in names if n not in vals]
        if miss:
            raise LookupError('unknown parameter %s of %s' % (miss[0], self.q))
        s.run(self.q, [self.cd], {n: vals[n] for n in names})
        self.events = s.it.events
        self.phis = s.it.phis
        self.slices = sec_slices(s)
        # the loop-carried sector number: the one whose next value is looked up in the sector table
        self.sid = None
        c2 = [('phi',) + k for k, v in self.phis.items() if v[1] is not None and self.is_lookup(v[1])]
        if len(c2) == 1:
            self.sid = c2[0]
        self.where = func_where(c, self.q)

    def is_lookup(self, t):
        return t[0] == 'app' and t[1] == 'item' and t[2] == SAT or t[0] in ('u', 's') and t[1] == SAT

    def sat_index(self, t):
        if t[0] == 'app' and t[1] == 'item':
            return t[3]
        return add(('lin', 0, t[2]) if t[2] else const(0), const(t[3] // 8)) if t[2] else const(t[3] // 8)

    def case(self, sid=5, start=None, seen=0, satlen=NSECS, secs=NSECS, memsecs=NSECS, ignore=0, listlen=0, size=3 * 512, exitk=3, k=0,
             others=None, exc=False, slices=0, base=512):
        def f(t):
            if t == self.sid:
                return sid
            if others and t in others:
                return others[t]
            if t == ('init', 'cd', 'ignore_workbook_corruption'):
                return ignore
            if t[0] == 'init' and t[2] == 'mem_data_secs':
                return secs
            if t[0] == 'exit':
                return exitk
            if t[0] == 'k':
                return k
            if t[0] == 'app' and t[1] == 'item' and t[2] == ('init', 'cd', 'seen'):
                return seen
            if t[0] == 'app' and t[1] == 'len' and t[2] == SAT:
                return satlen
            if t[0] == 'app' and t[1] == 'len' and t[2][0] == 'ref':
                return listlen
            if t[0] == 'app' and t[1] == 'truth' and t[2][0] == 'ref':
                return bool(slices)
            return None
        return Case(f, {'mem': bytes(base + 512 * memsecs), 'base': base, 'sec_size': 512, 'start_sid': sid if start is None else start,
                        'size': size if self.size else None, 'name': 'n', 'seen_id': 9, 'logfile': None, 'sat': None},
                    {('cd', 'mem_data_secs'): secs, ('cd', 'ignore_workbook_corruption'): ignore, ('cd', 'DEBUG'): 0,
                     ('cd', 'mem_data_len'): 512 * memsecs}, exc)

    def step(self):
        """events of one iteration of the chain loop"""
        return [e for e in self.events if any(l[0] == self.sid[1] for l in e.loops)]

    def uses(self):
        out = [e for e, a in self.slices]
        for e in self.events:
            if e.kind == 'load' and self.sid is not None and e.data[1] == self.sid and e.data[0] in (SAT,):
                out.append(e)
            if e.kind == 'setitem' and e.data[0] == ('init', 'cd', 'seen'):
                out.append(e)
        return out


def list_of(s, e):
    """slice events feed a list: the append/extend event carrying that slice"""
    return None


def c40_get_stream(c, R):
    for size in (False, True):
        for seen_id in (True, False):
            w = Walk(c, '_get_stream', size, seen_id)
            lab = '_get_stream(%s size%s)' % ('known' if size else 'unknown', '' if seen_id else ', short sectors')
            c.count('walker_events', len(w.events))
            if w.sid is None:
                c.open(R, lab + ': no loop-carried sector number')
                continue
            init, nxt = w.phis[w.sid[1:]]
            check_term(c, R, lab + ': first sector', init, ('sym', 'start_sid'), w.where, [E.Env({'start_sid': v}) for v in (0, 1, 7)])
            idx = w.sat_index(nxt)
            if idx == w.sid:
                c.ok(R, sample=lab + ': next sector = table[sector]')
            else:
                check_term(c, R, lab + ': next sector', idx, w.sid, w.where, [E.Env({}, {}, {}, {w.sid: v}) for v in (0, 1, 7)])
            if not w.slices:
                c.open(R, lab + ': sector bytes')
            phis = [('phi',) + k for k in w.phis if ('phi',) + k != w.sid and k[0] == w.sid[1]]
            # the count of bytes still wanted: starts as the size
            todo = [p for p in phis if w.phis[p[1:]][0] == ('sym', 'size')]
            lists = set()
            for e in w.events:
                if e.kind == 'container' and e.data[1] in ('append', 'extend') and e.loops:
                    lists.add(e.data[0])
            for e, a in w.slices:
                if a != w.sid:
                    c.open(R, lab + ': slice at line %d' % e.line)
            app = [e for e in w.events if e.kind == 'container' and e.data[1] == 'append' and e.loops and len(e.data[2][1]) == 1]
            if len(app) != 1:
                c.open(R, lab + ': collected sectors')
            for e in app:
                val = e.data[2][1][0]
                for sid in (0, 5, NSECS - 1):
                    for left in ((512, 700, 511, 1) if size and todo else (None,)):
                        oth = {todo[0]: left} if todo else {}
                        case = w.case(sid=sid, others=oth)
                        case.syms['mem'] = bytes(512) + b''.join(bytes([i, 255 - i]) * 256 for i in range(NSECS))
                        data = case.syms['mem']
                        n = 512 if left is None else min(512, left)
                        want = data[512 + 512 * sid:512 + 512 * sid + n]
                        try:
                            got = case.val(val)
                        except (E.Undef, E.Raised):
                            c.open(R, lab + ': bytes of a sector')
                            continue
                        if got == want or left is None and got[:512] == want and len(got) == len(want):
                            c.ok(R, sample='%s: sector %d -> %d bytes' % (lab, sid, n))
                        elif size and not todo and got[:512] == want[:len(got)]:
                            c.open(R, lab + ': bytes of a sector')
                        else:
                            c.bad(R, e.where(), '%s: sector %d%s contributes %d bytes%s' % (
                                lab, sid, '' if left is None else ' with %d bytes to go' % left, len(got), '' if len(got) != len(want) else ' of another place'),
                                key='%s|bytes|%s' % (R, size))
                            break
            for t in todo:
                nx = w.phis[t[1:]][1]
                for left in (1536, 512, 511, 1, 0):
                    case = w.case(others={t: left})
                    try:
                        got = case.val(nx)
                    except (E.Undef, E.Raised):
                        c.open(R, lab + ': bytes to go')
                        continue
                    if got == left - min(512, left):
                        c.ok(R, sample='%s: %d to go -> %d' % (lab, left, got))
                    else:
                        c.bad(R, w.where, '%s: with %d bytes to go a 512-byte sector leaves %r' % (lab, left, got), key=R + '|todo')
            rets = [e for e in w.events if e.kind == 'return' and e.func == w.q]
            for e in rets:
                v = e.data[0]
                if v[0] == 'app' and v[1] == 'method' and v[2] == const('join') and v[3] == const(b''):
                    if v[4] in lists:
                        c.ok(R, sample=lab + ': the sectors are joined')
                    else:
                        c.open(R, lab + ': result')
                else:
                    c.open(R, lab + ': result %s' % brief(v, 60))
            # a valid chain is accepted
            for label, kw in (('a chain over sector 0', {'sid': 0}), ('the last sector of the file', {'sid': NSECS - 1}), ('an inner sector', {'sid': 5}),
                              ('the end of a chain', {'sid': EOC})):
                oth = {t: 512 if kw['sid'] >= 0 else 0 for t in todo}
                case = w.case(others=oth, **kw)
                expect(c, R, '%s: %s' % (lab, label), case, w.step() if kw['sid'] >= 0 else w.events, 'accepts', w.where, 'is rejected')


def c40_locate_stream(c, R):
    w = Walk(c, '_locate_stream')
    lab = '_locate_stream'
    c.count('walker_events', len(w.events))
    if w.sid is None:
        c.open(R, lab + ': no loop-carried sector number')
        return
    init, nxt = w.phis[w.sid[1:]]
    check_term(c, R, lab + ': first sector', init, ('sym', 'start_sid'), w.where, [E.Env({'start_sid': v}) for v in (0, 1, 7)])
    idx = w.sat_index(nxt)
    if idx == w.sid:
        c.ok(R, sample=lab + ': next sector = table[sector]')
    else:
        check_term(c, R, lab + ': next sector', idx, w.sid, w.where, [E.Env({}, {}, {}, {w.sid: v}) for v in (0, 1, 7)])
    for label, kw in (('a chain over sector 0', {'sid': 0}), ('the last sector of the file', {'sid': NSECS - 1}), ('an inner sector', {'sid': 5}),
                      ('the last sector of the stream', {'sid': 5, 'k': 2}),
                      ('the end of a complete chain', {'sid': EOC, 'exitk': 3, 'start': 4}),
                      ('the end of a chain whose last sector is part full', {'sid': EOC, 'exitk': 3, 'start': 4, 'size': 1025})):
        case = w.case(**kw)
        expect(c, R, '%s: %s' % (lab, label), case, w.step() if kw['sid'] >= 0 else w.events, 'accepts', w.where, 'is rejected')
    # what is returned
    rets = [e for e in w.events if e.kind == 'return' and e.func == w.q and e.data[0][0] == 'tuple' and len(e.data[0][1]) == 3]
    cont = [e for e in rets if e.data[0][1][0] == MEM]
    frag = [e for e in rets if e.data[0][1][0] != MEM]
    for e in rets:
        check_term(c, R, lab + ': length at line %d' % e.line, e.data[0][1][2], ('sym', 'size'), e.where(), [E.Env({'size': v}) for v in (0, 5, 512)])
    for e in frag:
        check_term(c, R, lab + ': offset in the joined fragments', e.data[0][1][1], const(0), e.where(), [E.Env({})])
    if len(cont) != 1 or cont[0].data[0][1][1][0] != 'phi':
        c.open(R, lab + ': start of a contiguous stream')
        return
    start = cont[0].data[0][1][1]
    apps = [e for e in w.events if e.kind == 'container' and e.data[1] == 'append' and len(e.data[2][1]) == 1 and e.data[2][1][0][0] == 'tuple'
            and len(e.data[2][1][0][1]) == 2]
    ends = set()
    for e in apps:
        a, b = e.data[2][1][0][1]
        if a == start and b[0] == 'phi':
            ends.add(b)
        elif a[0] == 'phi' and b[0] == 'phi':
            c.bad(R, e.where(), '%s: a run of sectors is noted as %s to %s' % (lab, brief(a, 40), brief(b, 40)), key=R + '|run')
    prev = [('phi',) + k for k in w.phis if k[0] == w.sid[1] and ('phi',) + k not in ends and ('phi',) + k not in (start, w.sid)
            and w.phis[k][1] == w.sid]
    if len(ends) != 1 or len(prev) != 1:
        c.open(R, lab + ': runs of contiguous sectors')
        return
    end, prev = list(ends)[0], prev[0]
    i0 = w.phis[prev[1:]][0]
    s0, e0 = w.phis[start[1:]][0], w.phis[end[1:]][0]
    try:
        p0, s0, e0 = i0[2], s0[2], e0[2]
    except (IndexError, TypeError):
        c.open(R, lab + ': initial run')
        return
    inl = [e for e in apps if e.loops]
    post = [e for e in apps if not e.loops]
    for label, p, sid, st, en, want, noted in (
            ('the first sector is 0', p0, 0, s0, e0, (512, 1024), False), ('the first sector is 5', p0, 5, s0, e0, (512 * 6, 512 * 7), False),
            ('sector 6 follows 5', 5, 6, 512 * 4, 512 * 7, (512 * 4, 512 * 8), False), ('sector 8 follows 5', 5, 8, 512 * 4, 512 * 7, (512 * 9, 512 * 10), True),
            ('sector 1 follows 0', 0, 1, 512, 1024, (512, 1536), False), ('sector 3 follows 0', 0, 3, 512, 1024, (2048, 2560), True),
            ('sector 4 follows 5', 5, 4, 512 * 4, 512 * 7, (512 * 5, 512 * 6), True)):
        case = w.case(sid=sid, start=4, others={prev: p, start: st, end: en})
        try:
            got = (case.val(w.phis[start[1:]][1]), case.val(w.phis[end[1:]][1]))
        except (E.Undef, E.Raised):
            c.open(R, '%s: %s' % (lab, label))
            continue
        if got == want:
            c.ok(R, sample='%s: %s: run is %d..%d' % ((lab, label) + got))
        else:
            c.bad(R, w.where, '%s: %s: the current run becomes %r instead of %r' % (lab, label, got, want), key='%s|runs|%s' % (R, label))
        if noted:
            always(c, R, '%s: %s: the finished run is kept' % (lab, label), case, inl, w.where, 'it is dropped')
        else:
            never(c, R, '%s: %s: no run is finished' % (lab, label), case, inl, 'a run is noted')
    frs = w.case(sid=EOC, start=4, slices=1)
    always(c, R, lab + ': the last run of a fragmented stream is kept', frs, post, w.where, 'it is dropped')
    always(c, R, lab + ': a fragmented stream is joined', frs, frag, w.where, 'it is not')
    con = w.case(sid=EOC, start=4, slices=0)
    always(c, R, lab + ': a contiguous stream is returned in place', con, cont, w.where, 'it is not')


def named_run(c, q):
    s = setup(c)
    d = opaque(s, CD, 'cd', DEBUG=const(0), logfile=('sym', 'logfile'))
    for x in ('_get_stream', '_locate_stream'):
        hook(s, CD + '.' + x, lambda n, st: ('sym', 'stream%d' % n))
    s.it.hooks[CD + '._dir_search'] = lambda it, st, fn, a, k, n: it.new_opaque(st, 'xlrd.compdoc.DirNode', 'd')
    s.run(CD + '.' + q, [d, ('sym', 'qname')])
    return s, func_where(c, CD + '.' + q)


def c40_choice(c, R):
    for q in ('get_named_stream', 'locate_named_stream'):
        s, where = named_run(c, q)
        rets = [e for e in s.it.events if e.kind == 'return' and e.func == CD + '.' + q]
        for tot, cut in ((4096, 4096), (4095, 4096), (4097, 4096), (1, 4096), (100, 64), (64, 64), (63, 64), (5000, 4096), (5000, 5001)):
            case = Case(lambda t: {('init', 'd', 'tot_size'): tot, ('init', 'cd', 'min_size_std_stream'): cut, ('init', 'cd', 'mem_data_len'): 5000}.get(t),
                        {'qname': 'Workbook', 'logfile': None}, {('d', 'tot_size'): tot, ('cd', 'min_size_std_stream'): cut, ('cd', 'mem_data_len'): 5000})
            took = []
            und = False
            for n, x in enumerate(s.calls):
                ev = [e for e in s.it.events if e.kind == 'call' and e.data[1] == const(n)]
                h = case.holds(ev[0]) if ev else None
                if h is None:
                    und = True
                elif h:
                    took.append(x)
            lab = '%s: stream of %d bytes, cut-off %d' % (q, tot, cut)
            expect(c, R, lab, case, s.it.events, 'accepts', where, 'is rejected')
            if und or len(took) != 1:
                c.open(R, lab)
                continue
            b = took[0][1]
            wh = '%s:%d in %s.%s' % (CD_PATH, took[0][3].lineno, CD, q)
            short = tot < cut
            want = {'mem': ('init', 'cd', 'SSCS' if short else 'mem'), 'base': const(0 if short else 512), 'sat': ('init', 'cd', 'SSAT' if short else 'SAT'),
                    'sec_size': ('init', 'cd', 'short_sec_size' if short else 'sec_size'), 'start_sid': ('init', 'd', 'first_SID')}
            szn = 'size' if 'size' in b else 'expected_stream_size' if 'expected_stream_size' in b else None
            if szn:
                want[szn] = ('init', 'd', 'tot_size')
            elif took[0][0] == '_get_stream':
                want['size'] = ('init', 'd', 'tot_size')
            for p in sorted(want):
                g = b.get(p)
                if g == want[p]:
                    c.ok(R, sample='%s: %s = %s' % (lab, p, brief(g, 40)))
                elif g is None or has_unknown(g):
                    c.open(R, '%s: %s' % (lab, p))
                else:
                    c.bad(R, wh, '%s: it is read with %s = %s instead of %s' % (lab, p, brief(g, 60), brief(want[p], 60)), key='%s|%s|%s|%s' % (R, q, p, short))
            if short:
                g = b.get('seen_id')
                if g == NONE:
                    c.ok(R, sample='%s: short sectors are not marked in the table of the file\'s sectors' % lab)
                elif g is not None and not has_unknown(g):
                    c.bad(R, wh, '%s: short sectors are marked as sectors of the file (%s)' % (lab, brief(g, 40)), key='%s|%s|seen' % (R, q))
            else:
                g = b.get('seen_id')
                if g == NONE:
                    c.bad(R, wh, '%s: sectors of the file are not marked as used' % lab, key='%s|%s|seen' % (R, q))
            rv = [e for e in rets if case.holds(e)]
            if len(rv) == 1:
                v = rv[0].data[0]
                st = ('sym', 'stream%d' % s.calls.index(took[0]))
                if q == 'get_named_stream' or took[0][0] == '_locate_stream':
                    ok = v == st
                else:
                    ok = v[0] == 'tuple' and len(v[1]) == 3 and v[1][0] == st and v[1][1] == const(0) and v[1][2] == ('init', 'd', 'tot_size')
                if ok:
                    c.ok(R, sample='%s: returned' % lab)
                elif has_unknown(v):
                    c.open(R, lab + ': result')
                else:
                    c.bad(R, rv[0].where(), '%s: returns %s' % (lab, brief(v, 80)), key='%s|%s|result' % (R, q))
        # a stream that is not there
        s = setup(c)
        d = opaque(s, CD, 'cd', DEBUG=const(0), logfile=('sym', 'logfile'))
        for x in ('_get_stream', '_locate_stream'):
            hook(s, CD + '.' + x, lambda n, st: ('sym', 'stream%d' % n))
        s.it.hooks[CD + '._dir_search'] = lambda it, st, fn, a, k, n: NONE
        s.run(CD + '.' + q, [d, ('sym', 'qname')])
        want = NONE if q == 'get_named_stream' else ('tuple', (NONE, const(0), const(0)))
        if s.value == want:
            c.ok(R, sample='%s: a missing stream gives %s' % (q, brief(want)))
        elif s.value is None or has_unknown(s.value):
            c.open(R, q + ': a missing stream')
        else:
            c.bad(R, where, '%s: a missing stream gives %s' % (q, brief(s.value, 60)), key='%s|%s|missing' % (R, q))


def c40_search(c, R):
    s = setup(c)
    q = CD + '._dir_search'
    s.it.load_events = False
    d = opaque(s, CD, 'cd', DEBUG=const(0), logfile=('sym', 'logfile'))
    f = c.prog.func(q)
    if f is None:
        raise LookupError('anchor %s is gone' % q)
    nested = []

    def h(it, st, fn, args, kwargs, node):
        if sum(1 for x in it.callstack if x.qual == q) >= 1:
            nested.append((call_args(s, fn, args, kwargs, st), node))
            it.emit('nested', (const(len(nested) - 1),), st, node)
            return ('sym', 'deeper')
        return None
    s.it.hooks[q] = h
    s.run(q, [d, ('tuple', (('sym', 'head'), ('sym', 'next'))), ('sym', 'did')])
    where = func_where(c, q)
    s2 = setup(c)
    d2 = opaque(s2, CD, 'cd', DEBUG=const(0), logfile=('sym', 'logfile'))
    s2.it.hooks[q] = lambda it, st, fn, args, kwargs, node: ('sym', 'deeper') if any(x.qual == q for x in it.callstack) else None
    s2.run(q, [d2, ('tuple', (('sym', 'head'),)), ('sym', 'did')])

    def mk(name, etype, head):
        def f(t):
            if t[0] == 'app' and t[1] == 'attr' and t[3] == const('name'):
                return name
            if t[0] == 'app' and t[1] == 'attr' and t[3] == const('etype'):
                return etype
            if t[0] == 'k':
                return 0
            return None

        class C2(Case):
            def env(self, t):
                e = Case.env(self, t)
                for x in walk(t):
                    if x[0] == 'app' and x[1] == 'method' and len(x) == 4 and x not in self.extra:
                        b = x[3]
                        try:
                            v = E.ev(b, e)
                        except (E.Undef, E.Raised):
                            continue
                        if isinstance(v, str) and x[2][0] == 'c' and x[2][2] in ('lower', 'upper', 'casefold', 'strip', 'title', 'swapcase'):
                            self.extra[x] = getattr(v, x[2][2])()
                return E.Env(self.syms, self.inits, self.ks, self.extra)
        return C2(f, {'head': head, 'next': 'B', 'logfile': None})

    def rets(run):
        return [e for e in run.it.events if e.kind == 'return' and e.func == q and e.loops]
    for run, path in ((s, 'A/B'), (s2, 'A')):
        for name, head, match in (('Workbook', 'Workbook', True), ('WORKBOOK', 'Workbook', True), ('workbook', 'WorkBook', True), ('Book', 'Workbook', False),
                                  ('Workbook2', 'Workbook', False), ('', 'Workbook', False)):
            for et in (2, 1, 5):
                case = mk(name, et, head)
                lab = 'searching %r%s among an entry %r of type %d' % (head, ' then B' if run is s else '', name, et)
                found = [(e, case.holds(e)) for e in rets(run)]
                here = [e for e, r in found if r and e.data[0] != ('sym', 'deeper')]
                deep = [e for e, r in found if r and e.data[0] == ('sym', 'deeper')]
                und = [e for e, r in found if r is None]
                out, rv = outcome(case, run.it.events)
                if und or out is None:
                    c.open(R, lab)
                    continue
                got = 'error' if out == 'raises' else 'this entry' if here else 'inside' if deep else 'goes on'
                want = 'goes on' if not match else 'this entry' if et == 2 else ('inside' if run is s else 'error') if et == 1 else 'error'
                if got == want:
                    c.ok(R, sample='%s: %s' % (lab, got))
                else:
                    c.bad(R, (rv or (here or deep or [None])[0] or rets(run)[0] if rets(run) else None).where() if rets(run) or rv else where,
                          '%s: the search %s, expected: %s' % (lab, got, want), key='%s|%s|%s|%s' % (R, match, et, path))
    # which entries are looked at
    ch = ('app', 'attr', ('app', 'item', ('init', 'cd', 'dirlist'), ('sym', 'did')), const('children'))
    its = [e.loops[-1][2] for e in rets(s) if e.loops]
    if its and all(x == ch for x in its):
        c.ok(R, sample='the children of the storage are searched')
    else:
        c.open(R, 'the entries searched')
    if nested and len(set(id(x[1]) for x in nested)) == 1:
        b = nested[-1][0]
        vals = list(b.values())
        tail = ('tuple', (('sym', 'next'),))
        if tail in vals:
            c.ok(R, sample='the rest of the path is searched')
        elif any(v[0] == 'tuple' for v in vals):
            c.bad(R, '%s:%d in %s' % (CD_PATH, nested[0][1].lineno, q), 'inside a storage the search continues with %s' % brief([v for v in vals if v[0] == 'tuple'][0], 60), key=R + '|tail')
        else:
            c.open(R, 'the rest of the path')
        child = ('app', 'item', ch, None)
        did = [v for v in vals if v[0] == 'app' and v[1] == 'item' and v[2] == ch]
        if did:
            c.ok(R, sample='below the storage found')
        elif any(v == ('sym', 'did') for v in vals):
            c.bad(R, '%s:%d in %s' % (CD_PATH, nested[0][1].lineno, q), 'the search goes on in the same storage', key=R + '|below')
        else:
            c.open(R, 'below the storage found')
    else:
        c.open(R, 'search inside a storage')


# ======================================================================= the directory tree
class Tree(object):
    def __init__(self, c):
        s = self.s = setup(c)
        q = self.q = 'xlrd.compdoc._build_family_tree'
        if c.prog.func(q) is None:
            raise LookupError('anchor %s is gone' % q)
        self.dl = s.it.alloc(s.st, HObj('list', items=None))
        self.nested = []

        def h(it, st, fn, args, kwargs, node):
            if any(x.qual == q for x in it.callstack):
                self.nested.append(call_args(s, fn, args, kwargs, st))
                it.emit('nested', (const(len(self.nested) - 1),), st, node)
                return NONE
            return None
        s.it.hooks[q] = h
        names = [a.arg for a in s.it.func_info(c.prog.func(q)).node.args.args]
        self.names = names
        s.run(q, [self.dl, ('sym', 'parent'), ('sym', 'child')])
        self.events = s.it.events
        self.where = func_where(c, q)

    def elem(self, t, idx):
        return t[0] == 'elem' and t[1] == self.dl and t[2] == idx

    def case(self, child, parent=-1, n=6, etype=1, links=(2, 3, 4)):
        vals = {'parent': parent, 'etype': etype, 'left_DID': links[0], 'right_DID': links[1], 'root_DID': links[2]}

        def f(t):
            if t[0] == 'app' and t[1] == 'len' and t[2] == self.dl:
                return n
            if t[0] == 'app' and t[1] == 'attr' and self.elem(t[2], ('sym', 'child')) and t[3][0] == 'c':
                return vals.get(t[3][2])
            return None
        return Case(f, {'parent': 0, 'child': child})

    def marks(self):
        return [e for e in self.events if e.kind == 'setattr' and e.data[1] == 'parent' and self.elem(e.data[0], ('sym', 'child'))]

    def links(self):
        out = {}
        for e in self.events:
            if e.kind == 'nested':
                b = self.nested[e.data[0][2]]
                v = [b.get(n) for n in self.names]
                out.setdefault(e, v)
        return out


def c40_tree(c, R):
    t = Tree(c)
    c.count('tree_events', len(t.events))
    child, par = ('sym', 'child'), ('sym', 'parent')
    links = t.links()

    def is_link(v, a):
        return v is not None and attr_is(v, a) and t.elem(v[2], child)
    for a, owner, what in (('left_DID', par, 'left sibling'), ('right_DID', par, 'right sibling'), ('root_DID', child, 'first child')):
        evs = [(e, v) for e, v in links.items() if is_link(v[2], a)]
        if not evs:
            if len(links) >= 3 and all(v[2] is not None and not has_unknown(('x', v[2][2] if v[2][0] == 'app' else v[2])) for v in links.values()):
                c.open(R, 'no call for the %s' % what)
            else:
                und = [v for v in links.values() if v[2] is None or not (v[2][0] == 'app' and v[2][1] == 'attr')]
                if links and not und:
                    c.bad(R, t.where, 'the %s of an entry is never visited' % what, key='%s|%s' % (R, a))
                else:
                    c.open(R, 'the %s' % what)
            continue
        for e, v in evs:
            if v[1] == owner:
                c.ok(R, sample='the %s belongs to the %s' % (what, 'same storage' if owner is par else 'entry'))
            elif v[1] in (par, child):
                c.bad(R, e.where(), 'the %s of an entry is filed under %s' % (what, 'the entry itself' if v[1] == child else 'the storage that holds the entry'), key='%s|%s|owner' % (R, a))
            else:
                c.open(R, 'owner of the %s' % what)
        for et in (1, 2, 5):
            case = t.case(1, etype=et)
            want = a != 'root_DID' or et == 1
            if want:
                always(c, R, 'the %s of an entry of type %d is visited' % (what, et), case, [e for e, v in evs], t.where, 'it is not')
            elif et == 2:
                never(c, R, 'the %s of an entry of type %d is visited' % (what, et), case, [e for e, v in evs], 'a stream has no children')
    app = [e for e in t.events if e.kind in ('mcall', 'container') and (e.data[1] == 'append')]
    case = t.case(1)
    always(c, R, 'an entry becomes a child of its storage', case, app, t.where, 'it does not')
    for e in app:
        base, args = e.data[0], e.data[2]
        if attr_is(base, 'children') and t.elem(base[2], par) and args == ('tuple', (child,)):
            c.ok(R, sample='children of the storage get the entry')
        elif attr_is(base, 'children') and base[2][0] == 'elem' and base[2][2] in (par, child):
            c.bad(R, e.where(), 'entry %s is appended to the children of entry %s' % (brief(args, 40), brief(base[2][2], 40)), key=R + '|append')
        else:
            c.open(R, 'append at line %d' % e.line)
    for e in t.marks():
        if e.data[2] == par:
            c.ok(R, sample='the parent of the entry is noted')
        elif not has_unknown(e.data[2]):
            c.bad(R, e.where(), 'the parent of an entry is noted as %s' % brief(e.data[2], 40), key=R + '|parent')
    for label, n in (('no entry', -1), ('entry 1 of 6', 1), ('the last of 6 entries', 5)):
        expect(c, R, label, t.case(n), t.events, 'accepts', t.where, 'is rejected')
    never(c, R, 'no entry', t.case(-1), app, 'is added')


# ======================================================================= C28
def C28(c):
    """Every sector number that is followed while a compound file is read is judged on the guards the source puts around its uses: an
    out-of-range or already used sector must not reach a read, and the path that meets one must raise."""
    R = 'table-sectors'
    c.rule(R, 'sectors of the master, sector and short-sector tables are in range and used once')
    c.guard(R, c28_init, c, R)
    R = 'stream-sectors'
    c.rule(R, 'sectors of a stream are in range and used once, and the chain ends with the end marker')
    c.guard(R, c28_walk, c, R)
    R = 'directory'
    c.rule(R, 'links of the directory tree lead to entries that exist and are met once')
    c.guard(R, c28_tree, c, R)
    c.guard(R, c28_root, c, R)
    R = 'error-type'
    c.rule(R, 'corruption is reported with the library error')
    c.guard(R, c28_types, c, R)
    R = 'marks-fit'
    c.rule(R, 'what marks a sector as used fits the array of marks')
    c.guard(R, c28_marks, c, R)


NARROW = {'b': (-128, 127), 'B': (0, 255), 'h': (-32768, 32767), 'H': (0, 65535)}


def c28_marks(c, R):
    """arrays of one or two bytes per element made in compdoc: every store of an element, arguments followed to their call sites"""
    src = source(c)
    fns = [f for f in src.fns if f.module.name == 'xlrd.compdoc']
    arrays, plain = {}, 0
    for f in fns:
        for n in f.body_nodes():
            if not isinstance(n, ast.Assign):
                continue
            for v in ast.walk(n.value):
                lim = None
                if isinstance(v, ast.Call):
                    name = getattr(v.func, 'attr', getattr(v.func, 'id', ''))
                    if name == 'array' and v.args and isinstance(v.args[0], ast.Constant):
                        lim = NARROW.get(v.args[0].value)
                        plain += lim is None
                    elif name == 'bytearray':
                        lim = NARROW['B']
                if lim is not None:
                    for t in n.targets:
                        arrays[getattr(t, 'attr', getattr(t, 'id', None))] = lim
    if not arrays:
        if plain:
            c.ok(R, plain, sample='array of four or more bytes per element')
        return

    def fits(f, v, lim, depth):
        if isinstance(v, ast.Constant) and (v.value is None or isinstance(v.value, int)):
            return v.value is None or lim[0] <= v.value <= lim[1]
        if isinstance(v, ast.Name) and v.id in f.params and depth < 4:
            out = []
            for g in src.fns:
                for call, fs, cs, e in src.calls(g):
                    if f in fs:
                        ps = [p for p in f.params if p != 'self']
                        a = [k.value for k in call.keywords if k.arg == v.id]
                        if not a and v.id in ps and ps.index(v.id) < len(call.args):
                            a = [call.args[ps.index(v.id)]]
                        out += [fits(g, x, lim, depth + 1) for x in a]
            return False if False in out else None if None in out else True
        if isinstance(v, ast.BinOp) and isinstance(v.op, ast.BitAnd) and isinstance(v.right, ast.Constant):
            return 0 <= v.right.value <= lim[1]
        if isinstance(v, ast.BinOp) and isinstance(v.op, (ast.Add, ast.Mult)) and any(isinstance(x, ast.Attribute) for x in (v.left, v.right)):
            return False       # a number out of the file, or one per directory entry
        if isinstance(v, ast.Attribute):
            return False
        return None
    for f in fns:
        for n in f.body_nodes():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript):
                        k = getattr(t.value, 'attr', getattr(t.value, 'id', None))
                        if k in arrays:
                            r = fits(f, n.value, arrays[k], 0)
                            if r is None:
                                c.open(R, f.where(n))
                            elif r:
                                c.ok(R, sample=f.where(n))
                            else:
                                c.bad(R, f.where(n), 'a mark beyond %d is stored in %r, whose elements have one or two bytes' % (arrays[k][1], k), R + '|' + k)


def c28_init(c, R):
    r = InitRun(c)
    s = r.s
    src = source(c)
    NM = {}
    c.count('table_loops', len(set(a for e, a in r.slices)))
    if not r.slices:
        c.open(R, 'no sector reads recognised')
    by = {}
    for e, a in r.slices:
        by.setdefault(a, []).append(e)
    for a, sl_ in sorted(by.items(), key=lambda x: x[1][0].line):
        lid = a[1] if a[0] == 'phi' else None
        what = 'table loop at line %d' % sl_[0].line
        oth = {x: -2 for x in by if x[0] == 'phi' and x != a}
        loop = sl_[0].loops[-1] if sl_[0].loops else None
        inl = [e for e in r.events if loop is not None and loop in e.loops]
        marks = [e for e in inl if e.kind == 'setitem' and e.data[0] == r.seen]
        loads = [e for e in inl if e.kind == 'load' and e.data[0] in (r.seen, r.sat) and e.data[1] == a]
        uses = sl_ + marks + loads
        nxt = s.it.phis.get((a[1], a[2]), (None, None))[1] if a[0] == 'phi' else None
        viasat = nxt is not None and nxt[0] == 'elem' and nxt[1] == r.sat

        def mkcase(**kw):
            return r.case(atom=a, others=oth, **kw)
        for sid in (NSECS, NSECS + 1, 1 << 30):
            never(c, R, '%s: sector %d of a file of %d' % (what, sid, NSECS), mkcase(sid=sid, satlen=1 << 31), uses, 'is used', r.events)
        for sid in (-3, -5, -9) if a[0] != 'phi' or not viasat else (-1, -3):
            case = mkcase(sid=sid)
            if sid == -3 and a[0] == 'phi' and not viasat:
                pass
            never(c, R, '%s: sector %d' % (what, sid), case, uses, 'is used', r.events)
        if viasat:
            un = [e for e in uses if not (e.kind == 'load' and in_try(src, e.node, LOOKUPS))]
            never(c, R, '%s: sector 12 with a sector table of 10 entries' % what, mkcase(sid=12, satlen=10), un, 'is used', r.events)
            expect(c, R, '%s: sector 12 with a sector table of 10 entries' % what, mkcase(sid=12, satlen=10, exitk=0), inl, 'raises', sl_[0].where(), 'is accepted')
        # out of range: raise. (a master table entry past the end of the file is tolerated with a warning and not used)
        bad = [(-3, 'an invalid negative number'), (-7, 'an invalid negative number')] if not viasat else []
        if a[0] == 'phi':
            bad.append((NSECS, 'one past the end of the file'))
        for sid, lab in bad:
            expect(c, R, '%s: sector %d (%s)' % (what, sid, lab), mkcase(sid=sid), inl, 'raises', sl_[0].where(), 'is accepted')
        for seen in (1, 2, 5):
            case = mkcase(sid=5, seen=seen)
            never(c, R, '%s: a sector already used' % what, case, sl_ + marks, 'is used again', r.events)
            expect(c, R, '%s: a sector already used' % what, case, inl, 'raises', sl_[0].where(), 'is accepted')
        # the sector is marked
        case = mkcase(sid=5)
        m = always(c, R, '%s: a sector read is marked as used' % what, case, [e for e in marks if e.data[1] == a], sl_[0].where(), 'it is not')
        if m is not None:
            try:
                v = case.val(m.data[2])
                if v:
                    c.ok(R, sample='%s: mark %r' % (what, v))
                else:
                    c.bad(R, m.where(), '%s: a sector is marked with %r, which means unused' % (what, v), key=R + '|mark')
            except (E.Undef, E.Raised):
                c.open(R, what + ': mark')
        # end of the chain of the short-sector table
        if viasat:
            post = [e for e in r.events if e.kind == 'raise' and e.line > sl_[0].line and not e.loops]
            for end, exitk, label, want in ((-2, 1, 'a complete table', 'accepts'), (-1, 1, 'a chain ending with the free marker', 'raises'),
                                            (-3, 1, 'a chain ending with a table marker', 'raises'), (-2, 0, 'a chain too short', 'raises'), (7, 1, 'a chain too long', 'raises')):
                o2 = dict(oth)
                case = r.case(sid=end, atom=a, others=o2, exitk=exitk, k=0)
                expect(c, R, 'short-sector table: ' + label, case, post, want, sl_[0].where(), 'is %s' % ('rejected' if want == 'accepts' else 'accepted'))
    # stream reads made while opening mark the sectors they use
    for x in s.calls:
        if x[0] == '_get_stream':
            g = x[1].get('seen_id')
            if g == NONE:
                c.bad(R, '%s:%d in %s.__init__' % (CD_PATH, x[3].lineno, CD), 'the sectors of this stream are not marked as used', key=R + '|seen_id|%d' % s.calls.index(x))
            elif g is not None and g[0] == 'c':
                if g[2]:
                    c.ok(R, sample='sectors of the stream read at line %d are marked' % x[3].lineno)
                else:
                    c.bad(R, '%s:%d in %s.__init__' % (CD_PATH, x[3].lineno, CD), 'the sectors of this stream are marked %r, which means unused' % (g[2],), key=R + '|seen_id|%d' % s.calls.index(x))
            else:
                c.open(R, 'mark of the stream at line %d' % x[3].lineno)
    # the table of used sectors covers the file
    h = s.it.hget(s.st, r.seen[1]) if r.seen is not None and r.seen[0] == 'ref' else None
    if h is None:
        c.open(R, 'table of used sectors')


def handlers(c, R, src):
    """a failed look-up in a sector table must not be turned into the end of the chain"""
    for f in src.fns:
        if not f.qual.startswith('xlrd.compdoc.'):
            continue
        for n in f.body_nodes():
            if not isinstance(n, ast.ExceptHandler):
                continue
            ts = [n.type] if not isinstance(n.type, ast.Tuple) else n.type.elts
            if not any(t is None or isinstance(t, ast.Name) and t.id in LOOKUPS for t in ts):
                continue
            sub = [x for b in n.body for x in ast.walk(b)]
            if any(isinstance(x, ast.Raise) for x in sub):
                c.ok(R, sample='failed look-up at line %d raises' % n.lineno)
                continue
            end = [x for x in sub if isinstance(x, ast.Assign) and (isinstance(x.value, ast.Name) and x.value.id == 'EOCSID' or isinstance(x.value, ast.UnaryOp)
                                                                   and isinstance(x.value.op, ast.USub) and isinstance(x.value.operand, ast.Constant) and x.value.operand.value == 2)]
            if end:
                c.bad(R, f.where(end[0]), 'a look-up outside the sector table is taken for the end of the chain', key=R + '|handler|' + f.qual)
            else:
                c.open(R, 'handler at line %d' % n.lineno)


def c28_walk(c, R):
    src = source(c)
    handlers(c, R, src)
    for q in ('get_named_stream', 'locate_named_stream'):
        s, where = named_run(c, q)
        for n, x in enumerate(s.calls):
            g, b = x[1].get('seen_id'), x[1].get('mem')
            if b == ('init', 'cd', 'mem'):
                if g == NONE or g == const(0):
                    c.bad(R, '%s:%d in %s.%s' % (CD_PATH, x[3].lineno, CD, q), '%s: the sectors of the stream are not marked as used' % q, key='%s|mark|%s' % (R, q))
                elif g is None or has_unknown(g):
                    c.open(R, q + ': mark')
                else:
                    c.ok(R, sample='%s: sectors are marked %s' % (q, brief(g, 40)))
    for which, size, seen_id in (('_get_stream', False, True), ('_get_stream', True, True), ('_get_stream', False, False), ('_get_stream', True, False),
                                 ('_locate_stream', True, True)):
        w = Walk(c, which, size, seen_id)
        lab = '%s%s%s' % (which, '' if size else ' of unknown size', '' if seen_id else ', short sectors')
        if w.sid is None:
            c.open(R, lab + ': no loop-carried sector number')
            continue
        todo = [('phi',) + k for k, v in w.phis.items() if v[0] == ('sym', 'size')]
        oth = {t: 512 for t in todo}
        uses = w.uses()
        c.count('uses', len(uses))
        if not uses:
            c.open(R, lab + ': uses')
        loads = [e for e in uses if e.kind == 'load']
        other = [e for e in uses if e.kind != 'load']
        marks = [e for e in uses if e.kind == 'setitem']
        reads = [e for e in uses if e.kind == 'slice'] or [e for e in w.events if e.kind == 'setitem']
        for sid in (NSECS, NSECS + 5, 1 << 30):
            k = {'sid': sid, 'satlen': 1 << 31, 'others': oth, 'start': 4, 'secs': NSECS}
            never(c, R, '%s: sector %d of %d' % (lab, sid, NSECS), w.case(**k), other + [e for e in loads if not in_try(src, e.node, LOOKUPS)], 'is used', w.events)
            expect(c, R, '%s: sector %d of %d' % (lab, sid, NSECS), w.case(**k), w.events, 'raises', w.where, 'is accepted')
        k = {'sid': 12, 'satlen': 10, 'others': oth, 'start': 4}
        un = [e for e in loads if not in_try(src, e.node, LOOKUPS)]
        never(c, R, '%s: sector 12 with a table of 10 entries' % lab, w.case(**k), un, 'is looked up (IndexError)', w.events)
        expect(c, R, '%s: sector 12 with a table of 10 entries' % lab, w.case(exc=True, **k), w.events, 'raises', w.where, 'is accepted')
        for sid in (-1, -3, -4, -5):
            k = {'sid': sid, 'others': {t: 0 for t in todo}, 'start': 4, 'exitk': 3}
            never(c, R, '%s: sector %d' % (lab, sid), w.case(**k), uses, 'is used', w.events)
            expect(c, R, '%s: a chain that ends with %d' % (lab, sid), w.case(**k), w.events, 'raises', w.where, 'is accepted')
            rets = [e for e in w.events if e.kind == 'return' and e.func == w.q]
            never(c, R, '%s: a chain that ends with %d' % (lab, sid), w.case(**k), rets, 'returns data', w.events)
        if which == '_locate_stream':
            for sid in (-1, -2, -3):
                expect(c, R, '%s: a stream that starts at sector %d' % (lab, sid), w.case(sid=sid, start=sid, exitk=0, others=oth), w.events, 'raises', w.where, 'is accepted')
            for exitk, size_, label in ((2, 1536, 'too short'), (2, 1025, 'too short'), (4, 1536, 'too long')):
                k = {'sid': EOC, 'start': 4, 'exitk': exitk, 'size': size_}
                expect(c, R, '%s: a chain of %d sectors for %d bytes' % (lab, exitk, size_), w.case(**k), w.events, 'raises', w.where, 'is accepted')
            expect(c, R, '%s: a 4th sector for 1536 bytes' % lab, w.case(sid=5, k=3, others=oth), w.events, 'raises', w.where, 'is accepted')
            never(c, R, '%s: a 4th sector for 1536 bytes' % lab, w.case(sid=5, k=3, others=oth, ignore=1, seen=9),
                  loads + [e for e in w.step() if e.kind == 'container'], 'is followed', w.events)
        if seen_id:
            for seen in (1, 9):
                k = {'sid': 5, 'seen': seen, 'others': oth}
                never(c, R, '%s: a sector already used' % lab, w.case(**k), other, 'is used again', w.events)
                expect(c, R, '%s: a sector already used' % lab, w.case(**k), w.events, 'raises', w.where, 'is accepted')
                k['ignore'] = 1
                if which == '_locate_stream':
                    expect(c, R, '%s: a sector already used, corruption to be ignored' % lab, w.case(**k), w.step(), 'accepts', w.where, 'is rejected')
            m = always(c, R, '%s: a sector read is marked as used' % lab, w.case(sid=5, others=oth), [e for e in marks if e.data[1] == w.sid], w.where, 'it is not')
            if m is not None:
                try:
                    v = w.case(sid=5).val(m.data[2])
                    if v:
                        c.ok(R, sample='%s: mark %r' % (lab, v))
                    else:
                        c.bad(R, m.where(), '%s: a sector is marked with %r, which means unused' % (lab, v), key=R + '|mark|' + which)
                except (E.Undef, E.Raised):
                    c.open(R, lab + ': mark')
        else:
            k = {'sid': 5, 'listlen': 1 << 30, 'others': oth}
            never(c, R, '%s: a chain longer than its table' % lab, w.case(**k), other, 'goes on', w.events)
            expect(c, R, '%s: a chain longer than its table' % lab, w.case(**k), w.events, 'raises', w.where, 'is accepted')


def c28_tree(c, R):
    t = Tree(c)
    uses = t.marks() + [e for e in t.events if e.kind == 'nested' or e.kind in ('mcall', 'container') and e.data[1] == 'append']
    c.count('tree_uses', len(uses))
    if not uses:
        c.open(R, 'no uses recognised')
    for n, lab in ((6, 'an entry one past the last'), (7, 'an entry past the last'), (1 << 30, 'an entry far past the last')):
        case = t.case(n)
        loads = [e for e in t.events if e.kind == 'load' and e.data[0] == t.dl and e.data[1] == ('sym', 'child')]
        never(c, R, lab, case, uses + loads, 'is used', t.events)
        expect(c, R, lab, case, t.events, 'raises', t.where, 'is accepted')
    for p in (0, 3, 1):
        case = t.case(2, parent=p)
        never(c, R, 'an entry that already belongs to entry %d' % p, case, uses, 'is used again', t.events)
        expect(c, R, 'an entry that already belongs to entry %d' % p, case, t.events, 'raises', t.where, 'is accepted')
    for n in (-1, -5, 0):
        never(c, R, 'a link of %d' % n, t.case(n), uses, 'is followed')
    # the mark precedes the visits below
    marks = t.marks()
    if marks:
        i = t.events.index(marks[0])
        for e in t.events:
            if e.kind == 'nested':
                j = t.events.index(e)
                if j < i:
                    c.bad(R, e.where(), 'a link is followed before the entry is marked as met, so a cycle of links is followed for ever', key=R + '|order')
                else:
                    c.ok(R, sample='marked before line %d' % e.line)
        m = always(c, R, 'an entry met is marked', t.case(1), marks, t.where, 'it is not')
        nested_all(c, R, t)
    elif any(e.kind == 'nested' for e in t.events):
        c.open(R, 'how entries are marked')


def nested_all(c, R, t):
    return


def c28_root(c, R):
    r = InitRun(c)
    oth = {a: -2 for _, a in r.slices if a[0] == 'phi'}
    where = func_where(c, CD + '.__init__')
    post = [e for e in r.events if e.kind == 'raise' and not e.loops]
    tree = [e for e in r.events if e.kind == 'call' and e.data[0] == const('_build_family_tree')]
    for label, kw, want in (('a root entry', {}, 'accepts'), ('a directory that starts with a stream', {'root': {'etype': 2}}, 'raises'),
                            ('a directory that starts with an unused entry', {'root': {'etype': 0}}, 'raises'), ('an empty directory', {'nodir': True}, 'raises')):
        case = r.case(others=oth, **kw)
        expect(c, R, label, case, post, want, where, 'is %s' % ('rejected' if want == 'accepts' else 'accepted'))
        if want == 'raises':
            never(c, R, label, case, tree, 'is followed')


def c28_types(c, R):
    r = InitRun(c)
    error_types(c, R, r.s, 'opening')
    for which, size, seen_id in (('_get_stream', False, True), ('_get_stream', True, True), ('_locate_stream', True, True)):
        w = Walk(c, which, size, seen_id)
        error_types(c, R, w.s, which)
    error_types(c, R, Tree(c).s, 'directory')
