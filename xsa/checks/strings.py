"""C23 all readers of strings agree on the layout of strings."""
import struct
from .common import *
from xsa.interp import Unsupported

BIFFH = 'xlrd.biffh.'
ENC = 'cp1251'


def body(nchars, wide, seed=0):
    """nchars characters; wide ones include characters outside Latin-1 and a surrogate pair"""
    if not wide:
        return bytes((0x41 + (i * 53 + seed * 7) % 0xBE) for i in range(nchars))
    out = b''
    i = 0
    while len(out) < 2 * nchars:
        left = nchars - len(out) // 2
        if left >= 2 and (i + seed) % 3 == 1:
            out += ('\U0001F600').encode('utf-16-le')
        else:
            out += chr((0x42, 0x3b1, 0x2014, 0xe9)[(i + seed) % 4]).encode('utf-16-le')
        i += 1
    return out


def text_of(b, wide):
    return b.decode('utf-16-le' if wide else 'latin-1')


def unicode_samples(lenlen, known):
    """(data, pos, known_len, text, position after)"""
    for pos in (0, 3):
        for n in (0, 1, 2, 5):
            for wide in (0, 1):
                for rich in (0, 8):
                    for pho in (0, 4):
                        for other in (0, 0xF2):
                            for tail in (b'', b'\x09\x01\x08\x00\x55'):
                                cb = body(n, wide, n)
                                d = b'' if known else struct.pack('<' + 'BH'[lenlen - 1], n)
                                d += bytes([wide | rich | pho | other])
                                runs, phos = (2 if rich else 0), (5 if pho else 0)
                                if rich:
                                    d += struct.pack('<H', runs)
                                if pho:
                                    d += struct.pack('<I', phos)
                                d += cb + bytes(range(1, 1 + 4 * runs + phos))
                                yield b'\x77' * pos + d + tail, pos, n, text_of(cb, wide), pos + len(d)
        # a zero-length string may come without its options byte at the end of a record
        d = b'' if known else bytes(lenlen)
        yield b'\x77' * pos + d, pos, 0, '', pos + len(d)


def bytes_samples(lenlen, known):
    for pos in (0, 3):
        for n in (0, 1, 2, 5):
            for tail in (b'', b'\x41\x01\x08'):
                cb = 'Жщё Ab'.encode(ENC)[:n]
                d = (b'' if known else struct.pack('<' + 'BH'[lenlen - 1], n)) + cb
                yield b'\x77' * pos + d + tail, pos, n, cb.decode(ENC), pos + len(d)


def reader(c, name, unicode_, updates):
    rule = 'layout'
    if c.prog.func(BIFFH + name) is None:
        c.open(rule, name + ' was not found')
        return
    info = None
    for lenlen in (1, 2):
        for known in ((0, 1) if updates else (0,)):
            s = Setup(c.prog, 80)
            s.it.symkinds.update({'data': 'bytes', 'pos': 'int', 'kl': 'int', 'enc': 'str'})
            args = [('sym', 'data'), ('sym', 'pos')] + ([] if unicode_ else [('sym', 'enc')])
            kw = {'lenlen': const(lenlen)}
            if known:
                kw['known_len'] = ('sym', 'kl')
            s.run(BIFFH + name, args, kw)
            fn = s.it.func_info(c.prog.func(BIFFH + name))
            at = '%s:%d in %s' % (fn.module.path, fn.node.lineno, name)
            tag = '%s, %s' % (name, 'length given' if known else '%d-byte length' % lenlen)
            und = 0
            for d, pos, n, text, end in (unicode_samples if unicode_ else bytes_samples)(lenlen, known):
                env = E.Env({'data': d, 'pos': pos, 'kl': n, 'enc': ENC}, {}, {}, {})
                want = (text, end) if updates else text
                c.count('string_layouts')
                try:
                    got = result(s, env)
                except E.Undef:
                    und += 1
                    continue
                if got == want:
                    c.ok(rule, sample='%s: %r' % (tag, want))
                    continue
                c.bad(rule, at, '%s: string at offset %d of %s is read as %r instead of %r%s' % (
                    tag, pos, d.hex(), got, want, ' (text, position after it)' if updates else ''), key='%s|%s' % (rule, tag))
                break
            if und:
                c.open(rule, '%s: %d layouts could not be decided' % (tag, und))


class Fails(object):
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'an error (%s)' % self.what

    def __eq__(self, other):
        return isinstance(other, Fails)


def result(s, env):
    """value returned under a valuation, or Fails"""
    for e in s.it.events:
        if e.kind == 'raise' and e.data[0][2] != '<reraise>' and guards_hold(e, env):
            return Fails(str(e.data[0][2]))
    try:
        hit = [e for e in s.it.events if e.kind == 'return' and not e.sites and not e.loops and guards_hold(e, env)]
        if len(hit) == 1:
            return E.ev(hit[0].data[0], env)
        if s.value is None:
            raise E.Undef
        return E.ev(s.value, env)
    except E.Raised:
        return Fails('while decoding')


class Everywhere(dict):
    """loops of every function are followed for n iterations"""
    def __init__(self, n):
        self.n = n
        self['*'] = n

    def get(self, k, d=None):
        return self.n


def chunk(name, n):
    return ('app', 'chunk', const(name), const(n))


class Layout(object):
    """byte blocks made of constant headers and pieces of text of known length and unknown content"""

    def __init__(self):
        self.blocks = [[]]
        self.pieces = {}
        self.strings = []

    def put(self, b):
        self.blocks[-1].append(const(b))

    def text(self, nchars, wide):
        if not nchars:
            return []
        t = chunk('t%d' % len(self.pieces), nchars * (2 if wide else 1))
        self.pieces[t] = (nchars, wide)
        self.blocks[-1].append(t)
        return [(t, wide)]

    def cut(self):
        self.blocks.append([])

    def terms(self):
        out = []
        for b in self.blocks:
            parts = []
            for p in b:
                if p[0] == 'c' and parts and parts[-1][0] == 'c':
                    parts[-1] = const(parts[-1][2] + p[2])
                elif not (p[0] == 'c' and not p[2]):
                    parts.append(p)
            out.append(const(b'') if not parts else parts[0] if len(parts) == 1 else ('app', 'cat') + tuple(parts))
        return out

    def contents(self, seed):
        return {t: body(n, w, i + seed) for i, (t, (n, w)) in enumerate(sorted(self.pieces.items(), key=repr))}


def decoded(pieces, vals):
    return ''.join(text_of(vals[t], w) for t, w in pieces)


def sst_layouts():
    """one, two or three strings; widths, runs and phonetic data; cut at every place the format allows"""
    plain = [(n, w, 0, 0) for n in (0, 1, 3) for w in (0, 1)]
    rich = [(2, 0, 2, 0), (1, 1, 1, 0), (2, 0, 0, 5), (1, 1, 0, 3), (2, 1, 2, 5)]
    for a in plain + rich:
        for k in cuts(a):
            for b in [(2, 0, 0, 0), (1, 1, 1, 0)]:
                for k2 in ((), ('c', 1)) if b[2] == 0 else ((),):
                    yield [(a, k), (b, k2)]
    for a in rich:
        for b in rich:
            yield [(a, ()), (b, ('e',)), ((1, 0, 0, 0), ())]
    yield [((4, 0, 0, 0), ('c', 1, 'c', 3)), ((2, 1, 0, 0), ())]
    yield [((1, 0, 0, 9), ('p', 2, 'p', 6)), ((2, 1, 0, 0), ())]
    yield [((3, 1, 2, 0), ('c', 1, 'r', 1)), ((2, 0, 0, 0), ())]


def cuts(a):
    n, w, runs, pho = a
    yield ()
    for i in range(1, n):
        yield ('c', i)
    for i in range(0, runs):
        yield ('r', i)
    for i in range(0, pho, 2):
        yield ('p', i)
    if not runs and not pho or True:
        yield ('e',)


def build(spec, flip):
    """-> layout, pieces of each string, runs of each string; flip: continued text changes its character width"""
    L = Layout()
    L.put(struct.pack('<ii', len(spec), len(spec)))
    texts, allruns = [], {}
    for i, ((n, w, runs, pho), k) in enumerate(spec):
        at = {}
        for j in range(0, len(k), 2):
            at.setdefault(k[j], []).append(k[j + 1] if j + 1 < len(k) else 0)
        L.put(struct.pack('<HB', n, w | (8 if runs else 0) | (4 if pho else 0)))
        if runs:
            L.put(struct.pack('<H', runs))
        if pho:
            L.put(struct.pack('<I', pho))
        pieces = []
        pos = 0
        for x in at.get('c', []) + [n]:
            pieces += L.text(x - pos, w)
            if x != n:
                L.cut()
                w = w ^ 1 if flip else w
                L.put(bytes([w]))
            pos = x
        rs = []
        for r in range(runs):
            if r in at.get('r', []):
                L.cut()
            L.put(struct.pack('<HH', 10 * i + r, 7 + r))
            rs.append((10 * i + r, 7 + r))
        pos = 0
        for x in at.get('p', []) + [pho]:
            L.put(b'\x51' * (x - pos))
            if x != pho:
                L.cut()
            pos = x
        if 'e' in at and i + 1 < len(spec):
            L.cut()
        texts.append(pieces)
        if rs:
            allruns[i] = rs
    return L, texts, allruns


def describe(spec):
    return '; '.join('%d %s characters%s%s%s' % (
        n, 'wide' if w else 'narrow', ', %d runs' % r if r else '', ', %d bytes of phonetic data' % p if p else '',
        ', cut %s' % (k,) if k else '') for (n, w, r, p), k in spec)


def sst(c):
    rule = 'shared'
    q = 'xlrd.book.unpack_SST_table'
    if c.prog.func(q) is None:
        c.open(rule, 'the reader of the shared strings was not found')
        return
    fn = None
    und = 0
    for spec in sst_layouts():
        for flip in (0, 1):
            if flip and not any('c' in k for a, k in spec):
                continue
            L, texts, runs = build(spec, flip)
            s = Setup(c.prog, 80)
            s.it.unroll = Everywhere(8)
            tab = s.it.alloc(s.st, HObj('list', items=tuple(L.terms())))
            s.run(q, [tab, const(len(spec))])
            f = s.it.func_info(c.prog.func(q))
            at = '%s:%d in %s' % (f.module.path, f.node.lineno, f.qual)
            c.count('shared_string_layouts')
            what = describe(spec) + (', width changing' if flip else '')
            bad = None
            for seed in (0, 1):
                vals = L.contents(seed)
                env = E.Env({}, {}, {}, dict(vals))
                try:
                    got = sst_value(s, env)
                except E.Undef:
                    bad = 'open'
                    break
                want = ([decoded(p, vals) for p in texts], runs)
                if got != want:
                    bad = (got, want)
                    break
            if bad is None:
                c.ok(rule, sample=what)
            elif bad == 'open':
                und += 1
            else:
                c.bad(rule, at, 'shared strings laid out as [%s] are read as %s instead of %s' % (what, show_sst(bad[0]), show_sst(bad[1])), key=rule)
    if und:
        c.open(rule, '%d layouts of shared strings could not be decided' % und)


def show_sst(v):
    return repr(v)[:160]


def sst_value(s, env):
    for e in s.it.events:
        if e.kind in ('raise', 'implicit_raise') and not e.loops and (e.kind != 'raise' or e.data[0][2] != '<reraise>'):
            if any(g[0] == TOP for g in e.guards):
                raise E.Undef
            if e.kind == 'raise' and guards_hold(e, env):
                return Fails(str(e.data[0][2]))
    v = s.value
    if v is None or v == TOP or v[0] != 'tuple' or len(v[1]) != 2:
        if s.it.stats.get('cut_loops'):
            raise E.Undef               # more iterations than were followed
        if v is not None and v[0] == 'c':
            return Fails('no result')
        if s.st is None or getattr(s.st, 'dead', False) or v is None:
            return Fails('no result')
        raise E.Undef
    lst, dct = v[1]
    h = s.it.hget(s.st, lst[1]) if lst[0] == 'ref' else None
    if h is None or h.items is None:
        raise E.Undef
    try:
        strings = [E.ev(x, env) for x in h.items]
    except E.Raised:
        return Fails('while decoding')
    runs = {}
    for e in s.it.events:
        if e.kind == 'setitem' and e.data[0] == dct:
            if not guards_hold(e, env):
                continue
            k = E.ev(e.data[1], env)
            r = s.it.hget(s.st, e.data[2][1]) if e.data[2][0] == 'ref' else None
            if r is None or r.items is None:
                raise E.Undef
            runs[k] = [E.ev(x, env) for x in r.items]
    return strings, runs


def continued(c):
    """the text of a STRING record and its CONTINUE records"""
    rule = 'continued'
    q = 'xlrd.sheet.Sheet.string_record_contents'
    if c.prog.func(q) is None:
        c.open(rule, 'the reader of STRING records was not found')
        return
    und = 0
    for bv in (20, 30, 50, 80):
        for n, split, wides in ((0, (), (0,)), (1, (), (0,)), (3, (), (0,)), (3, (), (1,)), (4, (2,), (0, 0)), (4, (2,), (1, 1)), (4, (1,), (0, 1)),
                                (4, (3,), (1, 0)), (5, (1, 3), (0, 1, 0))):
            if bv < 80 and any(wides):
                continue
            L = Layout()
            L.put(struct.pack('<B' if bv < 30 else '<H', n))
            pos = 0
            pieces = []
            for i, x in enumerate(split + (n,)):
                if i:
                    L.cut()
                if bv >= 80:
                    L.put(bytes([wides[i]]))
                pieces += L.text(x - pos, wides[i])
                pos = x
            terms = L.terms()
            for enc in ((ENC, 'cp932') if bv < 80 and not split else (ENC,)):
                box = [1]

                def parts(it, st, fn, args, kwargs, node):
                    i = box[0]
                    box[0] += 1
                    if i < len(terms):
                        return ('tuple', (const(const_of(c.prog, 'XL_CONTINUE')), ('sym', 'ln'), terms[i]))
                    return ('tuple', (const(10), const(0), const(b'')))
                s = Setup(c.prog, bv, hooks={'xlrd.book.Book.get_record_parts': parts}, book={'encoding': const(enc)})
                s.it.unroll = Everywhere(6)
                s.run(q, [s.sheet, terms[0]])
                f = s.it.func_info(c.prog.func(q))
                at = '%s:%d in %s' % (f.module.path, f.node.lineno, f.qual)
                tag = 'version %s, %d characters in %d records, widths %s' % (bv, n, len(terms), wides)
                for seed in (0, 1, 2):
                    vals = L.contents(seed)
                    if enc == 'cp932' and n:
                        vals = {t: ('あ'.encode('cp932') * 3)[:k - k % 2] + b'A' * (k % 2) for t, (k, w) in L.pieces.items()}
                    env = E.Env({}, {}, {}, dict(vals))
                    c.count('continued_string_layouts')
                    try:
                        got = result(s, env)
                    except E.Undef:
                        und += 1
                        break
                    want = ''.join(vals[t].decode(enc) if bv < 80 else text_of(vals[t], w) for t, w in pieces)
                    if got == want:
                        c.ok(rule, sample='%s: %r' % (tag, want))
                        continue
                    c.bad(rule, at, '%s: the text %r is read as %r' % (tag, want, got), key='%s|%s' % (rule, tag))
                    break
    if und:
        c.open(rule, '%d layouts of STRING records could not be decided' % und)


def C23(c):
    """The four string readers of biffh are interpreted and the text and end position they compute folded over every combination of character
width, formatting runs, phonetic data and reserved bits. The reader of the shared strings and the one of STRING records are interpreted over
layouts (sizes, widths, places where a CONTINUE record starts) whose text is left unknown; the text they return must be the concatenation of the
pieces, each decoded with its own width."""
    c.rule('layout', 'text, and position after the string and its optional parts')
    c.rule('shared', 'shared strings and their formatting runs, for every way of splitting them over CONTINUE records')
    c.rule('continued', 'STRING records continued over several records')
    c.guard('layout', reader, c, 'unpack_string', False, False)
    c.guard('layout', reader, c, 'unpack_string_update_pos', False, True)
    c.guard('layout', reader, c, 'unpack_unicode', True, False)
    c.guard('layout', reader, c, 'unpack_unicode_update_pos', True, True)
    c.guard('shared', sst, c)
    c.guard('continued', continued, c)


# ---------------------------------------------------------------- C81
def more_layouts():
    seen = set()
    for x in sst_layouts():
        seen.add(tuple(x))
        yield x
    last = ((2, 0, 0, 0), ())
    for n in (1, 2, 3, 5):
        for w in (0, 1):
            for runs in (0, 1, 2, 3):
                for pho in (0, 6):
                    a = (n, w, runs, pho)
                    places = [('c', i) for i in range(1, n)] + [('r', i) for i in range(runs)] + [('p', i) for i in range(0, pho, 2)] + [('e', 0)]
                    for i, p in enumerate(places):
                        for q in places[i + 1:]:
                            x = [(a, p + q), last]
                            if tuple(x) not in seen:
                                yield x
    for n in (255, 256, 300):
        for w in (0, 1):
            yield [((n, w, 0, 0), ('c', 254)), last]
            yield [((n, w, 0, 0), ('c', 100, 'c', 200)), last]
    cutsof = ((), ('e',), ('c', 1))
    for k1 in cutsof:
        for k2 in cutsof:
            for k3 in ((), ('c', 1)):
                yield [((2, 0, 1, 0), k1), ((2, 1, 0, 4), k2), ((2, 0, 2, 0), k3)]


def sst_records(c):
    rule = 'shared'
    q = 'xlrd.book.Book.handle_sst'
    if c.prog.func(q) is None:
        c.open(rule, 'the reader of the SST record was not found')
        return
    und = stuck = n = 0
    for spec in more_layouts():
        for flip in (0, 1):
            if flip and not any('c' in k for a, k in spec):
                continue
            n += 1
            fmt = n % 2
            L, texts, runs = build(spec, flip)
            terms = L.terms()
            mem = [('c', 'bytes', b'')]
            for i, t in enumerate(terms[1:] + [const(b'')]):
                size = sum(len(p[2]) if p[0] == 'c' else p[3][2] for p in (t[2:] if t[0] == 'app' and t[1] == 'cat' else (t,)))
                mem.append(const(struct.pack('<HH', 0x3c if i < len(terms) - 1 else 0x0a, size)))
                mem.extend(t[2:] if t[0] == 'app' and t[1] == 'cat' else (t,))
            parts = []
            for p in mem:
                if p[0] == 'c' and parts and parts[-1][0] == 'c':
                    parts[-1] = const(parts[-1][2] + p[2])
                else:
                    parts.append(p)
            whole = parts[0] if len(parts) == 1 else ('app', 'cat') + tuple(parts)
            end = sum(len(p[2]) if p[0] == 'c' else p[3][2] for p in parts) - 4
            s = Setup(c.prog, 80, fmt=fmt, book={'mem': whole, '_position': const(0)})
            s.it.unroll = Everywhere(12)
            try:
                s.run(q, [s.book, terms[0]], budget=60000)
            except Unsupported:
                und += 1
                stuck += 1
                if stuck > 3:
                    c.open(rule, '%d layouts of shared strings could not be decided' % und)
                    return
                continue
            f = s.it.func_info(c.prog.func(q))
            at = '%s:%d in %s' % (f.module.path, f.node.lineno, f.qual)
            c.count('shared_string_records')
            what = describe(spec) + (', width changing' if flip else '')
            st = s.st
            lst, dct, pos = (attr_of(s, st, s.book, a) for a in ('_sharedstrings', '_rich_text_runlist_map', '_position'))
            bad = None
            for seed in (0, 1):
                vals = L.contents(seed)
                env = E.Env({}, {}, {}, dict(vals))
                try:
                    s.value = ('tuple', (lst, dct if fmt else NONE))
                    got = sst_value(s, env) if lst is not None else Fails('no strings')
                    at_end = E.ev(pos, env)
                except E.Undef:
                    bad = 'open'
                    break
                want = ([decoded(p, vals) for p in texts], runs if fmt else {})
                if got != want:
                    bad = (got, want)
                    break
                if at_end != end:
                    bad = ('the cursor at %d' % at_end, 'the cursor at %d' % end)
                    break
            if bad is None:
                c.ok(rule, sample=what)
            elif bad == 'open':
                und += 1
            else:
                c.bad(rule, at, 'shared strings laid out as [%s] are read as %s instead of %s' % (what, show_sst(bad[0]), show_sst(bad[1])), key=rule)
    if und:
        c.open(rule, '%d layouts of shared strings could not be decided' % und)


def C81(c):
    """The handler of the SST record is interpreted together with the record reader over a stream of an SST and its CONTINUE records: for each
layout (sizes, widths, formatting runs, phonetic data, and one or two places where a record ends) the text is left unknown. The list of strings and
the map of formatting runs the workbook ends with, as terms over the pieces of text, must be those of the unsplit table, and the cursor must stand
on the next record."""
    c.rule('shared', 'strings and formatting runs are those of the unsplit table, and reading resumes on the record after the last CONTINUE')
    c.guard('shared', sst_records, c)
