"""C11 the cell tables of a sheet keep the same shape."""
import ast
import itertools
from .common import *
from ..src import Source

SHEET = 'xlrd.sheet.Sheet'
TABLES = ('_cell_types', '_cell_values', '_cell_xf_indexes')
PAD = {'_cell_types': 0, '_cell_values': '', '_cell_xf_indexes': -1}


class Escaped(Exception):
    """an exception leaves the function"""


class Effects(object):
    """the updates one function makes to the tables, with the conditions and lengths under which they happen"""

    def __init__(self, prog, qual, fmt, ragged, params, put=None, merged=()):
        s = self.s = Setup(prog, 80, fmt=fmt, ragged=ragged)
        s.it.len_versions = True
        for p in params:
            if p in ('rowx', 'colx', 'xf'):
                s.it.symkinds[p] = 'int'
        self.fmt = fmt
        for a, v in (('bt', const(0)), ('bf', const(-1))):
            s.it.set_attr_raw(s.st, s.sheet, a, s.it.alloc(s.st, HObj('list', items=(v,))))
        if put is not None:
            s.it.set_attr_raw(s.st, s.sheet, 'put_cell', s.it.get_attr(s.sheet, put, s.st))
        s.it.set_attr_raw(s.st, s.sheet, 'merged_cells', s.it.alloc(s.st, HObj('list', items=tuple(
            ('tuple', tuple(const(x) for x in m)) for m in merged))))
        s.run(qual, [s.sheet] + [('sym', p) for p in params])
        self.qual = qual
        self.at = '%s:%d' % (s.it.func_info(prog.func(qual)).module.path, s.it.func_info(prog.func(qual)).node.lineno)
        self.events = [e for e in s.it.events if e.kind in (
            'container', 'mcall', 'setitem', 'setslice', 'delitem', 'setattr', 'raise')]
        self.tries = [n for n in ast.walk(prog.modules['xlrd.sheet'].tree) if isinstance(n, ast.Try)]
        self.fns = [n for n in ast.walk(prog.modules['xlrd.sheet'].tree) if isinstance(n, ast.FunctionDef)]

    def handler(self, line):
        """(try statement, names the handler on that line catches)"""
        for t in self.tries:
            for h in t.handlers:
                if h.lineno == line:
                    return t
        return None

    def caught_somewhere(self, inside, ev):
        return any(t.handlers and inside(ev, (t.lineno, t.body[-1].end_lineno)) for t in self.tries)


class Replay(object):
    def __init__(self, ef, tables, attrs, syms):
        self.ef = ef
        self.s = ef.s
        self.tables = tables                # name -> list of lists
        self.attrs = attrs                  # sheet attributes before
        self.after = dict(attrs)
        self.syms = syms
        self.snap = [(-1, self.shape())]
        self.raised = None                  # (kind, event)
        self.last = None
        self.caught = {}
        self.stored = set()                 # tables whose cells were overwritten in this run
        self.cause = None
        self.writes = 0

    def shape(self):
        return {t: [len(r) for r in rows] for t, rows in self.tables.items()}

    # -- terms
    def locate(self, t, env):
        """(table,) or (table, row) a term stands for"""
        if t[0] == 'init' and t[1] == 'sheet' and t[2] in self.tables:
            return (t[2],)
        if t[0] == 'app' and t[1] == 'item' and t[2][0] == 'init' and t[2][1] == 'sheet' and t[2][2] in self.tables:
            return (t[2][2], self.value(t[3], env))
        return None

    def resolve(self, t, env):
        if not isinstance(t, tuple):
            return t
        if len(t) == 4 and t[0] == 'app' and t[1] == 'len' and t[3][0] == 'c':
            w = self.locate(t[2], env)
            if w is None:
                raise E.Undef
            sh = [x for x in self.snap if x[0] < t[3][2]][-1][1][w[0]]
            if len(w) == 1:
                return const(len(sh))
            try:
                return const(sh[w[1]])
            except IndexError:
                raise E.Undef
        if len(t) == 4 and t[0] == 'app' and t[1] == 'item':
            w = self.locate(t[2], env)
            if w is not None and len(w) == 2 and w[0] not in self.stored:
                try:
                    return const(self.tables[w[0]][w[1]][self.value(t[3], env)])
                except IndexError:
                    raise E.Undef
        if len(t) == 4 and t[0] == 'app' and t[1] == 'except':
            return const(self.entered(t, False))
        if t and t[0] == 'init' and len(t) == 3 and t[1] == 'sheet' and t[2] in self.tables:
            raise E.Undef
        return tuple(self.resolve(x, env) for x in t)

    def value(self, t, env):
        v = E.ev(self.resolve(t, env), env)
        return v

    def seq(self, t, env):
        """a sequence that is stored"""
        if t[0] == 'ref':
            info = self.s.it.seqinfo.get(t)
            if info is None or any(e.kind in ('container', 'setslice', 'setitem', 'delitem') and e.data[0] == t for e in self.s.it.events):
                raise E.Undef
            return [self.value(x, env) for x in info[0]] * self.value(info[1], env)
        if t[0] == 'app' and t[1] == 'ite':
            return self.seq(t[3] if E.truth(self.resolve(t[2], env), env) else t[4], env)
        if t[0] == 'alts':
            vs = [self.seq(x, env) for x in t[1]]
            if all(v == vs[0] for v in vs):
                return vs[0]
            raise E.Undef
        v = self.value(t, env)
        if isinstance(v, (tuple, list)):
            return list(v)
        raise E.Undef

    def env(self, ks):
        return E.Env(self.syms, {('sheet', k): v for k, v in self.attrs.items()}, ks, {})

    # -- events
    def run(self):
        self.walk(self.ef.events, 0, {})
        if self.raised:
            if self.ef.caught_somewhere(self.inside, self.raised[1]):
                raise E.Undef
            raise Escaped(self.raised)
        return self

    def walk(self, evs, depth, ks):
        i = 0
        while i < len(evs):
            e = evs[i]
            if len(e.loops) > depth:
                lid, kind, it = e.loops[depth][:3]
                j = i
                while j < len(evs) and len(evs[j].loops) > depth and evs[j].loops[depth][0] == lid:
                    j += 1
                if kind == 'for':
                    # a loop that is not reached has no iterations; its guards are part of every event in it
                    try:
                        n = trip_count(self.resolve(it, self.env(ks)), self.env(ks))
                    except E.Undef:
                        # the iterable may be bounded by parts that do not concern the tables
                        if any(self.touches(x) for x in evs[i:j]):
                            raise
                        n = 0
                    for k in range(n):
                        self.walk(evs[i:j], depth + 1, dict(ks, **{lid: k}) if isinstance(lid, str) else {**ks, lid: k})
                else:
                    if any(self.touches(x) for x in evs[i:j]):
                        raise E.Undef
                i = j
                continue
            self.event(e, ks)
            i += 1

    def touches(self, e):
        t = e.data[0]
        if e.kind == 'setattr':
            return t == self.s.sheet and e.data[1] in self.attrs
        if isinstance(t, tuple) and t[0] == 'app' and t[1] == 'item':
            t = t[2]
        return t[0] == 'init' and t[1] == 'sheet' and t[2] in self.tables

    def holds(self, e, env, ks):
        for g in e.guards:
            cond, pol = g[0], g[1]
            if cond == TOP:
                raise E.Undef
            if cond[0] == 'app' and cond[1] == 'except':
                hit = self.entered(cond, pol)
                if hit != pol:
                    return False
                continue
            if E.truth(self.resolve(cond, env), env) != pol:
                return False
        return self.raised is None

    def entered(self, cond, pol):
        """has the handler a condition names been entered (pol: it is about to be)"""
        t = self.ef.handler(cond[3][2])
        if t is None:
            raise E.Undef
        if t in self.caught:
            return self.caught[t] == cond[3][2]
        hit = self.raised is not None and self.inside(self.raised[1], (t.lineno, t.body[-1].end_lineno)) and (
            set(cond[2][2].split(',')) & {self.raised[0], '*', 'Exception', 'LookupError', 'BaseException'} != set())
        if hit and pol:
            self.caught[t] = cond[3][2]
            self.cause = self.raised
            self.raised = None
        return hit

    def inside(self, ev, body):
        """is the raising event within the body of a try statement of the analysed function"""
        places = [(ev.line, ev.func)]
        s = ev.sites
        while s is not None:
            places.append((getattr(s[0], 'lineno', 0), s[1]))
            s = s[3]
        return any(body[0] <= l <= body[1] and f.startswith('xlrd.sheet.') for l, f in places)

    def event(self, e, ks):
        env = self.env(ks)
        env.noexc = False
        if e.kind == 'raise':
            if self.holds(e, env, ks):
                self.raised = (self.cause[0] if self.cause else e.data[0][2], e)
            return
        if e.kind == 'setattr':
            if e.data[0] == self.s.sheet and e.data[1] in self.after:
                if self.holds(e, env, ks):
                    self.after[e.data[1]] = self.value(e.data[2], env)
            return
        w = None
        base = e.data[0]
        if base[0] == 'app' and base[1] == 'ite':
            raise E.Undef
        if base[0] == 'init' or base[0] == 'app' and base[1] == 'item':
            root = base if base[0] == 'init' else base[2]
            if not (root[0] == 'init' and root[1] == 'sheet' and root[2] in self.tables):
                return
        else:
            return
        if not self.holds(e, env, ks):
            return
        w = self.locate(base, env)
        rows = self.tables[w[0]]
        if len(w) == 2:
            try:
                row = rows[w[1]]
            except IndexError:
                self.raised = ('IndexError', e)
                return
        self.last = e
        if e.kind == 'setitem':
            if len(w) != 2:
                raise E.Undef
            k, v = self.value(e.data[1], env), self.value(e.data[2], env)
            try:
                row[k] = v
            except IndexError:
                self.raised = ('IndexError', e)
            self.writes += 1
            self.stored.add(w[0])
            return
        if e.kind == 'setslice':
            if len(w) != 2:
                raise E.Undef
            lo = self.value(e.data[1], env)
            hi = len(row) if e.data[2] == END else self.value(e.data[2], env)
            row[lo:hi] = self.seq(e.data[3], env)
        elif e.kind in ('mcall', 'container'):
            m, args = e.data[1], e.data[2][1]
            if m == 'append' and len(w) == 1:
                rows.append(self.seq(args[0], env))
            elif m == 'append':
                row.append(self.value(args[0], env))
            elif m == 'extend' and len(w) == 2:
                row.extend(self.seq(args[0], env))
            elif m in ('index', 'count', 'tolist', '__len__'):
                return
            elif m == 'insert' and len(w) == 2:
                row.insert(self.value(args[0], env), self.value(args[1], env))
            elif m == 'pop' and len(w) == 2:
                row.pop(*[self.value(x, env) for x in args])
            else:
                raise E.Undef
        else:
            raise E.Undef
        self.writes += 1
        self.snap.append((self.ordinal(e), self.shape()))

    def ordinal(self, e):
        if not hasattr(self.ef, 'ords'):
            self.ef.ords = {id(x): i for i, x in enumerate(self.s.it.events)}
        return self.ef.ords[id(e)]


SYMS = ('rowx', 'colx', 'ctype', 'value', 'xf')
START = {'nrows': 0, 'ncols': 0, '_first_full_rowx': -1, 'utter_max_rows': 65536, 'utter_max_cols': 256,
         '_dimnrows': 0, '_dimncols': 0, '_xf_index_to_xl_type_map': (0,) * 9 + (2,), '_maxdatarowx': -1, '_maxdatacolx': -1}


def store(ef, tables, attrs, r, k, n, none_type=False):
    syms = {'rowx': r, 'colx': k, 'ctype': None if none_type else 1, 'value': 'v%d' % n, 'xf': 9}
    rp = Replay(ef, tables, attrs, syms)
    rp.run()
    return rp


def expected(cells, merged):
    nr = max([r for r, k in cells] + [m[1] - 1 for m in merged] + [-1]) + 1
    nc = max([k for r, k in cells] + [m[3] - 1 for m in merged] + [-1]) + 1
    return nr, nc


def sequences(thorough):
    pos = [(r, k) for r in range(3) for k in range(3)]
    for n in (1, 2, 3):
        for seq in itertools.product(pos, repeat=n):
            yield seq
    # a fourth cell after three that leave a gap or step back
    for seq in itertools.product([(0, 0), (0, 2), (2, 1), (1, 3)], repeat=4):
        yield seq


def chosen(prog, ragged):
    """the function a new sheet stores cells with"""
    s = Setup(prog, 80, ragged=ragged, book={'ragged_rows': const(ragged)})
    obj = s.it.new_opaque(s.st, SHEET, 'new')
    s.it.symkinds['number'] = 'int'
    s.run(SHEET + '.__init__', [obj, s.book, const(0), const('name'), ('sym', 'number')])
    v = [e.data[2] for e in s.it.events if e.kind == 'setattr' and e.data[0] == obj and e.data[1] == 'put_cell']
    if len(v) == 1 and v[0][0] == 'bm' and v[0][1] == obj and v[0][2][0] == 'func':
        return s.it.func_info(v[0][2]).qual
    return None


def shape_rule(c, prog, ragged, fmt, rule='shape', only=None):
    mode = '%s, %s formatting' % ('ragged rows' if ragged else 'full rows', 'with' if fmt else 'without')
    qual = chosen(prog, ragged) or SHEET + ('.put_cell_ragged' if ragged else '.put_cell_unragged')
    if prog.func(qual) is None or prog.func(SHEET + '.tidy_dimensions') is None:
        c.open(rule, mode + ': the functions that store cells were not found')
        return
    put = Effects(prog, qual, fmt, ragged, SYMS)
    tidies = {}
    for m in ((), ((0, 1, 0, 4),), ((1, 5, 0, 2),), ((1, 5, 0, 2), (0, 2, 1, 6))):
        tidies[m] = Effects(prog, SHEET + '.tidy_dimensions', fmt, ragged, (), put=qual.split('.')[-1], merged=m)
    c.count('table_updates_analysed', len(put.events) + sum(len(t.events) for t in tidies.values()))
    used = [t for t in TABLES if fmt or t != '_cell_xf_indexes']
    seen = set()
    undecided = 0
    count = 0
    state = {}

    def report(key, where, msg):
        if key not in seen and (only is None or key in only):
            seen.add(key)
            c.bad(rule, where, '%s: %s' % (mode, msg), key='%s|%s' % (key, mode))

    def consistent(tables, attrs, hist, rp):
        where = rp.last.where() if rp is not None and rp.last is not None else put.at
        a = tables['_cell_types']
        for t in used:
            b = tables[t]
            if [len(x) for x in a] != [len(x) for x in b]:
                report('shape', where, 'after storing cells at %s the rows of %s have lengths %s but those of %s %s' % (
                    hist, TABLES[0], [len(x) for x in a], t, [len(x) for x in b]))
                return False
        if len(a) != attrs['nrows']:
            report('nrows', where, 'after storing cells at %s the tables have %d rows but nrows is %d' % (hist, len(a), attrs['nrows']))
            return False
        if not fmt and tables['_cell_xf_indexes']:
            report('xf', where, 'format indexes are kept although formatting was not requested')
            return False
        return True

    def reach(seq):
        """state after storing the cells of seq: (tables, attrs) or None"""
        if not seq:
            return {t: [] for t in TABLES}, dict(START)
        if seq in state:
            return state[seq]
        prev = reach(seq[:-1])
        if prev is None:
            state[seq] = None
            return None
        tables = {t: [list(r) for r in rows] for t, rows in prev[0].items()}
        r, k = seq[-1]
        n = len(seq)
        try:
            rp = store(put, tables, prev[1], r, k, n, none_type=(r + k) % 2 == 0)
        except Escaped as x:
            report('escape', x.args[0][1].where(), 'storing a cell at %s after cells at %s: the cell lies outside the row that was '
                   'made for it (%s)' % ((r, k), list(seq[:-1]), x.args[0][0]))
            state[seq] = None
            return None
        res = (tables, rp.after)
        if not consistent(tables, rp.after, list(seq), rp):
            res = None
        else:
            want = {'_cell_types': 2 if (r + k) % 2 == 0 else 1, '_cell_values': 'v%d' % n, '_cell_xf_indexes': 9}
            for t in used:
                try:
                    got = tables[t][r][k]
                except IndexError:
                    report('absent', rp.last.where() if rp.last else put.at, 'a cell stored at %s after cells at %s is not in %s'
                           % ((r, k), list(seq[:-1]), t))
                    res = None
                    break
                if got != want[t]:
                    report('stored|' + t, rp.last.where() if rp.last else put.at,
                           'a cell stored at %s after cells at %s has %r in %s instead of %r' % ((r, k), list(seq[:-1]), got, t, want[t]))
                    res = None
                    break
                other = [(i, j) for i, row in enumerate(tables[t]) for j, v in enumerate(row) if (i, j) != (r, k)
                         and v != (prev[0][t][i][j] if i < len(prev[0][t]) and j < len(prev[0][t][i]) else PAD[t])]
                if other:
                    report('other|' + t, rp.last.where() if rp.last else put.at,
                           'storing a cell at %s after cells at %s also changes %s at %s' % ((r, k), list(seq[:-1]), t, other[0]))
                    res = None
                    break
        state[seq] = res
        return res

    for seq in sequences(c):
        try:
            got = reach(tuple(seq))
        except (E.Undef, E.Raised):
            undecided += 1
            state[tuple(seq)] = None
            continue
        if got is None:
            continue
        count += 1
        c.ok(rule)
        for m, tidy in tidies.items():
            if m and len(seq) > 2:
                continue
            tables = {t: [list(r) for r in rows] for t, rows in got[0].items()}
            try:
                rp = Replay(tidy, tables, dict(got[1]), {})
                attrs = rp.run().after
            except (E.Undef, E.Raised):
                undecided += 1
                continue
            except Escaped as x:
                report('escape', x.args[0][1].where(), 'finishing a sheet with cells at %s fails (%s)' % (list(seq), x.args[0][0]))
                continue
            if not consistent(tables, attrs, '%s and finishing the sheet' % list(seq), rp):
                continue
            nr, nc = expected(seq, m)
            if (attrs['nrows'], attrs['ncols']) != (nr, nc):
                report('extent', rp.last.where() if rp.last else tidy.at, 'a sheet with cells at %s and merged ranges %s has %d rows and '
                       '%d columns instead of %d and %d' % (list(seq), list(m), attrs['nrows'], attrs['ncols'], nr, nc))
                continue
            lens = [len(x) for x in tables['_cell_types']]
            if not ragged and any(n != nc for n in lens):
                report('full', tidy.at, 'a sheet with cells at %s and merged ranges %s has rows of lengths %s although every row should '
                       'have %d cells' % (list(seq), list(m), lens, nc))
                continue
            if ragged:
                want = [max([k for r, k in seq if r == i] + [-1]) + 1 for i in range(nr)]
                bad = [i for i in range(nr) if lens[i] != want[i] and not (m and i == nr - 1)]
                if bad:
                    report('ragged', put.at, 'with ragged rows, a sheet with cells at %s has rows of lengths %s instead of %s' % (
                        list(seq), lens, want))
                    continue
            for t in used:
                for i, row in enumerate(tables[t]):
                    for j, v in enumerate(row):
                        w = got[0][t][i][j] if i < len(got[0][t]) and j < len(got[0][t][i]) else PAD[t]
                        if v != w:
                            report('tidy|' + t, tidy.at, 'finishing a sheet with cells at %s changes %s at %s to %r' % (list(seq), t, (i, j), v))
            c.ok(rule)
    c.count('cell_sequences', count)
    if undecided:
        c.open(rule, '%s: %d sequences of stored cells could not be followed' % (mode, undecided))


def writers(c, prog):
    """nothing else grows or shrinks the tables"""
    rule = 'writers'
    allowed = {SHEET + '.put_cell_ragged', SHEET + '.put_cell_unragged', SHEET + '.tidy_dimensions'}
    for ragged in (0, 1):
        for q in sorted(allowed):
            if prog.func(q) is not None:
                allowed = allowed | set(x for e in Effects(prog, q, 1, ragged, SYMS if 'put_cell' in q else (), put='put_cell_ragged' if ragged else 'put_cell_unragged').s.it.events for x in e.chain())
    mut = ('append', 'extend', 'insert', 'pop', 'remove', 'clear', 'reverse', 'sort', 'fromlist')
    for f in Source(prog).fns:
        names = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in TABLES:
                names.add(n)
        if not names:
            continue
        c.count('functions_naming_a_table')
        bad = None
        for n in ast.walk(f.node):
            t = None
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in mut:
                t = n.func.value
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
                for x in (n.targets if not isinstance(n, ast.AugAssign) else [n.target]):
                    if isinstance(x, ast.Subscript):
                        t = x.value
            while isinstance(t, ast.Subscript):
                t = t.value
            if isinstance(t, ast.Attribute) and t.attr in TABLES:
                bad = n
        if bad is not None and f.qual not in allowed:
            c.bad(rule, '%s:%d in %s' % (f.module.path, bad.lineno, f.qual), 'one cell table is changed here apart from the others',
                  key='writer|' + f.qual)
        else:
            c.ok(rule)


def C11(c):
    """The updates that storing a cell makes to the type, value and format tables are extracted from put_cell_ragged, put_cell_unragged and
tidy_dimensions with the conditions, positions and lengths under which they happen; they are then followed in the domain of table shapes for
every order of up to three cells on a 3x3 grid (and four on a sparser one), with and without merged ranges and formatting: the tables must
agree in shape, hold the stored cell at its position and nothing new elsewhere, and reach the extent of what was stored."""
    c.rule('shape', 'following the extracted updates, the three tables have equal shapes, nrows rows and the stored cell at its position')
    c.rule('writers', 'no other function changes one of the tables')
    for ragged in (0, 1):
        for fmt in (0, 1):
            c.guard('shape', shape_rule, c, c.prog, ragged, fmt)
    c.guard('writers', writers, c, c.prog)
