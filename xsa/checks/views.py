"""C08 accessors hand out fresh lists; C44 all views of the grid agree."""
import ast
from .common import *

ROWISH = ('row', 'row_types', 'row_values', 'row_slice', 'col', 'col_slice', 'col_types', 'col_values')
SHEET = 'xlrd.sheet.Sheet'
BOOK = 'xlrd.book.Book'


def xf_hook(it, st, fn, args, kwargs, node):
    f = it.func_info(fn)
    b = it.bind(f, args, kwargs, st)
    names = f.node.args.args[1:]
    v = [b.get(p.arg, TOP) for p in names]
    return ('app', 'item', ('sym', 'XFOF'), ('tuple', tuple(v)))


def run_accessor(prog, cls, name, args, fmt, ragged=0):
    s = Setup(prog, fmt=fmt, ragged=ragged)
    s.it.load_events = True
    if name != 'cell_xf_index':
        s.it.hooks[SHEET + '.cell_xf_index'] = xf_hook
    s.it.hooks[BOOK + '.get_sheet'] = lambda it, st, fn, a, k, n: ('app', 'item', ('sym', 'LOADED'), a[1] if len(a) > 1 else TOP)
    for i in range(3):
        s.it.symkinds['a%d' % i] = 'int'
    s.run('%s.%s' % (cls, name), [s.sheet if cls == SHEET else s.book] + list(args))
    return s


# ---------------------------------------------------------------- C08
def leaves(t, out=None):
    out = [] if out is None else out
    if t[0] == 'alts':
        for x in t[1]:
            leaves(x, out)
    elif t[0] == 'app' and t[1] == 'ite':
        leaves(t[3], out)
        leaves(t[4], out)
    else:
        out.append(t)
    return out


def rooted(t):
    """the persistent place a term denotes without any copy in between, or None"""
    if t[0] == 'init':
        return '%s.%s' % (t[1], t[2])
    if t[0] == 'app' and t[1] in ('item', 'attr', 'get', 'or', 'and') and len(t) > 2 and isinstance(t[2], tuple):
        return rooted(t[2])
    if t[0] == 'app' and t[1] == 'method' and t[2][0] == 'c' and t[2][2] in ('get', 'setdefault', 'pop') and len(t) > 3:
        return rooted(t[3])
    return None


def persisted(s, ref, first):
    """an event that stores the object somewhere that outlives the call"""
    for e in s.it.events:
        if e.kind == 'setattr' and e.data[2] == ref and e.data[0][0] == 'ref' and e.data[0][1] < first:
            return e
        if e.kind == 'setattr' and e.data[2] == ref and e.data[0][0] != 'ref':
            return e
        if e.kind == 'setitem' and len(e.data) > 2 and e.data[2] == ref and not (e.data[0][0] == 'ref' and e.data[0][1] >= first):
            return e
        if e.kind == 'container' and ref in e.data[2][1] and not (e.data[0][0] == 'ref' and e.data[0][1] >= first):
            return e
        if e.kind == 'mcall' and isinstance(e.data[2], tuple) and rooted(e.data[0]) and \
                any(ref in x for x in (e.data[2], e.data[2][1] if len(e.data[2]) > 1 and isinstance(e.data[2][1], tuple) else ())):
            return e
    return None


def fresh_rule(c, cls, name, args, fmt):
    for ragged in (0, 1):
        c.guard('fresh', fresh_in, c, cls, name, args, fmt, ragged)


def fresh_in(c, cls, name, args, fmt, ragged):
    rule = 'fresh'
    s = run_accessor(c.prog, cls, name, args, fmt, ragged)
    first = max([s.book[1], s.sheet[1], s.rec[1]]) + 1
    label = '%s(%d argument%s)' % (name, len(args), '' if len(args) == 1 else 's')
    info = c.prog.func('%s.%s' % (cls, name))
    where = s.it.func_info(info).node
    at = '%s:%d' % ('xlrd/sheet.py' if cls == SHEET else 'xlrd/book.py', where.lineno)
    ls = leaves(s.value)
    c.count('returned_values', len(ls))
    for t in ls:
        p = rooted(t)
        if t[0] == 'ref':
            h = s.it.hget(s.st, t[1])
            if h is None:
                c.open(rule, label)
                continue
            if t[1] < first:
                if h.kind in ('list', 'dict', 'set', 'inst'):
                    c.bad(rule, at, '%s returns an object that existed before the call' % label, key='fresh|%s' % name)
                else:
                    c.open(rule, label)
                continue
            e = persisted(s, t, first)
            if e is not None:
                c.bad(rule, e.where(), '%s returns a list that it also keeps: the next call, or the workbook itself, '
                      'shares it with the caller' % label, key='fresh|%s' % name)
            else:
                c.ok(rule, sample='%s: new list' % label)
        elif t[0] in ('slice', 'tuple', 'c') or t[0] == 'app' and t[1] in ('copy', 'stepslice', 'cat', 'repeat', 'sorted', 'reversed'):
            if t[0] == 'slice' or t[0] == 'app':
                c.ok(rule, sample='%s: copy %s' % (label, brief(t, 80)))
            else:
                c.ok(rule)
        elif p:
            c.bad(rule, at, '%s returns %s itself, not a copy: a caller that changes the result changes the workbook'
                  % (label, brief(t, 80)), key='fresh|%s' % name)
        else:
            c.open(rule, '%s: %s' % (label, brief(t, 80)))


def C08(c):
    """Every row, column, sheet-list and sheet-name accessor is interpreted with unknown arguments, with and without
    formatting and with and without ragged rows; each value it can return is either a list created during that call and stored nowhere else, or a slice or
    copy of a stored table. A stored table returned as it is, or a new list that is also kept, is reported."""
    c.rule('fresh', 'each value an accessor can return is created by that call and not kept')
    A = [('sym', 'a%d' % i) for i in range(3)]
    for name in ROWISH:
        for fmt in (0, 1):
            for n in (1, 2, 3):
                if name == 'row' and n > 1:
                    continue
                c.guard('fresh', fresh_rule, c, SHEET, name, A[:n], fmt)
            c.guard('fresh', fresh_rule, c, SHEET, name, [A[0], const(0), NONE], fmt) if name != 'row' else None
    for name in ('get_rows', '__iter__'):
        c.guard('fresh', fresh_rule, c, SHEET, name, [], 0)
    c.guard('fresh', fresh_rule, c, SHEET, '__getitem__', [A[0]], 0)
    for name in ('sheets', 'sheet_names'):
        for fmt in (0, 1):
            c.guard('fresh', fresh_rule, c, BOOK, name, [], fmt)


# ---------------------------------------------------------------- C44
class Rec(object):
    xsa_identity = 1

    def __init__(self, **kw):
        self.xsa_attrs = kw

    def __repr__(self):
        return 'Rec(%r)' % (self.xsa_attrs,)


GRIDS = {
    'rectangular': ((1, 2, 3, 4), (2, 1, 6, 0), (3, 3, 2, 5)),
    'ragged': ((1, 2), (), (3, 3, 2, 5)),
    'empty': (),
}


def grid_env(kind, args):
    types = GRIDS[kind]
    values = tuple(tuple('v%d,%d' % (r, i) for i in range(len(row))) for r, row in enumerate(types))
    xf = {(r, i): 100 * r + i + 20 for r, row in enumerate(types) for i in range(len(row))}
    nrows = len(types)
    ncols = max([len(r) for r in types] or [0])
    inits = {('sheet', '_cell_types'): types, ('sheet', '_cell_values'): values, ('sheet', 'nrows'): nrows,
             ('sheet', 'ncols'): ncols,
             ('sheet', '_cell_xf_indexes'): tuple(tuple(xf[(r, i)] if i % 2 else -1 for i in range(len(row)))
                                                  for r, row in enumerate(types))}
    syms = {'a%d' % i: v for i, v in enumerate(args)}
    syms['XFOF'] = xf
    return E.Env(syms, inits, {}, {}), types, values, xf


def element_events(s, ref, h):
    out = []
    for e in s.it.events:
        if e.kind == 'element' and h.node is not None and e.loops and e.loops[-1][4] is h.node:
            out.append((e, e.data[0]))
        elif e.kind == 'container' and e.data[0] == ref and e.data[1] == 'append':
            out.append((e, e.data[2][1][0]))
    return out


def seq_value(s, t, env, depth=0):
    """the sequence a term denotes under a valuation, cells as (type, value, format) triples"""
    if t[0] == 'app' and t[1] == 'ite':
        return seq_value(s, t[3] if E.truth(t[2], env) else t[4], env, depth)
    if t[0] == 'ref':
        h = s.it.hget(s.st, t[1])
        if h is None:
            raise E.Undef
        if h.kind == 'inst':
            return cell_value(s, t, env)
        if h.kind != 'list':
            raise E.Undef
        if h.items is not None:
            return [seq_value(s, x, env, depth) for x in h.items]
        out = []
        evs = element_events(s, t, h)
        if len(evs) != 1:
            raise E.Undef
        ev, val = evs[0]
        for e in loop_iters(ev, env, depth):
            if guards_hold(ev, e):
                out.append(seq_value(s, val, e, len(ev.loops)))
        return out
    if t == TOP or t[0] == 'alts':
        raise E.Undef
    v = E.ev(t, env)
    if isinstance(v, tuple):
        return list(v)
    return v


def cell_value(s, ref, env):
    out = []
    for a in ('ctype', 'value', 'xf_index'):
        v = None
        for e in s.it.events:
            if e.kind == 'setattr' and e.data[0] == ref and e.data[1] == a:
                v = e.data[2]
        if v is None:
            raise E.Undef
        out.append(E.ev(v, env))
    return tuple(out)


def probe(c, name, args, fmt, kind, conc, want, s, at):
    rule = 'views'
    env = grid_env(kind, conc)[0]
    try:
        got = seq_value(s, s.value, env)
    except (E.Undef, E.Raised, TypeError, IndexError):
        c.open(rule, '%s%r on the %s grid' % (name, conc, kind))
        return
    if got == want:
        c.ok(rule)
    else:
        c.bad(rule, at, '%s%s of a %s sheet %s formatting yields %s where the cells are %s'
              % (name, tuple(conc), kind, 'with' if fmt else 'without', str(got)[:160], str(want)[:160]),
              key='views|%s' % name)


def views(c, name, fmt):
    prog = c.prog
    A = [('sym', 'a%d' % i) for i in range(3)]
    info = prog.func('%s.%s' % (SHEET, name))
    if info is None:
        c.open('views', '%s is gone' % name)
        return
    is_row = name.startswith('row')
    nargs = {'cell': (2,), 'cell_value': (2,), 'cell_type': (2,), 'row_len': (1,), 'row': (1,), 'get_rows': (0,),
             '__iter__': (0,), '__getitem__': (1, 2)}.get(name, (1, 2, 3))
    for n in nargs:
        args = A[:n]
        if name == '__getitem__' and n == 2:
            args = [('tuple', tuple(A[:2]))]
        for none_end, ragged in [(e, r) for e in ((False, True) if n == 3 else (False,)) for r in (0, 1)]:
            if none_end:
                args = A[:2] + [NONE]
            elif n == 3:
                args = A[:3]
            s = run_accessor(prog, SHEET, name, args, fmt, ragged)
            at = '%s:%d' % ('xlrd/sheet.py', s.it.func_info(info).node.lineno)
            c.count('accessor_runs')
            for kind in GRIDS:
                if kind == 'ragged' and not ragged:
                    continue
                _, T, V, X = grid_env(kind, ())
                def cell(r, i):
                    return (T[r][i], V[r][i], X[(r, i)] if fmt else None)
                ROW = [[cell(r, i) for i in range(len(T[r]))] for r in range(len(T))]
                if name in ('get_rows', '__iter__'):
                    probe(c, name, args, fmt, kind, [], ROW, s, at)
                    continue
                if name in ('cell', 'cell_value', 'cell_type') or name == '__getitem__' and n == 2:
                    for r in range(len(T)):
                        for i in range(len(T[r])):
                            w = cell(r, i)
                            probe(c, name, args, fmt, kind, [r, i],
                                  w if name in ('cell', '__getitem__') else w[1] if name == 'cell_value' else w[0], s, at)
                    continue
                ends = (None,) if none_end else (0, 1, 2, 3, 4, 5, 9, -1, -2, -4, -5, -9) if n == 3 else (None,)
                starts = (0, 1, 3, 4, 7, -1, -2, -4, -5, -9) if n >= 2 else (0,)
                if kind == 'ragged' and not is_row and name != '__getitem__':
                    continue
                outer = range(len(T)) if is_row or name == '__getitem__' else range(max([len(r) for r in T] or [0]))
                for x in outer:
                    line = ROW[x] if is_row or name == '__getitem__' else [ROW[r][x] for r in range(len(T))]
                    if name == 'row_len':
                        probe(c, name, args, fmt, kind, [x], len(line), s, at)
                        continue
                    for a in starts:
                        for b in ends:
                            w = line[a:b]
                            if name.endswith('_types'):
                                w = [y[0] for y in w]
                            elif name.endswith('_values'):
                                w = [y[1] for y in w]
                            probe(c, name, args, fmt, kind, [x, a, b][:n], w, s, at)


def xf_lookup(c):
    BODIES.clear()
    BODIES.update(handler_bodies(c.prog))
    for ragged in (0, 1):
        xf_lookup_in(c, ragged)


def xf_lookup_in(c, ragged):
    rule = 'format'
    s = run_accessor(c.prog, SHEET, 'cell_xf_index', [('sym', 'a0'), ('sym', 'a1')], 1, ragged)
    info = c.prog.func(SHEET + '.cell_xf_index')
    at = 'xlrd/sheet.py:%d' % s.it.func_info(info).node.lineno
    rets = [e for e in s.it.events if e.kind == 'return' and not e.sites]
    loads = [e for e in s.it.events if e.kind == 'load']
    for cx in (-1, 0, 21):
        for row in (None, -1, 0, 33):
            for col in (None, -1, 0, 44):
                inits = {('sheet', '_cell_xf_indexes'): ((7, 7), (7, cx)),
                         ('sheet', 'rowinfo_map'): {} if row is None else {1: Rec(xf_index=row)},
                         ('sheet', 'colinfo_map'): {} if col is None else {1: Rec(xf_index=col)},
                         ('sheet', '_xf_index_stats'): (0, 0, 0, 0)}
                env = E.Env({'a0': 1, 'a1': 1}, inits, {}, {})
                want = cx if cx > -1 else row if row is not None and row > -1 else 15 if col in (None, -1) else col
                got = set()
                undecided = False
                for e in rets:
                    r = happens(e, env, loads)
                    if r is None:
                        undecided = True
                    elif r:
                        try:
                            got.add(E.ev(e.data[0], env))
                            break           # the first return reached ends the call
                        except E.Undef:
                            undecided = True
                        except E.Raised:
                            pass
                label = 'cell format %s, row format %s, column format %s' % (cx, row, col)
                if undecided or len(got) != 1:
                    if not undecided and not got:
                        c.bad(rule, at, 'no format index is returned for %s' % label, key='format|none')
                    else:
                        c.open(rule, label)
                    continue
                g = got.pop()
                if g == want:
                    c.ok(rule, sample='%s -> %s' % (label, want))
                else:
                    c.bad(rule, at, 'the format index shown for %s is %s, not %s' % (label, g, want), key='format|%s' % at)


BODIES = {}


def happens(ev, env, loads):
    """does an event happen under a valuation of the maps? exceptions: a load in the guarded block misses its key"""
    r = True
    for cond, pol, node in [(g + (None,))[:3] for g in ev.guards]:
        if cond == TOP:
            r = None
            continue
        if cond[0] == 'app' and cond[1] == 'except':
            if not isinstance(node, ast.ExceptHandler):
                return None
            x = raised(node, env, loads)
            if x is None:
                r = None
            elif x != pol:
                return False
            continue
        try:
            if bool(E.truth(cond, env)) != bool(pol):
                return False
        except E.Raised:
            return False
        except E.Undef:
            r = None
    return r


def raised(handler, env, loads):
    body = BODIES[id(handler)]
    lo, hi = body[0].lineno, max(getattr(n, 'end_lineno', 0) or 0 for n in body)
    x = False
    for e in loads:
        if lo <= e.line <= hi:
            try:
                b = E.ev(e.data[0], env)
            except (E.Undef, E.Raised):
                continue
            if isinstance(b, dict):
                try:
                    if E.ev(e.data[1], env) not in b:
                        x = True
                except E.Undef:
                    return None
    return x


def handler_bodies(prog):
    """except clause -> statements it guards"""
    out = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Try):
                for h in n.handlers:
                    out[id(h)] = n.body
    return out


def C44(c):
    """Each accessor is interpreted with unknown arguments; the sequence it denotes is a term over the three cell tables,
    which is folded over rectangular, ragged and empty grids and every region of the slice bounds and compared with the
    Python slice of the row or column. The format index of a cell is folded over every combination of cell, row and column
    formats present or absent."""
    c.rule('views', 'each accessor shows the cells of the tables, slices following Python bounds')
    c.rule('format', 'the format index falls back from cell to row to column to 15')
    for fmt in (0, 1):
        for name in ('cell', 'cell_value', 'cell_type', 'row_len', 'get_rows', '__iter__', '__getitem__') + ROWISH:
            c.guard('views', views, c, name, fmt)
    c.guard('format', xf_lookup, c)
