"""C21 asking for formatting or ragged rows does not change the non-empty cells."""
from .common import *
from .decode_cells import cell_env, walking
from .. import sweep
from . import shapes

BLANKS = (0, 6)
NUMBERED = ('phi', 'exit', 'k', 'elem', 'loop')


def canon(t, names):
    """a term with loop and object numbers replaced by the order in which they are met"""
    if not isinstance(t, tuple):
        return t
    if t and t[0] == 'ref':
        return ('ref', names.setdefault(('r', t[1]), len(names)))
    if t and t[0] in NUMBERED and len(t) > 1 and isinstance(t[1], int):
        return (t[0], names.setdefault(('l', t[1]), len(names))) + tuple(canon(x, names) for x in t[2:])
    if t and t[0] == 'alts':
        return ('alts', tuple(sorted((repr(canon(x, names)) for x in t[1]))))
    if t and t[0] == 'c':
        return ('c', t[1], repr(t[2]))
    return tuple(canon(x, names) if isinstance(x, (tuple, frozenset)) and not isinstance(x, frozenset) else repr(x) if isinstance(x, frozenset) else x for x in t)


def owner(s, t):
    """the attribute of the workbook or sheet an event changes"""
    if t == s.book:
        return 'book'
    if t == s.sheet:
        return 'sheet'
    return None


def collect(s):
    """[(what, comparable form, event)] of one run, and the attributes the stored cells depend on"""
    out = []
    deps = set()

    def walk(t):
        if isinstance(t, frozenset):
            for x in t:
                walk(x)
        if not isinstance(t, tuple) or not t:
            return
        if t[0] == 'app' and len(t) == 3 and t[1] == 'truth' and t[2][0] == 'init':
            return          # whether a table has been created yet: the creation itself is compared where it happens
        if t[0] == 'init' and len(t) == 3 and t[1] in ('book', 'sheet'):
            deps.add((t[1], t[2]))
        for x in t:
            walk(x)
    for e in s.it.events:
        names = {}
        what = None
        if e.kind == 'put_cell':
            ct = e.data[2]
            if ct[0] == 'c' and ct[2] in BLANKS and ct[2] is not None:
                continue
            what = 'cell'
            data = e.data[:4]
            for x in data:
                walk(x)
            for g in e.guards:
                walk(g[0])
        elif e.kind == 'setattr' and owner(s, e.data[0]):
            what = (owner(s, e.data[0]), e.data[1])
            data = (e.data[2],)
        elif e.kind in ('setitem', 'container', 'mcall') and e.data[0][0] == 'init' and e.data[0][1] in ('book', 'sheet'):
            what = (e.data[0][1], e.data[0][2])
            data = tuple(const(x) if not isinstance(x, tuple) else x for x in e.data[1:])
        if what is None:
            continue
        guards = tuple((canon(g[0], names), g[1]) for g in e.guards if g[0][0] != 'c')
        form = (e.kind, tuple(canon(x, names) for x in data), guards, len(e.loops))
        out.append((what, form, e))
    return out, deps


def summary(s, j):
    ev, deps = collect(s)
    return [(j, [(w, hash_form(f), e.where()) for w, f, e in ev], sorted(deps))]


def hash_form(f):
    import hashlib
    return hashlib.sha1(repr(f).encode()).hexdigest()


def folded(c, s0, s1):
    """do the stored cells agree on concrete records: True / (data, a, b, event) / None"""
    done = 0
    for n in (2, 4, 6, 7, 8, 9, 10, 12, 14, 16, 20, 24, 30, 40):
        for d in walking(n):
            try:
                a = [(g[0][:4], g[1]) for g in cells_of(s0, cell_env(d)) if g[0][2] not in BLANKS]
                b = [(g[0][:4], g[1]) for g in cells_of(s1, cell_env(d)) if g[0][2] not in BLANKS]
            except (E.Undef, E.Raised):
                continue
            done += 1
            if repr([x[0] for x in a]) != repr([x[0] for x in b]):
                return d, [x[0] for x in a], [x[0] for x in b], (a + b)[0][1]
    return True if done else None


def compare(c, rule, pairs, rerun, option):
    decided = 0
    for key in sorted(pairs):
        a, b, deps = pairs[key]
        tag = '%s record 0x%x, version %s' % key
        for w, f, where in a:
            c.count('events_compared')
        wa = [x for x in a if x[0] == 'cell']
        wb = [x for x in b if x[0] == 'cell']
        if [x[1] for x in wa] == [x[1] for x in wb]:
            if wa:
                c.ok(rule, sample='%s: %d cell stores, the same %s' % (tag, len(wa), option))
            else:
                c.ok(rule)
        else:
            s0, s1 = rerun(key)
            r = folded(c, s0, s1)
            if r is True:
                c.ok(rule)
            elif r is None:
                c.open(rule, '%s: the cells stored %s could not be compared' % (tag, option))
            else:
                d, x, y, e = r
                c.bad(rule, e.where(), '%s: record %s stores %s %s, and %s otherwise (row, column, type, value)'
                      % (tag, d.hex(), brief_cells(y), option, brief_cells(x)), key='%s|%s' % (rule, tag))
        attrs = set(x[0] for x in a if x[0] != 'cell') | set(tuple(x) for x in deps)
        extra = [x for x in b if x[0] != 'cell' and x[0] in attrs]
        base = [x for x in a if x[0] != 'cell']
        if [x[1] for x in base] == [x[1] for x in extra]:
            c.ok(rule)
            continue
        for what in sorted(attrs):
            p = [x for x in base if x[0] == what]
            q = [x for x in extra if x[0] == what]
            if [x[1] for x in p] == [x[1] for x in q]:
                continue
            if not p:
                c.bad(rule, q[0][2], '%s: %s.%s, which the stored cells depend on, is changed only %s' % (tag, what[0], what[1], option),
                      key='%s|%s|%s' % (rule, tag, what))
            elif not q:
                c.bad(rule, p[0][2], '%s: %s.%s is not changed %s although it is otherwise' % (tag, what[0], what[1], option),
                      key='%s|%s|%s' % (rule, tag, what))
            else:
                c.open(rule, '%s: changes of %s.%s differ in form %s' % (tag, what[0], what[1], option))
    return decided


def brief_cells(v):
    return '; '.join('(%s)' % ', '.join(repr(x)[:30] for x in t) for t in v[:3]) or 'nothing'


def relation(c, rule, js, mk, option):
    c.prog.funcs
    facts, visited, errs = sweep.sweep(c.prog, summary, js)
    for e in errs:
        c.open(rule, 'analysis: ' + e)
    pairs = {}
    by = {}
    for j, ev, deps in facts:
        by[j] = (ev, deps)
    # only what matters when the option is off: with it on, the stores were compared already
    deps = sorted(set(tuple(d) for j, (ev, ds) in by.items() if mk(j)[1] == 0 for d in ds))
    for j in js:
        k, o = mk(j)
        if o == 0 and j in by:
            other = [x for x in js if mk(x) == (k, 1)]
            if other and other[0] in by:
                pairs[k] = (by[j][0], by[other[0]][0], deps)
    c.count('functions_analysed', len(visited))
    c.count('record_pairs', len(pairs))
    return pairs


def C21(c):
    """Every record type of every file version is interpreted with and without formatting (and ragged rows) requested. The extracted stores of
non-blank cells and the changes of every workbook or sheet attribute that such stores depend on must be the same; forms that differ are folded
over record bytes."""
    rule = 'formatting'
    c.rule(rule, 'the cells stored and the state they depend on are the same with and without formatting information')
    c.rule('ragged', 'the cells stored and the state they depend on are the same with and without ragged rows')
    ops = sorted(set(sweep.record_opcodes(c.prog).values()))
    js = [(kind, rc, bv, f, 0) for bv in sweep.VERSIONS for rc in ops for kind in ('sheet', 'globals') for f in (0, 1)]

    def formatting():
        pairs = relation(c, rule, js, lambda j: ((j[0], j[1], j[2]), j[3]), 'with formatting')
        compare(c, rule, pairs, lambda k: [sweep.run_job(c.prog, (k[0], k[1], k[2], f, 0))[0] for f in (0, 1)], 'with formatting')
    c.guard(rule, formatting)
    jr = [('ragged', rc, bv, r, 0) for bv in sweep.VERSIONS for rc in ops for r in (0, 1)]

    def ragged():
        pairs = relation(c, 'ragged', jr, lambda j: (('sheet', j[1], j[2]), j[3]), 'with ragged rows')
        compare(c, 'ragged', pairs, lambda k: [sweep.run_job(c.prog, ('ragged', k[1], k[2], f, 0))[0] for f in (0, 1)], 'with ragged rows')
    c.guard('ragged', ragged)

    c.rule('kept', 'under every setting a stored cell is found at its position with its type and value, and no other cell changes')
    values = ['%s|%s' % (k, t) for k in ('stored', 'other', 'tidy') for t in ('_cell_types', '_cell_values')] + ['escape', 'absent']
    for ragged_rows in (0, 1):
        for fmt in (0, 1):
            c.guard('kept', shapes.shape_rule, c, c.prog, ragged_rows, fmt, 'kept', values)
