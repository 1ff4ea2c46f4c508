"""C22 date classification, C26 version-keyed tables, C38 formula tables, C41 constants."""
import ast
from .common import *
from ..interp import *
from ..src import Source
from ..sweep import sweep
from .. import published as P

VERSIONS = (20, 21, 30, 40, 45, 50, 70, 80)


def plain(c, dotted):
    v = c.prog.func('xlrd.' + dotted)
    if v is None:
        return None
    try:
        return c.prog.plain(v)
    except Exception:
        return None


def where_name(c, mod, name):
    m = c.prog.modules.get('xlrd.' + mod)
    if m is not None:
        for s in m.tree.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                    return '%s:%d %s' % (m.path, n.lineno, name)
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    break
        return '%s %s' % (m.path, name)
    return 'xlrd.%s.%s' % (mod, name)


def same(a, b):
    return type(a) is type(b) and a == b or (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)) and list(a) == list(b))


def table(c, rule, mod, name, want, extra_ok=False):
    got = plain(c, '%s.%s' % (mod, name))
    label = '%s.%s' % (mod, name)
    if not isinstance(got, dict):
        c.open(rule, label + ' is not a constant table')
        return None
    for k, v in want.items():
        if k not in got:
            c.bad(rule, where_name(c, mod, name), '%s has no entry for %r (specified %r)' % (label, k, v), '%s|%s %r' % (rule, label, k))
        elif not same(got[k], v):
            c.bad(rule, where_name(c, mod, name), '%s[%r] is %r, specified %r' % (label, k, got[k], v), '%s|%s %r' % (rule, label, k))
        else:
            c.ok(rule, sample='%s[%r] = %r' % (label, k, v))
    if not extra_ok:
        for k in got:
            if k not in want:
                c.bad(rule, where_name(c, mod, name), '%s has an entry for %r, which the file format does not define' % (label, k),
                      '%s|%s extra %r' % (rule, label, k))
    return got


def scalar(c, rule, mod, name, want):
    got = plain(c, '%s.%s' % (mod, name))
    if got is None or isinstance(got, tuple) and not isinstance(want, tuple):
        c.open(rule, '%s.%s' % (mod, name))
    elif not same(got, want):
        c.bad(rule, where_name(c, mod, name), '%s.%s is %r, specified %r' % (mod, name, got, want), '%s|%s.%s' % (rule, mod, name))
    else:
        c.ok(rule)


# ---------------------------------------------------------------- C41
ERRORS = {0x00: '#NULL!', 0x07: '#DIV/0!', 0x0F: '#VALUE!', 0x17: '#REF!', 0x1D: '#NAME?', 0x24: '#NUM!', 0x2A: '#N/A'}
CTYPES = {'XL_CELL_EMPTY': 0, 'XL_CELL_TEXT': 1, 'XL_CELL_NUMBER': 2, 'XL_CELL_DATE': 3, 'XL_CELL_BOOLEAN': 4,
          'XL_CELL_ERROR': 5, 'XL_CELL_BLANK': 6}
CTYPE_TEXT = {0: 'empty', 1: 'text', 2: 'number', 3: 'xldate', 4: 'bool', 5: 'error', 6: 'blank'}
BIFF_TEXT = {0: '(not BIFF)', 20: '2.0', 21: '2.1', 30: '3', 40: '4S', 45: '4W', 50: '5', 70: '7', 80: '8', 85: '8X'}
CONSTS = {
    'biffh': dict(CTYPES, FUN=0, FDT=1, FNU=2, FGE=3, FTX=4, XL_WORKBOOK_GLOBALS=5, XL_WORKBOOK_GLOBALS_4W=0x100, XL_WORKSHEET=0x10,
                  XL_BOUNDSHEET_WORKSHEET=0, XL_BOUNDSHEET_CHART=2, XL_BOUNDSHEET_VB_MODULE=6, BIFF_FIRST_UNICODE=80,
                  bofcodes=(0x809, 0x409, 0x209, 0x9), boflen={0x0809: 8, 0x0409: 6, 0x0209: 6, 0x0009: 4}),
    'formula': {'FMLA_TYPE_CELL': 1, 'FMLA_TYPE_SHARED': 2, 'FMLA_TYPE_ARRAY': 4, 'FMLA_TYPE_COND_FMT': 8,
                'FMLA_TYPE_DATA_VAL': 16, 'FMLA_TYPE_NAME': 32, 'oBOOL': 3, 'oERR': 4, 'oNUM': 2, 'oREF': -1, 'oREL': -2,
                'oSTRG': 1, 'oUNK': 0},
    'compdoc': {'SIGNATURE': b'\xd0\xcf\x11\xe0\xa1\xb1\x1a\xe1', 'EOCSID': -2, 'FREESID': -1, 'SATSID': -3, 'MSATSID': -4},
}
EXPORTS = sorted(CTYPES) + ['biff_text_from_num', 'error_text_from_code', 'XLRDError', 'XLDateError', 'xldate_as_tuple',
                            'xldate_as_datetime', 'empty_cell', 'open_workbook', 'dump', 'count_records', 'Book', 'colname',
                            'FMLA_TYPE_CELL', 'oBOOL', 'oERR', 'oNUM', 'oREF', 'oREL', 'oSTRG', 'oUNK', 'okind_dict', 'cellname',
                            'cellnameabs', 'rangename3d', 'rangename3drel', 'FILE_FORMAT_DESCRIPTIONS', 'inspect_format']


def C41(c):
    """Module-level constants are evaluated from the source (module initialisation is interpreted) and compared, entry by
    entry, with the published tables; the functions that build tables out of them are interpreted likewise."""
    c.rule('errors', 'every error code of the file format has its text, and no other')
    c.rule('cell types', 'the cell type codes are the documented ones, each has a name, and record dumps know them')
    c.rule('constants', 'public constants and signature/marker values are those of the file format')
    c.rule('records', 'record numbers the reader dispatches on are the published ones')
    c.rule('tables', 'built-in names, built-in formats, code pages, version texts and default palettes match the file format')
    c.rule('exports', 'the documented names are importable from the package')
    c.guard('errors', lambda: table(c, 'errors', 'biffh', 'error_text_from_code', ERRORS))
    for n in ('xlrd.error_text_from_code', 'xlrd.formula.error_text_from_code', 'xlrd.sheet.error_text_from_code'):
        v = c.prog.func(n)
        if v is not None:
            if c.prog.plain(v) == ERRORS:
                c.ok('errors')
            else:
                c.bad('errors', n, 'the error table visible as %s differs from the published one' % n)
    for k, v in CTYPES.items():
        for mod in ('biffh', 'sheet', 'book', 'formatting'):
            if c.prog.func('xlrd.%s.%s' % (mod, k)) is not None:
                c.guard('cell types', scalar, c, 'cell types', mod, k, v)
    c.guard('cell types', lambda: ctype_names(c))
    for mod, d in CONSTS.items():
        for k, v in d.items():
            if c.prog.func('xlrd.%s.%s' % (mod, k)) is not None:
                c.guard('constants', scalar, c, 'constants', mod, k, v)
    for k, v in sorted(OPCODES.items()):
        if c.prog.func('xlrd.biffh.' + k) is not None:
            c.guard('records', scalar, c, 'records', 'biffh', k, v)
    c.guard('tables', lambda: table(c, 'tables', 'biffh', 'biff_text_from_num', BIFF_TEXT, True))
    c.guard('tables', lambda: table(c, 'tables', 'biffh', 'encoding_from_codepage', P.CODEPAGES, True))
    c.guard('tables', lambda: table(c, 'tables', 'book', 'builtin_name_from_code', P.BUILTIN_NAMES))
    c.guard('tables', lambda: table(c, 'tables', 'book', 'code_from_builtin_name', {v: k for k, v in P.BUILTIN_NAMES.items()}))
    c.guard('tables', lambda: table(c, 'tables', 'formula', 'okind_dict', {-2: 'oREL', -1: 'oREF', 0: 'oUNK', 1: 'oSTRG', 2: 'oNUM', 3: 'oBOOL', 4: 'oERR', 5: 'oMSNG'}))
    c.guard('tables', std_formats, c)
    for bv in VERSIONS:
        c.guard('tables', palette, c, bv)
    for n in EXPORTS:
        if c.prog.func('xlrd.' + n) is None:
            c.bad('exports', 'xlrd/__init__.py', 'xlrd.%s is not defined' % n)
        else:
            c.ok('exports')
    c.guard('cell types', empty_cell, c)
    c.guard('errors', cell_error_text, c)


def ctype_names(c):
    got = plain(c, 'sheet.ctype_text')
    if not isinstance(got, dict):
        c.open('cell types', 'sheet.ctype_text is not a constant table')
        return
    for k, v in CTYPE_TEXT.items():
        if got.get(k) != v:
            c.bad('cell types', where_name(c, 'sheet', 'ctype_text'), 'cell type %d is named %r, specified %r' % (k, got.get(k), v),
                  'ctype_text|%d' % k)
        else:
            c.ok('cell types')


def empty_cell(c):
    v = c.prog.func('xlrd.sheet.empty_cell')
    if v is None or v[0] != 'ref':
        c.open('cell types', 'empty_cell is not a module-level object')
        return
    h = c.prog.heap.get(v[1])
    a = h.attrs if h is not None else {}
    for k, w in (('ctype', const(0)), ('value', const('')), ('xf_index', NONE)):
        g = a.get(k)
        if g is None or g[0] != 'c':
            c.open('cell types', 'empty_cell.%s' % k)
        elif g != w:
            c.bad('cell types', where_name(c, 'sheet', 'empty_cell'), 'empty_cell.%s is %s, specified %s' % (k, brief(g), brief(w)))
        else:
            c.ok('cell types')


def cell_error_text(c):
    """tErr in formulas and the error list accept every code"""
    got = plain(c, 'formula.error_opcodes')
    if got is not None:
        want = {0x07, 0x08, 0x0A, 0x0B, 0x1C, 0x1D, 0x2F}
        if set(got) != want:
            c.bad('errors', where_name(c, 'formula', 'error_opcodes'), 'error_opcodes is %r' % (sorted(got),))
        else:
            c.ok('errors')


def std_formats(c):
    table(c, 'tables', 'formatting', 'std_format_strings', P.STD_FORMATS)
    book_formats(c, 'tables', lambda k, ty, st: (st, P.STD_FORMATS.get(k), 'string'))


def book_formats(c, rule, pick):
    """the number formats a new workbook starts with"""
    s = Setup(c.prog, 80)
    fm = s.it.alloc(s.st, HObj('dict', items=()))
    s.st.heap[s.book[1]] = s.obj(s.book).copy(attrs=dict(s.obj(s.book).attrs, format_map=fm))
    s.run('xlrd.formatting.fill_in_standard_formats', [s.book])
    h = s.obj(fm)
    where = 'xlrd/formatting.py fill_in_standard_formats'
    if h is None or h.items is None:
        c.open(rule, 'fill_in_standard_formats: table not constant')
        return None
    seen = set()
    for k, v in h.items:
        if k[0] != 'c' or v[0] != 'ref':
            c.open(rule, 'built-in format %s' % brief(k))
            continue
        k = k[2]
        seen.add(k)
        at = {a: attr_of(s, s.st, v, a) for a in ('format_key', 'type', 'format_str')}
        if any(x is None or x[0] != 'c' for x in at.values()):
            c.open(rule, 'built-in format %r' % k)
            continue
        got, want, what = pick(k, at['type'][2], at['format_str'][2])
        if at['format_key'][2] != k:
            c.bad(rule, where, 'built-in format %d carries key %r' % (k, at['format_key'][2]), '%s|fill key %d' % (rule, k))
        elif got != want:
            c.bad(rule, where, 'built-in format %d gets %s %r, specified %r' % (k, what, got, want), '%s|fill %d %s' % (rule, k, what))
        else:
            c.ok(rule)
    for k in P.STD_TYPES:
        if k not in seen:
            c.bad(rule, where, 'built-in format %d is not provided' % k, '%s|fill missing %d' % (rule, k))
    return seen


def palette(c, bv):
    s = Setup(c.prog, bv)
    s.run('xlrd.formatting.initialise_colour_map', [s.book])
    v = attr_of(s, s.st, s.book, 'colour_map')
    h = s.obj(v) if v is not None and v[0] == 'ref' else None
    where = 'xlrd/formatting.py initialise_colour_map'
    raised = [e for e in s.it.events if e.kind in ('raise', 'keyerror') and not e.guards]
    if raised:
        c.bad('tables', raised[0].where(), 'the colour map of a version %d workbook cannot be built (%s)' % (bv, brief(raised[0].data[0], 60)),
              'tables|palette %d' % bv)
        return
    if h is None or h.items is None:
        c.open('tables', 'colour map of version %d' % bv)
        return
    got = {c.prog.plain(k): (c.prog.plain(x) if x[0] != 'ref' else s_plain(s, x)) for k, x in h.items}
    hx = P.PALETTE_B8 if bv >= 80 else P.PALETTE_B5 if bv >= 50 else P.PALETTE_B2
    cols = [tuple(bytes.fromhex(hx[i:i + 6])) for i in range(0, len(hx), 6)]
    first8 = [tuple(bytes.fromhex(P.PALETTE_B8[i:i + 6])) for i in range(0, 48, 6)]
    want = dict(enumerate(first8))
    want.update({i + 8: x for i, x in enumerate(cols)})
    n = len(cols)
    want.update({n + 8: None, n + 9: None, 0x51: None, 0x7fff: None})
    if got == want:
        c.ok('tables', sample='default palette of version %d: %d entries' % (bv, len(want)))
    else:
        k = sorted(set(got) ^ set(want)) or [k for k in want if got[k] != want[k]]
        c.bad('tables', where, 'version %d: default colour %r is %r, specified %r' % (bv, k[0], got.get(k[0], 'absent'), want.get(k[0], 'absent')),
              'tables|palette %d' % bv)


def s_plain(s, v):
    h = s.obj(v)
    return tuple(s_plain(s, x) if x[0] == 'ref' else s.prog.plain(x) for x in h.items) if h and h.items is not None else v


# ---------------------------------------------------------------- C26
def version_aliases(src, fn):
    """names of a function that hold the version"""
    out = set()
    nodes = fn.body_nodes()
    changed = True
    for p in fn.params:
        if p in ('bv', 'biff_version'):
            out.add(p)
    while changed:
        changed = False
        for n in nodes:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                if is_version(n.value, out) and n.targets[0].id not in out:
                    out.add(n.targets[0].id)
                    changed = True
    f = fn.parent
    if f is not None:
        out |= {x for x in version_aliases(src, f) if x not in fn.locals}
    return out


def is_version(e, names):
    if isinstance(e, ast.Attribute):
        return e.attr == 'biff_version'
    if isinstance(e, ast.Name):
        return e.id in names
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'getbof':
        return True
    return False


def C26(c):
    """Every subscript of a constant table by the file version is found by alias propagation of the version; the table must
    contain each version that opening accepts. The handlers with version-dependent branches are interpreted for each
    accepted version: none may end in an unconditional error."""
    c.rule('lookup', 'a table subscripted by the file version has an entry for every version opening accepts')
    c.rule('parallel', 'constant tables keyed by version all cover every version opening accepts')
    c.rule('branch', 'no handler ends unconditionally in an error for a version opening accepts')
    c.rule('accepted', 'the versions opening accepts are those the reader documents')
    src = Source(c.prog)
    sup = plain(c, 'book.SUPPORTED_VERSIONS')
    if sup is None:
        c.open('accepted', 'SUPPORTED_VERSIONS')
        sup = VERSIONS
    else:
        for v in VERSIONS:
            if v in sup:
                c.ok('accepted')
            else:
                c.bad('accepted', where_name(c, 'book', 'SUPPORTED_VERSIONS'), 'version %d is no longer accepted' % v)
    need = set(VERSIONS)
    c.guard('lookup', lookups, c, src, need, set(sup))
    c.guard('parallel', parallel, c, need)
    c.guard('branch', branches, c, need)


def module_table(c, src, fn, expr):
    """constant table an expression denotes: a module-level dict, possibly through one local name"""
    if isinstance(expr, ast.Name):
        r = src.scope_lookup(fn, expr.id)
        if r and r[0] == 'name':
            v = c.prog.func(r[1].name + '.' + r[2])
            return (r[1].name.split('.')[-1] + '.' + r[2], c.prog.plain(v)) if v is not None else (None, None)
        if r and r[0] == 'local':
            for n in r[1].body_nodes():
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == expr.id for t in n.targets):
                    return module_table(c, src, r[1], n.value) if not (isinstance(n.value, ast.Name) and n.value.id == expr.id) else (None, None)
    elif isinstance(expr, ast.Attribute):
        if isinstance(expr.value, ast.Name):
            r = src.scope_lookup(fn, expr.value.id)
            if r and r[0] == 'mod':
                v = c.prog.func(r[1] + '.' + expr.attr)
                if v is not None:
                    return r[1].split('.')[-1] + '.' + expr.attr, c.prog.plain(v)
    elif isinstance(expr, ast.Dict):
        try:
            return 'the table at line %d' % expr.lineno, {ast.literal_eval(k): 1 for k in expr.keys}
        except Exception:
            pass
    return None, None


def lookups(c, src, need, sup):
    n = 0
    for fn in src.fns:
        names = version_aliases(src, fn)
        for x in fn.body_nodes():
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and is_version(x.slice, names):
                nm, t = module_table(c, src, fn, x.value)
                if not isinstance(t, dict):
                    c.open('lookup', '%s: table not constant' % fn.where(x))
                    continue
                n += 1
                want = set(need)
                raw = [g for g in ast.walk(x.slice) if isinstance(g, ast.Call)]
                # before the version is accepted any result of the detector may be looked up
                if any(isinstance(a, ast.Raise) for a in ancestors(src, x)) and fn.name.startswith('open_workbook'):
                    want.add(0)
                if any(guarded(src, a, x, nm, names) for a in ancestors(src, x)):
                    c.ok('lookup')
                    continue
                miss = sorted(v for v in want if v not in t)
                if miss:
                    c.bad('lookup', fn.where(x), '%s is subscripted by the file version but has no entry for %s' % (
                        nm, ', '.join(map(str, miss))), 'lookup|%s|%s' % (fn.qual, nm))
                else:
                    c.ok('lookup', sample='%s: %s covers %s' % (fn.where(x), nm, sorted(want)))
    c.count('version_lookups', n)


def ancestors(src, n):
    p = src.parents.get(n)
    while p is not None and not isinstance(p, (ast.FunctionDef, ast.Lambda)):
        yield p
        p = src.parents.get(p)


def guarded(src, a, x, nm, names):
    if isinstance(a, ast.Try):
        inside = any(x is y for s in a.body for y in ast.walk(s))
        if inside and any(h.type is None or any(isinstance(z, ast.Name) and z.id in ('KeyError', 'LookupError', 'Exception')
                                               for z in ast.walk(h.type)) for h in a.handlers):
            return True
    if isinstance(a, (ast.If, ast.IfExp)):
        for t in ast.walk(a.test):
            if isinstance(t, ast.Compare) and is_version(t.left, names) and isinstance(t.ops[0], (ast.In, ast.NotIn)):
                return True
            if isinstance(t, ast.Compare) and (is_version(t.left, names) or any(is_version(z, names) for z in t.comparators)):
                return True
    return False


def parallel(c, need):
    """module-level dicts whose keys are all version numbers"""
    allv = {0, 20, 21, 30, 40, 45, 50, 70, 80, 85}
    for mn, m in c.prog.modules.items():
        for name, v in m.env.items():
            if v[0] != 'ref':
                continue
            h = c.prog.heap.get(v[1])
            if h is None or h.kind != 'dict' or not h.items:
                continue
            ks = [c.prog.plain(k) for k, x in h.items]
            if len(ks) >= 5 and all(type(k) is int and k in allv for k in ks):
                miss = sorted(need - set(ks))
                if name not in [n.id for s in m.tree.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]:
                    continue
                if miss:
                    c.bad('parallel', where_name(c, mn.split('.')[-1], name), 'the version table %s has no entry for %s' % (name, miss),
                          'parallel|%s' % name)
                else:
                    c.ok('parallel', sample='%s.%s: %s' % (mn, name, sorted(ks)))


def branch_select(s, j):
    bad = [e for e in s.it.events if e.kind in ('raise', 'keyerror') and not real_guards(e)]
    # reading past the record under test (the driver's later records) is not this record's doing
    return [(j, bad[0].where(), brief(bad[0].data[0], 50)) if bad else (j, None, None)]


def branches(c, need):
    """version-dependent handlers end normally for some record contents"""
    js = []
    for bv in sorted(need | {21}):
        if bv == 20:
            continue            # established only while reading cells of a version 21 sheet
        xf = 'XL_XF' if bv >= 50 else 'XL_XF4' if bv >= 40 else 'XL_XF3' if bv >= 30 else 'XL_XF2'
        font = 'XL_FONT' if bv >= 50 or bv < 30 else 'XL_FONT_B3B4'
        fmt = 'XL_FORMAT' if bv >= 40 else 'XL_FORMAT2'
        side = 'globals' if bv >= 45 else 'sheet'
        for op in (xf, font, fmt, 'XL_STYLE', 'XL_PALETTE', 'XL_NAME', 'XL_EXTERNSHEET', 'XL_CODEPAGE', 'XL_BOUNDSHEET', 'XL_EOF',
                   'XL_WRITEACCESS', 'XL_COUNTRY', 'XL_DATEMODE'):
            rc = const_of(c.prog, op)
            if op == 'XL_BOUNDSHEET' and bv < 45 or op == 'XL_EXTERNSHEET' and bv < 50:
                continue
            js.append((side, rc, bv, 1, 0))
        for op in ('XL_NUMBER' if bv >= 30 else 'XL_NUMBER_B2', 'XL_LABEL' if bv >= 30 else 'XL_LABEL_B2', 'XL_ROW' if bv >= 30 else 'XL_ROW_B2',
                   'XL_WINDOW2' if bv >= 30 else 'XL_WINDOW2_B2', 'XL_DIMENSION' if bv >= 30 else 'XL_DIMENSION2', 'XL_EOF'):
            js.append(('sheet', const_of(c.prog, op), bv, 1, 0))
    facts, visited, errs = sweep(c.prog, branch_select, js)
    for e in errs:
        c.open('branch', e)
    inv = {v: k for k, v in OPCODES.items()}
    for j, w, what in facts:
        if w is None:
            c.ok('branch')
        else:
            c.bad('branch', w, 'version %d: handling %s always ends in %s' % (j[2], inv.get(j[1], j[1]), what), 'branch|%d|%s' % (j[2], j[1]))


def real_guards(e):
    """guards of an event other than those the driver itself introduces"""
    return [g for g in e.guards if not (g[0][0] == 'c')]


# ---------------------------------------------------------------- C22
FTYPES = {'FUN': 0, 'FDT': 1, 'FNU': 2, 'FGE': 3, 'FTX': 4}


def classify(s):
    """published rule for the unambiguous strings: date letters against digit place-holders, outside quoted, escaped and
    bracketed text; None when both occur"""
    out = ''
    st = 0
    for ch in s:
        if st == 0:
            if ch == '"':
                st = 1
            elif ch in '\\_*':
                st = 2
            else:
                out += ch
        elif st == 1:
            st = 0 if ch == '"' else 1
        else:
            st = 0
    res, br = '', 0
    for ch in out:
        if ch == '[':
            br = 1
        elif ch == ']' and br:
            br = 0
        elif not br:
            res += ch
    if res.lower() == 'general' or res in ('@', ''):
        return False
    d = sum(ch.lower() in 'ymdhs' for ch in res)
    n = sum(ch in '0#?' for ch in res)
    if d and not n:
        return True
    if not d:
        return False
    return None


STRINGS = ['yyyy-mm-dd', 'dd/mm/yyyy', 'D', 'YY', 'M', 'H', 'S', 'hh:mm:ss', 'HH:MM', 'mmmm', 'ddd', 'd. mmm yyyy', '[h]:mm', '[hh]:mm:ss',
           'hh\\hmm\\mss\\s', '"day" 0', '"date": 0.00', '0" days"', '#,##0 "ymdhs"', '0\\d', '0_d', '0*d', '\\d0', '_y#', '[Red]0', '[Red]0.00;[Blue]0',
           '[$-409]d-mmm', '[$-F800]dddd', '[Magenta]#,##0', '[Yellow]0.0%', '[White]?', '[$ USD]0.00', '0.00E+00', '##0.0E+0', 'General', '@',
           '0%', '0.000', '#', '?', '# ?/?', '"yes";"yes";"no"', 'yyyy"年"m"月"d"日"', 'd/m/yyyy h:mm', 'mm:ss', 'h AM/PM', '(0)', '$0', '-0', '0;-0',
           '"\\"0', '"a"d"b"', '\\"d', '"0"d', '\\0d', '_0d', '[Red]d', 'd;@', 'yyyy;@', 'm/d;@', '0;[Red]-0;"d"', '0.0 "h"', '\\ymm', '* 0', '* d', '[Red]@', '[Red]General', '[Red]"x"', '[Magenta]"no"', '[$-409]0', '[$ dd]?']


def C22(c):
    """Constant tables are compared entry by entry with the published classification; the pure format-string classifier is
    folded on the built-in strings and on a fixed family of unambiguous strings; the handlers that attach a cell type to a
    cell format and to a cell are interpreted and the stored terms compared with the format's type."""
    c.rule('builtin', 'each built-in number format has one classification, the published one, in every table')
    c.rule('celltype', 'each format type maps to a numeric cell type: dates to date, everything else to number')
    c.rule('string', 'the format-string classifier agrees with the published classification of built-in strings and of unambiguous strings')
    c.rule('format', 'a number format gets the date type exactly when its string is classified as a date')
    c.rule('xf', 'the cell type attached to a cell format is the one of the number format it selects')
    c.rule('cell', 'a numeric cell without explicit type gets the cell type attached to its cell format')
    for k, v in FTYPES.items():
        for mod in ('biffh', 'formatting'):
            if c.prog.func('xlrd.%s.%s' % (mod, k)) is not None:
                c.guard('builtin', scalar, c, 'builtin', mod, k, v)
    date = lambda t: t == 1
    c.guard('builtin', types_table, c)
    c.guard('builtin', lambda: book_formats(c, 'builtin', lambda k, ty, st: (date(ty), date(P.STD_TYPES.get(k)), 'date classification')))
    c.guard('celltype', celltypes, c)
    c.guard('string', strings, c)
    for bv in (20, 30, 40, 45, 50, 70, 80):
        c.guard('format', formats, c, bv)
        c.guard('xf', xf_type, c, 21 if bv == 20 else bv)
    c.guard('xf', epilogue, c)
    c.guard('xf', biff2_xf, c)
    for ragged in (0, 1):
        for fmt in (0, 1):
            c.guard('cell', cell_type, c, ragged, fmt)


def types_table(c):
    got = plain(c, 'formatting.std_format_code_types')
    if not isinstance(got, dict):
        c.open('builtin', 'std_format_code_types')
    else:
        for k, ty in P.STD_TYPES.items():
            g = got.get(k)
            if g is None or (g == 1) != (ty == 1) or g not in FTYPES.values():
                c.bad('builtin', where_name(c, 'formatting', 'std_format_code_types'),
                      'built-in format %d is classified %r, specified %s' % (k, g, 'date' if ty == 1 else 'not a date'), 'builtin|type %d' % k)
            else:
                c.ok('builtin')
        for k in got:
            if k not in P.STD_TYPES and got[k] == 1:
                c.bad('builtin', where_name(c, 'formatting', 'std_format_code_types'), 'format index %r, which is not a built-in date format, is classified as date' % k)
    rng = plain(c, 'formatting.fmt_code_ranges')
    if isinstance(rng, (list, tuple)):
        seen = {}
        for r in rng:
            if not (isinstance(r, tuple) and len(r) == 3):
                continue
            for k in range(r[0], r[1] + 1):
                if k in seen and (seen[k] == 1) != (r[2] == 1):
                    c.bad('builtin', where_name(c, 'formatting', 'fmt_code_ranges'), 'format index %d is in two ranges with different classification' % k)
                else:
                    c.ok('builtin')
                seen[k] = r[2]


def celltypes(c):
    got = plain(c, 'formatting._cellty_from_fmtty')
    if not isinstance(got, dict):
        c.open('celltype', '_cellty_from_fmtty')
        return
    for n, k in FTYPES.items():
        w = 3 if n == 'FDT' else 2
        if got.get(k) != w:
            c.bad('celltype', where_name(c, 'formatting', '_cellty_from_fmtty'), 'format type %s maps to cell type %r, specified %d' % (n, got.get(k), w),
                  'celltype|%s' % n)
        else:
            c.ok('celltype')


def strings(c):
    where = 'xlrd/formatting.py is_date_format_string'
    for i, x in [(k, v) for k, v in P.STD_FORMATS.items()] + [(None, x) for x in STRINGS]:
        want = P.STD_TYPES[i] == 1 if i is not None else classify(x)
        if want is None:
            continue
        s = Setup(c.prog, 80)
        s.run('xlrd.formatting.is_date_format_string', [s.book, const(x)])
        v = s.value
        if v is None or v[0] != 'c':
            c.open('string', '%r: %s' % (x, brief(v, 60)))
            continue
        if bool(v[2]) != want:
            c.bad('string', where, 'format string %r is %sclassified as a date' % (x, '' if v[2] else 'not '), 'string|%r' % x)
        else:
            c.ok('string', sample='%r: %s' % (x, 'date' if want else 'not a date'))


def formats(c, bv):
    """type of the Format object of a FORMAT record"""
    kind = ('sym', 'isdate')

    def isd(it, st, fn, args, kwargs, node):
        return kind
    hooks = {'xlrd.formatting.is_date_format_string': isd, '*is_date_format_string': isd}
    op = 'XL_FORMAT' if bv >= 40 else 'XL_FORMAT2'
    f = globals_record if bv >= 45 else sheet_record
    s = f(c.prog, const_of(c.prog, op), bv, 1, hooks=hooks)
    s.it.symkinds['isdate'] = 'bool'
    objs = new_objects(s, 'Format')
    st = end_state(s)
    if not objs:
        c.open('format', 'biff%d: no Format object' % bv)
        return
    ty = attr_of(s, st, objs[-1], 'type')
    if ty is None:
        c.open('format', 'biff%d: type unknown' % bv)
        return
    und = 0
    for flag in (False, True):
        for key in (0, 1, 14, 22, 49, 50, 58, 81, 163, 164, 200):
            d = bytearray(64)
            d[0] = key
            env = E.Env({'data': bytes(d), 'isdate': flag, 'enc': 'cp437', 'data_len': 64}, {}, {}, {})
            try:
                g = E.ev(ty, env)
            except (E.Undef, E.Raised):
                und += 1
                continue
            if (g == 1) != flag or g not in FTYPES.values():
                c.bad('format', where_attr(s, objs[-1], 'type'), 'biff%d: format %d whose string is %sa date gets type %r' % (
                    bv, key, '' if flag else 'not ', g), 'format|%d' % bv)
                return
    if und:
        c.open('format', 'biff%d: %d samples of %s' % (bv, und, brief(ty, 80)))
    else:
        c.ok('format', sample='biff%d type = %s' % (bv, brief(ty, 80)))


FMTKEYS = {0: 3, 1: 2, 5: 0, 14: 1, 22: 1, 49: 4, 60: 2, 63: 1}


def fmt_map(s, keys):
    items = []
    for k, ty in keys.items():
        o = s.it.alloc(s.st, HObj('obj', cls='xlrd.formatting.Format', attrs={
            'format_key': const(k), 'type': const(ty), 'format_str': const('x')}))
        items.append((const(k), o))
    return s.it.alloc(s.st, HObj('dict', items=tuple(items)))


def xf_type(c, bv):
    op = 'XL_XF' if bv >= 50 else 'XL_XF4' if bv >= 40 else 'XL_XF3' if bv >= 30 else 'XL_XF2'
    offs = {80: (2, 2), 70: (2, 2), 50: (2, 2), 45: (1, 1), 40: (1, 1), 30: (1, 1), 21: (2, 1)}
    off, w = offs[bv]
    for k, ty in list(FMTKEYS.items()) + [(40, None)]:
        s = Setup(c.prog, bv, 1)
        fm = fmt_map(s, FMTKEYS)
        s.st.heap[s.book[1]] = s.obj(s.book).copy(attrs=dict(s.obj(s.book).attrs, format_map=fm, xfcount=const(1)))
        n = {80: 20, 70: 16, 50: 16, 45: 12, 40: 12, 30: 12, 21: 4}[bv]
        data = ('app', 'cat', sl(0, off), const(bytes([k]) + b'\0' * (w - 1)), sl(off + w, n))
        s.run('xlrd.formatting.handle_xf', [s.book, data])
        sets = [e for e in s.it.events if e.kind == 'setitem' and e.data[0][:1] == ('init',) and e.data[0][2] == '_xf_index_to_xl_type_map']
        want = 3 if ty == 1 else 2
        vals = [settled(x.data[2], ty is not None) for x in sets]
        label = 'biff%d: format %d of type %r' % (bv, k, ty)
        if not vals:
            c.open('xf', label + ': no store into the cell type table')
        elif all(v == const(want) for v in vals):
            c.ok('xf', sample=label + ' -> cell type %d' % want)
        elif all(v[0] == 'c' for v in vals) and (len(vals) == 1 or all(v != const(want) for v in vals)):
            c.bad('xf', sets[-1].where(), 'biff%d: a cell format selecting number format %d of type %r is given cell type %s, specified %d' % (
                bv, k, ty, brief(vals[-1]), want), 'xf|%d' % bv)
            return
        else:
            c.open('xf', '%s: %s' % (label, [brief(v, 60) for v in vals]))


def genv_(d, **syms):
    return E.Env(dict({'data': d, 'data_len': len(d), 'enc': 'cp437'}, **syms), {}, {}, {})


def settled(v, present):
    """value of a look-up protected by try: the entry is known to be present or absent"""
    while v[0] == 'app' and v[1] == 'ite' and v[2][0] == 'app' and v[2][1] == 'except':
        v = v[4] if present else v[3]
    return v


def epilogue(c):
    """the type table after the globals are complete: again the type of the format each cell format selects"""
    for bv in (30, 50, 80):
        s = Setup(c.prog, bv, 0)
        fm = fmt_map(s, FMTKEYS)
        xfs = []
        for i, k in enumerate(FMTKEYS):
            xfs.append(s.it.alloc(s.st, HObj('obj', cls='xlrd.formatting.XF', attrs={'format_key': const(k), 'xf_index': const(i)})))
        tm = s.it.alloc(s.st, HObj('dict', items=()))
        s.st.heap[s.book[1]] = s.obj(s.book).copy(attrs=dict(s.obj(s.book).attrs, format_map=fm, xf_list=s.it.new_list(s.st, xfs),
                                                             _xf_index_to_xl_type_map=tm))
        s.run('xlrd.formatting.xf_epilogue', [s.book])
        sets = [e for e in s.it.events if e.kind == 'setitem' and e.data[0] == tm]
        last = {}
        for e in sets:
            if e.data[1][0] == 'c':
                last[e.data[1][2]] = e
        for i, (k, ty) in enumerate(FMTKEYS.items()):
            e = last.get(i)
            want = const(3 if ty == 1 else 2)
            if e is None:
                continue        # recomputing is optional
            v = settled(e.data[2], True)
            if v == want:
                c.ok('xf')
            elif v[0] == 'c':
                c.bad('xf', e.where(), 'after the globals, a cell format selecting number format %d of type %r has cell type %s' % (k, ty, brief(v)),
                      'xf|epilogue')
                break
            else:
                c.open('xf', 'epilogue: %s' % brief(e.data[2], 80))


def biff2_xf(c):
    """cell formats made up from version 2 cell attributes"""
    for k, ty in FMTKEYS.items():
        s = Setup(c.prog, 20, 1)
        fm = fmt_map(s, FMTKEYS)
        s.st.heap[s.book[1]] = s.obj(s.book).copy(attrs=dict(s.obj(s.book).attrs, format_map=fm))
        xf = s.it.alloc(s.st, HObj('obj', cls='xlrd.formatting.XF', attrs={'format_key': const(k)}))
        s.it.hooks['xlrd.sheet.Sheet.fake_XF_from_BIFF20_cell_attr'] = lambda *a: xf
        s.run('xlrd.sheet.Sheet.insert_new_BIFF20_xf', [s.sheet], {'cell_attr': ('sym', 'attr')})
        sets = [e for e in s.it.events if e.kind == 'setitem' and mentions(e.data[0], '_xf_index_to_xl_type_map')]
        want = const(3 if ty == 1 else 2)
        if not sets:
            c.open('xf', 'version 2 format %d: no store' % k)
        elif sets[-1].data[2] == want:
            c.ok('xf')
        elif sets[-1].data[2][0] == 'c':
            c.bad('xf', sets[-1].where(), 'a version 2 cell selecting number format %d of type %r gets cell type %s' % (k, ty, brief(sets[-1].data[2])), 'xf|20')
        else:
            c.open('xf', 'version 2: %s' % brief(sets[-1].data[2], 80))


def cell_type(c, ragged, fmt):
    """put_cell with no explicit type"""
    q = 'xlrd.sheet.Sheet.put_cell_ragged' if ragged else 'xlrd.sheet.Sheet.put_cell_unragged'
    s = Setup(c.prog, 80, fmt, ragged=ragged)
    s.it.symkinds.update({'r': 'int', 'k': 'int', 'xf': 'int', 'v': 'float'})
    s.run(q, [s.sheet, ('sym', 'r'), ('sym', 'k'), NONE, ('sym', 'v'), ('sym', 'xf')])
    want = ('app', 'item', ('init', 'sheet', '_xf_index_to_xl_type_map'), ('sym', 'xf'))
    n = 0
    for e in s.it.events:
        vals = []
        if e.kind == 'setitem':
            vals = [e.data[2]]
        elif e.kind == 'mcall' and e.data[1] == 'append':
            vals = list(e.data[2][1])
        for v in vals:
            flat = [x for x in walk(v)]
            if any(x == want for x in flat):
                n += 1
            elif v[0] == 'c' and v[1] == 'int' and e.kind == 'setitem' and mentions(e.data[0], '_cell_types'):
                c.bad('cell', e.where(), 'a numeric cell without explicit type is stored with the constant type %r' % v[2],
                      'cell|%d%d' % (ragged, fmt))
                return
    if n:
        c.ok('cell', sample='%s stores %s' % (q.split('.')[-1], brief(want)))
    else:
        c.open('cell', '%s formatting=%d: the stored type was not recognised' % (q.split('.')[-1], fmt))


def mentions(t, attr):
    return any(x[0] == 'init' and x[2] == attr for x in walk(t))


# ---------------------------------------------------------------- C38
def funcs():
    out = {}
    for w in P.FUNCS.split():
        k, n, a, b = w.split(':')
        out[int(k)] = (n, int(a), int(b))
    return out


BINOPS = {3: ('+', 30, 'operator.add', 2), 4: ('-', 30, 'operator.sub', 2), 5: ('*', 40, 'operator.mul', 2), 6: ('/', 40, 'operator.truediv', 2),
          7: ('^', 50, None, 2), 8: ('&', 20, 'operator.add', 1), 9: ('<', 10, None, 3), 10: ('<=', 10, None, 3), 11: ('=', 10, None, 3),
          12: ('>=', 10, None, 3), 13: ('>', 10, None, 3), 14: ('<>', 10, None, 3)}
UNOPS = {0x13: (70, '-', ''), 0x12: (70, '+', ''), 0x14: (60, '', '%')}
ATTRS = {0x00: "Skip??", 0x01: "Volatile", 0x02: "If", 0x04: "Choose", 0x08: "Skip", 0x10: "Sum", 0x20: "Assign", 0x40: "Space", 0x41: "SpaceVolatile"}


def C38(c):
    """The token and function tables are evaluated from the source and compared entry by entry with the published ones and with
    each other; operator functions are folded on sample values; the walkers are interpreted on each token kind with unknown
    operand bytes and the position of the next token extracted."""
    c.rule('sizes', 'the size of every token in every version is the published one')
    c.rule('names', 'token names and sizes are tables of the same length and order')
    c.rule('functions', 'every worksheet function index has its name and argument bounds, and the arity class agrees with them')
    c.rule('operators', 'each operator token has its published symbol, precedence and operation')
    c.rule('attrs', 'the special-attribute codes have their published meaning')
    c.guard('sizes', sizes, c)
    c.guard('functions', functions, c)
    c.guard('operators', operators, c)
    c.guard('operators', boxes, c)
    c.guard('attrs', lambda: table(c, 'attrs', 'formula', 'tAttrNames', ATTRS, True))


def sizes(c):
    on = plain(c, 'formula.onames')
    sd = plain(c, 'formula.szdict')
    if not isinstance(on, (list, tuple)) or not isinstance(sd, dict):
        c.open('sizes', 'tables are not constant')
        return
    if list(on) != P.TOKENS:
        d = [i for i in range(max(len(on), len(P.TOKENS))) if i >= len(on) or i >= len(P.TOKENS) or on[i] != P.TOKENS[i]]
        c.bad('names', where_name(c, 'formula', 'onames'), 'token name table differs at entry %d' % d[0])
    else:
        c.ok('names', len(on))
    grp = {20: P.SIZES_20, 30: P.SIZES_30, 40: P.SIZES_40, 45: P.SIZES_40, 50: P.SIZES_50, 70: P.SIZES_50, 80: P.SIZES_80}
    for bv, want in grp.items():
        got = sd.get(bv)
        if not isinstance(got, (list, tuple)):
            c.bad('sizes', where_name(c, 'formula', 'szdict'), 'no token sizes for version %d' % bv, 'sizes|%d' % bv)
            continue
        if len(got) != len(on):
            c.bad('names', where_name(c, 'formula', 'szdict'), 'version %d has %d token sizes for %d token names' % (bv, len(got), len(on)), 'names|%d' % bv)
        for i, w in enumerate(want):
            g = got[i] if i < len(got) else None
            if g != w:
                c.bad('sizes', where_name(c, 'formula', 'szdict'), 'version %d: token t%s (entry %d) has size %r, published %r' % (
                    bv, P.TOKENS[i], i, g, w), 'sizes|%d %d' % (bv, i))
            else:
                c.ok('sizes')


def functions(c):
    got = plain(c, 'formula.func_defs')
    if not isinstance(got, dict):
        c.open('functions', 'func_defs is not constant')
        return
    w = where_name(c, 'formula', 'func_defs')
    want = funcs()
    for k, x in want.items():
        g = got.get(k)
        if g is None:
            c.bad('functions', w, 'function %d (%s) is missing' % (k, x[0]), 'functions|%d' % k)
        elif tuple(g[:3]) != x:
            c.bad('functions', w, 'function %d is %r, published %r' % (k, tuple(g[:3]), x), 'functions|%d' % k)
        else:
            c.ok('functions')
    for k, g in got.items():
        if len(g) >= 4 and isinstance(g[3], int):
            fixed = not g[3] & 4
            if fixed and g[1] != g[2]:
                c.bad('functions', w, 'function %d (%s) is marked fixed-arity but takes %d to %d arguments' % (k, g[0], g[1], g[2]), 'functions|flag %d' % k)
        if k not in want:
            c.open('functions', 'function %r is not in the published table used here' % k)


def operators(c):
    got = c.prog.func('xlrd.formula.binop_rules')
    h = c.prog.heap.get(got[1]) if got is not None and got[0] == 'ref' else None
    w = where_name(c, 'formula', 'binop_rules')
    if h is None or h.items is None:
        c.open('operators', 'binop_rules is not constant')
    else:
        d = {c.prog.plain(k): v for k, v in h.items}
        for k, (sym, rank, ext, kind) in BINOPS.items():
            v = d.get(k)
            if v is None:
                c.bad('operators', w, 'operator token 0x%02x (%s) has no rule' % (k, sym), 'operators|%d' % k)
                continue
            its = v[1] if v[0] == 'tuple' else None
            if its is None or len(its) != 5:
                c.open('operators', 'rule of token 0x%02x' % k)
                continue
            if its[4] != const(sym) or its[3] != const(rank) or its[1] != const(kind):
                c.bad('operators', w, 'operator token 0x%02x: symbol %s, precedence %s, result kind %s; published %r, %d, %d' % (
                    k, brief(its[4]), brief(its[3]), brief(its[1]), sym, rank, kind), 'operators|%d' % k)
                continue
            c.ok('operators', 3)
            opfold(c, k, sym, its[2], w)
    got = c.prog.func('xlrd.formula.unop_rules')
    h = c.prog.heap.get(got[1]) if got is not None and got[0] == 'ref' else None
    if h is None or h.items is None:
        c.open('operators', 'unop_rules is not constant')
        return
    w = where_name(c, 'formula', 'unop_rules')
    d = {c.prog.plain(k): v for k, v in h.items}
    for k, (rank, a, b) in UNOPS.items():
        v = d.get(k)
        its = v[1] if v is not None and v[0] == 'tuple' else None
        if v is None:
            c.bad('operators', w, 'unary token 0x%02x has no rule' % k, 'operators|%d' % k)
        elif its is None or len(its) != 4:
            c.open('operators', 'rule of token 0x%02x' % k)
        elif tuple(its[1:]) != (const(rank), const(a), const(b)):
            c.bad('operators', w, 'unary token 0x%02x: precedence and symbols are %s' % (k, [brief(x) for x in its[1:]]), 'operators|%d' % k)
        else:
            c.ok('operators')
            f = {0x13: lambda x: -x, 0x12: lambda x: x, 0x14: lambda x: x / 100.0}[k]
            for x in (0.0, 2.0, -7.5):
                fold1(c, 'unary token 0x%02x' % k, its[0], (x,), f(x), w)


def fold1(c, label, fn, args, want, w):
    s = Setup(c.prog, 80)
    try:
        v, s.st = s.it.run(fn, [const(a) for a in args], {}, s.st, 100000)
        g = E.ev(v, genv_(b''))
    except Exception as e:
        c.open('operators', '%s: %s' % (label, type(e).__name__))
        return
    if g != want:
        c.bad('operators', w, '%s yields %r for %r, specified %r' % (label, g, args, want), 'operators|%s' % label)
    else:
        c.ok('operators')


def opfold(c, k, sym, fn, w):
    import operator as o
    ops = {'+': o.add, '-': o.sub, '*': o.mul, '/': o.truediv, '^': o.pow, '<': o.lt, '<=': o.le, '=': o.eq, '>=': o.ge, '>': o.gt, '<>': o.ne}
    if sym == '&':
        pairs, f = [('a', 'b'), ('', 'x')], o.add
    else:
        pairs, f = [(6.0, 4.0), (4.0, 6.0), (3.0, 3.0), (-2.0, 3.0)], ops[sym]
    if fn[0] == 'ext':
        want = {'+': 'add', '-': 'sub', '*': 'mul', '/': 'truediv', '&': 'add', '^': 'pow', '<': 'lt', '<=': 'le', '=': 'eq', '>=': 'ge', '>': 'gt', '<>': 'ne'}[sym]
        got = fn[1].split('.')[-1].strip('_')
        if got == want or (sym == '&' and got == 'concat'):
            c.ok('operators')
        elif hasattr(o, got):
            c.bad('operators', w, 'operator %s is computed by %s' % (sym, fn[1]), 'operators|fn %s' % sym)
        else:
            c.open('operators', 'operation of %s' % sym)
        return
    for a, b in pairs:
        fold1(c, 'operator %s' % sym, fn, (a, b), f(a, b), w)


def boxes(c):
    for n, want in (('tRangeFuncs', ('min', 'max') * 3), ('tIsectFuncs', ('max', 'min') * 3)):
        v = c.prog.func('xlrd.formula.' + n)
        if v is None or v[0] != 'tuple':
            c.open('operators', n)
            continue
        got = tuple(x[1].split('.')[-1] if x[0] == 'ext' else '?' for x in v[1])
        if got != want:
            c.bad('operators', where_name(c, 'formula', n), '%s combines box edges by %r, specified %r' % (n, got, want), 'operators|' + n)
        else:
            c.ok('operators')
