"""C43 values of constant name formulas."""
import ast
import struct
from .common import *
from .decode_formula import FORM, pick, last_store
from .texts import Formula, NAMES
from ..src import Source

NUM, STR, BOOL, ERR, UNK, REF = 2, 1, 3, 4, 0, -1
UNKNOWN = 'unknown'      # the value must be None (or the operation fails, which the rule `caught` covers)
ANY = 'any'              # None, or a value of the right type


def C43(c):
    """The name evaluator interpreted over formulas of one and two operators with unknown numbers and chosen texts as operands; the
    value and kind its result ends with, folded over operand values; and every call of an operator function found in the source."""
    c.rule('value', 'an operation on constants yields the value and kind the operator denotes; one without a value leaves it unknown')
    c.rule('kind', 'a value fits its kind: a float, a text, 0 or 1')
    c.rule('caught', 'an operator function that fails on its operands does not end the evaluation')
    for bv in (50, 80):
        for label, tree in trees():
            if bv >= 80 and tree[0] == 'bin' and tree[3] == ('str', ''):
                continue    # whether an empty text has an options byte depends on what follows it
            c.guard('value', value, c, bv, label, tree)
    c.guard('caught', caught, c)


NUMS = (0.0, 1.0, 2.0, -8.0, 0.5, -0.25, 3.0, 1e10, 123456.0, -1.0, 1e300, 1e-300, 7.0)
TEXTS = ('abc', '3', '1.5', '', 'x y', '-2')


def trees():
    N, I = ('numb',), ('int',)
    out = []
    for o in ('+', '-', '*', '/', '^', '&', '<', '<=', '=', '>=', '>', '<>'):
        out.append(('a%sb' % o, ('bin', o, N, N)))
        out.append(('a%si' % o, ('bin', o, N, I)))
        for t in TEXTS:
            out.append(('"%s"%sb' % (t, o), ('bin', o, ('str', t), N)))
            out.append(('a%s"%s"' % (o, t), ('bin', o, N, ('str', t))))
        out.append(('"b"%s"abc"' % o, ('bin', o, ('str', 'b'), ('str', 'abc'))))
        out.append(('"3"%s"1.5"' % o, ('bin', o, ('str', '3'), ('str', '1.5'))))
        out.append(('TRUE%sa' % o, ('bin', o, ('boolb',), N)))
        for q in ('/', '-', '&', '<'):
            out.append(('(a%sb)%sc' % (o, q), ('bin', q, ('bin', o, N, N), I)))
            out.append(('a%s(b%sc)' % (q, o), ('bin', q, N, ('bin', o, I, N))))
        out.append(('ref%sa' % o, ('bin', o, ('ref',), N)))
        out.append(('a%s(-"abc")' % o, ('bin', o, N, ('pre', '-', ('str', 'abc')))))
        out.append(('(-"abc")%sa' % o, ('bin', o, ('pre', '-', ('str', 'abc')), N)))
    for u in ('+', '-'):
        out.append(('%sa' % u, ('pre', u, N)))
        out.append(('%si' % u, ('pre', u, I)))
        out.append(('%s%sa' % (u, u), ('pre', u, ('pre', u, N))))
        out.append(('%s(a/b)' % u, ('pre', u, ('bin', '/', N, N))))
        out.append(('%sref' % u, ('pre', u, ('ref',))))
        out.append(('%sTRUE' % u, ('pre', u, ('boolb',))))
        for t in TEXTS:
            out.append(('%s"%s"' % (u, t), ('pre', u, ('str', t))))
    out.append(('a%', ('%', N)))
    out.append(('"abc"%', ('%', ('str', 'abc'))))
    out.append(('ref%', ('%', ('ref',))))
    out.append(('(a^b)%', ('%', ('bin', '^', N, N))))
    out.append(('(a)', ('paren', N)))
    out.append(('a', N))
    out.append(('i', I))
    out.append(('TRUE', ('boolb',)))
    out.append(('"abc"', ('str', 'abc')))
    out.append(('missing', ('bin', '+', ('missing',), N)))
    return out


def number(x):
    """(is a number, value) of one operand of an arithmetic operator"""
    k, v = x
    if k == NUM:
        return v
    if k == STR:
        try:
            return float(v)
        except ValueError:
            return UNKNOWN
    return ANY


def denote(t, vals):
    """(kind, value) a formula denotes"""
    k = t[0]
    if k == 'int':
        return NUM, float(next(vals))
    if k == 'numb':
        return NUM, next(vals)
    if k == 'boolb':
        return BOOL, next(vals)
    if k == 'str':
        return STR, t[1]
    if k == 'ref':
        next(vals)
        return REF, ANY
    if k == 'missing':
        return UNK, UNKNOWN
    if k == 'paren':
        return denote(t[1], vals)
    if k in ('pre', '%'):
        x = denote(t[-1], vals)
        if x[0] == NUM and isinstance(x[1], float):
            v = x[1]
            return NUM, (v / 100.0 if k == '%' else -v if t[1] == '-' else v)
        return NUM, UNKNOWN if x[1] == UNKNOWN or x[0] == STR and number(x) == UNKNOWN else ANY
    a, b = denote(t[2], vals), denote(t[3], vals)
    o = t[1]
    if o == '&':
        kind = STR
    elif o in '+-*/^':
        kind = NUM
    else:
        kind = BOOL
    if UNKNOWN in (a[1], b[1]):
        return kind, UNKNOWN
    if ANY in (a[1], b[1]) or not {a[0], b[0]} <= {NUM, STR}:
        return kind, ANY
    if kind == NUM:
        x, y = number(a), number(b)
        if UNKNOWN in (x, y):
            return kind, UNKNOWN
        try:
            v = {'+': lambda: x + y, '-': lambda: x - y, '*': lambda: x * y, '/': lambda: x / y, '^': lambda: x ** y}[o]()
        except ArithmeticError:
            return kind, UNKNOWN
        if isinstance(v, complex):
            return kind, UNKNOWN
        if v != v or v in (float('inf'), float('-inf')):
            return kind, ANY
        return kind, v
    if kind == STR:
        out = ''
        for kk, v in (a, b):
            if kk == NUM:
                if abs(v) >= 1e11 or v and abs(v) < 1e-4:
                    return kind, ANY       # how a number is spelt beyond plain decimals is not claimed
                if v == 0 and str(v)[0] == '-':
                    return kind, ANY
                v = repr(v)
                v = v[:-2] if v.endswith('.0') else v
            out += v
        return kind, out
    if a[0] != b[0]:
        return kind, ANY
    x, y = a[1], b[1]
    return kind, int({'<': x < y, '<=': x <= y, '=': x == y, '>=': x >= y, '>': x > y, '<>': x != y}[o])


def value(c, bv, label, tree):
    f = Formula(bv)
    f.emit(tree)
    s = Setup(c.prog, bv, maxsize=30000)
    s.it.set_attr_raw(s.st, s.book, '_sheet_names', s.it.new_list(s.st, [const(x) for x in NAMES]))
    if bv < 80:
        s.it.set_attr_raw(s.st, s.book, 'encoding', const('latin_1'))
    for h in ('get_externsheet_local_range', 'get_externsheet_local_range_b57'):
        s.it.hooks[FORM + h] = lambda it, st, fn, a, kw, node: ('tuple', (const(0), const(0)))
    nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=f.term(), basic_formula_len=const(f.size))
    s.run(FORM + 'evaluate_name_formula', [s.book, nobj, const(0)])
    res = attr_of(s, s.st, nobj, 'result')
    fn = c.prog.func(FORM + 'evaluate_name_formula')
    where = 'xlrd/formula.py:%d in evaluate_name_formula' % s.it.func_info(fn).node.lineno
    lab = 'biff%d: %s' % (bv, label)
    if res is None:
        c.open('value', lab + ': no result')
        return
    exc = set()
    for ev in s.it.events:
        for t in [g[0] for g in ev.guards] + [x for x in ev.data if isinstance(x, tuple) and x and isinstance(x[0], str)]:
            for x in walk(t):
                if x[:2] == ('app', 'except'):
                    exc.add(x)
    n = und = 0
    for i in range(24):
        b = bytearray(f.data)
        vals = []
        for m, (off, kind) in enumerate(f.leaves):
            if kind == 'num':
                v = NUMS[(i * (1 + 4 * m) + i // 13 + 5 * m) % len(NUMS)]
                b[off:off + 8] = struct.pack('<d', v)
            elif kind == 'bool':
                v = b[off] = i & 1
            elif kind == 'row':
                v = b[off] = i * 3 + m
            else:
                v = (0, 1, 2, 3, 7, 65535)[(i + m) % 6]
                b[off:off + 2] = struct.pack('<H', v)
            vals.append(v)
        kind, want = denote(tree, iter(vals))
        got = None
        try:
            for hit in (False, True):
                e = E.Env({'data': bytes(b)}, {}, {}, {x: hit for x in exc})
                try:
                    if exc and not hit and raised(s, e):
                        continue
                    r = pick(res, e)
                    if r[0] != 'ref':
                        raise E.Undef
                    kt = last_store(s, r, 'kind', e)
                    vt = last_store(s, r, 'value', e)
                    if kt is None:
                        raise E.Undef
                    k = E.ev(kt, e)
                    vt = pick(vt, e) if vt is not None else None
                    got = k, None if vt is None else 'list' if vt[0] == 'ref' else E.ev(vt, e)
                    break
                except E.Raised:
                    got = None
                    if not exc:
                        break
        except E.Undef:
            und += 1
            continue
        if got is None:
            # the operation fails: rule `caught`
            if want in (UNKNOWN, ANY):
                n += 1
                continue
            c.bad('value', where, '%s with operands %s fails; it denotes %r' % (lab, vals, want), 'value|%s' % label)
            return
        n += 1
        k, v = got
        fits = v is None or (k == NUM and type(v) in (int, float)) or (k == STR and isinstance(v, str)) or \
            (k == BOOL and v in (0, 1) and not isinstance(v, (str, tuple))) or (k in (REF, -2) and v == 'list')
        if k in (NUM, STR, BOOL, REF, -2) and not fits:
            c.bad('kind', where, '%s with operands %s: the value %r does not fit the kind %d' % (lab, vals, v, k), 'kind|%s' % label)
            return
        if tree == ('ref',):
            continue
        if k != kind and not (v is None and k == UNK) and kind != UNK:
            c.bad('value', where, '%s with operands %s yields a result of kind %d, not %d' % (lab, vals, k, kind), 'value|%s' % label)
            return
        if want == ANY or want == UNKNOWN and v is None:
            continue
        if want == UNKNOWN or v is None or v != want or isinstance(v, str) != isinstance(want, str):
            c.bad('value', where, '%s with operands %s yields %r, not %s' % (
                lab, vals, v, 'an unknown value' if want == UNKNOWN else repr(want)), 'value|%s' % label)
            return
    if n and not und:
        c.ok('value', sample=lab)
        c.ok('kind')
        c.count('valuations', n)
    else:
        c.open('value', '%s: %d decided, %d not' % (lab, n, und))


def raised(s, e):
    """whether an exception the evaluator's own code raises interrupts an operation"""
    for ev in s.it.events:
        if ev.kind == 'raise' and len(ev.data) and ev.data[0] in [const(x) for x in ('ValueError', 'TypeError', 'ArithmeticError', 'OverflowError')] and \
                all(E.truth(g[0], e) == g[1] for g in ev.guards):
            return True
    return False


# ---------------------------------------------------------------- failures of operator functions
NEEDED = ('ZeroDivisionError', 'OverflowError', 'TypeError', 'ValueError')
PARENT = {'ZeroDivisionError': ('ArithmeticError',), 'OverflowError': ('ArithmeticError',), 'TypeError': (), 'ValueError': ()}


def handler_catches(h, name):
    if h.type is None:
        return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    got = {getattr(t, 'id', getattr(t, 'attr', '?')) for t in ts}
    return bool(got & ({name, 'Exception', 'BaseException', 'StandardError'} | set(PARENT[name])))


def caught(c):
    """the operator functions come out of tables: every call, in the name evaluator, of a function held in a local variable"""
    src = Source(c.prog)
    root = src.by_qual.get('xlrd.formula.evaluate_name_formula')
    if root is None:
        c.open('caught', 'no evaluate_name_formula')
        return
    fns = [root]
    i = 0
    while i < len(fns):
        fns += fns[i].children
        i += 1
    for g in src.reach([root]):
        if g not in fns and g.module.name == 'xlrd.formula':
            fns.append(g)
    n = 0
    for f in fns:
        tables = set()
        local = {}
        for x in f.body_nodes():
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    for y in ast.walk(t):
                        if isinstance(y, ast.Name):
                            local.setdefault(y.id, []).append(x.value)
        def from_table(v):
            return any(isinstance(y, ast.Name) and (y.id.endswith('rules') or y.id in tables) for y in ast.walk(v))
        for _ in range(3):
            for k, vs in local.items():
                if any(isinstance(v, ast.Subscript) and from_table(v) for v in vs):
                    tables.add(k)
        for x in f.body_nodes():
            if isinstance(x, ast.Call) and (isinstance(x.func, ast.Name) and x.func.id in tables or isinstance(x.func, ast.Subscript) and from_table(x.func)):
                n += 1
                miss = uncovered(src, f, x, set())
                # one operand that is a number: only two-operand functions divide or overflow
                need = NEEDED if len(x.args) > 1 else ('TypeError',) if f_is_unary(local, x) else ('ValueError',)
                miss = [m for m in need if m in miss]
                if miss:
                    guarded = guarded_by_type(src, f, x) or len(x.args) == 1 and any(
                        isinstance(y, (ast.If, ast.IfExp)) and any(isinstance(z, ast.Attribute) and z.attr == 'kind' for z in ast.walk(y.test))
                        for y in f.body_nodes())    # which kinds get that far: rule `kind`
                    if guarded:
                        c.ok('caught', sample=f.where(x))
                    else:
                        c.bad('caught', f.where(x), 'an operator function is called where %s is not caught' % ', '.join(miss), 'caught|%s' % ast.unparse(x))
                else:
                    c.ok('caught', sample=f.where(x))
    if not n:
        c.open('caught', 'no call of an operator function found')
    c.count('calls of operator functions', n)


def f_is_unary(local, x):
    return isinstance(x.func, ast.Name) and any(isinstance(y, ast.Name) and 'unop' in y.id for v in local.get(x.func.id, []) for y in ast.walk(v))


def guarded_by_type(src, f, x):
    """the call stands under a condition on the operand's kind"""
    p, n = src.parents.get(x), x
    while p is not None and p is not f.node:
        if isinstance(p, (ast.If, ast.IfExp)) and any(isinstance(y, ast.Attribute) and y.attr == 'kind' or
                                                      isinstance(y, ast.Call) and getattr(y.func, 'id', '') == 'isinstance' for y in ast.walk(p.test)):
            return True
        n, p = p, src.parents.get(p)
    return False


def uncovered(src, f, x, seen):
    miss = set(NEEDED)
    p, n = src.parents.get(x), x
    while p is not None and p is not f.node:
        if isinstance(p, ast.Try) and any(n is y for y in p.body):
            miss = {m for m in miss if not any(handler_catches(h, m) for h in p.handlers)}
        n, p = p, src.parents.get(p)
    if not miss or f.name == 'evaluate_name_formula' or f in seen:
        return miss
    seen = seen | {f}
    sites = []
    for g in src.fns:
        if g.module is not f.module and g.module.name != f.module.name:
            continue
        for call, fs, cs, ext in src.calls(g):
            if f in fs:
                sites.append((g, call))
    if not sites:
        return set()
    out = set()
    for g, call in sites:
        out |= uncovered(src, g, call, seen)
    return miss & out
