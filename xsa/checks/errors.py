"""C29 decoding errors are never swallowed."""
import ast
from ..src import Source
from ..flow import Flow
from .verbosity import Verbosity, strip_log, is_log, LOGGERS, MUTATORS
from .effects import dotted

BROAD = {'Exception', 'BaseException', 'StandardError'}
DECODE = {'error', 'struct.error', 'UnicodeError', 'UnicodeDecodeError', 'XLRDError', 'CompDocError', 'AssertionError', 'EOFError', 'OSError', 'IOError',
          'EnvironmentError', 'BadZipFile', 'BadZipfile', 'zlib.error', 'ParseError', 'FormulaError', 'RuntimeError', 'MemoryError', 'XLDateError',
          'RecursionError', 'mmap.error', 'LookupError', 'binascii.Error'}
LOOKUP = {'KeyError', 'IndexError', 'ValueError', 'TypeError', 'AttributeError', 'StopIteration', 'ArithmeticError', 'ZeroDivisionError',
          'OverflowError', 'NameError', 'ImportError', 'UnboundLocalError'}
LENIENT = {'ignore', 'replace', 'backslashreplace', 'namereplace', 'xmlcharrefreplace', 'surrogateescape', 'surrogatepass'}


def C29(c):
    """Every exception handler of live code is classified by what it catches and what its try body can raise; a handler that can catch a
    failure of decoding must leave by raising on every path, decode again, or guard code whose results reach nothing but messages."""
    R = 'handlers'
    c.rule(R, 'a handler that catches decoding failures raises on every path, unless nothing decoded under it is kept')
    src = Source(c.prog)
    fl = Flow(src)
    fl.complete()
    c.guard(R, c29_handlers, c, R, src, fl)
    R2 = 'strict-codecs'
    c.rule(R2, 'bytes are decoded strictly: no codec error handler that replaces or drops bytes')
    c.guard(R2, c29_codecs, c, R2, src, fl)
    R3 = 'no-suppression'
    c.rule(R3, 'no context manager, finally clause or suppress() discards an exception')
    c.guard(R3, c29_suppress, c, R3, src, fl)


def types_of(src, f, h):
    """names of the caught classes; None for a bare except; '?' when unknown"""
    if h.type is None:
        return ['BaseException']
    out = []
    elts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    for e in elts:
        if isinstance(e, ast.Name):
            r = src.scope_lookup(f, e.id)
            if r is not None and r[0] == 'name':
                # a module-level alias or tuple of classes
                for b in r[1].names.get(r[2], []):
                    p = src.parents.get(b)
                    if isinstance(p, ast.Assign):
                        for x in (p.value.elts if isinstance(p.value, ast.Tuple) else [p.value]):
                            out.append(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?')
                    else:
                        out.append('?')
            elif r is not None and r[0] == 'local':
                vals = [src.parents.get(n).value for n in r[1].body_nodes() if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store)
                        and isinstance(src.parents.get(n), ast.Assign)]
                for v in vals:
                    for x in (v.elts if isinstance(v, ast.Tuple) else [v]):
                        out.append(x.id if isinstance(x, ast.Name) else x.attr if isinstance(x, ast.Attribute) else '?')
            else:
                out.append(e.id)
        elif isinstance(e, ast.Attribute):
            out.append(dotted(src, f, e) or e.attr)
        else:
            out.append('?')
    return out


class Raising(object):
    """the decoding failures a piece of code can end in"""

    def __init__(self, src, fl):
        self.src, self.fl = src, fl
        self.memo = {}

    def fn(self, g, stack=()):
        if g in self.memo:
            return self.memo[g]
        if g in stack or g.name in LOGGERS and g.cls is None:
            return None
        self_res = None
        for n in g.body_nodes():
            if self.fl.dead(g, n):
                continue
            self_res = self.node(g, n, stack + (g,))
            if self_res:
                break
        if not stack or self_res:
            self.memo[g] = self_res
        return self_res

    def node(self, g, n, stack=()):
        if isinstance(n, ast.Raise) and n.exc is not None:
            return '%s raises' % g.where(n)
        if isinstance(n, ast.Assert):
            return '%s asserts' % g.where(n)
        if isinstance(n, ast.Call):
            fs, cs, ext = self.src.resolve(g, n.func)
            d = ext or dotted(self.src, g, n.func) or ''
            if d.split('.')[-1] in ('unpack', 'unpack_from', 'iter_unpack') or isinstance(n.func, ast.Name) and n.func.id in ('local_unpack', 'unicode', 'unpack'):
                return '%s decodes' % g.where(n)
            if isinstance(n.func, ast.Attribute) and n.func.attr == 'decode':
                return '%s decodes' % g.where(n)
            for h in fs + [m for m in (self.src.method_of(q, '__init__') for q in cs) if m is not None]:
                r = self.fn(h, stack)
                if r:
                    return r
        return None

    def body(self, f, stmts):
        for s in stmts:
            for n in ast.walk(s):
                r = self.node(f, n)
                if r:
                    return r
        return None


def always_raises(src, fl, f, stmts, var=None):
    """every path through the statements ends in an exception"""
    for s in stmts:
        if isinstance(s, ast.Raise):
            return True
        if isinstance(s, ast.If):
            c = fl.test_const(f, s)
            a, b = always_raises(src, fl, f, s.body), always_raises(src, fl, f, s.orelse)
            if a and b or c is not None and (a if c[0] else b):
                return True
            if ignore_test(s.test) and (a or b):
                return True
        elif isinstance(s, ast.With):
            if always_raises(src, fl, f, s.body):
                return True
        elif isinstance(s, ast.Try):
            if always_raises(src, fl, f, s.finalbody) or always_raises(src, fl, f, s.body) and not s.handlers:
                return True
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
            fs, cs, ext = src.resolve(f, s.value.func)
            if fs and not cs and all(g is not f and always_raises(src, fl, g, g.node.body) and not any(
                    isinstance(n, (ast.Return, ast.Yield)) for n in g.body_nodes()) for g in fs if isinstance(g.node.body, list)) \
                    and all(isinstance(g.node.body, list) for g in fs):
                return True
        if isinstance(s, (ast.Return, ast.Break, ast.Continue)):
            return False
    return False


def ignore_test(t):
    """a condition on the option with which the caller asks to ignore workbook corruption, alone"""
    if isinstance(t, ast.UnaryOp):
        t = t.operand
    return isinstance(t, ast.Name) and t.id == 'ignore_workbook_corruption' or isinstance(t, ast.Attribute) and t.attr == 'ignore_workbook_corruption'


def assigned(stmts):
    out = set()
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add('.' + n.attr)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                out.add('[]')
    return out


def kept(v, f, t):
    """what the try body produces is kept: stored in an object, returned, or used by other than messages"""
    body = t.body
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, (ast.Attribute, ast.Subscript)) and isinstance(n.ctx, (ast.Store, ast.Del)) and not v.fresh(f, n.value):
                return n
            if isinstance(n, (ast.Return, ast.Yield)) and getattr(n, 'value', None) is not None:
                return n
            if isinstance(n, ast.Call):
                fs, cs, ext = v.src.resolve(f, n.func)
                for g in fs:
                    if any(x[0] == 'store' for x in v.effect(g)):
                        return n
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not fs and not is_log(f, n.func.value) and not v.fresh(f, n.func.value):
                    return n
    names = {n for n in assigned(body) if n[0] not in '.['}
    if not names:
        return None
    changed = True
    while changed:
        changed = False
        for n in f.body_nodes():
            if isinstance(n, (ast.Assign, ast.AugAssign)) and mentions(n.value, names):
                for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    for y in ast.walk(x):
                        if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in names:
                            names.add(y.id)
                            changed = True
            elif isinstance(n, ast.For) and mentions(n.iter, names):
                for y in ast.walk(n.target):
                    if isinstance(y, ast.Name) and y.id not in names:
                        names.add(y.id)
                        changed = True
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name) \
                    and any(mentions(a, names) for a in n.args) and n.func.value.id not in names:
                if v.fresh(f, n.func.value):
                    names.add(n.func.value.id)
                    changed = True
    for n in f.body_nodes():
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for x in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for y in (x.elts if isinstance(x, (ast.Tuple, ast.List)) else [x]):
                    if isinstance(y, (ast.Attribute, ast.Subscript)) and (mentions(n.value, names) or isinstance(y, ast.Subscript) and mentions(y.slice, names)) \
                            and not v.fresh(f, y.value):
                        return n
        elif isinstance(n, ast.Return) and n.value is not None and mentions(n.value, names):
            return n
        elif isinstance(n, (ast.If, ast.While)) and mentions(n.test, names) and strip_log(n.body + n.orelse):
            return n
        elif isinstance(n, ast.Call):
            fs, cs, ext = v.src.resolve(f, n.func)
            args = list(n.args) + [k.value for k in n.keywords]
            if isinstance(n.func, ast.Name) and n.func.id in LOGGERS:
                continue
            if any(mentions(a, names) for a in args):
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not v.fresh(f, n.func.value) and not is_log(f, n.func.value):
                    return n
                if any(any(x[0] == 'store' for x in v.effect(g)) for g in fs):
                    return n
    return None


def mentions(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


def c29_handlers(c, R, src, fl):
    from .verbosity import Verbosity
    v = Verbosity.__new__(Verbosity)
    v.src, v.fl, v.effects = src, fl, {}
    v.vars = set()
    rz = Raising(src, fl)
    n = broad = 0
    for f in sorted(fl.live, key=lambda f: f.qual):
        for t in f.body_nodes():
            if not isinstance(t, ast.Try) or fl.dead(f, t):
                continue
            earlier = set()
            for h in t.handlers:
                n += 1
                ts = types_of(src, f, h)
                wide = [x for x in ts if x in BROAD]
                dec = [x for x in ts if x in DECODE]
                look = [x for x in ts if x in LOOKUP]
                label = '%s except %s' % (f.where(h), ', '.join(ts))
                if wide:
                    broad += 1
                if always_raises(src, fl, f, h.body):
                    c.ok(R, sample=label + ': raises')
                    continue
                why = rz.body(f, t.body) if not wide else 'any failure'
                if not wide and not why:
                    c.ok(R, sample=label + ': nothing is decoded under it')
                    continue
                if not wide and not dec and not look:
                    c.open(R, label)
                    continue
                k = kept(v, f, t)
                if k is None:
                    c.ok(R, sample=label + ': what is decoded under it reaches messages only')
                    continue
                if not wide:
                    need = {x for x in assigned(t.body)}
                    if need and need <= assigned(h.body) and rz.body(f, h.body):
                        c.ok(R, sample=label + ': decodes again')
                        continue
                if not wide and not dec and only_direct_lookup(src, rz, f, t, ts):
                    c.ok(R, sample=label)
                    continue
                c.bad(R, f.where(h), 'except %s goes on after %s, and %s is kept' % (', '.join(ts), 'any failure' if wide else 'a decoding failure (%s)' % why,
                                                                                     ast.unparse(k)[:60]),
                      '%s|%s|%s' % (R, f.qual, ','.join(ts)))
    c.count('exception handlers', n)
    c.count('handlers of broad classes', broad)


def only_direct_lookup(src, rz, f, t, ts):
    return False


def c29_codecs(c, R, src, fl):
    n = 0
    for f in sorted(fl.live, key=lambda f: f.qual):
        for call, fs, cs, ext in src.calls(f):
            if fl.dead(f, call):
                continue
            name = call.func.attr if isinstance(call.func, ast.Attribute) else call.func.id if isinstance(call.func, ast.Name) else ''
            if name not in ('decode', 'unicode', 'str', 'open', 'TextIOWrapper', 'getreader', 'utf_8_decode', 'ascii_decode'):
                continue
            n += 1
            errs = [k.value for k in call.keywords if k.arg == 'errors']
            pos = {'decode': 1, 'unicode': 2, 'str': 2}.get(name)
            if pos is not None and len(call.args) > pos:
                errs.append(call.args[pos])
            for e in errs:
                v = fl.const(f, e)
                if v is not None and v[0] in LENIENT:
                    c.bad(R, f.where(call), '%s(..., %r) drops or replaces bytes that cannot be decoded' % (name, v[0]), '%s|%s|%s' % (R, f.qual, v[0]))
                    break
            else:
                c.ok(R)
    c.count('decoding calls', n)


def c29_suppress(c, R, src, fl):
    n = 0
    for f in sorted(fl.live, key=lambda f: f.qual):
        for x in f.body_nodes():
            if isinstance(x, ast.Try) and x.finalbody and not fl.dead(f, x):
                n += 1
                bad = [y for s in x.finalbody for y in ast.walk(s) if isinstance(y, ast.Return)] + loop_exits(x.finalbody)
                for y in bad:
                    c.bad(R, f.where(y), '%s in a finally clause discards the exception' % type(y).__name__.lower(), '%s|%s|finally' % (R, f.qual))
                if not bad:
                    c.ok(R)
            elif isinstance(x, (ast.With, ast.AsyncWith)) and not fl.dead(f, x):
                for i in x.items:
                    n += 1
                    e = i.context_expr
                    d = dotted(src, f, e.func) if isinstance(e, ast.Call) else None
                    fs, cs, ext = src.resolve(f, e.func) if isinstance(e, ast.Call) else ([], [], None)
                    if 'contextlib.suppress' in (d, ext):
                        ts = [a.id if isinstance(a, ast.Name) else '?' for a in e.args]
                        if any(t in BROAD or t in DECODE for t in ts):
                            c.bad(R, f.where(x), 'suppress(%s) discards decoding failures' % ', '.join(ts), '%s|%s|suppress' % (R, f.qual))
                            continue
                    c.ok(R)
        if f.name == '__exit__':
            n += 1
            rets = [y for y in f.body_nodes() if isinstance(y, ast.Return) and y.value is not None]
            bad = False
            for y in rets:
                v = fl.const(f, y.value)
                if v is None and isinstance(y.value, (ast.Compare, ast.BoolOp, ast.Name, ast.UnaryOp)):
                    v = (True,)
                if v is None:
                    gs = src.resolve(f, y.value.func)[0] if isinstance(y.value, ast.Call) else []
                    if not gs or any(isinstance(z, ast.Return) and z.value is not None for g in gs for z in g.body_nodes()):
                        c.open(R, f.where(y))
                if v is not None and v[0]:
                    bad = True
                    c.bad(R, f.where(y), '__exit__ returns a true value: exceptions of the with block are discarded', '%s|%s|exit' % (R, f.qual))
            if not bad:
                c.ok(R)
    c.count('with statements, finally clauses and __exit__ methods', n)


def loop_exits(stmts, inside=False):
    out = []
    for s in stmts:
        if isinstance(s, (ast.Break, ast.Continue)) and not inside:
            out.append(s)
        for field in ('body', 'orelse', 'finalbody'):
            l = getattr(s, field, None)
            if isinstance(l, list):
                out += loop_exits(l, inside or isinstance(s, (ast.For, ast.While)) and field == 'body')
    return out
