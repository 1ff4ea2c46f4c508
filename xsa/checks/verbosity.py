"""C05 verbosity only changes diagnostics."""
import ast
from ..src import Source
from ..flow import Flow, bind_args
from ..taint import static
from .effects import dotted

MUTATORS = {'append', 'extend', 'pop', 'insert', 'remove', 'clear', 'update', 'setdefault', 'sort', 'reverse', 'add', 'discard', 'popitem',
            'seek', 'read', 'readline', 'readlines', 'close', 'popleft', 'appendleft', '__setitem__', '__setattr__', '__delitem__',
            'truncate', 'fromstring', 'frombytes', 'byteswap', 'difference_update', 'intersection_update', 'symmetric_difference_update'}
LOGGERS = {'print', 'fprintf', 'hex_char_dump'}
RAISING_EXT = ('struct.unpack', 'struct.unpack_from')
FRESH_CALLS = {'list', 'dict', 'set', 'bytearray', 'sorted', 'tuple', 'str', 'bytes', 'repr', 'reversed', 'zip', 'enumerate', 'map', 'filter',
               'range', 'iter', 'frozenset', 'int', 'float', 'len'}


class Verbosity(object):
    def __init__(self, c, src, fl):
        self.c, self.src, self.fl = c, src, fl
        self.live = sorted((f for f in fl.live), key=lambda f: f.qual)
        self.vars = set()               # (Fn, name)
        self.attrs = {'verbosity'}
        self.rets = set()               # functions whose result may depend
        self.implicit = {}              # (Fn, name) / attr -> where it became dependent
        self.effects = {}
        self.region = {}                # Fn -> set of nodes executed only under a dependent condition
        self.problems = {}
        self.nguards = 0
        for f in self.live:
            for p in f.params:
                if p == 'verbosity' and f in fl.roots:
                    self.vars.add((f, p))
        self.final = False
        for _ in range(12):
            before = (len(self.vars), len(self.attrs), len(self.rets))
            self.pass_()
            if before == (len(self.vars), len(self.attrs), len(self.rets)):
                break
        self.final = True
        self.pass_()

    # ------------------------------------------------------------ dependence of an expression
    def tainted(self, f, e):
        if e is None:
            return False
        if isinstance(e, ast.Name):
            r = self.src.scope_lookup(f, e.id)
            if r is None or r[0] != 'local':
                return False
            return e.id in self.cur if r[1] is f else (r[1], e.id) in self.vars
        if isinstance(e, ast.Attribute):
            return e.attr in self.attrs or self.tainted(f, e.value)
        if isinstance(e, ast.Call):
            if any(g in self.rets for g in self.src.resolve(f, e.func)[0]):
                return True
            if isinstance(e.func, ast.Attribute) and self.tainted(f, e.func.value):
                return True
            fs, cs, ext = self.src.resolve(f, e.func)
            if fs or cs:
                return False            # the result depends on it only if the function's own analysis says so
            return any(self.tainted(f, a) for a in e.args) or any(self.tainted(f, k.value) for k in e.keywords)
        if isinstance(e, (ast.Lambda, ast.FunctionDef)):
            return False
        if isinstance(e, (ast.BoolOp, ast.Compare, ast.IfExp, ast.UnaryOp)):
            v = self.fl.const(f, e)
            if v is not None:
                return False
        return any(self.tainted(f, x) for x in ast.iter_child_nodes(e) if isinstance(x, (ast.expr, ast.comprehension, ast.keyword)))

    def mark(self, f, t, why):
        if isinstance(t, ast.Name):
            r = self.src.scope_lookup(f, t.id)
            if r is not None and r[0] == 'local':
                if r[1] is f:
                    self.cur.add(t.id)
                if any(g.parent is r[1] or r[1] is not f for g in r[1].children):
                    self.vars.add((r[1], t.id))
            else:
                self.problem(f, t, 'the global %s is set to something that depends on verbosity' % t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.mark(f, x, why)
        elif isinstance(t, ast.Starred):
            self.mark(f, t.value, why)

    def problem(self, f, node, msg):
        if self.final:
            self.problems.setdefault((f, node.lineno, msg), (f, node, msg))

    # ------------------------------------------------------------ one pass over every function
    def pass_(self):
        if self.final:
            self.nguards = 0
            self.checked = 0
        for f in self.live:
            body = f.node.body
            self.cur = {p for p in f.params if (f, p) in self.vars}
            if isinstance(body, list):
                self.block(f, body, None)
            else:
                self.exprs(f, body, None)
                if self.tainted(f, body):
                    self.rets.add(f)

    def block(self, f, stmts, guard):
        """returns the kinds of exit that happen only under a dependent condition"""
        out = set()
        for s in stmts:
            if self.fl.dead(f, s):
                continue
            ex = self.stmt(f, s, guard)
            if ex and guard is None:
                guard = ex
            out |= ex or set()
            if self.fl.leaves(f, s):
                break
        return out

    def stmt(self, f, s, guard):
        fl = self.fl
        if guard is not None and self.final:
            self.checked += 1
        if isinstance(s, (ast.If,)):
            t = self.tainted(f, s.test)
            self.exprs(f, s.test, guard)
            c = fl.test_const(f, s)
            if c is not None:
                return self.block(f, s.body if c[0] else s.orelse, guard)
            g = guard
            if t and guard is None:
                if self.final:
                    self.nguards += 1
                g = s
                if same_effect(s):
                    g = None
            if t and guard is None and g is not None:
                skip = same_stores(s)
            else:
                skip = ()
            start = set(self.cur)
            ga = gb = g
            if g is s:
                ga = None if excludes(f, fl, s.test, s.body, self, True) else g
                gb = None if excludes(f, fl, s.test, s.orelse, self, False) else g
            a = self.arm(f, s.body, ga, skip)
            first = self.cur if not (s.body and fl.leaves(f, s.body[-1])) else set()
            self.cur = start
            b = self.arm(f, s.orelse, gb, skip)
            second = self.cur if not (s.orelse and fl.leaves(f, s.orelse[-1])) else set()
            self.cur = first | second
            if g is s and ga is not None and gb is not None and (exits(f, fl, s.body) or exits(f, fl, s.orelse)):
                self.cur |= start
            if g is s:
                ea, eb = exits(f, fl, s.body), exits(f, fl, s.orelse)
                return (ea if ga is not None else set()) | (eb if gb is not None else set())
            return a | b
        if isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
            t = self.tainted(f, s.test if isinstance(s, ast.While) else s.iter)
            self.exprs(f, s.test if isinstance(s, ast.While) else s.iter, guard)
            g = guard
            if t and guard is None:
                if self.final:
                    self.nguards += 1
                g = s
            if isinstance(s, ast.For):
                if g is not None or t:
                    self.mark(f, s.target, (f, s))
                elif isinstance(s.target, ast.Name):
                    self.cur.discard(s.target.id)
            start = set(self.cur)
            ex = self.block(f, s.body, g)
            for _ in range(3):
                before = set(self.cur)
                self.cur |= start
                if isinstance(s, ast.While) and g is None and self.tainted(f, s.test):
                    g = s
                ex = ex | self.block(f, s.body, g)
                self.cur |= start
                if self.cur == before:
                    break
            if ex & {'break', 'continue'} and g is None:
                # iterations of the loop, and what follows in it, depend on verbosity
                self.block(f, s.body, s)
            self.block(f, s.orelse, g if not ex & {'break'} else s)
            return ex & {'return', 'raise'}
        if isinstance(s, ast.Try) or type(s).__name__ == 'TryStar':
            start = set(self.cur)
            ex = self.block(f, s.body, ('try', guard) if guard is not None and catches_all(s) else guard)
            ex = ex | self.block(f, s.orelse, guard)
            mid = start | self.cur
            out = set(self.cur)
            for h in s.handlers:
                self.cur = set(mid)
                ex = ex | self.block(f, h.body, guard)
                if not (h.body and fl.leaves(f, h.body[-1])):
                    out |= self.cur
            self.cur = out
            ex = ex | self.block(f, s.finalbody, guard)
            return ex
        if isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.exprs(f, i.context_expr, guard)
                if guard is not None:
                    self.problem(f, s, 'a context is entered only at some verbosity')
            return self.block(f, s.body, guard)
        if isinstance(s, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal, ast.Pass)):
            return set()
        if isinstance(s, ast.Expr):
            self.exprs(f, s.value, guard)
            return set()
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
            if s.value is None:
                return set()
            self.exprs(f, s.value, guard)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            t = self.tainted(f, s.value) or isinstance(s, ast.AugAssign) and self.tainted(f, s.target)
            for x in targets:
                self.assign(f, s, x, t, guard)
            return set()
        if isinstance(s, ast.Return):
            if s.value is not None:
                self.exprs(f, s.value, guard)
            if self.tainted(f, s.value):
                self.ret(f, s)
            if guard is not None:
                if s.value is not None and not (isinstance(s.value, ast.Constant) and s.value.value is None):
                    if not only_return(f, self.fl, s):
                        self.ret(f, s)
                elif any(isinstance(n, ast.Return) and n.value is not None and not (isinstance(n.value, ast.Constant) and n.value.value is None)
                         and not self.fl.dead(f, n) for n in f.body_nodes()):
                    self.ret(f, s)
                return {'return'}
            return set()
        if isinstance(s, ast.Raise):
            if guard is not None and not in_try(guard):
                self.problem(f, s, 'an exception is raised, or not, depending on verbosity')
            return {'raise'} if guard is not None else set()
        if isinstance(s, ast.Assert):
            if self.tainted(f, s.test):
                self.problem(f, s, 'an assertion depends on verbosity')
            elif guard is not None and not in_try(guard):
                self.problem(f, s, 'an assertion is made only at some verbosity')
            return set()
        if isinstance(s, ast.Delete):
            if guard is not None:
                for x in s.targets:
                    if not isinstance(x, ast.Name):
                        self.problem(f, s, 'something is deleted only at some verbosity')
            return set()
        if isinstance(s, ast.Break):
            return {'break'} if guard is not None else set()
        if isinstance(s, ast.Continue):
            return {'continue'} if guard is not None else set()
        return set()

    def arm(self, f, stmts, g, skip):
        old = getattr(self, 'skip', ())
        self.skip = old + tuple(skip)
        try:
            return self.block(f, stmts, g)
        finally:
            self.skip = old

    def ret(self, f, node):
        if f not in self.rets:
            self.rets.add(f)
        if f in self.fl.roots and f.name not in ('dump',):
            self.problem(f, node, 'the result depends on verbosity')

    def assign(self, f, s, x, t, guard):
        if isinstance(x, (ast.Tuple, ast.List)):
            for y in x.elts:
                self.assign(f, s, y, t, guard)
            return
        if isinstance(x, ast.Starred):
            return self.assign(f, s, x.value, t, guard)
        if isinstance(x, ast.Name):
            if t or guard is not None and x.id not in getattr(self, 'skip', ()):
                self.mark(f, x, (f, s))
            elif not isinstance(s, ast.AugAssign):
                self.cur.discard(x.id)
            return
        if isinstance(x, ast.Attribute):
            if x.attr == 'verbosity':
                return
            if guard is not None:
                if not self.fresh(f, x.value):
                    self.problem(f, s, 'the attribute %s is set only at some verbosity' % x.attr)
            elif t:
                if x.attr.startswith('_') or x.attr.lower() in ('debug', 'blah'):
                    self.attrs.add(x.attr)
                else:
                    self.problem(f, s, 'the attribute %s is set to something that depends on verbosity' % x.attr)
            return
        if isinstance(x, ast.Subscript):
            if self.fresh(f, x.value):
                b = x.value
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if (t or guard is not None) and isinstance(b, ast.Name):
                    self.mark(f, b, (f, s))
                return
            if guard is not None:
                self.problem(f, s, 'a table is changed only at some verbosity')
            elif t or self.tainted(f, x.slice):
                self.problem(f, s, 'a table receives something that depends on verbosity')

    # ------------------------------------------------------------ calls inside expressions
    def exprs(self, f, e, guard):
        """calls made while evaluating an expression"""
        if isinstance(e, (ast.Lambda,)):
            return
        if isinstance(e, ast.BoolOp):
            g = guard
            for v in e.values:
                self.exprs(f, v, g)
                k = self.fl.const(f, v)
                if k is not None and bool(k[0]) == isinstance(e.op, ast.Or):
                    return
                if g is None and self.tainted(f, v):
                    g = e
            return
        if isinstance(e, ast.IfExp):
            self.exprs(f, e.test, guard)
            g = guard
            if g is None and self.tainted(f, e.test):
                g = e
            k = self.fl.const(f, e.test)
            if k is None or k[0]:
                self.exprs(f, e.body, g)
            if k is None or not k[0]:
                self.exprs(f, e.orelse, g)
            return
        if isinstance(e, ast.Call):
            self.call(f, e, guard)
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if guard is not None:
                self.problem(f, e, 'a value is produced only at some verbosity')
        if isinstance(e, ast.NamedExpr):
            if guard is not None or self.tainted(f, e.value):
                self.mark(f, e.target, (f, e))
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr):
                self.exprs(f, x, guard)
            elif isinstance(x, ast.keyword):
                self.exprs(f, x.value, guard)
            elif isinstance(x, ast.comprehension):
                self.exprs(f, x.iter, guard)
                for y in x.ifs:
                    self.exprs(f, y, guard)

    def call(self, f, call, guard):
        fs, cs, ext = self.src.resolve(f, call.func)
        inits = [m for m in (self.src.method_of(q, '__init__') for q in cs) if m is not None]
        for g, ini in [(g, False) for g in fs] + [(m, True) for m in inits]:
            for p, a in bind_args(self.src, f, call, g, ini).items():
                if a == '?':
                    continue
                if self.tainted(f, a) and (g, p) not in self.vars and p in g.params:
                    self.vars.add((g, p))
        if isinstance(call.func, ast.Attribute) and call.func.attr in MUTATORS and not fs and not is_log(f, call.func.value):
            base = call.func.value
            t = any(self.tainted(f, a) for a in call.args)
            if guard is not None or t:
                if self.fresh(f, base):
                    while isinstance(base, (ast.Subscript, ast.Attribute)):
                        base = base.value
                    if isinstance(base, ast.Name):
                        self.mark(f, base, (f, call))
                elif call.func.attr == 'append' and self.written_lines(f, base):
                    pass
                elif guard is not None:
                    self.problem(f, call, 'a table or stream is changed (%s) only at some verbosity' % call.func.attr)
                else:
                    self.problem(f, call, 'a table receives (%s) something that depends on verbosity' % call.func.attr)
        if guard is None:
            if ext in ('builtins.setattr', 'setattr') and len(call.args) == 3 and self.tainted(f, call.args[2]) \
                    and not (isinstance(call.args[1], ast.Constant) and call.args[1].value == 'verbosity'):
                self.problem(f, call, 'an attribute is set to something that depends on verbosity')
            return
        if ext in ('builtins.setattr', 'setattr', 'builtins.delattr', 'delattr', 'builtins.exec', 'exec') and not (call.args and self.fresh(f, call.args[0])):
            self.problem(f, call, 'an attribute is set only at some verbosity')
        if ext in ('builtins.next', 'next'):
            if not (call.args and self.fresh(f, call.args[0])):
                self.problem(f, call, 'an iterator is advanced only at some verbosity')
        if in_try(guard):
            fx = [x for g in fs + inits for x in self.effect(g) if x[0] == 'store']
        else:
            fx = [x for g in fs + inits for x in self.effect(g)]
            if ext in RAISING_EXT or dotted(self.src, f, call.func) in RAISING_EXT:
                if not self.safe_unpack(f, call):
                    self.problem(f, call, 'a record is unpacked, which fails if it is too short, only at some verbosity')
        if fx:
            kind, g, n, what = fx[0]
            self.problem(f, call, '%s is called only at some verbosity, and it %s (%s)' % (
                ast.unparse(call.func), what, g.where(n)))

    def safe_unpack(self, f, call):
        """the same unpacking is also done whatever the verbosity"""
        if len_guarded(self.src, f, call):
            return True
        mine = ast.dump(call)
        n, p = call, self.src.parents.get(call)
        while p is not None and n is not f.node:
            for field in ('body', 'orelse', 'finalbody'):
                l = getattr(p, field, None)
                if isinstance(l, list) and any(n is x for x in l):
                    for s in l:
                        if s is n:
                            break
                        for x in ([s] if not hasattr(s, 'body') else [getattr(s, 'test', None) or getattr(s, 'iter', None)]):
                            if x is not None and any(isinstance(y, ast.Call) and ast.dump(y) == mine for y in ast.walk(x)):
                                return True
            if isinstance(p, (ast.If, ast.While, ast.For)) and p is not call:
                x = getattr(p, 'test', None) or getattr(p, 'iter', None)
                if any(isinstance(y, ast.Call) and y is not call and ast.dump(y) == mine for y in ast.walk(x)):
                    return True
            n, p = p, self.src.parents.get(p)
        return False

    def written_lines(self, f, base):
        """a list only ever written to the log"""
        return False

    def fresh(self, f, e):
        """an object made in this function"""
        while isinstance(e, ast.Subscript):
            e = e.value
        if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Constant, ast.JoinedStr)):
            return True
        if isinstance(e, ast.BinOp):
            return True
        if isinstance(e, ast.Call):
            fs, cs, ext = self.src.resolve(f, e.func)
            if cs and not fs:
                return True
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('items', 'keys', 'values', 'copy', 'split', 'format', 'join', 'rstrip', 'strip'):
                return not fs
            return isinstance(e.func, ast.Name) and e.func.id in FRESH_CALLS and not fs
        if isinstance(e, ast.Name):
            r = self.src.scope_lookup(f, e.id)
            if r is None or r[0] != 'local' or r[1] is not f or e.id in f.params:
                return False
            vals = []
            for n in f.body_nodes():
                if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                    p = self.src.parents.get(n)
                    if isinstance(p, ast.Assign) and n in p.targets:
                        vals.append(p.value)
                    elif isinstance(p, ast.AugAssign):
                        continue
                    else:
                        return False
            return bool(vals) and all(not isinstance(v, ast.Name) and self.fresh(f, v) for v in vals)
        return False

    # ------------------------------------------------------------ what a function does besides writing to the log
    def effect(self, g, stack=()):
        if g in self.effects:
            return self.effects[g]
        if g in stack or g.name in LOGGERS and g.cls is None:
            return []
        out = []
        for n in g.body_nodes():
            if self.fl.dead(g, n):
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not self.fresh(g, n.value) and not (g.name == '__init__' and isinstance(n.value, ast.Name) and n.value.id == g.params[0]):
                    out.append(('store', g, n, 'sets the attribute %s' % n.attr))
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
                if not self.fresh(g, n.value):
                    out.append(('store', g, n, 'changes a table'))
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in g.globals:
                out.append(('store', g, n, 'sets the global %s' % n.id))
            elif isinstance(n, (ast.Raise, ast.Assert)) and not self.caught(g, n):
                out.append(('raise', g, n, 'may raise an exception'))
            elif isinstance(n, ast.Call):
                fs, cs, ext = self.src.resolve(g, n.func)
                if isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and not fs and not is_log(g, n.func.value):
                    if not self.fresh(g, n.func.value):
                        out.append(('store', g, n, 'changes a table or stream (%s)' % n.func.attr))
                elif (ext in RAISING_EXT or dotted(self.src, g, n.func) in RAISING_EXT) and not self.caught(g, n):
                    out.append(('raise', g, n, 'unpacks bytes, which fails if there are too few'))
                for h in fs + [m for m in (self.src.method_of(q, '__init__') for q in cs) if m is not None]:
                    if h is g:
                        continue
                    sub = self.effect(h, stack + (g,))
                    if self.caught(g, n):
                        sub = [x for x in sub if x[0] == 'store']
                    out.extend(sub)
        if not stack:
            self.effects[g] = out
        return out

    def caught(self, g, n):
        p = self.src.parents.get(n)
        while p is not None and p is not g.node:
            if isinstance(p, ast.Try) and catches_all(p) and any(contains(x, n) for x in p.body):
                return True
            p = self.src.parents.get(p)
        return False


def contains(t, n):
    return any(x is n for x in ast.walk(t))


def in_try(guard):
    return isinstance(guard, tuple) and guard[0] == 'try'


def catches_all(s):
    for h in s.handlers:
        if h.type is None or isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException'):
            if not any(isinstance(n, ast.Raise) for x in h.body for n in ast.walk(x)):
                return True
    return False


def exits(f, fl, stmts, loop=False):
    """the ways control may leave a list of statements early"""
    out = set()
    for s in stmts:
        if isinstance(s, ast.Return):
            out.add('return')
        elif isinstance(s, ast.Raise):
            out.add('raise')
        elif isinstance(s, ast.Break) and not loop:
            out.add('break')
        elif isinstance(s, ast.Continue) and not loop:
            out.add('continue')
        elif isinstance(s, ast.If):
            c = fl.test_const(f, s)
            if c is None or c[0]:
                out |= exits(f, fl, s.body, loop)
            if c is None or not c[0]:
                out |= exits(f, fl, s.orelse, loop)
        elif isinstance(s, (ast.While, ast.For)):
            out |= exits(f, fl, s.body, True) | exits(f, fl, s.orelse, loop)
        elif isinstance(s, ast.Try):
            for b in [s.body, s.orelse, s.finalbody] + [h.body for h in s.handlers]:
                out |= exits(f, fl, b, loop)
        elif isinstance(s, ast.With):
            out |= exits(f, fl, s.body, loop)
    return out


def len_guarded(src, f, call):
    """unpack of data[a:b] under a condition len(data) >= k, b <= k, with a layout exactly b - a wide"""
    if len(call.args) < 2 or not isinstance(call.args[0], ast.Constant):
        return False
    x = call.args[1]
    if not (isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and isinstance(x.slice.upper, ast.Constant) and x.slice.step is None):
        return False
    lo = x.slice.lower.value if isinstance(x.slice.lower, ast.Constant) else 0 if x.slice.lower is None else None
    hi = x.slice.upper.value
    try:
        import struct
        if lo is None or lo < 0 or struct.calcsize(call.args[0].value) != hi - lo:
            return False
    except Exception:
        return False
    buf = ast.dump(x.value)
    n, p = call, src.parents.get(call)
    while p is not None and p is not f.node:
        if isinstance(p, ast.If) and any(n is y for y in p.body):
            tests = p.test.values if isinstance(p.test, ast.BoolOp) and isinstance(p.test.op, ast.And) else [p.test]
            for t in tests:
                if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Call) and getattr(t.left.func, 'id', '') == 'len' \
                        and ast.dump(t.left.args[0]) == buf and isinstance(t.comparators[0], ast.Constant):
                    k = t.comparators[0].value
                    if isinstance(t.ops[0], ast.GtE) and k >= hi or isinstance(t.ops[0], (ast.Gt,)) and k >= hi - 1 \
                            or isinstance(t.ops[0], ast.Eq) and k >= hi:
                        return True
        n, p = p, src.parents.get(p)
    return False


def conjuncts(t, op=ast.And):
    if isinstance(t, ast.BoolOp) and isinstance(t.op, op):
        return [y for x in t.values for y in conjuncts(x, op)]
    return [t]


def excludes(f, fl, test, stmts, v, taken):
    """this arm does nothing in the cases where the verbosity decides between the arms: `A and verbose` with an else-arm of tests on the
    same small integer that are false whenever A is true (or the dual)"""
    neg = []
    if taken:
        return False
    free = [x for x in conjuncts(test) if not v.tainted(f, x)]
    if not free or not stmts:
        return False
    arms = []
    while True:
        if len(stmts) == 1 and isinstance(stmts[0], ast.If):
            arms.append(stmts[0].test)
            rest = stmts[0].orelse
            if strip_log(stmts[0].body):
                neg.append(stmts[0].test)
            stmts = rest
            continue
        if strip_log(stmts):
            return False
        break
    if not neg:
        return True
    names = {n.id for x in free + arms for n in ast.walk(x) if isinstance(n, ast.Name) and fl.const(f, n) is None}
    names2 = {n.id for x in free for n in ast.walk(x) if isinstance(n, ast.Name) and fl.const(f, n) is None}
    if len(names2) != 1:
        return False
    nm = names2.pop()
    env = {n.id: fl.const(f, n)[0] for x in free + neg for n in ast.walk(x) if isinstance(n, ast.Name) and fl.const(f, n) is not None}
    usable = [x for x in free if small(x, nm, env)]
    tests = [x for x in neg if small(x, nm, env)]
    if not usable or len(tests) != len(neg):
        return False
    for i in range(0x10000):
        env[nm] = i
        if all(fold(x, env) for x in usable) and any(fold(x, env) for x in tests):
            return False
    return True


def small(x, nm, env):
    return all(isinstance(n, (ast.Compare, ast.Name, ast.Constant, ast.BinOp, ast.BitAnd, ast.RShift, ast.cmpop, ast.Load, ast.BoolOp, ast.boolop,
                              ast.UnaryOp, ast.Not)) and (not isinstance(n, ast.Name) or n.id == nm or n.id in env)
               and (not isinstance(n, ast.Constant) or isinstance(n.value, int)) for n in ast.walk(x))


def fold(x, env):
    if isinstance(x, ast.Constant):
        return x.value
    if isinstance(x, ast.Name):
        return env[x.id]
    if isinstance(x, ast.BinOp):
        a, b = fold(x.left, env), fold(x.right, env)
        return a & b if isinstance(x.op, ast.BitAnd) else a >> b
    if isinstance(x, ast.UnaryOp):
        return not fold(x.operand, env)
    if isinstance(x, ast.BoolOp):
        vs = [fold(y, env) for y in x.values]
        return all(vs) if isinstance(x.op, ast.And) else any(vs)
    a = fold(x.left, env)
    for op, y in zip(x.ops, x.comparators):
        b = fold(y, env)
        ok = {ast.Eq: a == b, ast.NotEq: a != b, ast.Lt: a < b, ast.LtE: a <= b, ast.Gt: a > b, ast.GtE: a >= b}.get(type(op), True)
        if not ok:
            return False
        a = b
    return True


def is_log(f, e):
    t = ast.unparse(e)
    return t.split('.')[-1] in ('logfile', 'fout', 'f', 'file', 'fhandle', 'outfile')


def strip_log(stmts):
    out = []
    for s in stmts:
        if isinstance(s, ast.Pass):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            continue
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id in LOGGERS:
            continue
        out.append(s)
    return [ast.dump(s) for s in out]


def same_effect(s):
    """both arms do the same apart from messages"""
    return bool(s.orelse) and strip_log(s.body) == strip_log(s.orelse)


def same_stores(s):
    """names both arms set to the same thing"""
    def top(stmts):
        return {x.targets[0].id: ast.dump(x.value) for x in stmts
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name)}
    a, b = top(s.body), top(s.orelse)
    return [n for n in a if b.get(n) == a[n]]


def only_return(f, fl, s):
    """every return gives the same expression"""
    rs = [n for n in f.body_nodes() if isinstance(n, ast.Return) and not fl.dead(f, n)]
    return len({ast.dump(r.value) if r.value is not None else 'None' for r in rs}) == 1 and fl.leaves(f, f.node.body[-1])


def C05(c):
    """Everything that depends on the verbosity is found by dataflow from the option; code that runs only at some verbosity may write
    messages but not store into objects or tables, consume input, leave the function with another result, or raise."""
    R = 'messages-only'
    c.rule(R, 'code executed only at some verbosity writes messages and nothing else; no stored or returned value depends on verbosity')
    src = Source(c.prog, normal=True)
    fl = Flow(src)
    fl.complete()
    c.guard(R, c05_flow, c, R, src, fl)
    R2 = 'same-failures'
    c.rule(R2, 'no record fails at a high verbosity that does not fail at verbosity 0')
    c.guard(R2, same_failures, c, R2)


def c05_flow(c, R, src, fl):
    v = Verbosity(c, src, fl)
    for (f, line, msg), (g, node, m) in sorted(v.problems.items(), key=lambda x: (x[0][0].qual, x[0][1])):
        c.bad(R, g.where(node), m, '%s|%s|%s' % (R, g.qual, ast.unparse(node)[:60]))
    c.ok(R, v.checked - len(v.problems) if v.checked > len(v.problems) else 0)
    c.count('functions', len(v.live))
    c.count('verbosity-dependent conditions', v.nguards)
    c.count('statements under them', v.checked)
    c.count('verbosity-dependent variables', len(v.vars))


# ------------------------------------------------------------ the same failures at every verbosity
FAILS = ('badunpack', 'keyerror', 'implicit_raise', 'typeerror', 'badcall', 'raise')


_SHIELDED = {}


def shielded(prog, e):
    """one of the calls that led here is made inside a `try` that catches everything"""
    if 'spans' not in _SHIELDED:
        sp = set()
        for m in prog.modules.values():
            for t in ast.walk(m.tree):
                if isinstance(t, ast.Try) and catches_all(t):
                    for x in t.body:
                        for y in ast.walk(x):
                            if isinstance(y, (ast.Call, ast.Raise, ast.Subscript)):
                                sp.add((m.path, y.lineno))
        _SHIELDED['spans'] = sp
    sp = _SHIELDED['spans']
    if (e.path, e.line) in sp:
        return True
    s = e.sites
    while s is not None:
        if (s[2], getattr(s[0], 'lineno', 0)) in sp:
            return True
        s = s[3]
    return False


def fail_select(s, j):
    out = set()
    for e in s.it.events:
        if e.kind in FAILS and not shielded(s.it.program, e):
            if e.kind == 'keyerror' and e.data[1][0] not in ('c',):
                continue
            out.add((j[:-1], j[-1], e.kind, e.where()))
    return out


def same_failures(c, R):
    from .. import sweep as W
    js = [j for j in W.jobs(c.prog, versions=(21, 45, 80), verbosities=(0, 4)) if j[0] != 'formula']
    facts, visited, errs = W.sweep(c.prog, fail_select, js)
    c.errors.extend(errs[:5])
    quiet, loud = set(), set()
    for j, vb, kind, where in facts:
        (loud if vb else quiet).add((j, kind, where))
    n = 0
    seen = set()
    for j, kind, where in sorted(loud - quiet, key=repr):
        if (kind, where) in seen:
            continue
        seen.add((kind, where))
        n += 1
        c.bad(R, where, '%s only at high verbosity (%s %#x, version %d)' % (kind, j[0], j[1], j[2]), '%s|%s|%s' % (R, kind, where.split(' in ')[-1]))
    c.ok(R, len({j for j in js}) - n)
    c.count('record handlers compared between verbosities', len(js) // 2)
