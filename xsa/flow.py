"""Call graph with argument binding, dead branches under constant conditions, and backward origins of a value."""
import ast
from .taint import static

# the documented ways into the package
FUNCTION_ROOTS = ('xlrd.open_workbook', 'xlrd.book.open_workbook_xls', 'xlrd.inspect_format', 'xlrd.xldate.xldate_as_tuple',
                  'xlrd.xldate.xldate_as_datetime', 'xlrd.xldate.xldate_from_date_tuple', 'xlrd.xldate.xldate_from_time_tuple',
                  'xlrd.xldate.xldate_from_datetime_tuple', 'xlrd.formula.cellname', 'xlrd.formula.cellnameabs', 'xlrd.formula.colname',
                  'xlrd.formula.rangename2d', 'xlrd.formula.rangename3d', 'xlrd.formula.rangename3drel', 'xlrd.formatting.nearest_colour_index',
                  'xlrd.formatting.is_date_format_string', 'xlrd.formula.evaluate_name_formula', 'xlrd.formula.decompile_formula',
                  'xlrd.formula.dump_formula')
CLASS_ROOTS = ('xlrd.book.Book', 'xlrd.book.Name', 'xlrd.sheet.Sheet', 'xlrd.sheet.Cell', 'xlrd.formula.Ref3D', 'xlrd.formula.Operand')
NOT_READING = ('xlrd.dump', 'xlrd.count_records')


class Flow(object):
    def __init__(self, src, roots=None):
        self.src = src
        self.roots = set(roots if roots is not None else default_roots(src))
        self.args = {}              # callee Fn -> [(caller Fn, call, {param: expr or ('self', expr)})]
        self.consts = {}
        self.params_known = False
        self.live = self.reach(self.roots)

    def complete(self):
        """every live call is known: a parameter that always receives the same constant is constant too"""
        self.params_known = True
        self.consts = {}

    # ------------------------------------------------------------ reachability over live code
    def reach(self, roots):
        seen, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f in seen or f is None:
                continue
            seen.add(f)
            todo.extend(f.children)
            for call, fs, cs, ext in self.src.calls(f):
                if self.dead(f, call):
                    continue
                for g in fs:
                    todo.append(g)
                    self.args.setdefault(g, []).append((f, call, bind_args(self.src, f, call, g)))
                for q in cs:
                    m = self.src.method_of(q, '__init__')
                    if m is not None:
                        todo.append(m)
                        self.args.setdefault(m, []).append((f, call, bind_args(self.src, f, call, m, True)))
            for n in f.body_nodes():
                g = None
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    r = self.src.scope_lookup(f, n.id)
                    if r and r[0] == 'func':
                        g = r[1]
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    p = self.src.parents.get(n)
                    if not (isinstance(p, ast.Call) and p.func is n):
                        if isinstance(n.value, ast.Name) and n.value.id == 'self' and f.cls:
                            g = self.src.method_of(f.cls, n.attr)
                        elif isinstance(n.value, ast.Name) and n.value.id != 'self':
                            r = self.src.scope_lookup(f, n.value.id)
                            if r and r[0] in ('mod', 'class'):
                                a, b, e = self.src.resolve(f, n)
                                todo.extend(a)
                if g is not None:
                    todo.append(g)
        return seen

    # ------------------------------------------------------------ constant conditions
    def const(self, f, e, depth=0):
        """value of a condition that is constant whatever the input, as a 1-tuple; None otherwise"""
        if depth > 6:
            return None
        if isinstance(e, ast.Constant):
            return (e.value,)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.const(f, e.operand, depth + 1)
            return None if v is None else (not v[0],)
        if isinstance(e, ast.BoolOp):
            vs = [self.const(f, x, depth + 1) for x in e.values]
            if isinstance(e.op, ast.And):
                if any(v is not None and not v[0] for v in vs):
                    return (False,)
                return (True,) if all(v is not None for v in vs) else None
            if any(v is not None and v[0] for v in vs):
                return (True,)
            return (False,) if all(v is not None for v in vs) else None
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            a, b = self.const(f, e.left, depth + 1), self.const(f, e.comparators[0], depth + 1)
            if a is None or b is None:
                return None
            import operator
            op = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le, ast.Gt: operator.gt,
                  ast.GtE: operator.ge}.get(type(e.ops[0]))
            try:
                return (op(a[0], b[0]),) if op else None
            except TypeError:
                return None
        if isinstance(e, ast.Attribute) and self.params_known and e.attr.isupper():
            got = set()
            for g in self.src.fns:
                for x in g.body_nodes():
                    if isinstance(x, ast.Attribute) and x.attr == e.attr and isinstance(x.ctx, ast.Store) and g in self.live:
                        p = self.src.parents.get(x)
                        got.add(self.const(g, p.value, depth + 1) if isinstance(p, ast.Assign) else None)
            return got.pop() if len(got) == 1 else None
        if isinstance(e, ast.Name):
            r = self.src.scope_lookup(f, e.id)
            if r is None:
                return None
            if r[0] == 'local':
                if e.id in r[1].params:
                    return self.param_const(r[1], e.id, depth) if self.params_known else None
                vals = []
                for n in r[1].body_nodes():
                    if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, (ast.Store, ast.Del)):
                        p = self.src.parents.get(n)
                        if not isinstance(p, ast.Assign):
                            return None
                        vals.append(p.value)
                got = {self.const(r[1], v, depth + 1) for v in vals}
                if len(got) == 1 and None not in got:
                    return got.pop()
                if got and None not in got and len({bool(g[0]) for g in got}) == 1 and len(got) > 1:
                    return None
                return None
            if r[0] == 'name':
                m, nm = r[1], r[2]
                if any(nm in g.globals for g in self.src.fns if g.module is m):
                    return None
                bs = m.names.get(nm, [])
                if len(bs) != 1:
                    return None
                p = self.src.parents.get(bs[0])
                if isinstance(p, ast.Assign) and isinstance(p.value, ast.Constant):
                    return (p.value.value,)
        return None

    def param_const(self, f, name, depth):
        if f in self.roots or f not in self.args or any(isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, (ast.Store, ast.Del))
                                                        for n in f.body_nodes()):
            return None
        got = set()
        for caller, call, b in self.args[f]:
            if name in b:
                if b[name] == '?':
                    return None
                got.add(self.const(caller, b[name], depth + 1))
            else:
                d = default_of(f, name)
                got.add(self.const(outer(self.src, f), d, depth + 1) if d is not None else None)
        return got.pop() if len(got) == 1 else None

    def dead(self, f, node):
        """node sits in a branch no execution takes because its condition is constant, or after an unconditional exit"""
        n = node
        while n is not None and n is not f.node:
            p = self.src.parents.get(n)
            if p is None:
                return False
            if isinstance(p, (ast.If, ast.While, ast.IfExp)):
                body = p.body if isinstance(p.body, list) else [p.body]
                orelse = p.orelse if isinstance(p.orelse, list) else [p.orelse]
                c = None
                if n is not p.test:
                    c = self.test_const(f, p)
                if c is not None:
                    if any(n is x for x in body) and not c[0]:
                        return True
                    if any(n is x for x in orelse) and c[0] and not isinstance(p, ast.While):
                        return True
            elif isinstance(p, ast.BoolOp):
                i = [k for k, x in enumerate(p.values) if x is n]
                if i:
                    for x in p.values[:i[0]]:
                        c = self.const(f, x)
                        if c is not None and bool(c[0]) == isinstance(p.op, ast.Or):
                            return True
            for field in ('body', 'orelse', 'finalbody'):
                l = getattr(p, field, None)
                if isinstance(l, list) and any(n is x for x in l):
                    for s in l:
                        if s is n:
                            break
                        if self.leaves(f, s):
                            return True
            n = p
        return False

    def test_const(self, f, p):
        k = (f, p)
        if k not in self.consts:
            self.consts[k] = self.const(f, p.test)
        return self.consts[k]

    def leaves(self, f, s):
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
            return True
        if isinstance(s, ast.If):
            c = self.test_const(f, s)
            if c is not None:
                return any(self.leaves(f, x) for x in (s.body if c[0] else s.orelse))
            return bool(s.orelse) and any(self.leaves(f, x) for x in s.body) and any(self.leaves(f, x) for x in s.orelse)
        return False

    # ------------------------------------------------------------ origins
    def origins(self, f, e, leaf, seen=None):
        """set of leaf descriptions a value may come from; leaf(f, e) -> description or None to go on"""
        seen = seen if seen is not None else set()
        if e is None:
            return set()
        k = leaf(f, e)
        if k is not None:
            return {k}
        if isinstance(e, ast.Constant):
            return {('const', e.value, f, e)}
        if isinstance(e, ast.IfExp):
            c = self.const(f, e.test)
            out = set()
            if c is None or c[0]:
                out |= self.origins(f, e.body, leaf, seen)
            if c is None or not c[0]:
                alt = self.origins(f, e.orelse, leaf, seen)
                out |= alt
            nm = none_test(e.test)
            return none_guard(out, nm)
        if isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or):
            out = self.origins(f, e.values[0], leaf, seen)
            rest = set()
            for v in e.values[1:]:
                rest |= self.origins(f, v, leaf, seen)
            return {x for x in out if not (x[0] == 'const' and not x[1])} | ({('fallback', x, f, e) if not falsy_possible(out) else x for x in rest})
        if isinstance(e, ast.NamedExpr):
            return self.origins(f, e.value, leaf, seen)
        if isinstance(e, ast.Name):
            r = self.src.scope_lookup(f, e.id)
            if r is None:
                return {('unknown', f, e)}
            if r[0] == 'local':
                return self.local_origins(r[1], e.id, leaf, seen)
            if r[0] == 'name':
                m, nm = r[1], r[2]
                out = set()
                key = ('mod', m.name, nm)
                if key in seen:
                    return set()
                seen.add(key)
                for b in m.names.get(nm, []):
                    p = self.src.parents.get(b)
                    if isinstance(p, ast.Assign):
                        out |= self.origins(any_fn(self.src, m), p.value, leaf, seen)
                    else:
                        out.add(('unknown', f, e))
                return out
            return {('unknown', f, e)}
        if isinstance(e, ast.Attribute):
            key = ('attr', e.attr)
            if key in seen:
                return set()
            seen.add(key)
            out = set()
            n = 0
            for g in self.src.fns:
                for x in g.body_nodes():
                    if isinstance(x, ast.Attribute) and x.attr == e.attr and isinstance(x.ctx, ast.Store):
                        p = self.src.parents.get(x)
                        if g not in self.live or self.dead(g, x):
                            continue
                        n += 1
                        if isinstance(p, ast.Assign):
                            out |= {weak(o, g) for o in self.origins(g, p.value, leaf, seen)}
                        elif isinstance(p, ast.Tuple) and isinstance(self.src.parents.get(p), ast.Assign):
                            q = self.src.parents[p]
                            if isinstance(q.value, ast.Tuple) and len(q.value.elts) == len(p.elts):
                                out |= self.origins(g, q.value.elts[[i for i, y in enumerate(p.elts) if y is x][0]], leaf, seen)
                            else:
                                out.add(('unknown', g, x))
                        else:
                            out.add(('unknown', g, x))
            return out if n else {('unknown', f, e)}
        return {('unknown', f, e)}

    def local_origins(self, f, name, leaf, seen):
        key = ('local', f, name)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        if name in f.params:
            out |= self.param_origins(f, name, leaf, seen)
        guarded = set()
        for n in f.body_nodes():
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                if self.dead(f, n):
                    continue
                p = self.src.parents.get(n)
                if isinstance(p, ast.Assign):
                    o = self.origins(f, p.value, leaf, seen)
                    pp = self.src.parents.get(p)
                    if isinstance(pp, ast.If) and any(p is x for x in pp.body) and none_test(pp.test) == name:
                        guarded |= o
                    else:
                        out |= o
                elif isinstance(p, ast.withitem):
                    out |= self.origins(f, p.context_expr, leaf, seen)
                else:
                    out.add(('unknown', f, n))
        if guarded:
            nones = [x for x in out if x[0] == 'const' and not x[1]]
            out -= set(nones)
            if nones:
                out |= {('fallback', g, nones[0][2], nones[0][3]) for g in guarded}
            elif any(x[0] == 'root' and falsy_default(x) for x in out):
                pass
        return out

    def param_origins(self, f, name, leaf, seen):
        out = set()
        if f in self.roots:
            out.add(('root', f, name))
        for caller, call, b in self.args.get(f, []):
            if caller not in self.live:
                continue
            if name in b:
                v = b[name]
                if v == '?':
                    out.add(('unknown', caller, call))
                else:
                    out |= self.origins(caller, v, leaf, seen)
            else:
                d = default_of(f, name)
                if d is not None:
                    for o in self.origins(outer(self.src, f), d, leaf, seen):
                        out.add(('default', o, caller, call, f, name))
        if not self.args.get(f) and f not in self.roots:
            out.add(('unknown', f, f.node))
        return out


def weak(o, g):
    """a value an object starts out with, before the one that counts is stored"""
    return o


def none_test(t):
    """name in `name is None` or `not name`"""
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Is) and isinstance(t.left, ast.Name) \
            and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
        return t.left.id
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not) and isinstance(t.operand, ast.Name):
        return t.operand.id
    return None


def none_guard(out, nm):
    return out


def falsy_possible(out):
    return any(x[0] == 'const' and not x[1] for x in out)


def falsy_default(x):
    d = default_of(x[1], x[2])
    return isinstance(d, ast.Constant) and not d.value


def any_fn(src, mod):
    """a function whose scope is just the module's"""
    for f in src.fns:
        if f.module is mod and f.parent is None and f.cls is None:
            return outer(src, f)
    for f in src.fns:
        if f.module is mod:
            return outer(src, f)
    return None


class _ModuleScope(object):
    parent = None
    cls = None
    params = ()
    children = ()

    def __init__(self, mod):
        self.module = mod
        self.locals = set()
        self.globals = set()
        self.qual = mod.name
        self.name = mod.name
        self.node = mod.tree

    def body_nodes(self):
        return []

    def where(self, node=None):
        return '%s:%d' % (self.module.path, getattr(node, 'lineno', 1))


_outer = {}


def outer(src, f):
    """the scope in which a function's defaults are evaluated"""
    if f.parent is not None:
        return f.parent
    k = f.module
    if k not in _outer:
        _outer[k] = _ModuleScope(k)
    return _outer[k]


def default_of(f, name):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def bind_args(src, fn, call, g, init=False):
    """parameter name -> argument expression ('?' when it cannot be told)"""
    pos = [x.arg for x in g.node.args.posonlyargs + g.node.args.args]
    out = {}
    i = 0
    if init or (g.cls is not None and g.parent is None and not static(g)):
        base = call.func.value if isinstance(call.func, ast.Attribute) else None
        unbound = False
        if isinstance(base, ast.Name):
            r = src.scope_lookup(fn, base.id)
            unbound = r is not None and r[0] == 'class'
        if not unbound:
            if pos and base is not None and not init:
                out[pos[0]] = base
            i = 1
    elif isinstance(call.func, ast.Attribute) and g.cls is None and pos[:1] in (['self'], ['book']) and len(call.args) < len(pos):
        base = call.func.value
        r = src.scope_lookup(fn, base.id) if isinstance(base, ast.Name) else None
        if not (r is not None and r[0] == 'mod'):
            out[pos[0]] = base
            i = 1
    star = False
    for a in call.args:
        if isinstance(a, ast.Starred):
            star = True
            continue
        if star:
            continue
        if i < len(pos):
            out[pos[i]] = a
        i += 1
    for k in call.keywords:
        if k.arg is None:
            star = True
        else:
            out[k.arg] = k.value
    if star:
        for p in g.params:
            out.setdefault(p, '?')
    return out


def default_roots(src):
    out = []
    for q in FUNCTION_ROOTS:
        f = src.by_qual.get(q)
        if f is not None:
            out.append(f)
    for q in CLASS_ROOTS:
        for f in src.fns:
            if f.cls == q and f.parent is None and (not f.name.startswith('_') or f.name.startswith('__') and f.name != '__init__'):
                out.append(f)
    return out
