"""C07 workbooks are independent: nothing mutable is shared through module, class or default-argument state."""
import ast
from ..src import Source
from ..flow import Flow

MUTATORS = {'append', 'extend', 'insert', 'update', 'setdefault', 'pop', 'popitem', 'clear', 'remove', 'sort', 'reverse',
            'add', 'discard', '__setitem__', '__delitem__', 'appendleft', 'popleft', 'intersection_update',
            'difference_update', 'symmetric_difference_update', 'fromlist', 'frombytes', 'byteswap'}
MUTABLE_CALLS = {'list', 'dict', 'set', 'bytearray', 'array', 'array.array', 'defaultdict', 'collections.defaultdict',
                 'OrderedDict', 'collections.OrderedDict', 'Counter', 'collections.Counter', 'deque', 'collections.deque',
                 'WeakValueDictionary', 'weakref.WeakValueDictionary', 'WeakKeyDictionary', 'weakref.WeakKeyDictionary'}
ELEMENT_CALLS = {'get', 'setdefault', 'pop', 'popitem', 'values', 'items', 'itervalues', 'iteritems'}
CACHES = ('lru_cache', 'cache', 'memoize', 'memoise', 'cached')
IMPURE = ('open', 'stat', 'read', 'mmap', 'getenv', 'time', 'random')


def mutable_expr(src, mod, e):
    if isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)):
        return True
    if isinstance(e, ast.Call):
        t = ast.unparse(e.func)
        if t in MUTABLE_CALLS:
            return True
        if isinstance(e.func, ast.Name):
            r = src.lookup_module(mod.name, e.func.id)
            if r and r[0] == 'class':
                return True
    if isinstance(e, ast.BinOp):
        return mutable_expr(src, mod, e.left) or mutable_expr(src, mod, e.right)
    return False


def nested_mutable(src, mod, e):
    if isinstance(e, ast.Dict):
        return any(v is not None and mutable_expr(src, mod, v) for v in e.values)
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        return any(mutable_expr(src, mod, v) for v in e.elts)
    if isinstance(e, ast.DictComp):
        return mutable_expr(src, mod, e.value)
    if isinstance(e, (ast.ListComp, ast.SetComp)):
        return mutable_expr(src, mod, e.elt)
    if isinstance(e, ast.Call) and ast.unparse(e.func).endswith('defaultdict') and e.args:
        return True
    return False


class Shared(object):
    def __init__(self, prog):
        self.src = src = Source(prog, normal=True)
        self.flow = Flow(src)
        self.live = set(self.flow.live)
        self.module_places = {}
        for m in src.mods.values():
            for name, binds in m.names.items():
                for b in binds:
                    p = src.parents.get(b)
                    if isinstance(p, (ast.Assign, ast.AnnAssign)) and getattr(p, 'value', None) is not None and \
                            mutable_expr(src, m, p.value):
                        self.module_places[(m.name, name)] = (m, p)
        self.class_places = {}
        for q, (node, mod) in src.class_bases.items():
            for s in node.body:
                if isinstance(s, ast.Assign) and mutable_expr(src, mod, s.value):
                    for t in s.targets:
                        if isinstance(t, ast.Name):
                            self.class_places[(q, t.id)] = (mod, s)
        self.memo = {}
        self.stores = {}
        for f in src.fns:
            if f not in self.live:
                continue
            for n in f.body_nodes():
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.stores.setdefault(n.attr, []).append((f, n))

    # ------------------------------------------------------------ classes of receivers
    def class_of(self, f, e):
        if isinstance(e, ast.Name):
            if e.id == 'self' and f.cls:
                return f.cls
            r = self.src.scope_lookup(f, e.id)
            if r and r[0] == 'local':
                out = set()
                for n in r[1].body_nodes():
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                        c = None
                        if isinstance(n.value, ast.Call):
                            cs = self.src.resolve(r[1], n.value.func)[1]
                            c = cs[0] if len(cs) == 1 else None
                        out.add(c)
                if e.id in r[1].params:
                    out.add(None)
                if len(out) == 1:
                    return next(iter(out))
        return None

    def related(self, a, b):
        if a is None or b is None:
            return True
        return a in self.src.mro(b) or b in self.src.mro(a)

    def is_class_expr(self, f, e):
        """the class an expression denotes, '?' for type(x)/x.__class__ of unknown class, or None"""
        if isinstance(e, ast.Attribute) and e.attr == '__class__':
            return self.class_of(f, e.value) or '?'
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'type' and len(e.args) == 1:
            return self.class_of(f, e.args[0]) or '?'
        if isinstance(e, (ast.Name, ast.Attribute)):
            if isinstance(e, ast.Name):
                if e.id == 'cls' and f.params[:1] == ['cls']:
                    return f.cls
                r = self.src.scope_lookup(f, e.id)
                if r and r[0] == 'class':
                    return r[1]
                if r and r[0] == 'local':
                    for n in r[1].body_nodes():
                        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) \
                                and not (isinstance(n.value, ast.Name) and n.value.id == e.id):
                            c = self.is_class_expr(r[1], n.value)
                            if c:
                                return c
            else:
                fs, cs, ext = self.src.resolve(f, e)
                if cs:
                    return cs[0]
        return None

    # ------------------------------------------------------------ shared places an expression may denote
    def places(self, f, e, seen=None, elem=False):
        seen = set() if seen is None else seen
        key = (f, id(e), elem)
        if e is None or key in seen:
            return set()
        seen.add(key)
        if isinstance(e, ast.Name):
            r = self.src.scope_lookup(f, e.id)
            if r is None:
                return set()
            if r[0] == 'local':
                return self.local_places(r[1], e.id, seen, elem)
            if r[0] == 'name':
                return self.module_name(r[1], r[2], seen, elem)
            return set()
        if isinstance(e, ast.Attribute):
            if isinstance(e.value, ast.Name):
                r = self.src.scope_lookup(f, e.value.id)
                if r and r[0] == 'mod':
                    x = self.src.lookup_module(r[1], e.attr)
                    if x and x[0] == 'name':
                        return self.module_name(x[1], x[2], seen, elem)
                    return set()
            return self.attr_places(f, e, seen, elem)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return set() if not elem else self.places(f, e.value, seen, True)
            return self.places(f, e.value, seen, True)
        if isinstance(e, ast.IfExp):
            return self.places(f, e.body, seen, elem) | self.places(f, e.orelse, seen, elem)
        if isinstance(e, ast.BoolOp):
            out = set()
            for v in e.values:
                out |= self.places(f, v, seen, elem)
            return out
        if isinstance(e, (ast.NamedExpr, ast.Starred)):
            return self.places(f, e.value, seen, elem)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Attribute) and e.func.attr in ELEMENT_CALLS:
                return self.places(f, e.func.value, seen, True)
            out = set()
            fs, cs, ext = self.src.resolve(f, e.func)
            for g in fs:
                if any(d.split('.')[-1].split('(')[0] in CACHES for d in map(ast.unparse, getattr(g.node, 'decorator_list', []))):
                    if any(isinstance(n, ast.Return) and n.value is not None and self.maybe_mutable(g, n.value)
                           for n in g.body_nodes()):
                        out.add(('memo', g.qual))
                for n in g.body_nodes():
                    if isinstance(n, ast.Return) and n.value is not None:
                        out |= self.places(g, n.value, seen, elem)
            if not fs and not cs and elem and ext in ('list', 'tuple', 'sorted', 'reversed', 'iter', 'enumerate', 'zip') and e.args:
                for a in e.args:
                    out |= self.places(f, a, seen, True)
            return out
        return set()

    def maybe_mutable(self, g, e):
        if mutable_expr(self.src, g.module, e):
            return True
        if isinstance(e, ast.Name):
            for n in g.body_nodes():
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and \
                        mutable_expr(self.src, g.module, n.value):
                    return True
        return False

    def module_name(self, m, name, seen, elem):
        key = ('modname', m.name, name, elem)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        p = self.module_places.get((m.name, name))
        if p is not None:
            if not elem or nested_mutable(self.src, p[0], p[1].value):
                out.add(('module', m.name, name, elem))
        from ..flow import any_fn
        for b in m.names.get(name, []):
            q = self.src.parents.get(b)
            if isinstance(q, ast.Assign) and isinstance(q.value, (ast.Name, ast.Attribute, ast.Subscript)):
                out |= self.places(any_fn(self.src, m), q.value, seen, elem)
        return out

    def local_places(self, f, name, seen, elem):
        key = ('local', f, name, elem)
        if key in seen:
            return set()
        seen.add(key)
        out = set()
        if name in f.params:
            a = f.node.args
            pos = a.posonlyargs + a.args
            for x, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + \
                    [(x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
                if x.arg == name:
                    if mutable_expr(self.src, f.module, d) and (not elem or nested_mutable(self.src, f.module, d)):
                        out.add(('default', f.qual, name, elem))
                    else:
                        out |= self.places(f, d, seen, elem)
            for caller, call, b in self.flow.args.get(f, []):
                if caller in self.live and name in b and isinstance(b[name], ast.AST):
                    out |= self.places(caller, b[name], seen, elem)
        for n in f.body_nodes():
            if isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store):
                p = self.src.parents.get(n)
                if isinstance(p, (ast.Assign, ast.AnnAssign)):
                    out |= self.places(f, p.value, seen, elem)
                elif isinstance(p, ast.NamedExpr):
                    out |= self.places(f, p.value, seen, elem)
                elif isinstance(p, (ast.For, ast.comprehension)) and p.target is n:
                    out |= self.places(f, p.iter, seen, True)
                elif isinstance(p, (ast.Tuple, ast.List)):
                    q = self.src.parents.get(p)
                    i = [j for j, y in enumerate(p.elts) if y is n][0]
                    if isinstance(q, ast.Assign):
                        if isinstance(q.value, (ast.Tuple, ast.List)) and len(q.value.elts) == len(p.elts):
                            out |= self.places(f, q.value.elts[i], seen, elem)
                        else:
                            out |= self.places(f, q.value, seen, True)
                    elif isinstance(q, (ast.For, ast.comprehension)) and q.target is p:
                        if isinstance(q.iter, (ast.Tuple, ast.List)) and all(isinstance(x, (ast.Tuple, ast.List)) for x in q.iter.elts):
                            for x in q.iter.elts:
                                if i < len(x.elts):
                                    out |= self.places(f, x.elts[i], seen, elem)
                        else:
                            out |= self.places(f, q.iter, seen, True)
        return out

    def attr_places(self, f, e, seen, elem):
        out = set()
        c = self.is_class_expr(f, e.value)
        cls = c if c and c != '?' else self.class_of(f, e.value)
        key = ('attr', cls, bool(c), e.attr, elem)
        if key in seen:
            return set()
        seen.add(key)
        if c:
            for (q, a), (mod, s) in self.class_places.items():
                if a == e.attr and (c == '?' or self.related(c, q)) and (not elem or nested_mutable(self.src, mod, s.value)):
                    out.add(('class', q, a, elem))
        for g, n in self.stores.get(e.attr, []):
            if not self.related(cls, self.class_of(g, n.value)):
                continue
            if self.flow.dead(g, n):
                continue
            p = self.src.parents.get(n)
            if isinstance(p, (ast.Assign, ast.AnnAssign)):
                out |= self.places(g, p.value, seen, elem)
            elif isinstance(p, (ast.Tuple, ast.List)) and isinstance(self.src.parents.get(p), ast.Assign):
                q = self.src.parents[p]
                i = [j for j, y in enumerate(p.elts) if y is n][0]
                if isinstance(q.value, (ast.Tuple, ast.List)) and len(q.value.elts) == len(p.elts):
                    out |= self.places(g, q.value.elts[i], seen, elem)
        if not c:
            for (q, a), (mod, s) in self.class_places.items():
                if a == e.attr and self.related(cls, q) and (not elem or nested_mutable(self.src, mod, s.value)):
                    out.add(('unshadowed', q, a, elem))
        return out

    # ------------------------------------------------------------ per-instance shadowing of a class-level container
    def shadowed(self, q, attr, site=None):
        """True: every instance gets its own object before use; False: never; None: only on some paths"""
        init = self.src.method_of(q, '__init__')
        cond = False
        roots = [init] if init is not None else []
        for f in self.src.fns:
            if f in self.live and any(q in cs for _, _, cs, _ in self.src.calls(f)):
                roots.append(f)
        for r in roots:
            x = self.assigns(r, attr, 0, set())
            if x is True:
                return True
            if x is None:
                cond = True
        if site is not None:
            x = self.assigns(site, attr, 3, set())
            if x is True:
                return True
        if cond:
            # replaced on some paths of the constructor only, and nowhere else
            if init is not None and all(g is init for g, n in self.stores.get(attr, []) if self.related(q, self.class_of(g, n.value))):
                return False
            return None
        return None if any(True for g, n in self.stores.get(attr, []) if self.related(q, self.class_of(g, n.value))
                           and not isinstance(self.src.parents.get(n), ast.AugAssign)) else False

    def assigns(self, f, attr, depth, seen):
        if f is None or f in seen or depth > 4:
            return False
        seen.add(f)
        return self.block_assigns(f, f.node.body if isinstance(f.node.body, list) else [], attr, depth, seen)

    def block_assigns(self, f, body, attr, depth, seen):
        some = False
        for s in body:
            x = self.stmt_assigns(f, s, attr, depth, seen)
            if x is True:
                return True
            if x is None:
                some = True
        return None if some else False

    def stmt_assigns(self, f, s, attr, depth, seen):
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            ts = s.targets if isinstance(s, ast.Assign) else [s.target]
            for t in ts:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, ast.Attribute) and x.attr == attr:
                        return True
        if isinstance(s, ast.If):
            a, b = self.block_assigns(f, s.body, attr, depth, seen), self.block_assigns(f, s.orelse, attr, depth, seen)
            return True if a is True and b is True else False if a is False and b is False else None
        if isinstance(s, (ast.For, ast.While)):
            a = self.block_assigns(f, s.body, attr, depth, seen)
            return None if a is not False else False
        if isinstance(s, (ast.With, ast.Try)):
            a = self.block_assigns(f, s.body, attr, depth, seen)
            if a is not False:
                return a
            if isinstance(s, ast.Try):
                return self.block_assigns(f, s.finalbody, attr, depth, seen)
            return False
        some = False
        for n in ast.walk(s):
            if isinstance(n, ast.Call):
                if isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) == 3 and \
                        isinstance(n.args[1], ast.Constant) and n.args[1].value == attr:
                    return True
                for g in self.src.resolve(f, n.func)[0]:
                    x = self.assigns(g, attr, depth + 1, seen)
                    if x is True:
                        return True
                    if x is None:
                        some = True
        return None if some else False

    # ------------------------------------------------------------ memo tables
    def deps(self, f, e, seen=None):
        """what a value depends on: parameters, attributes of parameters, and impure calls"""
        seen = set() if seen is None else seen
        out = set()
        if e is None:
            return out
        for n in ast.walk(e):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, 'id', '')
                if nm in IMPURE:
                    out.add('call ' + nm)
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                r = self.src.scope_lookup(f, n.id)
                if not (r and r[0] == 'local'):
                    continue
                p = self.src.parents.get(n)
                chain = n.id
                if n.id in r[1].params:
                    if isinstance(p, ast.Attribute) and p.value is n:
                        chain = n.id + '.' + p.attr
                    out.add(chain)
                key = (r[1], n.id)
                if key in seen:
                    continue
                seen.add(key)
                for x in r[1].body_nodes():
                    if isinstance(x, ast.Name) and x.id == n.id and isinstance(x.ctx, ast.Store):
                        q = self.src.parents.get(x)
                        while q is not None and not isinstance(q, (ast.stmt, ast.comprehension)):
                            q = self.src.parents.get(q)
                        if isinstance(q, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                            out |= self.deps(f, q.value, seen)
                        elif isinstance(q, (ast.For, ast.comprehension)):
                            out |= self.deps(f, q.iter, seen)
                        elif isinstance(q, ast.With):
                            for it in q.items:
                                out |= self.deps(f, it.context_expr, seen)
                        # control dependence
                        q = self.src.parents.get(q) if isinstance(q, ast.stmt) else None
                        while q is not None and q is not r[1].node:
                            if isinstance(q, (ast.If, ast.While)):
                                out |= self.deps(f, q.test, seen)
                            elif isinstance(q, ast.For):
                                out |= self.deps(f, q.iter, seen)
                            q = self.src.parents.get(q)
        return out

    def memo_pure(self, f, k, v):
        dk, dv = self.deps(f, k), self.deps(f, v)
        for d in dv:
            if d in dk or d.split('.')[0] in dk:
                continue
            return False, d
        return True, None

    def initially_empty(self, p):
        e = self.module_places[(p[1], p[2])][1].value if p[0] == 'module' and (p[1], p[2]) in self.module_places else \
            self.class_places[(p[1], p[2])][1].value if p[0] == 'class' and (p[1], p[2]) in self.class_places else None
        return e is None or isinstance(e, ast.Dict) and not e.keys or isinstance(e, (ast.List, ast.Set)) and not e.elts or \
            isinstance(e, ast.Call) and not e.args

    def missing_test(self, f, n, base):
        """the store happens only where the container was found not to hold the key"""
        t = ast.unparse(base)
        p = self.src.parents.get(n)
        while p is not None and p is not f.node:
            if isinstance(p, ast.If) and t in ast.unparse(p.test) or isinstance(p, ast.ExceptHandler):
                return True
            p = self.src.parents.get(p)
        return False

    def is_read(self, place):
        """is the shared object looked at anywhere, other than to mutate it?"""
        kind = place[0]
        if kind in ('default', 'memo') or kind in ('class', 'unshadowed') and not place[2].startswith('_'):
            return True
        for f in self.live:
            for n in f.body_nodes():
                if kind == 'module' and isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id == place[2]:
                    r = self.src.scope_lookup(f, n.id)
                    if not (r and r[0] == 'name' and r[1].name == place[1]):
                        continue
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == place[2]:
                    pass
                else:
                    continue
                p = self.src.parents.get(n)
                if isinstance(p, ast.Subscript) and p.value is n and not isinstance(p.ctx, ast.Load):
                    continue
                if isinstance(p, ast.Attribute) and p.value is n and p.attr in MUTATORS:
                    g = self.src.parents.get(p)
                    if isinstance(g, ast.Call) and isinstance(self.src.parents.get(g), ast.Expr):
                        continue
                return True
        return False


def describe(p):
    if p[0] == 'module':
        return 'the module-level object %s.%s' % (p[1].split('.')[-1], p[2])
    if p[0] == 'class':
        return 'the class attribute %s.%s' % (p[1].split('.')[-1], p[2])
    if p[0] == 'unshadowed':
        return 'the class attribute %s.%s, which no constructor replaces' % (p[1].split('.')[-1], p[2])
    if p[0] == 'default':
        return 'the default value of parameter %s of %s' % (p[2], p[1].split('.')[-1])
    return 'the memoised result of %s' % p[1].split('.')[-1]


def sites(sh, f):
    """(node, base expression, key expression or None, value expression or None, how)"""
    for n in f.body_nodes():
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            k = v = None
            if n.func.attr in ('setdefault', '__setitem__') and len(n.args) == 2:
                k, v = n.args
            yield n, n.func.value, k, v, '.%s()' % n.func.attr
        elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)):
            p = sh.src.parents.get(n)
            v = p.value if isinstance(p, ast.Assign) else None
            yield n, n.value, n.slice if v is not None else None, v, 'item store'
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, (ast.Name, ast.Attribute)):
            yield n, n.target, None, None, 'in-place operator'
        elif isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n, n.value, None, None, 'attribute store'


def function_values(sh, f, e):
    """every value the expression may have is a function of the package or a constant"""
    if isinstance(e, (ast.Constant, ast.Lambda)):
        return True
    if isinstance(e, ast.Name):
        r = sh.src.scope_lookup(f, e.id)
        if r is None:
            return False
        if r[0] in ('func', 'class', 'builtin', 'ext'):
            return True
        if r[0] == 'name':
            binds = r[1].names.get(r[2], [])
            return bool(binds) and all(isinstance(b, ast.FunctionDef) or isinstance(sh.src.parents.get(b), ast.Assign) and
                                       isinstance(sh.src.parents[b].value, (ast.Constant, ast.Tuple, ast.UnaryOp, ast.Name))
                                       for b in binds)
        if r[0] == 'local':
            ok = e.id not in r[1].params
            n_ = 0
            for n in r[1].body_nodes():
                if isinstance(n, ast.Name) and n.id == e.id and isinstance(n.ctx, ast.Store):
                    n_ += 1
                    p = sh.src.parents.get(n)
                    if isinstance(p, ast.Assign):
                        ok = ok and function_values(sh, f, p.value)
                    elif isinstance(p, ast.For) and isinstance(p.iter, (ast.Tuple, ast.List)):
                        ok = ok and all(function_values(sh, f, x) for x in p.iter.elts)
                    elif isinstance(p, ast.For) and isinstance(p.iter, ast.Name):
                        ok = ok and const_sequence(sh, f, p.iter)
                    else:
                        ok = False
            return ok and n_ > 0
    return False


def const_sequence(sh, f, e):
    r = sh.src.scope_lookup(f, e.id)
    if not r:
        return False
    if r[0] == 'local' and e.id not in r[1].params:
        vs = [n.value for n in r[1].body_nodes() if isinstance(n, ast.Assign) and
              any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
    elif r[0] == 'name':
        vs = [sh.src.parents[b].value for b in r[1].names.get(r[2], []) if isinstance(sh.src.parents.get(b), ast.Assign)]
    else:
        return False
    return bool(vs) and all(isinstance(v, (ast.Tuple, ast.List)) and all(function_values(sh, f, x) for x in v.elts) for v in vs)


def mutations(c, sh, rule='mutation', only=None):
    for f in sorted(sh.live, key=lambda g: g.qual):
        if only is not None and not only(f):
            continue
        for n, base, k, v, how in sites(sh, f):
            if sh.flow.dead(f, n):
                continue
            c.count('mutation_sites')
            where = f.where(n)
            if how == 'attribute store':
                cls = sh.is_class_expr(f, base)
                mod = None
                if isinstance(base, ast.Name):
                    r = sh.src.scope_lookup(f, base.id)
                    mod = r[1] if r and r[0] == 'mod' else None
                if cls or mod:
                    p = sh.src.parents.get(n)
                    val = getattr(p, 'value', None)
                    if isinstance(p, ast.Assign) and function_values(sh, f, val):
                        c.ok(rule, sample='%s: constant stored on a class' % where)
                    else:
                        c.bad(rule, where, 'stores %s on %s: every workbook in the process shares it'
                              % (ast.unparse(val)[:60] if val is not None else 'a value', ast.unparse(base)),
                              key='mutation|%s|%s' % (f.qual, ast.unparse(n)[:60]))
                    continue
            ps = sh.places(f, base)
            if how == 'in-place operator' and isinstance(base, ast.Attribute):
                cls = sh.is_class_expr(f, base.value)
                if cls and not sh.is_read(('class', cls, base.attr)):
                    c.ok(rule)
                    continue
                if cls:
                    c.bad(rule, where, 'updates %s in place: every workbook in the process shares it' % ast.unparse(base),
                          key='mutation|%s|%s' % (f.qual, ast.unparse(base)))
                    continue
            bad = None
            und = False
            for p in sorted(ps, key=repr):
                if p[0] == 'unshadowed':
                    x = sh.shadowed(p[1], p[2], f)
                    if x is True:
                        continue
                    if x is None:
                        und = True
                        continue
                if not sh.is_read(p):
                    continue
                if k is not None and v is not None and p[0] in ('module', 'class', 'default') and not p[3] and \
                        (isinstance(base, ast.Name) or isinstance(base, ast.Attribute) and sh.is_class_expr(f, base.value)):
                    pure, d = sh.memo_pure(f, k, v)
                    if pure and (sh.initially_empty(p) or how == '.setdefault()' or sh.missing_test(f, n, base)):
                        continue
                    if pure:
                        bad = (p, ' and was not empty to begin with')
                        break
                    bad = (p, '; what is stored depends on %s, the key does not' % d)
                    break
                bad = (p, '')
                break
            if bad:
                c.bad(rule, where, '%s on %s changes %s, which outlives the workbook%s' % (how, ast.unparse(base)[:50],
                      describe(bad[0]), bad[1]), key='mutation|%s|%s' % (f.qual, ast.unparse(base)[:60]))
            elif und:
                c.open(rule, '%s %s' % (where, ast.unparse(base)[:50]))
            else:
                c.ok(rule)


def globals_rule(c, sh, rule='globals', only=None):
    for f in sorted(sh.live, key=lambda g: g.qual):
        if only is not None and not only(f):
            continue
        for n in f.body_nodes():
            if not isinstance(n, (ast.Global, ast.Nonlocal)) or isinstance(n, ast.Nonlocal):
                continue
            for name in n.names:
                stores = [x for x in f.body_nodes() if isinstance(x, ast.Name) and x.id == name and not isinstance(x.ctx, ast.Load)]
                if not stores:
                    c.ok(rule, sample='%s: global %s never assigned' % (f.where(n), name))
                    continue
                readers = []
                for g in sh.live:
                    for x in g.body_nodes():
                        if isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Load):
                            r = sh.src.scope_lookup(g, name) if g is not f else ('name', f.module, name)
                            if g is f or r and r[0] == 'name' and r[1] is f.module and r[2] == name:
                                s = x
                                while s is not None and not isinstance(s, ast.stmt):
                                    s = sh.src.parents.get(s)
                                own = isinstance(s, (ast.Assign, ast.AugAssign)) and any(
                                    isinstance(t, ast.Name) and t.id == name for t in (s.targets if isinstance(s, ast.Assign) else [s.target]))
                                if not own:
                                    readers.append(g)
                bad = None
                for x in stores:
                    p = sh.src.parents.get(x)
                    if isinstance(p, ast.Assign) and not sh.deps(f, p.value):
                        continue
                    bad = x
                if bad is None or not readers:
                    c.ok(rule, sample='%s: global %s is the same for every workbook' % (f.where(n), name))
                else:
                    c.bad(rule, f.where(bad), 'assigns the module variable %s from data of one workbook; %s reads it for all'
                          % (name, readers[0].qual.split('.')[-1]), key='globals|%s|%s' % (f.qual, name))


def installs(c, sh):
    rule = 'installed'
    for f in sorted(sh.live, key=lambda g: g.qual):
        for n in f.body_nodes():
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and n.args):
                continue
            cls = sh.is_class_expr(f, n.args[0])
            r = sh.src.scope_lookup(f, n.args[0].id) if isinstance(n.args[0], ast.Name) else None
            if not cls and not (r and r[0] == 'mod'):
                c.ok(rule)
                continue
            if n.func.id == 'setattr' and len(n.args) == 3 and function_values(sh, f, n.args[2]):
                c.ok(rule, sample='%s: installs functions that are the same every time' % f.where(n))
            else:
                c.bad(rule, f.where(n), '%s on %s with a value that is not the same for every workbook'
                      % (n.func.id, ast.unparse(n.args[0])), key='installed|%s' % f.qual)


def shadows(c, sh):
    """class-level containers: every class whose instances are filled in place has its own"""
    rule = 'per-instance'
    for (q, a), (mod, s) in sorted(sh.class_places.items()):
        where = '%s:%d %s.%s' % (mod.path, s.lineno, q.split('.')[-1], a)
        muts = []
        for f in sh.live:
            for n, base, k, v, how in sites(sh, f):
                if isinstance(base, ast.Attribute) and base.attr == a and how != 'attribute store' and \
                        sh.related(q, sh.class_of(f, base.value)) and not sh.is_class_expr(f, base.value):
                    muts.append((f, n))
        if not muts:
            c.ok(rule, sample='%s is never changed in place' % where)
            continue
        x = sh.shadowed(q, a)
        if x is True:
            c.ok(rule, sample='%s replaced in the constructor; %d in-place sites' % (where, len(muts)))
        elif x is None and all(sh.shadowed(q, a, f) is True for f, n in muts):
            c.ok(rule, sample='%s replaced before each change' % where)
        elif x is None:
            c.open(rule, '%s: replaced only on some paths' % where)
        else:
            f, n = min(muts, key=lambda m: (m[0].qual, m[1].lineno))
            c.bad(rule, f.where(n), '%s.%s is changed in place but no constructor gives each object its own: all workbooks share '
                  'the one created at %s:%d' % (q.split('.')[-1], a, mod.path, s.lineno), key='per-instance|%s.%s' % (q, a))


def C07(c):
    """Every place in reachable code that changes an object in place (mutating method, item or attribute store, in-place
    operator) is traced back, through locals, parameters, attributes, return values and memoised functions, to the objects it
    may denote; an object bound at module level, at class level or as a default argument that is also read is reported,
    except a memo table whose entries depend on nothing but their key. Class-level containers filled in place must be
    replaced for each instance; global statements and setattr on classes may only store values that are the same for
    every workbook."""
    sh = Shared(c.prog)
    c.count('live_functions', len(sh.live))
    c.count('module_level_objects', len(sh.module_places))
    c.count('class_level_objects', len(sh.class_places))
    c.rule('mutation', 'no in-place change reaches an object that outlives the workbook')
    c.rule('per-instance', 'class-level containers are replaced per object before they are filled')
    c.rule('globals', 'module variables assigned at run time do not carry data of one workbook')
    c.rule('installed', 'what is installed on classes and modules at run time is the same every time')
    c.guard('mutation', mutations, c, sh)
    c.guard('per-instance', shadows, c, sh)
    c.guard('globals', globals_rule, c, sh)
    c.guard('installed', installs, c, sh)
