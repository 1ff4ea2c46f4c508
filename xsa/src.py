"""Syntactic index of the package: modules, scopes, functions, names, and a conservative call resolution."""
import ast
import builtins
import os

BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__path__', '__package__', '__spec__'}


class Fn(object):
    def __init__(self, qual, node, module, cls, parent):
        self.qual = qual
        self.node = node
        self.module = module        # Mod
        self.cls = cls              # class qualified name or None
        self.parent = parent        # enclosing Fn or None
        self.name = getattr(node, 'name', '<lambda>')
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg:
            self.params.append(a.vararg.arg)
        if a.kwarg:
            self.params.append(a.kwarg.arg)
        self.globals = set()
        self.nonlocals = set()
        self.locals = set(self.params)
        self.children = []
        self._nodes = None

    def where(self, node=None):
        return '%s:%d %s' % (self.module.path, (node or self.node).lineno, self.qual.split('.', 1)[-1])

    def body_nodes(self):
        """all nodes of this function, not of nested functions or classes"""
        if self._nodes is None:
            self._nodes = own_nodes(self.node)
        return self._nodes


class Mod(object):
    def __init__(self, name, path, tree):
        self.name = name
        self.path = path
        self.tree = tree
        self.names = {}             # top-level name -> list of binding nodes
        self.imports = {}           # name -> ('mod', modname) | ('from', modname, attr)
        self.stars = []
        self.classes = {}           # class name -> ClassDef


def own_nodes(fnode, include_self=False):
    """nodes of a function body without descending into nested defs (defaults and decorators of nested ones included)"""
    out = []
    body = fnode.body if isinstance(fnode.body, list) else [fnode.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
            kids = list(n.args.defaults) + [d for d in n.args.kw_defaults if d is not None]
            kids += getattr(n, 'decorator_list', [])
            stack.extend(reversed(kids))
            continue
        if isinstance(n, ast.ClassDef):
            stack.extend(reversed(n.bases + n.decorator_list))
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))
    return out


def stored_names(t):
    for n in ast.walk(t):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            yield n.id


from .normal import normal as to_normal


class Source(object):
    def __init__(self, prog, extra=(), normal=False):
        self.prog = prog
        self.mods = {}
        self.fns = []
        self.by_qual = {}
        self.by_node = {}
        self.parents = {}
        self.methods = {}           # method name -> [Fn]
        self.class_bases = {}
        for name, m in prog.modules.items():
            self.add(name, m.path, to_normal(m.tree) if normal else m.tree)
        for name, path in extra:
            with open(path, 'rb') as f:
                self.add(name, os.path.relpath(path, prog.root), ast.parse(f.read(), path))
        self.callees = {}

    # ------------------------------------------------------------- indexing
    def add(self, name, path, tree):
        mod = Mod(name, path, tree)
        self.mods[name] = mod
        for p in ast.walk(tree):
            for ch in ast.iter_child_nodes(p):
                self.parents[ch] = p
        self.scan(mod, tree.body, name, None, None)
        self.bind_module(mod)

    def scan(self, mod, body, prefix, cls, parent):
        stack = list(reversed(body if isinstance(body, list) else [body]))
        while stack:
            n = stack.pop()
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                nm = getattr(n, 'name', '<lambda:%d>' % n.lineno)
                fn = Fn(prefix + '.' + nm, n, mod, cls, parent)
                self.fns.append(fn)
                self.by_qual.setdefault(fn.qual, fn)
                self.by_node[n] = fn
                if parent is not None:
                    parent.children.append(fn)
                if cls is not None and parent is None:
                    self.methods.setdefault(nm, []).append(fn)
                self.bind_locals(fn)
                self.scan(mod, n.body, prefix + '.' + nm, cls if parent is None and cls else None, fn)
                for d in list(n.args.defaults) + [x for x in n.args.kw_defaults if x]:
                    self.scan(mod, d, prefix, cls, parent)
                continue
            if isinstance(n, ast.ClassDef):
                q = prefix + '.' + n.name
                mod.classes.setdefault(n.name, n)
                self.class_bases[q] = (n, mod)
                self.scan(mod, n.body, q, q, None if parent is None else parent)
                continue
            stack.extend(reversed(list(ast.iter_child_nodes(n))))

    def bind_locals(self, fn):
        for n in fn.body_nodes():
            if isinstance(n, ast.Global):
                fn.globals |= set(n.names)
            elif isinstance(n, ast.Nonlocal):
                fn.nonlocals |= set(n.names)
        for n in fn.body_nodes():
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                fn.locals.add(n.id)
            elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                fn.locals.add(n.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    fn.locals.add((a.asname or a.name).split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                for a in n.names:
                    fn.locals.add(a.asname or a.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                fn.locals.add(n.name)
        fn.locals -= fn.globals | fn.nonlocals

    def bind_module(self, mod):
        def visit(n):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
                mod.names.setdefault(n.name, []).append(n)
                return
            if isinstance(n, ast.Lambda):
                return
            if isinstance(n, ast.Import):
                for a in n.names:
                    k = (a.asname or a.name).split('.')[0]
                    mod.names.setdefault(k, []).append(n)
                    mod.imports[k] = ('mod', a.name if a.asname else a.name.split('.')[0])
                return
            if isinstance(n, ast.ImportFrom):
                base = self.absmod(mod, n)
                for a in n.names:
                    if a.name == '*':
                        mod.stars.append(base)
                    else:
                        mod.names.setdefault(a.asname or a.name, []).append(n)
                        mod.imports[a.asname or a.name] = ('from', base, a.name)
                return
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                mod.names.setdefault(n.id, []).append(n)
            if isinstance(n, ast.ExceptHandler) and n.name:
                mod.names.setdefault(n.name, []).append(n)
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                return
            for ch in ast.iter_child_nodes(n):
                visit(ch)
        for s in mod.tree.body:
            visit(s)
        for fn in self.fns:
            if fn.module is mod:
                for g in fn.globals:
                    for n in fn.body_nodes():
                        if isinstance(n, ast.Name) and n.id == g and isinstance(n.ctx, ast.Store):
                            mod.names.setdefault(g, []).append(n)

    def absmod(self, mod, n):
        if not n.level:
            return n.module
        parts = mod.name.split('.')
        is_pkg = mod.path.endswith('__init__.py')
        base = parts if is_pkg else parts[:-1]
        base = base[:len(base) - (n.level - 1)]
        return '.'.join(base + ([n.module] if n.module else []))

    # ------------------------------------------------------------ resolution
    def module_names(self, name, seen=None):
        """names a module of the package binds, star imports included"""
        seen = seen or set()
        if name in seen or name not in self.mods:
            return set()
        seen.add(name)
        m = self.mods[name]
        out = set(m.names)
        for s in m.stars:
            if s in self.mods:
                pub = self.all_of(s)
                names = self.module_names(s, seen)
                out |= {x for x in names if (x in pub if pub is not None else not x.startswith('_'))}
            else:
                out |= ext_names(s) or {'*'}
        return out

    def all_of(self, name):
        v = self.prog.modules[name].env.get('__all__') if name in self.prog.modules else None
        if v is None:
            return None
        h = self.prog.heap.get(v[1]) if v[0] == 'ref' else None
        its = h.items if h is not None else (v[1] if v[0] == 'tuple' else None)
        if its is None:
            return None
        return {x[2] for x in its if x[0] == 'c'}

    def lookup_module(self, modname, name, seen=None):
        """-> ('func', Fn) | ('class', qual) | ('mod', name) | ('ext', dotted) | ('name', Mod, name) | None"""
        seen = seen or set()
        if (modname, name) in seen or modname not in self.mods:
            return None
        seen.add((modname, name))
        m = self.mods[modname]
        if name in m.imports and all(isinstance(b, (ast.Import, ast.ImportFrom)) for b in m.names[name]):
            i = m.imports[name]
            if i[0] == 'mod':
                return ('mod', i[1]) if i[1] in self.mods else ('ext', i[1])
            full = i[1] + '.' + i[2]
            if full in self.mods:
                return ('mod', full)
            if i[1] in self.mods:
                return self.lookup_module(i[1], i[2], seen)
            return ('ext', full)
        if name in m.names:
            b = m.names[name]
            if len(b) == 1 and isinstance(b[0], (ast.FunctionDef,)):
                return ('func', self.by_qual.get(modname + '.' + name))
            if len(b) == 1 and isinstance(b[0], ast.ClassDef):
                return ('class', modname + '.' + name)
            return ('name', m, name)
        for s in m.stars:
            if s in self.mods:
                r = self.lookup_module(s, name, seen)
                if r is not None:
                    return r
            elif name in (ext_names(s) or ()):
                return ('ext', s + '.' + name)
        return None

    def scope_lookup(self, fn, name):
        """how a name used in a function resolves: ('local', Fn) | module lookup | ('builtin', name) | None"""
        f = fn
        first = True
        while f is not None:
            if name in f.locals and (first or True):
                return ('local', f)
            f = f.parent
            first = False
        r = self.lookup_module(fn.module.name, name)
        if r is not None:
            return r
        if name in BUILTINS:
            return ('builtin', name)
        return None

    def mro(self, q, seen=None):
        seen = seen or []
        if q in seen or q not in self.class_bases:
            return seen
        seen.append(q)
        node, mod = self.class_bases[q]
        for b in node.bases:
            r = None
            if isinstance(b, ast.Name):
                r = self.lookup_module(mod.name, b.id)
            elif isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
                x = self.lookup_module(mod.name, b.value.id)
                if x and x[0] == 'mod':
                    r = self.lookup_module(x[1], b.attr)
            if r and r[0] == 'class':
                self.mro(r[1], seen)
        return seen

    def method_of(self, q, name):
        for c in self.mro(q):
            fn = self.by_qual.get(c + '.' + name)
            if fn is not None:
                return fn
        return None

    def resolve(self, fn, expr):
        """targets of a callee expression: (list of Fn, list of class quals, ext dotted name or None)"""
        if isinstance(expr, ast.Name):
            r = self.scope_lookup(fn, expr.id)
            if r is None:
                return [], [], None
            if r[0] == 'local':
                owner = r[1]
                for ch in owner.children:
                    if ch.name == expr.id:
                        return [ch], [], None
                # a local alias: x = something
                outf, outc, ext = [], [], None
                for n in owner.body_nodes():
                    v = None
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == expr.id for t in n.targets):
                        v = n.value
                    elif isinstance(n, ast.ImportFrom) and any((a.asname or a.name) == expr.id for a in n.names):
                        base = self.absmod(fn.module, n)
                        a = [a for a in n.names if (a.asname or a.name) == expr.id][0]
                        rr = self.lookup_module(base, a.name) if base in self.mods else ('ext', '%s.%s' % (base, a.name))
                        if rr and rr[0] == 'func':
                            outf.append(rr[1])
                        elif rr and rr[0] == 'class':
                            outc.append(rr[1])
                        elif rr and rr[0] == 'ext':
                            ext = rr[1]
                        continue
                    if isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and v.id == expr.id):
                        a, b, e = self.resolve(owner, v)
                        outf += a
                        outc += b
                        ext = ext or e
                return outf, outc, ext
            return self.as_target(r)
        if isinstance(expr, ast.Attribute):
            base = expr.value
            if isinstance(base, ast.Name):
                if base.id in ('self', 'cls') and fn.cls:
                    owner = fn
                    m = self.method_of(fn.cls, expr.attr)
                    if m is not None:
                        return [m] + self.overriders(fn.cls, expr.attr, m), [], None
                    return self.instance_alias(fn.cls, expr.attr)
                r = self.scope_lookup(fn, base.id)
                if r is not None and r[0] == 'mod':
                    x = self.lookup_module(r[1], expr.attr)
                    return self.as_target(x) if x else ([], [], None)
                if r is not None and r[0] == 'ext':
                    return [], [], r[1] + '.' + expr.attr
                if r is not None and r[0] == 'class':
                    m = self.method_of(r[1], expr.attr)
                    return ([m] if m else []), [], None
            ms = self.methods.get(expr.attr, [])
            if not ms:
                # functions installed as methods on a class: Class.name = function
                ms = self.installed().get(expr.attr, [])
            return list(ms), [], None
        return [], [], None

    def overriders(self, cls, name, m):
        return [x for x in self.methods.get(name, []) if x is not m and cls in self.mro(x.cls)]

    def instance_alias(self, cls, attr):
        """self.attr = self.other_method / function"""
        out = []
        for m in self.fns:
            for n in m.body_nodes():
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and t.attr == attr and isinstance(n.value, ast.Attribute):
                            if isinstance(n.value.value, ast.Name) and n.value.value.id == 'self' and m.cls:
                                x = self.method_of(m.cls, n.value.attr)
                                if x is not None:
                                    out.append(x)
        if not out:
            out = list(self.installed().get(attr, []))
        return out, [], None

    def installed(self):
        if getattr(self, '_installed', None) is None:
            d = {}
            for m in self.fns:
                for n in m.body_nodes():
                    if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name):
                        for t in n.targets:
                            if isinstance(t, ast.Attribute):
                                r = self.scope_lookup(m, n.value.id)
                                if r and r[0] == 'func' and r[1] is not None:
                                    d.setdefault(t.attr, []).append(r[1])
            # methods installed through a list of functions and setattr(cls, f.__name__, f)
            for q, fn in self.by_qual.items():
                if fn.cls is None and fn.parent is None and fn.params[:1] in (['self'], ['book']):
                    d.setdefault(fn.name, []).append(fn)
            self._installed = d
        return self._installed

    def as_target(self, r):
        if r[0] == 'func' and r[1] is not None:
            return [r[1]], [], None
        if r[0] == 'class':
            return [], [r[1]], None
        if r[0] in ('ext', 'builtin'):
            return [], [], r[1]
        if r[0] == 'name':
            # a module-level alias of a function
            m = r[1]
            outs = []
            for b in m.names[r[2]]:
                p = self.parents.get(b)
                if isinstance(p, ast.Assign) and isinstance(p.value, ast.Name) and p.value.id != r[2]:
                    x = self.lookup_module(m.name, p.value.id)
                    if x and x[0] in ('func', 'class', 'ext'):
                        return self.as_target(x)
            for f in self.fns:
                if f.module is m and f.parent is None and f.cls is None and f.name == r[2]:
                    outs.append(f)
            if outs:
                return outs, [], None
        return [], [], None

    def enclosing(self, node):
        n = self.parents.get(node)
        while n is not None:
            if n in self.by_node:
                return self.by_node[n]
            n = self.parents.get(n)
        return None

    def calls(self, fn):
        """[(Call node, [Fn], [class], ext)] of a function body"""
        if fn not in self.callees:
            out = []
            for n in fn.body_nodes():
                if isinstance(n, ast.Call):
                    a, b, e = self.resolve(fn, n.func)
                    out.append((n, a, b, e))
            self.callees[fn] = out
        return self.callees[fn]

    def reach(self, roots):
        """functions reachable from the roots (by call, or by being mentioned as a value)"""
        seen, todo = set(), list(roots)
        while todo:
            f = todo.pop()
            if f in seen or f is None:
                continue
            seen.add(f)
            todo.extend(f.children)
            for n, fs, cs, e in self.calls(f):
                todo.extend(fs)
                for c in cs:
                    m = self.method_of(c, '__init__')
                    if m:
                        todo.append(m)
            for n in f.body_nodes():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    r = self.scope_lookup(f, n.id)
                    if r and r[0] == 'func':
                        todo.append(r[1])
                elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    todo.extend(self.methods.get(n.attr, []))
        return seen


_EXT = {}


def ext_names(mod):
    """public names of a module of the standard library (None if it cannot be inspected)"""
    if mod not in _EXT:
        try:
            import importlib
            _EXT[mod] = set(dir(importlib.import_module(mod)))
        except Exception:
            _EXT[mod] = None
    return _EXT[mod]
