"""Forward may-flow of values through names, attributes, parameters and results (flow-insensitive, interprocedural)."""
import ast


class Taint(object):
    """expressions that may denote one of the source values itself (not something computed from it)"""

    def __init__(self, src, source):
        self.src = src
        self.source = source            # (Fn, node) -> bool
        self.vars = set()
        self.attrs = set()
        self.rets = {}                  # Fn -> set of positions in the returned tuple, None for the result itself
        changed = True
        rounds = 0
        while changed and rounds < 30:
            rounds += 1
            before = (len(self.vars), len(self.attrs), sum(len(v) for v in self.rets.values()))
            for fn in src.fns:
                self.scan(fn)
            changed = before != (len(self.vars), len(self.attrs), sum(len(v) for v in self.rets.values()))

    def owner(self, fn, name):
        r = self.src.scope_lookup(fn, name)
        return (r[1], name) if r is not None and r[0] == 'local' else None

    def expr(self, fn, n):
        if self.source(fn, n):
            return True
        if isinstance(n, ast.Name):
            o = self.owner(fn, n.id)
            return o in self.vars if o is not None else ('global', n.id) in self.vars
        if isinstance(n, ast.Attribute):
            return n.attr in self.attrs
        if isinstance(n, ast.IfExp):
            return self.expr(fn, n.body) or self.expr(fn, n.orelse)
        if isinstance(n, ast.BoolOp):
            return any(self.expr(fn, v) for v in n.values)
        if isinstance(n, ast.NamedExpr):
            return self.expr(fn, n.value)
        if isinstance(n, ast.Call):
            return any(None in self.rets.get(f, ()) for f in self.targets(fn, n))
        if isinstance(n, ast.Subscript):
            ps = self.positions(fn, n.value)
            if ps and isinstance(n.slice, ast.Constant):
                return n.slice.value in ps
        return False

    def targets(self, fn, call):
        fs, cs, e = self.src.resolve(fn, call.func)
        return fs

    def positions(self, fn, n):
        """positions of source values in a tuple-valued expression"""
        if isinstance(n, (ast.Tuple, ast.List)):
            return {i for i, x in enumerate(n.elts) if self.expr(fn, x)}
        if isinstance(n, ast.Call):
            out = set()
            for f in self.targets(fn, n):
                out |= {p for p in self.rets.get(f, ()) if p is not None}
            return out
        if isinstance(n, ast.IfExp):
            return self.positions(fn, n.body) | self.positions(fn, n.orelse)
        return set()

    def bind(self, fn, t, value):
        if isinstance(t, (ast.Tuple, ast.List)):
            ps = self.positions(fn, value)
            for i, x in enumerate(t.elts):
                if i in ps:
                    self.mark(fn, x)
        elif self.expr(fn, value):
            self.mark(fn, t)

    def mark(self, fn, t):
        if isinstance(t, ast.Name):
            self.vars.add(self.owner(fn, t.id) or ('global', t.id))
        elif isinstance(t, ast.Attribute):
            self.attrs.add(t.attr)

    def scan(self, fn):
        for n in fn.body_nodes():
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    self.bind(fn, t, n.value)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                self.bind(fn, n.target, n.value)
            elif isinstance(n, ast.NamedExpr):
                self.bind(fn, n.target, n.value)
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                self.bind(fn, n.optional_vars, n.context_expr)
            elif isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, (ast.Tuple, ast.List)):
                if any(self.expr(fn, x) for x in n.iter.elts):
                    self.mark(fn, n.target)
            elif isinstance(n, ast.Return) and n.value is not None:
                if self.expr(fn, n.value):
                    self.rets.setdefault(fn, set()).add(None)
                for p in self.positions(fn, n.value):
                    self.rets.setdefault(fn, set()).add(p)
            elif isinstance(n, ast.Call):
                self.call(fn, n)
            elif isinstance(n, ast.Lambda):
                pass

    def call(self, fn, n):
        hit = [i for i, a in enumerate(n.args) if not isinstance(a, ast.Starred) and self.expr(fn, a)]
        kws = [k.arg for k in n.keywords if k.arg and self.expr(fn, k.value)]
        if not hit and not kws:
            return
        fs, cs, e = self.src.resolve(fn, n.func)
        fs = [(f, f.cls is not None and not self.unbound(fn, n)) for f in fs]
        for c in cs:
            m = self.src.method_of(c, '__init__')
            if m is not None:
                fs.append((m, True))
        for f, bound in fs:
            pos = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
            skip = 1 if bound and not static(f) else 0
            if not bound and f.cls is None and isinstance(n.func, ast.Attribute) and pos[:1] in (['self'], ['book']) and len(n.args) < len(pos):
                skip = 1            # a function installed as a method
            for i in hit:
                if i + skip < len(pos):
                    self.vars.add((f, pos[i + skip]))
            for k in kws:
                if k in f.params:
                    self.vars.add((f, k))

    def unbound(self, fn, n):
        f = n.func
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            r = self.src.scope_lookup(fn, f.value.id)
            return r is not None and r[0] in ('class',)
        return False


def static(f):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(f.node, 'decorator_list', []))
