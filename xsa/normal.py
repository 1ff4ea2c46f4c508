"""A normal form of conditions: the rules that look at the shape of conditions see one shape of each."""
import ast
import copy

NEG = {ast.Lt: ast.GtE, ast.GtE: ast.Lt, ast.Gt: ast.LtE, ast.LtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot,
       ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
SWAP = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}


def negative(t):
    """the negation of t, when t itself reads as a negation of something simpler; else None"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.NotEq, ast.IsNot, ast.NotIn)):
        return ast.copy_location(ast.Compare(t.left, [NEG[type(t.ops[0])]()], t.comparators), t)
    if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.Or):
        vs = [negative(v) for v in t.values]
        if all(v is not None for v in vs):
            return ast.copy_location(ast.BoolOp(ast.And(), vs), t)
    return None


class Normal(ast.NodeTransformer):
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in SWAP and isinstance(n.left, ast.Constant) and not isinstance(n.comparators[0], ast.Constant):
            return ast.copy_location(ast.Compare(n.comparators[0], [SWAP[type(n.ops[0])]()], [n.left]), n)
        return n

    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Not) and isinstance(n.operand, ast.Compare) and len(n.operand.ops) == 1:
            c = n.operand
            return ast.copy_location(ast.Compare(c.left, [NEG[type(c.ops[0])]()], c.comparators), n)
        return n

    def arms(self, n):
        self.generic_visit(n)
        if n.orelse:
            t = negative(n.test)
            if t is not None:
                n.test, n.body, n.orelse = t, n.orelse, n.body
        return n

    visit_If = arms
    visit_IfExp = arms


def normal(tree):
    return temporaries(Normal().visit(constants(copy.deepcopy(tree))))


# ------------------------------------------------------------------ temporaries
def head(s):
    """the expression nodes of statement s that are evaluated exactly once, as (owner, field) pairs"""
    if isinstance(s, (ast.Expr, ast.Return, ast.Assign, ast.AugAssign, ast.AnnAssign)):
        return [(s, 'value')] if s.value is not None else []
    if isinstance(s, ast.If):
        return [(s, 'test')]
    if isinstance(s, ast.For):
        return [(s, 'iter')]
    if isinstance(s, ast.Raise):
        return [(s, 'exc')] if s.exc is not None else []
    return []


class Replace(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value, self.done = name, value, 0

    def skip(self, n):
        return n

    visit_Lambda = visit_GeneratorExp = visit_ListComp = visit_SetComp = visit_DictComp = skip

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            self.done += 1
            return self.value
        return n


def fold_temporaries(fn):
    """`t = expression` read once, by the next statement, is read as that expression in its place"""
    uses, stores, fixed = {}, {}, set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name):
            d = uses if isinstance(n.ctx, ast.Load) else stores
            d[n.id] = d.get(n.id, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            fixed.update(n.names)
    a = fn.args
    fixed.update(x.arg for x in a.args + a.kwonlyargs + a.posonlyargs + [y for y in (a.vararg, a.kwarg) if y])
    if any(isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('locals', 'vars', 'eval', 'exec') for n in ast.walk(fn)):
        return
    for n in ast.walk(fn):
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(n, field, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            i = len(b) - 2
            while i >= 0:
                s = b[i]
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and i + 1 < len(b):
                    t = s.targets[0].id
                    if uses.get(t) == 1 and stores.get(t) == 1 and t not in fixed:
                        for owner, f in head(b[i + 1]):
                            r = Replace(t, s.value)
                            setattr(owner, f, r.visit(getattr(owner, f)))
                            if r.done:
                                del b[i]
                                break
                i -= 1


def aliases(fn):
    """`other = parameter`, neither bound again: other is read as the parameter"""
    stores = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn:
            for x in ast.walk(n.args):
                if isinstance(x, ast.arg):
                    stores[x.arg] = stores.get(x.arg, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores[x] = stores.get(x, 0) + 2
    params = {x.arg for x in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    m = {}
    for s in fn.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Name):
            t, v = s.targets[0].id, s.value.id
            if v in params and v not in stores and stores.get(t) == 1 and t not in params:
                m[t] = v
    if m:
        for n in ast.walk(fn):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in m:
                n.id = m[n.id]


def constants(tree):
    """a module-level name bound once, to a number or text, is read as it (unless a function binds the same name)"""
    stores = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load):
            stores[n.id] = stores.get(n.id, 0) + 1
        elif isinstance(n, ast.arg):
            stores[n.arg] = stores.get(n.arg, 0) + 1
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            stores[n.name] = stores.get(n.name, 0) + 1
        elif isinstance(n, ast.alias):
            x = (n.asname or n.name).split('.')[0]
            stores[x] = stores.get(x, 0) + 1
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            for x in n.names:
                stores[x] = stores.get(x, 0) + 2
    m = {}
    for s in tree.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Constant) \
                and stores.get(s.targets[0].id) == 1:
            m[s.targets[0].id] = s.value

    class Put(ast.NodeTransformer):
        def visit_Name(self, n):
            if isinstance(n.ctx, ast.Load) and n.id in m:
                return ast.copy_location(ast.Constant(m[n.id].value), n)
            return n
    return Put().visit(tree)


def temporaries(tree):
    for n in ast.walk(tree):
        if isinstance(n, ast.FunctionDef):
            aliases(n)
            fold_temporaries(n)
    return tree
