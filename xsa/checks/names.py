"""C30 names, attributes, call arguments and message formats resolve."""
import array
import ast
import datetime
import io
import mmap
import os
import re
import zipfile

from ..src import Source, BUILTINS, ext_names, own_nodes


def scripts(c):
    d = os.path.join(c.repo, 'scripts')
    out = []
    if os.path.isdir(d):
        for f in sorted(os.listdir(d)):
            if f.endswith('.py'):
                out.append((f[:-3], os.path.join(d, f)))
    return out


def source(c):
    return Source(c.prog, scripts(c))


def C30(c):
    """Every name, module attribute, instance attribute, call and message format of the library and of its command-line tool
    is looked up: names in their lexical scopes, imports and __all__ in the module they come from, attributes in the union of
    everything the package or the standard types define, call arguments against the signature of the function called, and
    conversion specifications against the number of values supplied."""
    c.rule('name', 'every name read is bound in an enclosing scope, the module, its star imports or the builtins')
    c.rule('import', 'every imported or exported name exists in the module it is taken from')
    c.rule('attribute', 'every attribute read from a module exists there; every attribute read from an object is defined somewhere')
    c.rule('call', 'the arguments of a call to a function of the package fit its parameters')
    c.rule('format', 'a message format consumes exactly the values it is given')
    c.rule('unbound', 'no local variable is read on a path that can never have assigned it')
    s = source(c)
    c.count('modules', len(s.mods))
    c.count('functions', len(s.fns))
    for rule, fn in (('name', names), ('import', imports), ('attribute', attributes), ('call', calls), ('format', formats),
                     ('unbound', unbound)):
        c.guard(rule, fn, c, s)


# --------------------------------------------------------------- names
def version_guarded(s, n):
    """under a test of the interpreter version, or in a try that handles the failure"""
    p, ch = s.parents.get(n), n
    while p is not None:
        if isinstance(p, ast.If):
            t = ast.dump(p.test)
            if 'version' in t:
                return True
            if isinstance(p.test, ast.Constant) and not p.test.value and any(ch is x for x in p.body):
                return True         # never executed
        if isinstance(p, ast.Try) and any(ch is x for x in p.body):
            for h in p.handlers:
                names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type else {'NameError'}
                if names & {'NameError', 'ImportError', 'Exception', 'AttributeError', 'BaseException'}:
                    return True
        if isinstance(p, ast.ExceptHandler) and p.type is not None and \
                {x.id for x in ast.walk(p.type) if isinstance(x, ast.Name)} & {'NameError', 'ImportError', 'AttributeError'}:
            return True
        ch, p = p, s.parents.get(p)
    return False


def names(c, s):
    for m in s.mods.values():
        modnames = s.module_names(m.name)
        if '*' in modnames:
            continue

        def known(x):
            return x in modnames or x in BUILTINS

        # module and class level
        cls_names = {}
        for n in own_nodes(m.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                if known(n.id) or in_comp(s, n):
                    c.ok('name')
                elif not version_guarded(s, n):
                    c.bad('name', '%s:%d' % (m.path, n.lineno), 'name %r is not defined' % n.id, 'name|%s|%s' % (m.name, n.id))
        for cn in m.classes.values():
            bound = set()
            for st in cn.body:
                for n in ast.walk(st) if not isinstance(st, ast.FunctionDef) else st.args.defaults:
                    for x in ast.walk(n):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            bound.add(x.id)
                if isinstance(st, ast.FunctionDef):
                    bound.add(st.name)
            for st in cn.body:
                if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
                    continue
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                        if known(n.id) or n.id in bound or in_comp(s, n) or in_lambda(s, n):
                            c.ok('name')
                        elif not version_guarded(s, n):
                            c.bad('name', '%s:%d' % (m.path, n.lineno), 'name %r is not defined in class %s' % (n.id, cn.name),
                                  'name|%s.%s|%s' % (m.name, cn.name, n.id))
        for fn in s.fns:
            if fn.module is not m:
                continue
            for n in fn.body_nodes():
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                    if s.scope_lookup(fn, n.id) is not None or known(n.id):
                        c.ok('name')
                    elif not version_guarded(s, n):
                        c.bad('name', fn.where(n), 'name %r is not defined' % n.id, 'name|%s|%s' % (fn.qual, n.id))


def in_comp(s, n):
    p = s.parents.get(n)
    while p is not None:
        if isinstance(p, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for g in p.generators:
                if n.id in {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}:
                    return True
        p = s.parents.get(p)
    return False


def in_lambda(s, n):
    p = s.parents.get(n)
    while p is not None:
        if isinstance(p, ast.Lambda):
            return True
        p = s.parents.get(p)
    return False


def imports(c, s):
    for m in s.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.ImportFrom):
                base = s.absmod(m, n)
                for a in n.names:
                    if a.name == '*':
                        continue
                    if base in s.mods:
                        have = s.module_names(base)
                        ok = a.name in have or '*' in have or base + '.' + a.name in s.mods
                    elif base == '__future__':
                        ok = True
                    else:
                        ns = ext_names(base)
                        ok = a.name in ns if ns is not None else version_guarded(s, n)
                    if ok:
                        c.ok('import')
                    elif not version_guarded(s, n):
                        c.bad('import', '%s:%d' % (m.path, n.lineno), 'module %s has no %r' % (base, a.name),
                              'import|%s|%s.%s' % (m.name, base, a.name))
            elif isinstance(n, ast.Import):
                for a in n.names:
                    root = a.name.split('.')[0]
                    if root in s.mods or ext_names(a.name) is not None:
                        c.ok('import')
                    elif not version_guarded(s, n) and not conditional(s, n):
                        c.bad('import', '%s:%d' % (m.path, n.lineno), 'no module %r' % a.name, 'import|%s|%s' % (m.name, a.name))
        al = s.all_of(m.name)
        for x in al or ():
            if x in s.module_names(m.name):
                c.ok('import')
            else:
                c.bad('import', m.path, '__all__ names %r, which the module does not define' % x, 'import|%s|__all__ %s' % (m.name, x))


def conditional(s, n):
    """an import inside a branch chosen by a command (an optional tool)"""
    p = s.parents.get(n)
    while p is not None:
        if isinstance(p, (ast.If, ast.Try)) and not ('__main__' in ast.dump(p.test) if isinstance(p, ast.If) else False):
            return True
        p = s.parents.get(p)
    return False


# --------------------------------------------------------------- attributes
STD_TYPES = (str, bytes, bytearray, list, dict, set, frozenset, tuple, int, float, complex, bool, BaseException, OSError,
             UnicodeDecodeError, SystemExit, slice, range, type, object, io.TextIOWrapper, io.BytesIO, io.StringIO, io.BufferedReader,
             mmap.mmap, array.array, zipfile.ZipFile, zipfile.ZipInfo, datetime.datetime, datetime.date, datetime.time,
             datetime.timedelta, type(lambda: 0), type((x for x in ())), type(re.compile('')), re.Match, memoryview, property)


_STD = set()


def std_attrs():
    if not _STD:
        for t in STD_TYPES:
            _STD.update(dir(t))
    return _STD


def option_dests(s):
    out = set()
    for m in s.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('add_option', 'add_argument'):
                dest = None
                for k in n.keywords:
                    if k.arg == 'dest' and isinstance(k.value, ast.Constant):
                        dest = k.value.value
                if dest is None:
                    longs = [a.value for a in n.args if isinstance(a, ast.Constant) and str(a.value).startswith('--')]
                    dest = (longs[0][2:] if longs else str(n.args[0].value).lstrip('-') if n.args and isinstance(n.args[0], ast.Constant) else '').replace('-', '_')
                out.add(dest)
    return out


def attributes(c, s):
    defined = set()
    per_class = {}
    foreign = set()
    consts = set()
    for m in s.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                defined.add(n.attr)
                if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                    foreign.add(n.attr)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                consts.add(n.value)
            if isinstance(n, ast.Constant) and isinstance(n.value, str) and '\n' in n.value or \
                    isinstance(n, ast.Constant) and isinstance(n.value, str) and ' ' in n.value:
                consts |= {w for w in n.value.replace(',', ' ').split() if w.isidentifier()}
    for q, (node, mod) in s.class_bases.items():
        here = set()
        for st in node.body:
            for n in ast.walk(st) if not isinstance(st, ast.FunctionDef) else (st,):
                if isinstance(n, ast.FunctionDef):
                    here.add(n.name)
                elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    here.add(n.id)
        for fn in s.fns:
            if fn.cls == q:
                for n in fn.body_nodes():
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == 'self':
                        here.add(n.attr)
        per_class[q] = here
        defined |= here
    std = std_attrs()
    opts = option_dests(s)
    setattrs = consts if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr'
                             for m in s.mods.values() for n in ast.walk(m.tree)) else set()
    for k in s.installed():
        defined.add(k)
    for m in s.mods.values():
        for n in ast.walk(m.tree):
            if not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load)):
                continue
            fn = None
            where = '%s:%d' % (m.path, n.lineno)
            base = n.value
            mod = module_of(s, m, n, base)
            if mod is not None:
                kind, name = mod
                if kind == 'mod':
                    have = s.module_names(name)
                    if n.attr in have or name + '.' + n.attr in s.mods or n.attr.startswith('__') or '*' in have:
                        c.ok('attribute')
                    elif not version_guarded(s, n):
                        c.bad('attribute', where, 'module %s has no attribute %r' % (name, n.attr), 'attribute|%s|%s.%s' % (m.name, name, n.attr))
                else:
                    have = ext_names(name)
                    if have is None:
                        continue
                    if n.attr in have:
                        c.ok('attribute')
                    elif not version_guarded(s, n):
                        c.bad('attribute', where, 'module %s has no attribute %r' % (name, n.attr), 'attribute|%s|%s.%s' % (m.name, name, n.attr))
                continue
            if n.attr in defined or n.attr in std or n.attr in opts or n.attr in setattrs or n.attr.startswith('__'):
                ok = True
                if isinstance(base, ast.Name) and base.id == 'self':
                    cls = class_of(s, n)
                    if cls in per_class:
                        mro = s.mro(cls)
                        ok = any(n.attr in per_class[x] for x in mro) or n.attr in foreign or n.attr in setattrs or \
                            n.attr in s.installed() or n.attr.startswith('__') or ext_base(s, mro)
                        if not ok and any(n.attr in per_class[x] for x in per_class if cls in s.mro(x)):
                            ok = True       # a mixin reading what its subclasses define
                if ok:
                    c.ok('attribute')
                else:
                    c.bad('attribute', where, 'class %s never defines the attribute %r it reads' % (cls.split('.')[-1], n.attr),
                          'attribute|%s|self.%s' % (cls, n.attr))
            elif parser_base(s, m, n):
                c.ok('attribute')
            elif not version_guarded(s, n) and not hasattr_guarded(s, n):
                c.bad('attribute', where, 'nothing defines the attribute %r' % n.attr, 'attribute|%s|%s' % (m.name, n.attr))


def ext_base(s, mro):
    for q in mro:
        node, mod = s.class_bases[q]
        for b in node.bases:
            if isinstance(b, ast.Name) and b.id not in ('object',):
                r = s.lookup_module(mod.name, b.id)
                if r is None or r[0] != 'class':
                    return True
    return False


def class_of(s, n):
    p = s.parents.get(n)
    while p is not None:
        if isinstance(p, ast.ClassDef):
            for q, (node, mod) in s.class_bases.items():
                if node is p:
                    return q
        p = s.parents.get(p)
    return None


def module_of(s, m, n, base):
    """the module an attribute is read from, when the base is a plain module name"""
    if not isinstance(base, ast.Name):
        if isinstance(base, ast.Attribute) and isinstance(base.value, ast.Name):
            r = module_of(s, m, n, base.value)
            if r is not None:
                full = r[1] + '.' + base.attr
                if r[0] == 'mod' and full in s.mods:
                    return 'mod', full
                if r[0] == 'ext' and full == 'os.path':
                    return 'ext', full
        return None
    # local rebinding hides the module
    p = s.parents.get(n)
    while p is not None:
        if isinstance(p, (ast.FunctionDef, ast.Lambda)):
            fn = [s.by_node[p]] if p in s.by_node else []
            if fn and base.id in fn[0].locals:
                imp = None
                for x in fn[0].body_nodes():
                    if isinstance(x, ast.Import):
                        for a in x.names:
                            if (a.asname or a.name.split('.')[0]) == base.id:
                                imp = a.name if a.asname else a.name.split('.')[0]
                    if isinstance(x, ast.Name) and x.id == base.id and isinstance(x.ctx, ast.Store):
                        return None
                if imp is None:
                    return None
                return ('mod', imp) if imp in s.mods else ('ext', imp)
        p = s.parents.get(p)
    r = s.lookup_module(m.name, base.id)
    if r is None or r[0] not in ('mod', 'ext'):
        return None
    if r[0] == 'ext' and ('.' in r[1] and r[1] != 'os.path'):
        import sys as _s
        if r[1] not in _s.modules:
            return None
    return r


def parser_base(s, m, n):
    """methods of an option parser or a profiler object created in the same function"""
    b = n.value
    while isinstance(b, (ast.Attribute, ast.Call)):
        b = b.func if isinstance(b, ast.Call) else b.value
    if not isinstance(b, ast.Name):
        return False
    for x in ast.walk(m.tree):
        if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == b.id for t in x.targets) and isinstance(x.value, ast.Call):
            f = x.value.func
            root = f
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name):
                r = s.lookup_module(m.name, root.id)
                if r is None or r[0] == 'ext':
                    return True
    return False


def hasattr_guarded(s, n):
    p = s.parents.get(n)
    while p is not None:
        t = p.test if isinstance(p, (ast.If, ast.IfExp)) else None
        if t is not None:
            for x in ast.walk(t):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and \
                        len(x.args) > 1 and isinstance(x.args[1], ast.Constant) and x.args[1].value == n.attr:
                    return True
        p = s.parents.get(p)
    return False


# --------------------------------------------------------------- calls
def bind_error(fn, call, bound):
    """None when the arguments may fit; else a message"""
    a = fn.node.args
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound and pos:
        pos = pos[1:]
    ndef = len(a.defaults)
    npos = len(call.args)
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, %d given' % (len(pos), npos)
    given = set(pos[:npos])
    for k in call.keywords:
        if k.arg in given:
            return 'argument %r given twice' % k.arg
        if k.arg not in pos and k.arg not in [x.arg for x in a.kwonlyargs] and not a.kwarg:
            return 'has no parameter %r' % k.arg
        given.add(k.arg)
    allpos = [x.arg for x in a.posonlyargs + a.args]
    required = allpos[:len(allpos) - ndef] if ndef else allpos
    if bound:
        required = required[1:]
    required = required + [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    miss = [x for x in required if x not in given]
    if miss:
        return 'missing argument %s' % ', '.join(map(repr, miss))
    return None


def is_static(fn):
    return any(isinstance(d, ast.Name) and d.id == 'staticmethod' for d in getattr(fn.node, 'decorator_list', []))


def calls(c, s):
    pseudo = []
    for fn in s.fns:
        for call, fs, cs, ext in s.calls(fn):
            check_call(c, s, fn, call, fs, cs)
    # module level
    for m in s.mods.values():
        class F(object):
            pass
        top = F()
        top.module, top.locals, top.parent, top.cls, top.qual, top.children = m, set(), None, None, m.name + '.<module>', []
        top.where = lambda n, m=m: '%s:%d' % (m.path, n.lineno)
        top.body_nodes = lambda m=m: own_nodes(m.tree)
        for n in own_nodes(m.tree):
            if isinstance(n, ast.Call):
                fs, cs, ext = s.resolve(top, n.func)
                check_call(c, s, top, n, fs, cs)


def check_call(c, s, fn, call, fs, cs):
    errs = []
    cands = 0
    for f in fs:
        bound = f.cls is not None and f.parent is None and not is_static(f)
        if bound and isinstance(call.func, ast.Attribute) and isinstance(call.func.value, ast.Name):
            r = s.scope_lookup(fn, call.func.value.id)
            if r is not None and r[0] == 'class':
                bound = False
        elif f.cls is None and f.parent is None and isinstance(call.func, ast.Attribute) and not (
                isinstance(call.func.value, ast.Name) and (s.scope_lookup(fn, call.func.value.id) or ('',))[0] == 'mod'):
            bound = True            # a function installed as a method
        if isinstance(f.node, ast.Lambda):
            continue
        cands += 1
        e = bind_error(f, call, bound)
        if e:
            errs.append('%s %s' % (f.qual.split('.', 1)[-1], e))
    for q in cs:
        m = s.method_of(q, '__init__')
        if m is None:
            continue
        cands += 1
        e = bind_error(m, call, True)
        if e:
            errs.append('%s() %s' % (q.split('.')[-1], e))
    if not cands:
        return
    if isinstance(call.func, ast.Attribute) and not (isinstance(call.func.value, ast.Name) and call.func.value.id == 'self') and \
            call.func.attr in std_attrs():
        c.count('calls_of_unknown_objects')
        return                      # may be a method of a standard object
    if len(errs) == cands:
        c.bad('call', fn.where(call), errs[0], 'call|%s|%s' % (fn.qual, errs[0]))
    elif not errs:
        c.ok('call')
    else:
        c.open('call', '%s: %s' % (fn.where(call), errs[0]))


# --------------------------------------------------------------- formats
SPEC = re.compile(r'%(?:\((?P<key>[^)]*)\))?[-#0 +]*(?P<w>\*|\d+)?(?:\.(?P<p>\*|\d+))?[hlL]?(?P<c>.)', re.S)


def specs(fmt):
    """number of values a %-format consumes; None if it takes a mapping or is malformed -> ('bad', why)"""
    n = 0
    pos = 0
    while True:
        i = fmt.find('%', pos)
        if i < 0:
            return n
        m = SPEC.match(fmt, i)
        if m is None:
            return ('bad', 'incomplete conversion')
        ch = m.group('c')
        if m.group('key') is not None:
            return None
        if ch != '%':
            if ch not in 'diouxXeEfFgGcrsa':
                return ('bad', 'unsupported conversion %r' % ch)
            n += 1 + (m.group('w') == '*') + (m.group('p') == '*')
        pos = m.end()


def text_of(n):
    if isinstance(n, ast.Constant) and isinstance(n.value, str):
        return n.value
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Add):
        a, b = text_of(n.left), text_of(n.right)
        if a is not None and b is not None:
            return a + b
    return None


def formats(c, s):
    for m in s.mods.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod):
                fmt = text_of(n.left)
                if fmt is None:
                    continue
                k = specs(fmt)
                if k is None:
                    continue
                where = '%s:%d' % (m.path, n.lineno)
                if isinstance(k, tuple):
                    c.bad('format', where, 'format %r: %s' % (fmt[:60], k[1]), 'format|%s|%s' % (m.name, fmt[:60]))
                    continue
                if isinstance(n.right, ast.Tuple):
                    if any(isinstance(e, ast.Starred) for e in n.right.elts):
                        continue
                    given = len(n.right.elts)
                elif isinstance(n.right, (ast.Dict,)):
                    continue
                elif isinstance(n.right, (ast.Constant, ast.JoinedStr, ast.List, ast.ListComp)):
                    given = 1
                elif k != 1:
                    # a single value for several conversions may be a tuple variable
                    c.open('format', '%s: %r takes %d values from one expression' % (where, fmt[:40], k)) if k else \
                        c.bad('format', where, 'format %r takes no value' % fmt[:60], 'format|%s|%s' % (m.name, fmt[:60]))
                    continue
                else:
                    given = 1
                if given != k:
                    c.bad('format', where, 'format %r takes %d values, %d given' % (fmt[:60], k, given), 'format|%s|%s' % (m.name, fmt[:60]))
                else:
                    c.ok('format')
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'fprintf' and len(n.args) >= 2:
                fmt = text_of(n.args[1])
                if fmt is None or any(isinstance(a, ast.Starred) for a in n.args):
                    continue
                k = specs(fmt)
                where = '%s:%d' % (m.path, n.lineno)
                if k is None:
                    continue
                if isinstance(k, tuple):
                    c.bad('format', where, 'format %r: %s' % (fmt[:60], k[1]), 'format|%s|%s' % (m.name, fmt[:60]))
                elif k != len(n.args) - 2:
                    c.bad('format', where, 'format %r takes %d values, %d given' % (fmt[:60], k, len(n.args) - 2),
                          'format|%s|%s' % (m.name, fmt[:60]))
                else:
                    c.ok('format')


# --------------------------------------------------------------- unbound locals
class May(object):
    """may-assigned analysis of one function: a read of a local no path has assigned is reported"""

    def __init__(self, fn, report):
        self.fn = fn
        self.report = report

    def stores(self, nodes):
        out = set()
        for st in nodes:
            for n in [st] + own_nodes_of(st):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store,)):
                    out.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                    out.add(n.name)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for a in n.names:
                        out.add((a.asname or a.name).split('.')[0])
                elif isinstance(n, ast.ExceptHandler) and n.name:
                    out.add(n.name)
        return out

    def reads(self, node, have):
        comp = set()
        for n in [node] + own_nodes_of(node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in n.generators:
                    comp |= {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            if isinstance(n, ast.NamedExpr):
                comp.add(n.target.id)
        for n in [node] + own_nodes_of(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in self.fn.locals and n.id not in have and n.id not in comp:
                self.report(n)

    def block(self, stmts, have):
        """-> names that may be assigned on normal completion, or None if it never completes"""
        for st in stmts:
            if have is None:
                return None
            have = self.stmt(st, have)
        return have

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, st, have):
        if isinstance(st, (ast.Return, ast.Raise)):
            self.reads(st, have)
            return None
        if isinstance(st, (ast.Break, ast.Continue)):
            return None
        if isinstance(st, ast.If):
            self.reads(st.test, have)
            have = have | self.stores([ast.Expr(st.test)])
            return self.join(self.block(st.body, have), self.block(st.orelse, have))
        if isinstance(st, (ast.For, ast.While)):
            inner = have | self.stores([st])
            self.reads(st.iter if isinstance(st, ast.For) else st.test, have if isinstance(st, ast.For) else inner)
            self.block(st.body, inner)
            if st.orelse:
                self.block(st.orelse, inner)
            return inner
        if isinstance(st, ast.Try) or st.__class__.__name__ == 'TryStar':
            body = self.block(st.body, have)
            mid = have | self.stores(st.body)
            out = self.block(st.orelse, body) if body is not None else None
            for h in st.handlers:
                out = self.join(out, self.block(h.body, mid | ({h.name} if h.name else set())))
            fin = mid | self.stores(st.handlers) | self.stores(st.orelse)
            if st.finalbody:
                f = self.block(st.finalbody, fin)
                if f is None:
                    return None
                return None if out is None else out | f
            return out
        if isinstance(st, ast.With):
            for i in st.items:
                self.reads(i.context_expr, have)
            inner = have | self.stores([ast.Expr(i.optional_vars) for i in st.items if i.optional_vars is not None])
            return self.block(st.body, inner) or inner | self.stores(st.body)
        if isinstance(st, (ast.FunctionDef, ast.ClassDef)):
            return have | {st.name}
        if isinstance(st, ast.AugAssign) and isinstance(st.target, ast.Name) and st.target.id in self.fn.locals and st.target.id not in have:
            self.report(st.target)
        self.reads(st, have)
        return have | self.stores([st])


class Iteration(May):
    """the same, where an iteration of a loop over the records of a file counts on nothing earlier iterations assigned: records come
    in any order"""
    dead = frozenset()
    inside = 0

    def stmt(self, st, have):
        if isinstance(st, ast.If) and isinstance(st.test, ast.Name) and st.test.id in self.dead:
            return self.join(have, self.block(st.orelse, have))
        if isinstance(st, (ast.For, ast.While)) and takes_records(st):
            inner = have | (self.stores([ast.Expr(st.target)]) if isinstance(st, ast.For) else set())
            self.inside += 1
            self.block(st.body, inner)
            self.inside -= 1
            return have | self.stores([st])
        return May.stmt(self, st, have)


def takes_records(loop):
    for n in loop.body:
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.targets[0], ast.Tuple):
            f = n.value.func
            if getattr(f, 'attr', getattr(f, 'id', '')).endswith('get_record_parts'):
                return True
    return False


def never_true(fn):
    """locals only ever assigned a false constant (debugging switches)"""
    vals = {}
    for n in fn.body_nodes():
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            vals.setdefault(n.id, []).append(None)
    for n in fn.body_nodes():
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            v = n.value.values[0] if isinstance(n.value, ast.BoolOp) and isinstance(n.value.op, ast.And) else n.value
            if isinstance(v, ast.Constant) and not v.value:
                vals[n.targets[0].id].remove(None)
    return {k for k, v in vals.items() if not v and k not in fn.params}


def own_nodes_of(st):
    out = []
    stack = list(ast.iter_child_nodes(st)) if not isinstance(st, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) else []
    while stack:
        n = stack.pop()
        out.append(n)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return out


def unbound(c, s):
    for fn in s.fns:
        if isinstance(fn.node, ast.Lambda):
            continue
        found = {}
        m = May(fn, lambda n: found.setdefault(n.id, n))
        m.block(fn.node.body, set(fn.params))
        early = {}
        m = Iteration(fn, lambda n: early.setdefault(n.id, n) if m.inside else None)
        m.dead = never_true(fn)
        m.block(fn.node.body, set(fn.params))
        for name, n in early.items():
            if name not in found:
                c.bad('unbound', fn.where(n), 'local %r is read in a loop over records where only an earlier record of another kind can have assigned it' % name,
                      'unbound|%s|%s' % (fn.qual, name))
        for name, n in found.items():
            c.bad('unbound', fn.where(n), 'local %r is read before anything can have assigned it' % name, 'unbound|%s|%s' % (fn.qual, name))
        c.ok('unbound', len(fn.locals) - len(found) or 1)
