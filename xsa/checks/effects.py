"""C03 no side effects or hidden inputs, C04 diagnostics only to the log destination."""
import ast
from ..src import Source
from ..flow import Flow, default_roots, any_fn
from ..taint import Taint

STD = {'sys.stdout', 'sys.stderr', 'sys.__stdout__', 'sys.__stderr__'}
NOISY = ('warnings.warn', 'warnings.warn_explicit', 'logging.', 'traceback.print', 'pprint.pprint', 'sys.excepthook', 'sys.displayhook',
         'faulthandler.', 'os.write', 'sys.stdout.', 'sys.stderr.', 'sys.__stdout__.', 'sys.__stderr__.', 'pdb.', 'breakpoint', 'syslog.',
         'traceback.', 'curses.')


# ------------------------------------------------------------ C04
def C04(c):
    """Every output operation reachable from opening and reading is found; its destination is traced backwards through locals,
    parameters with every live call site, defaults and attributes; it must come from a destination a caller passed in."""
    R = 'destination'
    c.rule(R, 'the destination of every output operation originates in a log destination passed by the caller')
    src = Source(c.prog, normal=True)
    fl = Flow(src)
    c.guard(R, c04_sinks, c, R, src, fl)
    R2 = 'no-other-channel'
    c.rule(R2, 'no warning, logging or traceback facility is used')
    c.guard(R2, c04_channels, c, R2, src, fl)
    c.count('functions reachable', len(fl.live))


def leaf_std(src):
    def leaf(f, e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            r = src.scope_lookup(f, e.value.id)
            if r is not None and r[0] == 'ext' and r[1] + '.' + e.attr in STD:
                return ('std', r[1] + '.' + e.attr, f, e)
        if isinstance(e, ast.Name):
            r = src.scope_lookup(f, e.id)
            if r is not None and r[0] == 'ext' and r[1] in STD:
                return ('std', r[1], f, e)
        return None
    return leaf


def sinks(src, f):
    """[(call, destination expression or None for standard output)]"""
    for call, fs, cs, ext in src.calls(f):
        if ext in ('print', 'builtins.print') and not fs:
            kw = [k.value for k in call.keywords if k.arg == 'file']
            if any(k.arg is None for k in call.keywords) and not kw:
                continue
            yield call, (kw[0] if kw else None), 'print'
        elif ext == 'pprint.pprint':
            kw = [k.value for k in call.keywords if k.arg == 'stream']
            yield call, (kw[0] if kw else call.args[1] if len(call.args) > 1 else None), 'pprint'
        elif isinstance(call.func, ast.Attribute) and call.func.attr in ('write', 'writelines') and not fs:
            yield call, call.func.value, call.func.attr
        elif isinstance(call.func, ast.Name) and not fs:
            # a local alias of a write method
            for n in f.body_nodes():
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and n.value.attr in ('write', 'writelines') \
                        and any(isinstance(t, ast.Name) and t.id == call.func.id for t in n.targets):
                    yield call, n.value.value, 'write'


def c04_sinks(c, R, src, fl):
    leaf = leaf_std(src)
    n = 0
    for f in sorted(fl.live, key=lambda f: f.qual):
        for call, dest, what in sinks(src, f):
            n += 1
            label = '%s %s' % (f.where(call), what)
            if fl.dead(f, call):
                c.ok(R, sample=label + ' (never executed)')
                continue
            if dest is None or isinstance(dest, ast.Constant) and dest.value is None:
                if unreachable_branch(c, src, f, call):
                    c.ok(R, sample=label + ' (excluded by the bounds computed before it)')
                    continue
                c.bad(R, f.where(call), '%s() without a destination writes to standard output' % what, '%s|%s|%s' % (R, f.qual, text_of(call)))
                continue
            org = fl.origins(f, dest, leaf)
            judge(c, R, src, fl, f, call, what, org, label)
    c.count('output operations', n)


def judge(c, R, src, fl, f, call, what, org, label):
    bad = False
    unknown = False
    for o in org:
        where, msg = None, None
        while True:
            if o[0] == 'std':
                where = where or (o[2], o[3])
                msg = msg or 'the destination here is %s' % o[1]
                break
            if o[0] == 'const' and o[1] is None:
                where = where or (o[2], o[3])
                msg = msg or 'the destination here is None, that is, standard output'
                break
            if o[0] == 'default':
                inner, caller, cl, g, p = o[1:]
                where = where or (caller, cl)
                msg = msg or '%s is called without %s, so its messages go to the default destination' % (g.name, p)
                o = inner
                continue
            if o[0] == 'fallback':
                inner, g, e = o[1:]
                where = where or (g, e)
                msg = msg or 'no destination is passed here, so messages go to the fallback destination'
                o = inner
                continue
            if o[0] in ('unknown',):
                unknown = True
            break
        if o[0] == 'std' or o[0] == 'const' and o[1] is None:
            g, node = where
            if any(unreachable_branch(c, src, x, y) for x, y in ((f, call), (g, node))):
                continue
            if g in fl.live and fl.dead(g, node):
                unknown = True
                continue
            if g not in fl.live and not isinstance(getattr(g, 'node', None), ast.Module):
                continue
            bad = True
            c.bad(R, g.where(node), '%s (reached by %s in %s)' % (msg, what, f.qual), '%s|%s|%s' % (R, g.qual, text_of(node)))
    if not bad:
        if unknown or not org:
            c.open(R, label)
        else:
            c.ok(R, sample=label)


def text_of(n):
    try:
        return ast.unparse(n)[:80]
    except Exception:
        return ast.dump(n)[:80]


def unreachable_branch(c, src, f, call):
    """the branch is excluded by the bounds computed just before it: a slice shorter than its own clipped bounds"""
    p = src.parents.get(call)
    n = call
    inside = False
    while p is not None and p is not f.node:
        if isinstance(p, ast.If) and (any(n is x for x in p.body) or any(n is x for x in p.orelse)):
            inside = True
        n, p = p, src.parents.get(p)
    return inside and f.qual == 'xlrd.biffh.hex_char_dump' and dump_never(c)


_DUMP = {}


def dump_never(c):
    """the conditions under which the hex dump writes to standard output, folded for every length, start and count of the bytes dumped"""
    if id(c.prog) not in _DUMP:
        from ..drive import Setup
        from ..interp import const, add
        from .. import evalterm as E
        from .decode_formula import guards_hold
        res = True
        s = Setup(c.prog)
        q = 'xlrd.biffh.hex_char_dump'
        s.it.unroll[q] = 3
        s.run(q, [('sym', 'data'), ('sym', 'ofs'), ('sym', 'dlen')], {'fout': ('sym', 'logfile')})
        evs = [e for e in s.it.events if e.kind == 'log' and e.data and e.data[0] != ('sym', 'logfile')]
        for ln in range(0, 49):
            for ofs in (0, 1, 4, 16, 20):
                for dlen in (0, 1, 15, 16, 17, 32, 33, ln, ln + 5):
                    env = E.Env({'data': bytes(range(ln)), 'ofs': ofs, 'dlen': dlen})
                    for e in evs:
                        try:
                            if guards_hold(e, env):
                                res = False
                        except (E.Undef, E.Raised):
                            res = False
        _DUMP[id(c.prog)] = res
    return _DUMP[id(c.prog)]


def c04_channels(c, R, src, fl):
    n = 0
    for f in sorted(fl.live, key=lambda f: f.qual):
        for call, fs, cs, ext in src.calls(f):
            e = ext or dotted(src, f, call.func)
            if not e:
                continue
            n += 1
            if e == 'pprint.pprint':
                continue
            if any(e == x or x.endswith('.') and e.startswith(x) or e.startswith('traceback.print') and x == 'traceback.print' for x in NOISY):
                if fl.dead(f, call) or e in ('traceback.format_exc', 'traceback.extract_tb', 'traceback.format_exception'):
                    continue
                if isinstance(call.func, ast.Attribute) and call.func.attr in ('write', 'writelines'):
                    continue
                c.bad(R, f.where(call), '%s does not write to the log destination' % e, '%s|%s|%s' % (R, f.qual, e))
    c.ok(R, n)


def dotted(src, f, e):
    parts = []
    while isinstance(e, ast.Attribute):
        parts.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name):
        r = src.scope_lookup(f, e.id)
        if r is not None and r[0] == 'ext':
            return '.'.join([r[1]] + parts[::-1])
        if r is not None and r[0] == 'local':
            for n in r[1].body_nodes():
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if (a.asname or a.name.split('.')[0]) == e.id:
                            return '.'.join([a.name if a.asname else e.id] + parts[::-1])
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    for a in n.names:
                        if (a.asname or a.name) == e.id:
                            return '.'.join([n.module, a.name] + parts[::-1])
    return None


# ------------------------------------------------------------ C03
PURE_MODULES = ('struct', 'operator', 're', 'datetime', 'array', 'copy', 'math', 'itertools', 'functools', 'collections', 'io', 'cStringIO',
                'string', 'bisect', 'heapq', 'codecs', 'unicodedata', 'decimal', 'fractions', 'binascii', 'zlib', 'types', 'abc', 'enum',
                'contextlib', 'weakref', 'textwrap', 'numbers', 'typing', '__future__', 'pprint', 'warnings', 'logging', 'traceback', 'StringIO',
                'zipfile', 'mmap', 'errno', 'stat', 'reprlib', 'keyword', 'dataclasses', 'graphlib')
PURE_BUILTINS = {
    'abs', 'all', 'any', 'ascii', 'bin', 'bool', 'bytearray', 'bytes', 'callable', 'chr', 'classmethod', 'complex', 'dict', 'divmod', 'enumerate',
    'filter', 'float', 'format', 'frozenset', 'getattr', 'hasattr', 'hex', 'int', 'isinstance', 'issubclass', 'iter', 'len', 'list',
    'map', 'max', 'memoryview', 'min', 'next', 'object', 'oct', 'ord', 'pow', 'print', 'property', 'range', 'repr', 'reversed', 'round', 'set',
    'setattr', 'slice', 'sorted', 'staticmethod', 'str', 'sum', 'super', 'tuple', 'type', 'vars', 'zip', 'delattr', 'dir', 'unicode', 'xrange',
    'unichr', 'basestring', 'long', 'reduce', 'cmp', 'id', 'locals', 'globals'}
EFFECT = {
    'eval': 'executes text as code', 'exec': 'executes text as code', 'compile': 'compiles text as code', '__import__': 'loads code',
    'execfile': 'executes a file', 'input': 'reads standard input', 'raw_input': 'reads standard input', 'breakpoint': 'stops the program',
    'exit': 'ends the program', 'quit': 'ends the program', 'sys.exit': 'ends the program', 'os._exit': 'ends the program',
    'sys.setrecursionlimit': 'changes an interpreter-wide setting', 'sys.setswitchinterval': 'changes an interpreter-wide setting',
    'sys.settrace': 'changes an interpreter-wide setting', 'sys.setprofile': 'changes an interpreter-wide setting',
    'sys.set_int_max_str_digits': 'changes an interpreter-wide setting', 'sys.setdefaultencoding': 'changes an interpreter-wide setting',
    'sys.intern': None, 'sys.getsizeof': None, 'sys.exc_info': None, 'sys._getframe': None,
    'sys.getdefaultencoding': None,
    'locale.setlocale': 'changes the locale', 'locale.resetlocale': 'changes the locale',
    'warnings.simplefilter': 'changes the warning filters', 'warnings.filterwarnings': 'changes the warning filters',
    'warnings.resetwarnings': 'changes the warning filters', 'logging.basicConfig': 'changes the logging configuration',
    'logging.disable': 'changes the logging configuration', 'decimal.setcontext': 'changes the arithmetic context',
    'decimal.getcontext': 'uses the arithmetic context of the thread',
    'codecs.register': 'registers a codec', 'codecs.register_error': 'registers a codec error handler', 'codecs.open': None,
    'pickle.loads': 'can execute code from its input', 'pickle.load': 'can execute code from its input', 'marshal.loads': 'loads code objects',
    'random.seed': 'changes an interpreter-wide setting', 'atexit.register': 'changes interpreter-wide state',
    'struct._clearcache': None, 're.purge': None, 'copyreg.pickle': 'changes interpreter-wide state',
    'zipfile.ZipFile': None, 'mmap.mmap': None, 'io.open': None, 'open': None,
}
EFFECT_MODULES = {'subprocess': 'runs programs', 'multiprocessing': 'starts processes', 'shutil': 'changes files', 'tempfile': 'creates files',
                  'socket': 'uses the network', 'urllib': 'uses the network', 'http': 'uses the network', 'ftplib': 'uses the network',
                  'smtplib': 'uses the network', 'ctypes': 'runs native code', 'signal': 'changes interpreter-wide settings',
                  'resource': 'changes process limits', 'gc': 'changes interpreter-wide settings', 'pickle': 'can execute code from its input',
                  'shelve': 'creates files', 'dbm': 'creates files', 'sqlite3': 'creates files', 'runpy': 'executes code',
                  'importlib': 'loads code', 'imp': 'loads code', 'code': 'executes code', 'webbrowser': 'runs programs', 'pty': 'runs programs',
                  'threading': 'starts threads', 'asyncio': 'starts an event loop', 'concurrent': 'starts threads', 'site': 'changes interpreter-wide state',
                  'builtins': None, 'faulthandler': 'changes interpreter-wide settings', 'tracemalloc': 'changes interpreter-wide settings',
                  'winreg': 'changes the registry', 'msvcrt': 'reads the console', 'readline': 'changes interpreter-wide settings',
                  'getpass': 'reads the user name', 'select': 'waits for other programs'}
HIDDEN_MODULES = {'time': 'the clock', 'random': 'random numbers', 'secrets': 'random numbers', 'uuid': 'random numbers and the host',
                  'locale': 'the locale', 'platform': 'the platform', 'pwd': 'the user database', 'grp': 'the user database', 'calendar': 'the locale'}
HIDDEN = {'os.environ': 'environment variables', 'os.getenv': 'environment variables', 'os.getenvb': 'environment variables',
          'os.environb': 'environment variables', 'os.getcwd': 'the working directory', 'os.urandom': 'random numbers', 'os.getpid': 'the process id',
          'os.times': 'the clock', 'os.getlogin': 'the user name', 'os.cpu_count': 'the machine', 'sys.argv': 'the command line',
          'sys.flags': 'interpreter flags', 'sys.stdin': 'standard input', 'sys.getrefcount': 'reference counts', 'sys.path': 'the import path',
          'sys.warnoptions': 'interpreter flags', 'sys.getfilesystemencoding': 'the locale', 'sys.getrecursionlimit': 'an interpreter setting',
          'datetime.datetime.now': 'the clock', 'datetime.datetime.today': 'the clock', 'datetime.date.today': 'the clock',
          'datetime.datetime.utcnow': 'the clock', 'datetime.datetime.fromtimestamp': 'the time zone', 'datetime.date.fromtimestamp': 'the time zone',
          'hash': 'hash randomisation', 'locale.getpreferredencoding': 'the locale', 'io.text_encoding': 'the locale'}
OS_HARMLESS = ('os.path.', 'os.fspath', 'os.fsdecode', 'os.fsencode', 'os.stat', 'os.fstat', 'os.sep', 'os.linesep', 'os.name', 'os.SEEK_',
               'os.error', 'os.extsep', 'os.PathLike', 'os.altsep', 'os.lstat')
PATH_EFFECTFREE_HIDDEN = ('os.path.abspath', 'os.path.realpath', 'os.path.expandvars', 'os.path.getmtime', 'os.path.getctime', 'os.path.getatime')
WRITE_METHODS = {'unlink', 'rmdir', 'mkdir', 'write_text', 'write_bytes', 'truncate', 'extractall', 'extract', 'touch', 'chmod', 'symlink_to',
                 'hardlink_to', 'tofile', 'save', 'writestr', 'makedirs', 'removedirs'}
HIDDEN_METHODS = {'strftime': 'the locale', 'now': 'the clock', 'utcnow': 'the clock', 'today': 'the clock', 'astimezone': 'the time zone',
                  'timestamp': 'the time zone', 'fromtimestamp': 'the time zone'}


def C03(c):
    """Every call and attribute of the standard library reachable from opening and reading is classified; files may only be opened for
    reading, mappings made read-only; nothing that writes, executes, changes global settings or reads hidden inputs may be reached, and
    clock readings may flow only into the load-time attributes and messages."""
    R = 'no-effects'
    c.rule(R, 'no operation that creates, writes, renames or deletes files, executes code, starts programs or changes global settings')
    src = Source(c.prog, normal=True)
    fl = Flow(src)
    c.guard(R, c03_calls, c, R, src, fl)
    R2 = 'read-only'
    c.rule(R2, 'files are opened for reading and mapped read-only')
    c.guard(R2, c03_open, c, R2, src, fl)
    R3 = 'no-hidden-inputs'
    c.rule(R3, 'no clock, random number, environment, locale or interpreter state reaches what is read')
    c.guard(R3, c03_hidden, c, R3, src, fl)
    R4 = 'clock-only-for-timing'
    c.rule(R4, 'clock readings end in load-time attributes or messages')
    c.guard(R4, c03_clock, c, R4, src, fl)
    c.count('functions reachable', len(fl.live))


def modules_scopes(src, fl):
    """live functions, and the module bodies themselves"""
    for f in sorted(fl.live, key=lambda f: f.qual):
        yield f, f.body_nodes(), f.where
    from ..flow import _ModuleScope
    for m in src.mods.values():
        sc = _ModuleScope(m)
        nodes = []
        stack = list(m.tree.body)
        while stack:
            n = stack.pop()
            nodes.append(n)
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                stack.extend(getattr(n, 'decorator_list', []) + n.args.defaults)
                continue
            stack.extend(ast.iter_child_nodes(n))
        yield sc, nodes, sc.where


def externals(src, f, nodes):
    """[(node, dotted external name, is a call)] of a body"""
    for n in nodes:
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            p = src.parents.get(n)
            if isinstance(p, ast.Attribute):
                continue
            e = dotted(src, f, n)
            if e:
                yield n, e, isinstance(p, ast.Call) and p.func is n
        elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
            p = src.parents.get(n)
            if isinstance(p, ast.Attribute) and p.value is n:
                continue
            r = src.scope_lookup(f, n.id)
            if r is not None and r[0] in ('ext', 'builtin'):
                yield n, r[1], isinstance(p, ast.Call) and p.func is n
            elif r is not None and r[0] == 'local' and isinstance(p, ast.Call) and p.func is n:
                a, b, ext = src.resolve(f, n)
                ext = ext or dotted(src, f, n)
                if ext:
                    yield n, ext, True


def classify(e):
    """('effect', why) | ('hidden', what) | None"""
    if e in EFFECT:
        return ('effect', EFFECT[e]) if EFFECT[e] else None
    if e in HIDDEN:
        return ('hidden', HIDDEN[e])
    for k, v in HIDDEN.items():
        if e.startswith(k + '.'):
            return ('hidden', v)
    head = e.split('.')[0]
    if head in EFFECT_MODULES:
        return ('effect', EFFECT_MODULES[head]) if EFFECT_MODULES[head] and '.' in e else None
    if head in HIDDEN_MODULES:
        return ('hidden', HIDDEN_MODULES[head]) if '.' in e else None
    if head == 'os' and '.' in e:
        if e.startswith(PATH_EFFECTFREE_HIDDEN):
            return ('hidden', 'the file system')
        if any(e.startswith(x) for x in OS_HARMLESS):
            return None
        return ('effect', 'changes files, processes or settings of the system')
    return None


def c03_calls(c, R, src, fl):
    n = 0
    for f, nodes, where in modules_scopes(src, fl):
        live = f in fl.live
        for node, e, call in externals(src, f, nodes):
            if live and fl.dead(f, node):
                continue
            n += 1
            k = classify(e)
            if k and k[0] == 'effect':
                c.bad(R, where(node), '%s: %s' % (e, k[1]), '%s|%s|%s' % (R, f.qual, e))
            elif call and '.' not in e and e not in PURE_BUILTINS and e not in EFFECT and e not in HIDDEN and not e.endswith(('Error', 'Exception', 'Warning')) \
                    and e not in ('StopIteration', 'KeyboardInterrupt', 'open'):
                c.open(R, '%s: %s' % (where(node), e))
        for node in nodes:
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in WRITE_METHODS:
                if live and fl.dead(f, node):
                    continue
                fs = src.resolve(f, node.func)[0]
                if not fs and not dotted(src, f, node.func):
                    n += 1
                    c.bad(R, where(node), '%s() changes files or their contents' % node.func.attr, '%s|%s|%s' % (R, f.qual, node.func.attr))
            elif isinstance(node, (ast.Attribute, ast.Subscript)) and isinstance(node.ctx, (ast.Store, ast.Del)):
                base = node.value
                e = dotted(src, f, node) if isinstance(node, ast.Attribute) else dotted(src, f, base) if isinstance(base, ast.Attribute) else None
                if e:
                    n += 1
                    c.bad(R, where(node), 'assigns %s: changes an interpreter-wide setting' % e, '%s|%s|%s=' % (R, f.qual, e))
    c.ok(R, n)
    c.count('library references classified', n)


def c03_open(c, R, src, fl):
    for f in sorted(fl.live, key=lambda f: f.qual):
        for call, fs, cs, ext in src.calls(f):
            if fl.dead(f, call):
                continue
            label = f.where(call)
            if ext in ('open', 'io.open', 'codecs.open', 'builtins.open'):
                mode = arg(call, 1, 'mode')
                m = const_str(fl, f, mode) if mode is not None else 'r'
                if m is None:
                    c.open(R, label)
                elif set(m) & set('wax+'):
                    c.bad(R, label, 'opens a file with mode %r' % m, '%s|%s|open' % (R, f.qual))
                elif 'b' not in m:
                    c.bad(R, label, 'opens a file as text: its contents are decoded as the locale says', '%s|%s|text' % (R, f.qual))
                else:
                    c.ok(R, sample=label)
            elif ext == 'mmap.mmap':
                acc = arg(call, 99, 'access')
                prot = arg(call, 99, 'prot')
                fla = arg(call, 99, 'flags')
                if acc is None and prot is None:
                    c.bad(R, label, 'maps the file for writing (no access argument)', '%s|%s|mmap' % (R, f.qual))
                    continue
                e = resolve_name(src, fl, f, acc if acc is not None else prot)
                if e in ('mmap.ACCESS_READ', 'mmap.PROT_READ', 'mmap.ACCESS_COPY'):
                    c.ok(R, sample=label)
                elif e in ('mmap.ACCESS_WRITE', 'mmap.PROT_WRITE', 'mmap.ACCESS_DEFAULT') or e is None and acc is not None and not isinstance(acc, ast.Name):
                    c.bad(R, label, 'maps the file for writing', '%s|%s|mmap' % (R, f.qual))
                else:
                    c.open(R, label)
            elif ext == 'zipfile.ZipFile':
                m = arg(call, 1, 'mode')
                v = const_str(fl, f, m) if m is not None else 'r'
                if v is None:
                    c.open(R, label)
                elif v != 'r':
                    c.bad(R, label, 'opens an archive with mode %r' % v, '%s|%s|zip' % (R, f.qual))
                else:
                    c.ok(R, sample=label)


def arg(call, i, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return call.args[i] if i < len(call.args) else None


def const_str(fl, f, e):
    v = fl.const(f, e)
    return v[0] if v is not None and isinstance(v[0], str) else None


def resolve_name(src, fl, f, e):
    d = dotted(src, f, e)
    if d:
        return d
    if isinstance(e, ast.Name):
        r = src.scope_lookup(f, e.id)
        if r and r[0] == 'ext':
            return r[1]
    return None


def c03_hidden(c, R, src, fl):
    n = 0
    for f, nodes, where in modules_scopes(src, fl):
        live = f in fl.live
        for node, e, call in externals(src, f, nodes):
            if live and fl.dead(f, node):
                continue
            n += 1
            k = classify(e)
            if k and k[0] == 'hidden' and not is_clock(e):
                c.bad(R, where(node), '%s: depends on %s' % (e, k[1]), '%s|%s|%s' % (R, f.qual, e))
        for node in nodes:
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr in HIDDEN_METHODS:
                if live and fl.dead(f, node) or src.resolve(f, node.func)[0]:
                    continue
                e = dotted(src, f, node.func)
                if e and classify(e):
                    continue
                n += 1
                c.bad(R, where(node), '%s(): depends on %s' % (node.func.attr, HIDDEN_METHODS[node.func.attr]), '%s|%s|%s' % (R, f.qual, node.func.attr))
            elif isinstance(node, ast.Call) and any(k.arg == 'key' and isinstance(k.value, ast.Name) and k.value.id in ('id', 'hash') for k in node.keywords):
                c.bad(R, where(node), 'orders by %s, which differs from run to run' % [k.value.id for k in node.keywords if k.arg == 'key'][0], '%s|%s|key' % (R, f.qual))
            it = None
            if isinstance(node, (ast.For, ast.comprehension)):
                it = node.iter
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and node.func.id in ('list', 'tuple', 'enumerate', 'iter', 'next') and node.args:
                it = node.args[0]
            if it is not None and unordered(src, f, it) and not (live and fl.dead(f, node)):
                tgt = node if isinstance(node, ast.AST) and hasattr(node, 'lineno') else it
                if order_matters(src, node):
                    n += 1
                    c.bad(R, where(tgt), 'goes through a set in the order of its hash values, which for text differs from run to run', '%s|%s|set' % (R, f.qual))
    c.ok(R, n)


def unordered(src, f, e):
    """is the iterated value a set of strings or the like"""
    if isinstance(e, (ast.Set, ast.SetComp)):
        return not all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in getattr(e, 'elts', [None]))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('set', 'frozenset'):
        r = src.scope_lookup(f, e.func.id)
        return r is not None and r[0] == 'builtin' and bool(e.args)
    if isinstance(e, ast.Name):
        r = src.scope_lookup(f, e.id)
        if r is not None and r[0] == 'local' and e.id not in r[1].params:
            vals = [n.value for n in r[1].body_nodes() if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
            return bool(vals) and all(not isinstance(v, ast.Name) and unordered(src, f, v) for v in vals)
    return False


def order_matters(src, node):
    """the loop builds an ordered result"""
    if isinstance(node, ast.For):
        for x in ast.walk(node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'extend', 'insert', 'write'):
                return True
            if isinstance(x, (ast.Return, ast.Break, ast.Yield)):
                return True
        return False
    if isinstance(node, ast.comprehension):
        p = src.parents.get(node)
        if isinstance(p, (ast.SetComp, ast.DictComp)):
            return False
        q = src.parents.get(p)
        if isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('sorted', 'set', 'frozenset', 'sum', 'any', 'all', 'max', 'min', 'len', 'dict'):
            return False
        return True
    if isinstance(node, ast.Call):
        q = src.parents.get(node)
        return not (isinstance(q, ast.Call) and isinstance(q.func, ast.Name) and q.func.id in ('sorted', 'set', 'frozenset', 'len'))
    return False


def is_clock(e):
    return e.split('.')[0] == 'time' and e.split('.')[-1] in ('perf_counter', 'clock', 'time', 'monotonic', 'process_time', 'perf_counter_ns', 'time_ns',
                                                              'monotonic_ns')


def c03_clock(c, R, src, fl):
    """forward taint through arithmetic from every clock reading"""
    def source(f, n):
        if isinstance(n, ast.Call):
            ext = src.resolve(f, n.func)[2]
            if ext and is_clock(ext):
                return True
        if isinstance(n, ast.BinOp):
            return t.expr(f, n.left) or t.expr(f, n.right)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('int', 'float', 'round', 'abs', 'str', 'max', 'min', 'bool'):
            return any(t.expr(f, a) for a in n.args)
        if isinstance(n, ast.Compare):
            return t.expr(f, n.left) or any(t.expr(f, x) for x in n.comparators)
        return False

    t = Taint.__new__(Taint)
    t.vars, t.attrs, t.rets = set(), set(), {}
    Taint.__init__(t, src, source)
    n = 0
    for f in sorted(fl.live, key=lambda f: f.qual):
        for x in f.body_nodes():
            if fl.dead(f, x) if isinstance(x, (ast.If, ast.While, ast.Assign, ast.Return)) else False:
                continue
            if isinstance(x, (ast.If, ast.While, ast.IfExp, ast.Assert)) and (t.expr(f, x.test) or any(t.expr(f, y) for y in ast.walk(x.test) if isinstance(y, (ast.Name, ast.Attribute, ast.Call, ast.Compare)))):
                only_log = isinstance(x, ast.If) and all(log_only(src, f, s) for s in x.body + x.orelse)
                if not only_log:
                    c.bad(R, f.where(x), 'a clock reading decides what happens here', '%s|%s|test' % (R, f.qual))
            elif isinstance(x, ast.Assign):
                if t.expr(f, x.value):
                    n += 1
                    for tt in x.targets:
                        if isinstance(tt, ast.Attribute) and not tt.attr.startswith('load_time') and not tt.attr.startswith('_'):
                            c.bad(R, f.where(x), 'a clock reading is stored as %s' % tt.attr, '%s|%s|%s' % (R, f.qual, tt.attr))
                        elif isinstance(tt, ast.Subscript):
                            c.bad(R, f.where(x), 'a clock reading is stored in a table', '%s|%s|item' % (R, f.qual))
            elif isinstance(x, ast.Return) and x.value is not None and t.expr(f, x.value) and f in fl.roots:
                c.bad(R, f.where(x), 'a clock reading is returned', '%s|%s|return' % (R, f.qual))
            elif isinstance(x, ast.Call):
                ext = src.resolve(f, x.func)[2]
                if ext and is_clock(ext):
                    n += 1
    c.ok(R, max(n, 1), sample='%d clock readings and stores' % n)


def log_only(src, f, s):
    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call):
        fn = s.value.func
        return getattr(fn, 'id', getattr(fn, 'attr', '')) in ('print', 'fprintf', 'write', 'dump')
    return isinstance(s, ast.Pass)
