"""Typestate of acquired resources over the syntax tree: every path of a function, exceptional ones included, is followed in the
abstract (sets of states at each point, joins by set union, loops to a fixpoint); calls that receive a tracked object are followed
into the package.

A path state is a frozenset of facts:
  ('v', name, rid)     a variable (or attribute chain, as text) denotes the resource rid
  ('s', rid, state)    'none' | 'open' | 'closed' | 'kept'
  ('f', text, bool)    a name or attribute known true or false
  ('a', text, (text2, polarity))   its truth is that of another, or the opposite
"""
import ast

SAFE = {'perf_counter', 'len', 'isinstance', 'hasattr', 'id', 'bool', 'type', 'time.perf_counter', 'time.clock', 'callable', 'time.time',
        'builtins.len', 'issubclass', 'repr'}


class Resources(object):
    """what counts as acquisition and release; overridden per property"""

    def acquisition(self, fn, call):
        return None             # 'raw' | 'owner'

    def is_release(self, f):
        return False

    def keeper_attr(self, attr):
        return True

    def manager_exit_releases(self):
        return True

    def returned(self, ts, st):
        return st

    def flag(self, text):
        return False


class Out(object):
    """states per way of leaving a block"""

    def __init__(self):
        self.normal = set()
        self.ret = set()            # (state, rid or None)
        self.brk = set()
        self.cont = set()
        self.exc = set()            # (state, 'E' | 'B')

    def add(self, o, normal=True):
        if normal:
            self.normal |= o.normal
        self.ret |= o.ret
        self.brk |= o.brk
        self.cont |= o.cont
        self.exc |= o.exc


LIMIT = 400


class TooMany(Exception):
    pass


def text(n):
    if isinstance(n, ast.Name):
        return n.id
    if isinstance(n, ast.Attribute):
        b = text(n.value)
        return None if b is None else b + '.' + n.attr
    return None


class Typestate(object):
    def __init__(self, src, spec, interesting):
        self.src = src
        self.spec = spec
        self.interesting = interesting
        self.memo = {}
        self.kinds = {}             # rid -> 'raw' | 'owner'
        self.sites = {}             # rid -> (fn, node)
        self.problems = {}          # key -> (fn, node, message)
        self.steps = 0
        self.tested = {}
        self.depth = 0
        self.stack = []

    # ------------------------------------------------------------ states
    @staticmethod
    def get(st, k, name):
        for x in st:
            if x[0] == k and x[1] == name:
                return x[2]
        return None

    @staticmethod
    def put(st, k, name, val):
        return frozenset([x for x in st if not (x[0] == k and x[1] == name)] + ([(k, name, val)] if val is not None else []))

    def status(self, st, rid):
        return self.get(st, 's', rid)

    # ------------------------------------------------------------ expressions
    def expr(self, fn, e, st):
        """evaluate e in state st -> ([(state, rid or None)], [(state, kind)] raised)"""
        if e is None:
            return [(st, None)], []
        self.steps += 1
        if isinstance(e, (ast.Name, ast.Attribute)):
            t = text(e)
            if t is not None:
                r = self.get(st, 'v', t)
                if r is not None:
                    return [(st, r)], []
            if isinstance(e, ast.Attribute):
                outs, exc = self.expr(fn, e.value, st)
                return [(s, None) for s, r in outs], exc
            return [(st, None)], []
        if isinstance(e, ast.Constant) or isinstance(e, (ast.Lambda, ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
            if isinstance(e, (ast.GeneratorExp, ast.ListComp, ast.SetComp, ast.DictComp)):
                return [(st, None)], [(st, 'E'), (st, 'B')]
            return [(st, None)], []
        if isinstance(e, ast.Call):
            return self.call(fn, e, st)
        if isinstance(e, ast.IfExp):
            out, exc = [], []
            ts, x = self.test(fn, e.test, st)
            exc += x
            for s, pol in ts:
                o, x = self.expr(fn, e.body if pol else e.orelse, s)
                out += o
                exc += x
            return out, exc
        if isinstance(e, ast.BoolOp):
            out, exc = [], []
            cur = [(st, None)]
            for i, v in enumerate(e.values):
                nxt = []
                for s, r in cur:
                    o, x = self.expr(fn, v, s)
                    exc += x
                    nxt += o
                if i < len(e.values) - 1:
                    out += nxt      # may stop here
                cur = nxt
            return list(set(out + cur)), exc
        if isinstance(e, ast.NamedExpr):
            o, exc = self.expr(fn, e.value, st)
            return [(self.assign_name(fn, e.target, s, r, e.value), r) for s, r in o], exc
        # everything else: operands in order
        cur, exc = [st], []
        for ch in ast.iter_child_nodes(e):
            if isinstance(ch, (ast.expr, ast.keyword, ast.Starred, ast.FormattedValue)):
                c = ch.value if isinstance(ch, (ast.keyword, ast.Starred)) else ch
                nxt = []
                for s in cur:
                    o, x = self.expr(fn, c, s)
                    exc += x
                    nxt += [s2 for s2, r in o]
                cur = list(set(nxt))
        if isinstance(e, ast.Subscript) and isinstance(e.ctx, ast.Load):
            exc += [(s, k) for s in cur for k in 'EB']
        if isinstance(e, (ast.Await, ast.Yield, ast.YieldFrom)):
            exc += [(s, k) for s in cur for k in 'EB']
        return [(s, None) for s in cur], exc

    def call(self, fn, call, st):
        exc = []
        func = call.func
        cur = [(st, None)]
        recv_text = None
        if isinstance(func, ast.Attribute):
            recv_text = text(func.value)
            o, exc = self.expr(fn, func.value, st)
            cur = o
        args = [(None, a.value if isinstance(a, ast.Starred) else a) for a in call.args] + [(k.arg, k.value) for k in call.keywords]
        states = [(s, r, []) for s, r in cur]
        for nm, a in args:
            nxt = []
            for s, r, vals in states:
                o, x = self.expr(fn, a, s)
                exc = exc + x
                nxt += [(s2, r, vals + [r2]) for s2, r2 in o]
            states = nxt
        out = []
        for s, r, vals in states:
            o, x = self.apply(fn, call, s, r, recv_text, args, vals)
            out += o
            exc = exc + x
        return list(set(out)), list(set(exc))

    def apply(self, fn, call, st, recv, recv_text, args, vals):
        kind = self.spec.acquisition(fn, call)
        both = [(st, 'E'), (st, 'B')]
        if kind is not None:
            rid = (kind, call.lineno, call.col_offset, fn.qual)
            self.kinds[rid] = kind
            self.sites[rid] = (fn, call)
            if kind == 'owner':
                return [(self.put(st, 's', rid, 'none'), rid)], []
            return [(self.put(st, 's', rid, 'open'), rid)], both
        fs, cs, ext = self.src.resolve(fn, call.func)
        name = call.func.attr if isinstance(call.func, ast.Attribute) else None
        if recv is not None and self.kinds.get(recv) == 'raw':
            if name in ('close', '__exit__'):
                return [(self.put(st, 's', recv, 'closed'), None)], []
            if name == '__enter__':
                return [(st, recv)], both
            return [(st, None)], both
        if recv is not None and any(self.spec.is_release(f) for f in fs):
            return [(self.put(st, 's', recv, 'closed'), None)], []
        if name == 'enter_context' or name == 'callback' or name == 'push':
            s = st
            for v in vals:
                if v is not None:
                    s = self.put(s, 's', v, 'kept')
            return [(s, vals[0] if vals else None)], both
        if ext in SAFE or (name in SAFE):
            return [(st, None)], []
        tracked = [v for v in vals if v is not None]
        if fs and any(f in self.interesting for f in fs):
            out, exc = [], []
            for f in fs[:3]:
                o, x = self.inline(fn, f, call, st, recv, recv_text, args, vals)
                out += o
                exc += x
            return out, exc
        if ext == 'contextlib.closing' and tracked:
            return [(st, tracked[0])], both
        return [(st, None)], both

    def inline(self, fn, f, call, st, recv, recv_text, args, vals):
        """follow a call into the package: the callee's view of the tracked objects, mapped back"""
        both = [(st, 'E'), (st, 'B')]
        if self.depth > 6 or f in self.stack:
            return [(st, None)], both
        pos = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        decos = {getattr(d, 'id', None) for d in getattr(f.node, 'decorator_list', [])}
        bind = {}                   # callee name -> (caller text, rid)
        i = 0
        if f.cls is not None and f.parent is None and 'staticmethod' not in decos and isinstance(call.func, ast.Attribute):
            r = self.src.scope_lookup(fn, call.func.value.id) if isinstance(call.func.value, ast.Name) else None
            if not (r is not None and r[0] == 'class'):
                if pos:
                    bind[pos[0]] = (recv_text, recv)
                i = 1
        elif f.cls is None and isinstance(call.func, ast.Attribute) and recv is not None:
            if pos:
                bind[pos[0]] = (recv_text, recv)
            i = 1
        for (nm, a), v in zip(args, vals):
            if nm is None:
                if i < len(pos):
                    bind[pos[i]] = (text(a) if not isinstance(a, ast.Constant) else a, v)
                i += 1
            else:
                bind[nm] = (text(a) if not isinstance(a, ast.Constant) else a, v)
        facts = []
        for p, (t, rid) in bind.items():
            if rid is not None:
                facts.append(('v', p, rid))
            if isinstance(t, ast.Constant):
                if isinstance(t.value, bool) or t.value is None:
                    facts.append(('f', p, bool(t.value)))
            elif t is not None:
                for x in st:
                    if x[0] == 'f' and (x[1] == t or x[1].startswith(t + '.')):
                        facts.append(('f', p + x[1][len(t):], x[2]))
        # defaults
        dn = f.node.args.args[len(f.node.args.args) - len(f.node.args.defaults):]
        for a, d in zip(dn, f.node.args.defaults):
            if a.arg not in bind and isinstance(d, ast.Constant) and (isinstance(d.value, bool) or d.value is None):
                facts.append(('f', a.arg, bool(d.value)))
        for x in st:
            if x[0] == 's':
                facts.append(x)
        start = frozenset(facts)
        key = (f, start)
        if key not in self.memo:
            self.depth += 1
            self.stack.append(f)
            try:
                self.memo[key] = self.function(f, start)
            finally:
                self.depth -= 1
                self.stack.pop()
        res = self.memo[key]

        def back(s):
            out = [x for x in st if x[0] == 'v']
            keep = {x[1]: x[2] for x in st if x[0] == 'f'}
            for x in s:
                if x[0] == 's':
                    out.append(x)
                elif x[0] == 'f':
                    head = x[1].split('.')[0]
                    if head in bind:
                        t = bind[head][0]
                        if isinstance(t, str):
                            rest = x[1][len(head):]
                            if rest or head not in stored(f):
                                keep[t + rest] = x[2]
            al = {x[1]: x[2] for x in st if x[0] == 'a'}
            for x in s:
                if x[0] == 'a':
                    h1, h2 = x[1].split('.')[0], x[2][0].split('.')[0]
                    if h1 in bind and h2 in bind and isinstance(bind[h1][0], str) and isinstance(bind[h2][0], str) \
                            and x[1] != h1 and h2 not in stored(f):
                        al[bind[h1][0] + x[1][len(h1):]] = (bind[h2][0] + x[2][0][len(h2):], x[2][1])
            return frozenset(out + [('f', k, v) for k, v in keep.items()] + [('a', k, v) for k, v in al.items()])
        out = [(back(s), r) for s, r in res['ret']]
        exc = [(back(s), k) for s, k in res['exc']]
        return out, exc

    # ------------------------------------------------------------ tests
    def test(self, fn, e, st):
        """-> [(state, polarity)], raised"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            ts, x = self.test(fn, e.operand, st)
            return [(s, not p) for s, p in ts], x
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            cur, done, exc = [st], [], []
            for v in e.values:
                nxt = []
                for s in cur:
                    ts, x = self.test(fn, v, s)
                    exc += x
                    for s2, p in ts:
                        if p == isand:
                            nxt.append(s2)
                        else:
                            done.append((s2, p))
                cur = nxt
            return list(set(done + [(s, isand) for s in cur])), exc
        if isinstance(e, ast.Constant):
            return [(st, bool(e.value))], []
        t = text(e)
        if t is not None and self.get(st, 'v', t) is None:
            v = self.get(st, 'f', t)
            if v is not None:
                return [(st, v)], []
            a = self.get(st, 'a', t)
            if a is not None:
                v = self.get(st, 'f', a[0])
                if v is not None:
                    return [(st, v == a[1])], []
                return [(self.put(self.put(st, 'f', t, p), 'f', a[0], p == a[1]), p) for p in (True, False)], []
            if not self.relevant(fn, t):
                return [(st, True), (st, False)], []
            # whatever is known to have the same truth
            out = []
            for p in (True, False):
                s2 = self.put(st, 'f', t, p)
                for x in st:
                    if x[0] == 'a' and x[2][0] == t:
                        s2 = self.put(s2, 'f', x[1], p == x[2][1])
                out.append((s2, p))
            return out, []
        if t is not None:
            return [(st, True)], []         # an object
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)) \
                and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None:
            t = text(e.left)
            if t is not None and self.get(st, 'v', t) is not None:
                return [(st, isinstance(e.ops[0], ast.IsNot))], []
        o, exc = self.expr(fn, e, st)
        out = []
        for s, r in o:
            out += [(s, True), (s, False)]
        return list(set(out)), exc

    # ------------------------------------------------------------ statements
    def block(self, fn, stmts, states):
        out = Out()
        cur = set(states)
        for s in stmts:
            if not cur:
                break
            if len(cur) > LIMIT:
                raise TooMany()
            o = Out()
            for st in cur:
                o.add(self.stmt(fn, s, st))
            out.add(o, normal=False)
            cur = o.normal
        out.normal = cur
        return out

    def assign_name(self, fn, t, st, rid, value=None):
        k = text(t)
        if k is None:
            return st
        # what was known about it, and about its attributes, is gone
        st = frozenset(x for x in st if not ((x[0] in 'fva') and (x[1] == k or x[1].startswith(k + '.'))
                                             or x[0] == 'a' and (x[2][0] == k or x[2][0].startswith(k + '.'))))
        if rid is not None:
            if isinstance(t, ast.Attribute) and self.kinds.get(rid) == 'raw':
                owner = self.get(st, 'v', text(t.value))
                st = self.put(st, 's', rid, 'kept')
                if owner is not None and self.kinds.get(owner) == 'owner':
                    st = self.put(st, 's', owner, 'open')
                if not self.spec.keeper_attr(t.attr):
                    f0, n0 = self.sites[rid]
                    self.problem(f0, n0, 'is kept in attribute %s, which nothing closes' % t.attr)
                return st
            if isinstance(t, ast.Attribute):
                return self.put(st, 's', rid, 'kept')
            return self.put(st, 'v', k, rid)
        if isinstance(value, ast.Constant) and (isinstance(value.value, bool) or value.value is None):
            return self.put(st, 'f', k, bool(value.value))
        pol = True
        while value is not None:
            if isinstance(value, ast.UnaryOp) and isinstance(value.op, ast.Not):
                pol = not pol
                value = value.operand
            elif isinstance(value, ast.Call) and isinstance(value.func, ast.Name) and value.func.id == 'bool' and len(value.args) == 1:
                value = value.args[0]
            else:
                break
        if value is not None:
            vt = text(value)
            if vt is not None and vt != k and not vt.startswith(k + '.'):
                f = self.get(st, 'f', vt)
                if f is not None:
                    st = self.put(st, 'f', k, f == pol)
                if self.spec.flag(vt) or self.spec.flag(k) or self.relevant(fn, k):
                    a = self.get(st, 'a', vt)
                    st = self.put(st, 'a', k, (vt, pol) if a is None else (a[0], a[1] == pol))
        return st

    def stmt(self, fn, s, st):
        self.steps += 1
        o = Out()
        if isinstance(s, (ast.Pass, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
            o.normal.add(st)
        elif isinstance(s, ast.Expr):
            outs, exc = self.expr(fn, s.value, st)
            o.normal |= {x for x, r in outs}
            o.exc |= set(exc)
        elif isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
            outs, exc = self.expr(fn, s.value, st) if s.value is not None else ([(st, None)], [])
            o.exc |= set(exc)
            targets = s.targets if isinstance(s, ast.Assign) else [s.target]
            for st2, rid in outs:
                for t in targets:
                    if isinstance(t, (ast.Tuple, ast.List)):
                        for i, x in enumerate(t.elts):
                            v = s.value.elts[i] if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(t.elts) else None
                            r = self.get(st2, 'v', text(v)) if v is not None and text(v) else None
                            st2 = self.assign_name(fn, x, st2, r, v)
                    elif isinstance(t, ast.Subscript):
                        if rid is not None:
                            st2 = self.put(st2, 's', rid, 'kept')
                        o.exc |= {(st2, 'E'), (st2, 'B')}
                    else:
                        st2 = self.assign_name(fn, t, st2, rid, None if isinstance(s, ast.AugAssign) else s.value)
                o.normal.add(st2)
        elif isinstance(s, ast.Return):
            outs, exc = self.expr(fn, s.value, st)
            o.exc |= set(exc)
            o.ret |= set(outs)
        elif isinstance(s, ast.Raise):
            outs, exc = self.expr(fn, s.exc, st)
            o.exc |= set(exc)
            if s.exc is None:
                cur = self.get(st, 'f', '<exc>')
                kinds = ['E', 'B'] if cur is None else ['E' if cur else 'B']
                o.exc |= {(x, k) for x, r in outs for k in kinds}
            else:
                o.exc |= {(x, k) for x, r in outs for k in (('E',) if isinstance(s.exc, ast.Call) else ('E', 'B'))}
        elif isinstance(s, ast.Assert):
            ts, exc = self.test(fn, s.test, st)
            o.exc |= set(exc)
            for x, p in ts:
                if p:
                    o.normal.add(x)
                else:
                    o.exc.add((x, 'E'))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                k = text(t)
                if k:
                    st = frozenset(x for x in st if not (x[0] in 'fv' and (x[1] == k or x[1].startswith(k + '.'))))
            o.normal.add(st)
        elif isinstance(s, ast.If):
            ts, exc = self.test(fn, s.test, st)
            o.exc |= set(exc)
            for pol, body in ((True, s.body), (False, s.orelse)):
                ss = {x for x, p in ts if p == pol}
                if ss:
                    o.add(self.block(fn, body, ss) if body else self.plain(ss))
        elif isinstance(s, ast.While):
            self.loop(fn, s, {st}, o, lambda x: self.test(fn, s.test, x))
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            outs, exc = self.expr(fn, s.iter, st)
            o.exc |= set(exc)

            def step(x):
                y = self.assign_name(fn, s.target, x, None) if isinstance(s.target, (ast.Name, ast.Attribute)) else x
                return [(y, True), (x, False)], ([(x, 'E'), (x, 'B')] if not quiet_iter(s.iter) else [])
            self.loop(fn, s, {x for x, r in outs}, o, step)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            o.add(self.with_(fn, s, s.items, st))
        elif isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            o.add(self.try_(fn, s, st))
        elif isinstance(s, ast.Break):
            o.brk.add(st)
        elif isinstance(s, ast.Continue):
            o.cont.add(st)
        else:
            o.normal.add(st)
            o.exc |= {(st, 'E'), (st, 'B')}
        return o

    def plain(self, ss):
        o = Out()
        o.normal |= set(ss)
        return o

    def loop(self, fn, s, entry, o, test):
        seen, todo, leave = set(), set(entry), set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if len(seen) > LIMIT:
                raise TooMany()
            ts, exc = test(x)
            o.exc |= set(exc)
            for y, p in ts:
                if not p:
                    leave.add(y)
                    continue
                b = self.block(fn, s.body, {y})
                o.ret |= b.ret
                o.exc |= b.exc
                o.normal |= b.brk
                todo |= b.normal | b.cont
        if leave:
            o.add(self.block(fn, s.orelse, leave) if s.orelse else self.plain(leave))

    def with_(self, fn, s, items, st):
        if not items:
            return self.block(fn, s.body, {st})
        it = items[0]
        o = Out()
        ctx = it.context_expr
        outs, exc = self.expr(fn, ctx, st)
        o.exc |= set(exc)
        for x, rid in outs:
            y = x
            if it.optional_vars is not None and isinstance(it.optional_vars, (ast.Name, ast.Attribute)):
                y = self.assign_name(fn, it.optional_vars, x, rid) if not isinstance(it.optional_vars, ast.Attribute) else x
            inner = self.with_(fn, s, items[1:], y)
            swallow = rid is None and isinstance(ctx, ast.Call) and last_name(ctx.func) == 'suppress'

            def close(z, rid=rid):
                if rid is None:
                    return z
                if self.kinds.get(rid) == 'owner' and not self.spec.manager_exit_releases():
                    return z
                return self.put(z, 's', rid, 'closed')
            o.normal |= {close(z) for z in inner.normal}
            o.ret |= {(close(z), r) for z, r in inner.ret}
            o.brk |= {close(z) for z in inner.brk}
            o.cont |= {close(z) for z in inner.cont}
            o.exc |= {(close(z), k) for z, k in inner.exc}
            if swallow:
                o.normal |= {z for z, k in inner.exc}
        return o

    def try_(self, fn, s, st):
        b = self.block(fn, s.body, {st})
        o = Out()
        o.ret |= b.ret
        o.brk |= b.brk
        o.cont |= b.cont
        if s.orelse and b.normal:
            o.add(self.block(fn, s.orelse, b.normal))
        else:
            o.normal |= b.normal
        pending = set(b.exc)
        for h in s.handlers:
            caught, left = set(), set()
            names = handler_names(h)
            for x, k in pending:
                if names is None or 'BaseException' in names:
                    caught.add((x, k))
                elif 'Exception' in names:
                    (caught if k == 'E' else left).add((x, k))
                elif names & {'KeyboardInterrupt', 'SystemExit', 'GeneratorExit'} and k == 'B':
                    caught.add((x, k))
                    left.add((x, k))
                elif k == 'E':
                    caught.add((x, k))
                    left.add((x, k))
                else:
                    left.add((x, k))
            pending = left
            for k in ('E', 'B'):
                ss = {self.put(x, 'f', '<exc>', k == 'E') for x, kk in caught if kk == k}
                if ss:
                    hb = self.block(fn, h.body, ss)
                    unexc = lambda z: self.put(z, 'f', '<exc>', None)
                    o.normal |= {unexc(z) for z in hb.normal}
                    o.ret |= {(unexc(z), r) for z, r in hb.ret}
                    o.brk |= {unexc(z) for z in hb.brk}
                    o.cont |= {unexc(z) for z in hb.cont}
                    o.exc |= {(unexc(z), kk) for z, kk in hb.exc}
        o.exc |= pending
        if s.finalbody:
            f = Out()
            for kind, sts in (('normal', o.normal), ('brk', o.brk), ('cont', o.cont)):
                if sts:
                    r = self.block(fn, s.finalbody, sts)
                    getattr(f, kind).update(r.normal)
                    f.ret |= r.ret
                    f.exc |= r.exc
            for x, rid in o.ret:
                r = self.block(fn, s.finalbody, {x})
                f.ret |= {(z, rid) for z in r.normal} | r.ret
                f.exc |= r.exc
            for x, k in o.exc:
                r = self.block(fn, s.finalbody, {x})
                f.exc |= {(z, k) for z in r.normal} | r.exc
                f.ret |= r.ret
            o = f
        return o

    def relevant(self, fn, t):
        """is a flag worth following: tested more than once, set to a constant, or the spec's own"""
        d = self.tested.get(fn)
        if d is None:
            d = self.tested[fn] = {}
            for n in fn.body_nodes():
                if isinstance(n, (ast.If, ast.While, ast.IfExp, ast.Assert)):
                    for x in ast.walk(n.test):
                        if isinstance(x, (ast.Name, ast.Attribute)):
                            k = text(x)
                            d[k] = d.get(k, 0) + 1
                elif isinstance(n, ast.Assign):
                    for tt in n.targets:
                        k = text(tt)
                        if k is not None:
                            d[k] = d.get(k, 0) + 1
        return d.get(t, 0) > 1 or self.spec.flag(t)

    # ------------------------------------------------------------ functions
    def function(self, f, start):
        if isinstance(f.node, ast.Lambda):
            return {'ret': {(start, None)}, 'exc': {(start, 'E'), (start, 'B')}}
        o = self.block(f, f.node.body, {start})
        return {'ret': {(self.spec.returned(self, x), r) for x, r in o.ret | {(x, None) for x in o.normal}}, 'exc': o.exc}

    def problem(self, fn, node, msg):
        self.problems.setdefault((fn.qual, node.lineno, msg), (fn, node, msg))


def quiet_iter(e):
    return isinstance(e, (ast.List, ast.Tuple, ast.Constant))


def last_name(n):
    return n.attr if isinstance(n, ast.Attribute) else getattr(n, 'id', None)


def handler_names(h):
    if h.type is None:
        return None
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {last_name(t) for t in ts}


_stored = {}


def stored(f):
    """parameter names a function assigns"""
    if f not in _stored:
        _stored[f] = {n.id for n in f.body_nodes() if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
    return _stored[f]
