"""Flow-sensitive abstract interpreter over the repository's syntax trees.

Nothing from /repo is imported or executed: source is parsed with `ast` and its
statements are interpreted over the abstract values of terms.py.  Unknown
branches are taken both ways and merged (gated by the branch condition), loops
are summarised with induction variables, helpers are inlined, and everything
that is not understood becomes TOP.
"""
import ast
import os
import struct as _struct
import time
from .terms import *
from . import terms as T

MAXDEPTH = 24
MAXSIZE = 600
UNROLL = 6000


class Unsupported(Exception):
    pass


class HObj(object):
    __slots__ = ('kind', 'cls', 'attrs', 'items', 'elems', 'name', 'fresh', 'node', 'data')

    def __init__(self, kind, cls=None, attrs=None, items=None, elems=frozenset(), name=None,
                 fresh=True, node=None, data=None):
        self.kind = kind
        self.cls = cls
        self.attrs = attrs if attrs is not None else {}
        self.items = items
        self.elems = elems
        self.name = name
        self.fresh = fresh
        self.node = node
        self.data = data

    def copy(self, **kw):
        o = HObj(self.kind, self.cls, self.attrs, self.items, self.elems, self.name, self.fresh,
                 self.node, self.data)
        for k, v in kw.items():
            setattr(o, k, v)
        return o

    def same(self, o):
        return (self.kind == o.kind and self.attrs == o.attrs and self.items == o.items
                and self.elems == o.elems and self.data == o.data)


class Func(object):
    __slots__ = ('node', 'module', 'cls', 'qual', 'defaults', 'kwdefaults', 'frame', 'name')

    def __init__(self, node, module, cls, qual, defaults, kwdefaults, frame):
        self.node = node
        self.module = module
        self.cls = cls
        self.qual = qual
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.frame = frame
        self.name = getattr(node, 'name', '<lambda>')


class State(object):
    __slots__ = ('frames', 'heap', 'ranges', 'guards', 'dead')

    def __init__(self, frames=None, heap=None, ranges=None, guards=()):
        self.frames = frames or {}
        self.heap = heap or {}
        self.ranges = ranges or {}
        self.guards = guards
        self.dead = False

    def copy(self):
        s = State({k: dict(v) for k, v in self.frames.items()}, dict(self.heap),
                  dict(self.ranges), self.guards)
        s.dead = self.dead
        return s

    def replace(self, o):
        self.frames = o.frames
        self.heap = o.heap
        self.ranges = o.ranges
        self.guards = o.guards
        self.dead = o.dead


class Event(object):
    __slots__ = ('kind', 'data', 'guards', 'loops', 'node', 'func', 'path', 'sites')

    def __init__(self, kind, data, guards, loops, node, func, path, sites=None):
        self.sites = sites              # linked list (call site node, calling function, its file, outer sites)
        self.kind = kind
        self.data = data
        self.guards = guards
        self.loops = loops
        self.node = node
        self.func = func
        self.path = path

    @property
    def line(self):
        return getattr(self.node, 'lineno', 0)

    def where(self):
        return '%s:%d in %s' % (self.path, self.line, self.func)

    def origin(self, skip):
        """the innermost place of the call chain that is not inside a function whose name starts with one of skip"""
        if not self.func.startswith(skip):
            return self.where()
        s = self.sites
        while s is not None:
            if not s[1].startswith(skip):
                return '%s:%d in %s' % (s[2], getattr(s[0], 'lineno', 0), s[1])
            s = s[3]
        return self.where()

    def chain(self):
        """qualified names of the functions the event happened in, innermost first"""
        out = [self.func]
        s = self.sites
        while s is not None:
            out.append(s[1])
            s = s[3]
        return out

    def __repr__(self):
        return '<%s %s @%s>' % (self.kind, [show(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x
                                          for x in self.data], self.where())


class Module(object):
    def __init__(self, name, path, tree, src):
        self.name = name
        self.path = path
        self.tree = tree
        self.src = src
        self.env = {}


class Flow(object):
    __slots__ = ('normal', 'rets', 'brks', 'conts')

    def __init__(self, normal=None):
        self.normal = normal
        self.rets = []
        self.brks = []
        self.conts = []


PURE_METHODS = {
    'str': {'split', 'splitlines', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'startswith',
            'endswith', 'join', 'encode', 'find', 'index', 'count', 'format', 'title', 'isdigit', 'isalpha',
            'rjust', 'ljust', 'zfill', 'partition', 'rpartition', 'rsplit', 'isupper', 'islower'},
    'bytes': {'decode', 'split', 'strip', 'rstrip', 'replace', 'startswith', 'endswith', 'join', 'find', 'hex'},
    'int': {'bit_length'},
    'float': {'is_integer'},
}


BOOL_OPS = {'eq0', 'lt0', 'not', 'is', 'in', 'inset', 'cmp', 'bool', 'isinstance', 'hasattr', 'and', 'truth',
            'except'}


def size(t, lim=MAXSIZE):
    n = 0
    for _ in walk(t):
        n += 1
        if n > lim:
            return n
    return n


class Interp(object):
    maxsize = MAXSIZE
    implications = False    # keep, after a join, what a nested return or raise excluded

    def __init__(self, program):
        self.program = program
        self.seqinfo = {}               # list -> (items, count): how a list was created
        self.len_versions = False       # tell apart lengths of opaque containers read at different times
        self.load_events = False        # report every subscript that is read
        self.element_syms = False       # name unknown list elements instead of forgetting them
        self.nelem = 0
        self.phis = {}                  # (loop, location) -> (value on entry, value after one more iteration)
        self.loop_log = None            # when a list: one LoopRec per while loop summarised
        self.stuck = []                 # (function, loop, state) of unrolled loops that return to an earlier state
        self.events = []
        self.recording = 0          # >0: discovery pass, do not record
        self.hooks = {}             # qual name -> fn(interp, st, fn, args, kwargs, node)
        self.callstack = []
        self.sinks = [[]]
        self.loops = ()
        self.next_id = [1000000]
        self.next_frame = [0]
        self.next_loop = [0]
        self.unsupported = []
        self.assume = {}            # term -> (lo, hi)
        self.stats = {'calls': 0, 'stmts': 0, 'branches': 0, 'loops': 0}
        self.attr_hook = None
        self.budget = None
        self.deadline = None
        self.visited = set()
        self.iter_serial = 0
        self.outer_serial = 0
        self.method_hooks = {}
        self.iter_ends = []         # (loop id, state at the end of one iteration) of outermost loops

    # ------------------------------------------------------------------ heap
    def hget(self, st, hid):
        o = st.heap.get(hid)
        if o is None:
            o = self.program.heap.get(hid)
        return o

    def alloc(self, st, obj):
        self.next_id[0] += 1
        hid = self.next_id[0]
        st.heap[hid] = obj
        return ('ref', hid)

    def new_list(self, st, items, node=None):
        r = self.alloc(st, HObj('list', items=tuple(items), node=node))
        self.seqinfo[r] = (tuple(items), const(1))
        return r

    def new_opaque(self, st, cls, name, **attrs):
        return self.alloc(st, HObj('inst', cls=cls, attrs=dict(attrs), name=name, fresh=False))

    def set_attr(self, st, objt, attr, val, node, how='setattr'):
        for o in alternatives(objt):
            self._set_attr1(st, o, attr, val, node, how, weak=objt[0] == 'alts')

    def _set_attr1(self, st, objt, attr, val, node, how, weak=False):
        self.emit('setattr', (objt, attr, val, how), st, node)
        if objt[0] == 'ref':
            h = self.hget(st, objt[1])
            if h is not None:
                at = dict(h.attrs)
                if weak and attr in at:
                    val = alts([at[attr], val])
                at[attr] = val
                st.heap[objt[1]] = h.copy(attrs=at)
        elif objt[0] == 'class':
            hid = 'class:' + objt[1]
            h = self.hget(st, hid)
            if h is not None:
                at = dict(h.attrs)
                at[attr] = val
                st.heap[hid] = h.copy(attrs=at)

    # ---------------------------------------------------------------- events
    def emit(self, kind, data, st, node):
        if self.recording:
            return
        f = self.callstack[-1] if self.callstack else None
        self.events.append(Event(kind, data, st.guards, self.loops, node,
                                 f.qual if f else '<module>',
                                 self.cur_module().path if self.cur_module() else '?', self.sites))

    sites = None

    def cur_module(self):
        return self.callstack[-1].module if self.callstack else self._mod

    _mod = None

    # ----------------------------------------------------------------- joins
    def join_states(self, states):
        states = [s for s in states if s is not None and not s.dead]
        if not states:
            return None
        while len(states) > 1:
            # merge the pair with the longest common guard prefix first
            best = None
            for i in range(len(states)):
                for j in range(i + 1, len(states)):
                    p = self._cpl(states[i].guards, states[j].guards)
                    if best is None or p > best[0]:
                        best = (p, i, j)
            p, i, j = best
            a, b = states[i], states[j]
            m = self.join2(a, b, p)
            states = [s for k, s in enumerate(states) if k not in (i, j)] + [m]
        return states[0]

    def join_ordered(self, states):
        """states in program order (a later one is reached only where no earlier one was left through): a decision list.
        Where two neighbours are not told apart by one complementary guard, the guards of the earlier one tell them apart."""
        states = [s for s in states if s is not None and not s.dead]
        if len(states) < 2:
            return states[0] if states else None
        exact = [True] * len(states)
        while len(states) > 1:
            best = None
            for j in range(len(states)):
                for i in range(j):
                    a, b = states[i].guards, states[j].guards
                    p = self._cpl(a, b)
                    comp = p < len(a) and p < len(b) and a[p][0] == b[p][0]
                    if best is None or (p, comp, j, i) > best:
                        best = (p, comp, j, i)
            p, comp, j, i = best
            a, b = states[i], states[j]
            cond = None
            if not comp and exact[i] and len(a.guards) > p:
                cond = mk_and([g[0] if g[1] else neg(g[0]) for g in a.guards[p:]])
                if cond == TOP or cond[0] == 'c' or size(cond, self.maxsize) >= self.maxsize or per_iteration(cond):
                    cond = None
            m = self.join2(a, b, p, cond)
            if comp:
                ex = exact[i] and exact[j] and len(a.guards) == p + 1 == len(b.guards)
            else:
                ex = exact[j] and cond is not None
            # the guards left name this merged state only where no other state shares them
            ex = ex or all(self._cpl(states[k].guards, m.guards) < p for k in range(len(states)) if k not in (i, j))
            states[j] = m
            exact[j] = ex
            del states[i], exact[i]
        return states[0]

    @staticmethod
    def _cpl(a, b):
        n = 0
        for x, y in zip(a, b):
            if x[:2] != y[:2]:
                break
            n += 1
        return n

    def join2(self, a, b, p, cond=None):
        if cond is None and len(a.guards) > p and len(b.guards) > p:
            ga, gb = a.guards[p], b.guards[p]
            if ga[0] == gb[0] and ga[1] != gb[1]:
                cond = ga[0]
                if not ga[1]:
                    a, b = b, a      # a = cond true
        out = State()
        out.guards = a.guards[:p]
        if self.implications and cond is not None and len(a.guards) > p and len(b.guards) > p and a.guards[p][0] == b.guards[p][0]:
            # where part of one side was left (return, raise), the other part is what goes on: condition => rest
            for g, pol in ((a.guards[p:], True), (b.guards[p:], False)):
                if len(g) > 1 and g[0][1] == pol:
                    t = neg(mk_and([cond if pol else neg(cond), neg(mk_and([x[0] if x[1] else neg(x[0]) for x in g[1:]]))]))
                    if t != TOP and t[0] != 'c' and size(t, self.maxsize) < self.maxsize and not per_iteration(t):
                        t, tp = canon_cond(t)
                        out.guards = out.guards + ((t, tp, g[0][2]),)
        for fid in set(a.frames) | set(b.frames):
            fa, fb = a.frames.get(fid), b.frames.get(fid)
            if fa is None or fb is None:
                out.frames[fid] = dict(fa if fa is not None else fb)
                continue
            d = {}
            for k in set(fa) | set(fb):
                va, vb = fa.get(k), fb.get(k)
                d[k] = self.join_val(va, vb, cond)
            out.frames[fid] = d
        for hid in set(a.heap) | set(b.heap):
            ha = a.heap.get(hid)
            hb = b.heap.get(hid)
            if ha is hb:
                out.heap[hid] = ha
                continue
            if ha is None:
                ha = self.program.heap.get(hid)
            if hb is None:
                hb = self.program.heap.get(hid)
            if ha is None or hb is None:
                out.heap[hid] = ha or hb
                continue
            out.heap[hid] = self.join_obj(ha, hb, cond)
        for t in set(a.ranges) & set(b.ranges):
            ra, rb = a.ranges[t], b.ranges[t]
            out.ranges[t] = (min(ra[0], rb[0]), max(ra[1], rb[1]))
        return out

    def join_val(self, va, vb, cond=None):
        if va == vb:
            return va
        if va is None:
            va = ('unbound',)
        if vb is None:
            vb = ('unbound',)
        if va == TOP or vb == TOP:
            if cond is not None and va != vb:
                pass
            return TOP
        if cond is not None:
            t = mk_ite(cond, va, vb)
            if size(t, self.maxsize + 1) <= self.maxsize:
                return t
        return alts([va, vb])

    def join_obj(self, ha, hb, cond):
        attrs = {}
        for k in set(ha.attrs) | set(hb.attrs):
            va, vb = ha.attrs.get(k), hb.attrs.get(k)
            if va is None:
                va = self.absent_attr(ha, k)
            if vb is None:
                vb = self.absent_attr(hb, k)
            attrs[k] = self.join_val(va, vb, cond)
        items, elems = ha.items, ha.elems | hb.elems
        if ha.items != hb.items:
            if ha.kind == 'list' and ha.items is not None and hb.items is not None \
                    and len(ha.items) == len(hb.items):
                items = tuple(self.join_val(x, y, cond) for x, y in zip(ha.items, hb.items))
            else:
                for h in (ha, hb):
                    if h.items is not None:
                        if h.kind == 'dict':
                            elems |= frozenset(h.items)
                        else:
                            elems |= frozenset(h.items)
                items = None
        return ha.copy(attrs=attrs, items=items, elems=elems)

    def absent_attr(self, h, k):
        if not h.fresh and h.name is not None:
            return ('init', h.name, k)
        if h.cls is not None:
            v = self.class_lookup(None, h.cls, k)
            if v is not None:
                return v
        return ('unbound',)

    # ------------------------------------------------------------ conditions
    def decide(self, st, cond, pol):
        """Is canonical (cond, pol) known true/false in st?"""
        for g in st.guards:
            if g[0] == cond:
                return g[1] == pol
        r = None
        if cond[0] == 'app':
            op = cond[1]
            if op == 'and':
                ds = []
                for l in cond[2:]:
                    c, p = canon_cond(l)
                    ds.append(self.decide(st, c, p))
                if any(d is False for d in ds):
                    r = False
                elif all(d is True for d in ds):
                    r = True
            if op in ('eq0', 'lt0'):
                lo, hi, i = term_range(cond[2], self.rangemap(st))
                if op == 'lt0':
                    if hi < 0:
                        r = True
                    elif lo >= 0:
                        r = False
                else:
                    if lo == hi == 0:
                        r = True
                    elif lo > 0 or hi < 0:
                        r = False
        if r is None:
            return None
        return r == pol

    def rangemap(self, st):
        if not st.ranges:
            return self.assume
        if not self.assume:
            return st.ranges
        m = dict(self.assume)
        for k, v in st.ranges.items():
            if k in m:
                m[k] = (max(v[0], m[k][0]), min(v[1], m[k][1]))
            else:
                m[k] = v
        return m

    def refine(self, st, cond, pol, node):
        st.guards = st.guards + ((cond, pol, node),)
        if cond[0] == 'app' and cond[1] == 'and':
            rest = []
            for l in cond[2:]:
                c, p = canon_cond(l)
                if pol:
                    if self.decide(st, c, p) is not True:
                        self.refine(st, c, p, node)
                else:
                    d = self.decide(st, c, p)
                    if d is None:
                        rest.append((c, p))
                    elif d is False:
                        rest = None
                        break
            if not pol and rest is not None and len(rest) == 1:
                self.refine(st, rest[0][0], not rest[0][1], node)
            return
        if cond[0] == 'app' and cond[1] in ('eq0', 'lt0'):
            l = to_lin(cond[2])
            if l is not None and len(l[1]) == 1:
                c, m = l
                (atom, k), = m.items()
                lo, hi, isint = term_range(atom, self.rangemap(st))
                if cond[1] == 'eq0':
                    if pol:
                        v = -c / k if c % k else -c // k
                        st.ranges[atom] = (v, v)
                    elif isint and c % k == 0:
                        v = -c // k
                        if v == lo:
                            st.ranges[atom] = (lo + 1, hi)
                        elif v == hi:
                            st.ranges[atom] = (lo, hi - 1)
                else:
                    # k*atom + c < 0
                    b = -c / k if c % k else -c // k
                    neg = pol
                    if k < 0:
                        # atom > b
                        if pol:
                            nl = (int(b // 1) + 1) if isint else b
                            lo = max(lo, nl)
                        else:
                            hi = min(hi, b if not isint else int(b // 1))
                    else:
                        if pol:
                            nh = (-int(-b // 1) - 1) if isint else b
                            hi = min(hi, nh)
                        else:
                            lo = max(lo, b if not isint else -int(-b // 1))
                    st.ranges[atom] = (lo, hi)

    def truth(self, st, t):
        """-> (True/False/None, canonical cond or None, polarity)"""
        if t[0] == 'c':
            return bool(t[2]), None, True
        if t[0] == 'tuple':
            return len(t[1]) > 0, None, True
        if t[0] in ('func', 'bm', 'class', 'mod', 'ext'):
            return True, None, True
        if t[0] == 'ref':
            h = self.hget(st, t[1])
            if h is not None:
                if h.kind in ('list', 'dict', 'set') and h.items is not None:
                    return len(h.items) > 0, None, True
                if h.kind == 'list' and h.data == 'nonempty':
                    return True, None, True
                if h.kind == 'inst' and not (h.cls and (self.class_lookup(st, h.cls, '__len__')
                                                        or self.class_lookup(st, h.cls, '__bool__'))):
                    return True, None, True
            return None, ('app', 'truth', t), True
        if t == TOP:
            return None, TOP, True
        if t[0] == 'app' and t[1] == 'cat' and any(x[0] == 'c' and x[2] for x in t[2:]):
            return True, None, True
        if t[0] == 'slice' and t[1][:2] == ('app', 'cat') and t[3] == ('end',) and is_int_const(t[2]) and \
                0 <= t[2][2] < sum(len(x[2]) for x in t[1][2:] if x[0] == 'c' and isinstance(x[2], bytes)):
            return True, None, True
        c, p = canon_cond(t)
        if c[0] == 'c':
            return bool(c[2]) == p, None, True
        d = self.decide(st, c, p)
        return d, c, p

    # ----------------------------------------------------------- expressions
    def ev(self, node, st):
        if self.budget is not None:
            self.budget -= 1
            if self.budget < 0:
                raise Unsupported('budget exhausted')
            if self.deadline is not None and not self.budget & 63 and time.monotonic() > self.deadline:
                raise Unsupported('time exhausted')
        m = getattr(self, 'ev_' + node.__class__.__name__, None)
        if m is None:
            self.unsupported.append((node.__class__.__name__, getattr(node, 'lineno', 0)))
            return TOP
        return m(node, st)

    def ev_Constant(self, node, st):
        if node.value is Ellipsis:
            return TOP
        return const(node.value)

    def ev_Name(self, node, st):
        return self.lookup(node.id, st, node)

    def lookup(self, name, st, node=None):
        f = self.frame_chain[-1] if self.frame_chain else None
        fid = f
        while fid is not None:
            d = st.frames.get(fid)
            if d is not None and name in d:
                return d[name]
            fid = self.frame_parent.get(fid)
        mod = self.cur_module()
        if mod is not None:
            k = 'mod:' + mod.name
            h = st.heap.get(k)
            if h is not None and name in h.attrs:
                return h.attrs[name]
            if name in mod.env:
                return mod.env[name]
        if name in BUILTINS:
            return ('ext', 'builtins.' + name)
        if name in ('__name__',):
            return const(mod.name if mod else '')
        if name == '__file__':
            return ('sym', '__file__')
        if not self.recording and node is not None:
            self.undefined.add((mod.path if mod else '?', name, getattr(node, 'lineno', 0)))
        return ('app', 'undefined', const(name))

    def ev_Tuple(self, node, st):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, st)
                seq = self.known_items(v, st)
                if seq is None:
                    return TOP
                out.extend(seq)
            else:
                out.append(self.ev(e, st))
        return ('tuple', tuple(out))

    def ev_List(self, node, st):
        t = self.ev_Tuple(node, st)
        if t == TOP:
            return self.alloc(st, HObj('list', items=None, node=node))
        return self.new_list(st, t[1], node)

    def ev_Set(self, node, st):
        t = self.ev_Tuple(node, st)
        return self.alloc(st, HObj('set', items=t[1] if t != TOP else None, node=node))

    def ev_Dict(self, node, st):
        items = []
        for k, v in zip(node.keys, node.values):
            if k is None:
                return self.alloc(st, HObj('dict', items=None, node=node))
            kk = self.ev(k, st)
            vv = self.ev(v, st)
            items = [(a, b) for a, b in items if a != kk] + [(kk, vv)]
        return self.alloc(st, HObj('dict', items=tuple(items), node=node))

    def ev_JoinedStr(self, node, st):
        out = const('')
        bad = False
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, st)
                spec = self.ev(v.format_spec, st) if v.format_spec is not None else const('')
                if x == TOP or spec == TOP or x[0] in ('ref', 'alts'):
                    bad = True
                    continue
                if v.conversion == 114:
                    x = ('app', 'repr', x)
                elif v.conversion in (115, -1) and spec == const(''):
                    x = self.x_str([x], {}, st, node)
                elif v.conversion not in (115, -1):
                    bad = True
                if spec != const(''):
                    x = ('app', 'method', const('format'), const('{:%s}' % spec[2]), x) if spec[0] == 'c' else TOP
                    bad = bad or x == TOP
            else:
                x = self.ev(v, st)
            if not bad:
                out = fold_binop('Add', out, x, True)
        if bad:
            return ('app', 'str', TOP)
        return out

    def ev_Lambda(self, node, st):
        return self.make_func(node, st, None)

    def ev_Starred(self, node, st):
        self.ev(node.value, st)
        return TOP

    def ev_Await(self, node, st):
        return TOP

    def ev_Yield(self, node, st):
        if node.value is not None:
            v = self.ev(node.value, st)
            self.emit('yield', (v,), st, node)
        return TOP

    def ev_NamedExpr(self, node, st):
        v = self.ev(node.value, st)
        self.assign(node.target, v, st)
        return v

    def ev_IfExp(self, node, st):
        c = self.ev(node.test, st)
        return self.branch_expr(st, c, node, lambda s: self.ev(node.body, s), lambda s: self.ev(node.orelse, s))

    def branch_expr(self, st, c, node, fa, fb):
        d, cond, pol = self.truth(st, c)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        sa, sb = st.copy(), st.copy()
        self.refine(sa, cond, pol, node)
        self.refine(sb, cond, not pol, node)
        va = fa(sa)
        vb = fb(sb)
        if sa.dead and sb.dead:
            st.dead = True
            return TOP
        if sa.dead:
            st.replace(sb)
            return vb
        if sb.dead:
            st.replace(sa)
            return va
        p = self._cpl(sa.guards, sb.guards)
        st.replace(self.join2(sa, sb, p))
        if cond == TOP:
            return alts([va, vb])
        return self.join_val(va, vb, cond) if pol else self.join_val(vb, va, cond)

    def ev_BoolOp(self, node, st):
        is_and = isinstance(node.op, ast.And)

        def rest(i, s):
            v = self.ev(node.values[i], s)
            if i == len(node.values) - 1 or s.dead:
                return v
            isbool = self.kind_of(v, s) == 'bool'
            if is_and:
                return self.branch_expr(s, v, node.values[i], lambda q: rest(i + 1, q),
                                        lambda q: FALSE if isbool else v)
            return self.branch_expr(s, v, node.values[i], lambda q: TRUE if isbool else v,
                                    lambda q: rest(i + 1, q))
        return rest(0, st)

    def ev_UnaryOp(self, node, st):
        v = self.ev(node.operand, st)
        if isinstance(node.op, ast.Not):
            d, cond, pol = self.truth(st, v)
            if d is not None:
                return const(not d)
            if cond == TOP:
                return ('app', 'not', TOP)
            return cond if not pol else ('app', 'not', cond)
        if isinstance(node.op, ast.USub):
            if v[0] == 'c' and v[1] in ('int', 'float', 'bool'):
                return const(-v[2])
            return each(lambda a: scale(a, -1), v)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert) and is_int_const(v):
            return const(~int(v[2]))
        return ('app', 'unary' + node.op.__class__.__name__, v)

    def ev_BinOp(self, node, st):
        a = self.ev(node.left, st)
        b = self.ev(node.right, st)
        return self.binop(node.op.__class__.__name__, a, b, st, node)

    def binop(self, op, a, b, st, node=None):
        if a[0] == 'ref' or b[0] == 'ref':
            return self.binop_heap(op, a, b, st)
        if a == NONE and op not in ('Mod',) or b == NONE and op != 'Mod':
            self.emit('typeerror', (op,), st, node)
            return TOP
        if a[0] == 'app' and a[1] == 'ite' and b[0] != 'alts' and size(a, 60) < 60:
            return mk_ite(a[2], self.binop(op, a[3], b, st), self.binop(op, a[4], b, st))
        if b[0] == 'app' and b[1] == 'ite' and a[0] != 'alts' and size(b, 60) < 60:
            return mk_ite(b[2], self.binop(op, a, b[3], st), self.binop(op, a, b[4], st))
        if op == 'Add' or op == 'Mult':
            def f(x, y):
                ks = (self.kind_of(x, st), self.kind_of(y, st))
                return fold_binop(op, x, y, 'bytes' in ks or 'str' in ks)
            return each(f, a, b)
        return each(lambda x, y: fold_binop(op, x, y), a, b)

    def binop_heap(self, op, a, b, st):
        ia, ib = self.known_items(a, st), self.known_items(b, st)
        if op == 'Add' and ia is not None and ib is not None:
            return self.new_list(st, tuple(ia) + tuple(ib))
        if op == 'Mult':
            seq, n = (a, b) if a[0] == 'ref' else (b, a)
            its = self.known_items(seq, st)
            if its is not None and is_int_const(n) and len(its) * n[2] < 2000:
                return self.new_list(st, tuple(its) * int(n[2]))
            if its is not None:
                r = self.alloc(st, HObj('list', items=None, elems=frozenset(its)))
                self.seqinfo[r] = (tuple(its), n)
                return r
        if op == 'Mod':
            return ('app', '%', a, b)
        return TOP

    def ev_Compare(self, node, st):
        left = self.ev(node.left, st)
        if len(node.ops) == 1:
            right = self.ev(node.comparators[0], st)
            return self.compare(node.ops[0].__class__.__name__, left, right, st)
        # chained: a < b < c  ==  a < b and b < c

        def rest(i, left, s):
            right = self.ev(node.comparators[i], s)
            v = self.compare(node.ops[i].__class__.__name__, left, right, s)
            if i == len(node.ops) - 1:
                return v
            return self.branch_expr(s, v, node, lambda q: rest(i + 1, right, q), lambda q: FALSE)
        return rest(0, left, st)

    def compare(self, op, a, b, st):
        if op in ('In', 'NotIn'):
            r = self.contains(a, b, st)
            if op == 'NotIn':
                return neg(r)
            return r
        if op in ('Is', 'IsNot'):
            r = self.identity(a, b, st)
            return neg(r) if op == 'IsNot' else r
        if a[0] == 'app' and a[1] == 'ite' and size(a, 80) < 80:
            return mk_ite(a[2], self.compare(op, a[3], b, st), self.compare(op, a[4], b, st))
        if b[0] == 'app' and b[1] == 'ite' and size(b, 80) < 80:
            return mk_ite(b[2], self.compare(op, a, b[3], st), self.compare(op, a, b[4], st))
        if a[0] == 'ref' and b[0] == 'ref' and op in ('Eq', 'NotEq') and a == b:
            return const(op == 'Eq')
        return each(lambda x, y: fold_compare(op, x, y), a, b)

    def identity(self, a, b, st):
        def one(x, y):
            if x == y and x[0] not in ('top', 'app', 'phi', 'elem') and not (
                    x[0] == 'c' and x[1] not in ('NoneType', 'bool', 'int')):
                return TRUE
            for p, q in ((x, y), (y, x)):
                if q == NONE:
                    k = self.kind_of(p, st)
                    if k is not None and k != 'NoneType':
                        return FALSE
                    if k == 'NoneType':
                        return TRUE
            if x[0] == 'app' and x[1] == 'ite':
                return mk_ite(x[2], one(x[3], y), one(x[4], y))
            if y[0] == 'app' and y[1] == 'ite':
                return mk_ite(y[2], one(x, y[3]), one(x, y[4]))
            if x[0] == 'ref' and y[0] == 'ref':
                return const(x == y)
            if x[0] in ('top',) or y[0] in ('top',):
                return TOP
            return ('app', 'is') + tuple(sorted((x, y), key=repr))
        return each(one, a, b)

    def contains(self, a, b, st):
        items = self.known_items(b, st, dict_keys=True)
        if items is not None:
            if all(i[0] == 'c' for i in items):
                def one(x):
                    if x[0] == 'c':
                        return const(any(x[2] == i[2] for i in items))
                    if x[0] == 'app' and x[1] == 'ite':
                        return mk_ite(x[2], one(x[3]), one(x[4]))
                    if x == TOP:
                        return TOP
                    lo, hi, isint = term_range(x, self.rangemap(st))
                    live = [i for i in items if not isinstance(i[2], (int, float)) or lo <= i[2] <= hi]
                    if not live:
                        return FALSE
                    if len(live) == 1:
                        return fold_compare('Eq', x, live[0])
                    return ('app', 'inset', x, ('tuple', tuple(sorted(set(live), key=repr))))
                return each(one, a)
            if a[0] == 'c':
                if any(i == a for i in items):
                    return TRUE
        if a[0] == 'c' and b[0] == 'c':
            try:
                return const(a[2] in b[2])
            except Exception:
                return TOP
        if a == TOP or b == TOP:
            return TOP
        return ('app', 'in', a, b)

    def known_items(self, t, st, dict_keys=True):
        """Known element terms of a sequence-like abstract value, or None."""
        if t[0] == 'tuple':
            return t[1]
        if t[0] == 'c' and isinstance(t[2], (tuple, str, bytes, frozenset)):
            return tuple(const(x) for x in t[2])
        if t[0] == 'ref':
            h = self.hget(st, t[1])
            if h is None or h.items is None:
                return None
            if h.kind == 'dict':
                return tuple(k for k, v in h.items)
            if h.kind in ('list', 'set'):
                return h.items
        if t[0] == 'app' and t[1] == 'range':
            a = t[2:]
            if all(is_int_const(x) for x in a):
                r = range(*[int(x[2]) for x in a])
                if len(r) <= UNROLL:
                    return tuple(const(x) for x in r)
        return None

    def kind_of(self, t, st):
        """Python type name of a term when it is certain, else None."""
        tag = t[0]
        if tag == 'c':
            return t[1]
        if tag in ('u', 's', 'k'):
            return 'int'
        if tag == 'd':
            return 'float'
        if tag == 'slice':
            return 'bytes' if self.kind_of(t[1], st) in ('bytes', None) and bytes_src(t[1]) else None
        if tag == 'lin':
            ks = {self.kind_of(a, st) for a, k in t[2]}
            if ks == {'int'}:
                return 'int'
            if ks <= {'int', 'float'}:
                return 'float'
            return None
        if tag == 'tuple':
            return 'tuple'
        if tag == 'ref':
            h = self.hget(st, t[1])
            if h is None:
                return None
            if h.kind == 'inst':
                return 'inst:%s' % (h.cls,)
            return h.kind
        if tag == 'app':
            op = t[1]
            if op == 'ite':
                a, b = self.kind_of(t[3], st), self.kind_of(t[4], st)
                return a if a == b else None
            if op in BOOL_OPS:
                return 'bool'
            if op in ('len', 'int', 'ord', 'count'):
                return 'int'
            if op == 'float':
                return 'float'
            if op in ('decode', 'str', 'strcat', 'repr', 'join', 'chr'):
                return 'str'
            if op == '/':
                return 'float'
            if op in ('cat', 'repeat'):
                ks = {self.kind_of(x, st) for x in t[2:]} & {'bytes', 'str'}
                return ks.pop() if len(ks) == 1 else None
            if op in ('+', '-', '*', '//', '%') and len(t) == 4:
                a, b = self.kind_of(t[2], st), self.kind_of(t[3], st)
                if a == 'str' and op in ('%', '+'):
                    return 'str'
                if a in ('int', 'bool') and b in ('int', 'bool'):
                    return 'int'
                if a in ('int', 'float', 'bool') and b in ('int', 'float', 'bool'):
                    return 'float'
            if op in ('&', '|', '>>', '<<'):
                a = self.kind_of(t[2], st)
                if a in ('int', 'bool'):
                    return 'int'
            if op == 'method' and len(t) > 3:
                r = self.kind_of(t[3], st)
                if r == 'str' and t[2][2] in ('rstrip', 'strip', 'lstrip', 'lower', 'upper', 'replace'):
                    return 'str'
        if tag in ('func', 'bm', 'class', 'ext', 'mod'):
            return tag
        if tag == 'alts':
            ks = {self.kind_of(a, st) for a in t[1]}
            if len(ks) == 1:
                return ks.pop()
        if tag == 'sym':
            return self.symkinds.get(t[1])
        if tag == 'init':
            return self.initkinds.get((t[1], t[2]))
        return None

    symkinds = {}
    initkinds = {}

    def indexes_bytes(self, base, st):
        k = self.kind_of(base, st)
        if k is not None:
            return k == 'bytes'
        if base[0] == 'slice':
            return self.indexes_bytes(base[1], st)
        if base[0] == 'app' and base[1] == 'cat':
            return True
        return base[0] in ('phi', 'elem', 'exit', 'sym')

    # ---------------------------------------------------------- attributes
    def ev_Attribute(self, node, st):
        base = self.ev(node.value, st)
        return self.get_attr(base, node.attr, st, node)

    def get_attr(self, base, attr, st, node=None):
        if base[0] == 'alts':
            return alts([self.get_attr(b, attr, st, node) for b in base[1]])
        if base[0] == 'app' and base[1] == 'ite':
            return mk_ite(base[2], self.get_attr(base[3], attr, st, node),
                          self.get_attr(base[4], attr, st, node))
        tag = base[0]
        if tag == 'ref':
            h = self.hget(st, base[1])
            if h is None:
                return TOP
            if attr in h.attrs:
                return h.attrs[attr]
            if h.kind == 'inst':
                if attr == '__class__':
                    return ('class', h.cls) if h.cls else TOP
                if attr == '__dict__':
                    return TOP
                if h.cls:
                    v = self.class_lookup(st, h.cls, attr)
                    if v is not None:
                        if v[0] == 'func':
                            return ('bm', base, v)
                        if v[0] == 'app' and v[1] == 'property':
                            return self.call(v[2], [base], {}, st, node)
                        if h.fresh:
                            return v
                        if self.program.class_attr_never_instance(h.cls, attr):
                            return v
                if h.name is not None:
                    return ('init', h.name, attr)
                return ('app', 'attr', base, const(attr))
            if h.kind in ('list', 'dict', 'set'):
                return ('bm', base, ('ext', '%s.%s' % (h.kind, attr)))
            if h.kind == 'mod':
                return TOP
        if tag == 'mod':
            m = self.program.modules.get(base[1])
            if m is not None:
                h = st.heap.get('mod:' + m.name)
                if h is not None and attr in h.attrs:
                    return h.attrs[attr]
                if attr in m.env:
                    return m.env[attr]
                sub = base[1] + '.' + attr
                if sub in self.program.modules:
                    return ('mod', sub)
                return ('app', 'undefattr', const(base[1]), const(attr))
        if tag == 'class':
            v = self.class_lookup(st, base[1], attr)
            if v is not None:
                return v
            if attr == '__name__':
                return const(base[1].split('.')[-1])
            return ('app', 'attr', base, const(attr))
        if tag == 'ext':
            if base[1] == 'sys' and attr == 'version_info':
                return ('tuple', tuple(const(x) for x in (3, 12, 3)) + (const('final'), const(0)))
            if base[1] == 'sys' and attr == 'maxsize':
                return const(2 ** 63 - 1)
            if base[1] == 'sys' and attr == 'byteorder':
                return ('sym', 'byteorder')
            return ('ext', base[1] + '.' + attr)
        if tag == 'func':
            if attr in ('__name__', '__qualname__'):
                return const(self.func_info(base).name)
            return TOP
        if tag == 'bm':
            if attr == '__self__':
                return base[1]
            if attr in ('__name__', '__func__'):
                return self.get_attr(base[2], '__name__', st, node) if attr == '__name__' else base[2]
            return TOP
        if tag == 'top':
            return TOP
        k = self.kind_of(base, st)
        if k in ('str', 'bytes', 'int', 'float') or tag in ('sym', 'init', 'app', 'slice', 'elem', 'phi'):
            return ('app', 'attr', base, const(attr))
        return TOP

    def class_lookup(self, st, cls, attr):
        for c in self.program.mro(cls):
            h = None
            if st is not None:
                h = st.heap.get('class:' + c)
            if h is None:
                h = self.program.heap.get('class:' + c)
            if h is not None and attr in h.attrs:
                return h.attrs[attr]
        return None

    # ---------------------------------------------------------- subscripts
    def ev_Subscript(self, node, st):
        base = self.ev(node.value, st)
        if base == NONE:
            self.emit('typeerror', ('Subscript',), st, node)
            return TOP
        if isinstance(node.slice, ast.Slice):
            lo = self.ev(node.slice.lower, st) if node.slice.lower is not None else const(0)
            hi = self.ev(node.slice.upper, st) if node.slice.upper is not None else END
            step = self.ev(node.slice.step, st) if node.slice.step is not None else None
            if lo == NONE:
                lo = const(0)
            if hi == NONE:
                hi = END
            if step is not None and step not in (NONE, const(1)):
                return self.stepslice(base, lo, hi, step, st)
            if self.load_events:
                self.emit('slice', (base, lo, hi), st, node)
                r = self.take_slice(base, lo, hi, st)
                return ('app', 'copy', base) if r == base else r
            return self.take_slice(base, lo, hi, st)
        idx = self.ev(node.slice, st)
        if self.load_events:
            self.emit('load', (base, idx), st, node)
        return self.get_item(base, idx, st, node)

    def stepslice(self, base, lo, hi, step, st):
        items = self.known_items(base, st)
        if items is not None and all(is_int_const(x) or x == END for x in (lo, hi)) and is_int_const(step):
            sl = slice(lo[2], None if hi == END else hi[2], step[2])
            return ('tuple', tuple(items[sl]))
        return ('app', 'stepslice', base, lo, hi, step)

    def take_slice(self, base, lo, hi, st):
        if base[0] == 'ref':
            h = self.hget(st, base[1])
            items = self.known_items(base, st)
            if h is not None and h.kind == 'list':
                if items is not None and is_int_const(lo) and (hi == END or is_int_const(hi)):
                    return self.new_list(st, items[lo[2]:None if hi == END else hi[2]])
                return self.alloc(st, HObj('list', items=None, elems=h.elems | frozenset(items or ()), name=None))
            return ('app', 'slicecopy', base, lo, hi)

        def one(b, l, h):
            if b[0] == 'c' and is_int_const(l) and (h == END or is_int_const(h)):
                try:
                    return const(b[2][l[2]:None if h == END else h[2]])
                except TypeError:
                    return TOP
            if b[0] == 'tuple' and is_int_const(l) and (h == END or is_int_const(h)):
                return ('tuple', b[1][l[2]:None if h == END else h[2]])
            return mk_slice(b, l, h)
        if any(x[0] == 'app' and x[1] == 'ite' for x in (lo, hi)) or base[0] == 'app' and base[1] == 'ite':
            for i, x in enumerate((base, lo, hi)):
                if x[0] == 'app' and x[1] == 'ite' and size(x, 40) < 40:
                    l = [base, lo, hi]
                    l[i] = x[3]
                    r = [base, lo, hi]
                    r[i] = x[4]
                    return mk_ite(x[2], self.take_slice(l[0], l[1], l[2], st), self.take_slice(r[0], r[1], r[2], st))
        return each(one, base, lo, hi)

    keyrisk = 0
    unpacks = 0
    KEYSAFE = frozenset(('append', 'extend', 'get', 'keys', 'values', 'items', 'setdefault', 'update', 'copy'))
    EXTSAFE = frozenset(('len', 'int', 'float', 'bool', 'str', 'repr', 'isinstance', 'print', 'min', 'max', 'abs', 'range',
                         'xrange', 'list', 'tuple', 'dict', 'sorted', 'hex', 'bytes', 'divmod', 'round'))

    def get_item(self, base, idx, st, node=None):
        safe = False
        if idx[0] == 'c':
            items = base[1] if base[0] == 'tuple' else None
            if base[0] == 'ref':
                h = self.hget(st, base[1])
                if h is not None and h.items is not None:
                    if h.kind == 'dict':
                        safe = all(k[0] == 'c' for k, v in h.items)
                    else:
                        items = h.items
            if items is not None and is_int_const(idx):
                safe = -len(items) <= idx[2] < len(items)
        if not safe:
            self.keyrisk += 1
        return self.get_item1(base, idx, st, node)

    def get_item1(self, base, idx, st, node=None):
        if base[0] == 'app' and base[1] == 'ite' and size(base, 60) < 60:
            return mk_ite(base[2], self.get_item(base[3], idx, st, node), self.get_item(base[4], idx, st, node))
        if base[0] == 'alts':
            return alts([self.get_item(b, idx, st, node) for b in base[1]])
        if idx[0] == 'alts':
            return alts([self.get_item(base, i, st, node) for i in idx[1]])
        if base[0] == 'ref':
            h = self.hget(st, base[1])
            if h is not None and h.kind == 'dict':
                if h.items is not None:
                    if idx[0] == 'c':
                        for k, v in h.items:
                            if k[0] == 'c' and k[2] == idx[2]:
                                return v
                        if all(k[0] == 'c' for k, v in h.items):
                            self.emit('keyerror', (base, idx), st, node)
                            self.note_exc(st, 'KeyError', node)
                            return TOP
                    for k, v in h.items:
                        if k == idx:
                            return v
                    if all(k[0] == 'c' for k, v in h.items):
                        self.emit('dictget', (base, idx, ('tuple', tuple(k for k, v in h.items))), st, node)
                        return self.table_select(h.items, idx, st)
                if h.items is None and h.elems:
                    return alts([v for k, v in h.elems])
                return TOP
            if h is not None and h.kind == 'list':
                if h.items is not None and not (self.element_syms and idx[0] != 'c'):
                    return self.index_items(h.items, idx, st, node)
                if self.element_syms:
                    self.nelem += 1
                    return ('elem', base, idx, self.nelem)
                if h.elems:
                    return alts(list(h.elems)) if len(h.elems) <= MAX_ALTS else TOP
                return TOP
            if h is not None and h.kind == 'inst':
                f = self.class_lookup(st, h.cls, '__getitem__') if h.cls else None
                if f is not None:
                    return self.call(f, [base, idx], {}, st, node)
        if base[0] == 'tuple':
            return self.index_items(base[1], idx, st, node)
        if base[0] == 'c' and isinstance(base[2], (str, bytes, tuple)):
            return self.index_items(tuple(const(x) for x in base[2]), idx, st, node)
        if base[0] == 'app' and base[1] == 'array' and self.is_intlike(idx):
            return array_item(base, idx)
        if base[0] == 'app' and base[1] == 'divmod' and is_int_const(idx):
            return mk_divmod(base, int(idx[2]))
        if bytes_src(base) and self.indexes_bytes(base, st):
            if self.is_intlike(idx):
                return byte_at(base, idx)
        if base == TOP or idx == TOP:
            return TOP
        return ('app', 'item', base, idx)

    def is_intlike(self, t):
        return to_lin(t) is not None

    def table_select(self, items, idx, st):
        """dict lookup with unknown key over constant keys"""
        vals = {}
        for k, v in items:
            vals.setdefault(v, []).append(k)
        if len(vals) == 1:
            return next(iter(vals))
        if len(items) <= 80:
            return ('app', 'table', idx, ('tuple', tuple(('tuple', (k, v)) for k, v in items)))
        return TOP

    def index_items(self, items, idx, st, node):
        if is_int_const(idx):
            i = int(idx[2])
            if -len(items) <= i < len(items):
                return items[i]
            self.note_exc(st, 'IndexError', node)
            return TOP
        if idx[0] == 'app' and idx[1] == 'ite':
            return mk_ite(idx[2], self.index_items(items, idx[3], st, node), self.index_items(items, idx[4], st, node))
        if idx[0] == 'app' and idx[1] in ('eq0', 'lt0', 'not', 'is', 'in', 'inset') and len(items) >= 2:
            c, p = canon_cond(idx)
            if c[0] == 'c':
                return items[int(bool(c[2]) == p)]
            return mk_ite(c, items[1], items[0]) if p else mk_ite(c, items[0], items[1])
        if len(items) == 2:
            lo, hi, i = term_range(idx, self.rangemap(st))
            c, p = canon_cond(idx)
            if c != TOP:
                return mk_ite(c, items[1], items[0]) if p else mk_ite(c, items[0], items[1])
        if len(items) <= 80 and idx != TOP:
            return ('app', 'table', idx, ('tuple', tuple(('tuple', (const(i), v)) for i, v in enumerate(items))))
        return TOP

    def note_exc(self, st, name, node):
        """An operation that certainly raises here."""
        self.emit('implicit_raise', (const(name),), st, node)
        self.do_raise(st, ('exc', name), node)

    def do_raise(self, st, exc, node):
        c = st.copy()
        self.sinks[-1].append((c, exc, node))
        st.dead = True

    # --------------------------------------------------------- comprehensions
    def ev_ListComp(self, node, st):
        r = self.comp(node, st, lambda s: self.ev(node.elt, s))
        if r is None:
            return self.alloc(st, HObj('list', items=None, node=node))
        if isinstance(r, frozenset):
            return self.alloc(st, HObj('list', items=None, elems=r, node=node))
        return self.new_list(st, r, node)

    def ev_GeneratorExp(self, node, st):
        return self.ev_ListComp(node, st)

    def ev_SetComp(self, node, st):
        r = self.comp(node, st, lambda s: self.ev(node.elt, s))
        if r is None or isinstance(r, frozenset):
            return self.alloc(st, HObj('set', items=None, elems=r or frozenset(), node=node))
        return self.alloc(st, HObj('set', items=tuple(dict.fromkeys(r)), node=node))

    def ev_DictComp(self, node, st):
        r = self.comp(node, st, lambda s: ('tuple', (self.ev(node.key, s), self.ev(node.value, s))))
        if r is None or isinstance(r, frozenset):
            return self.alloc(st, HObj('dict', items=None, node=node,
                                       elems=frozenset((x[1][0], x[1][1]) for x in (r or ()))))
        d = {}
        for x in r:
            d[x[1][0]] = x[1][1]
        return self.alloc(st, HObj('dict', items=tuple(d.items()), node=node))

    def comp(self, node, st, elt):
        out = []
        unknown = [False]

        def gen(i):
            if i == len(node.generators):
                v = elt(st)
                out.append(v)
                if not st.dead:
                    self.emit('element', (v,), st, node)
                return
            g = node.generators[i]
            it = self.ev(g.iter, st)
            items = self.iter_items(it, st)
            saved, saved_guards = self.loops, st.guards
            if items is None:
                unknown[0] = True
                lid = self.new_loop()
                items = [self.loop_elem(it, lid, st)]
                self.loops = self.loops + ((lid, 'for', it, True, node),)
            if len(items) > UNROLL:
                unknown[0] = True
                items = items[:1]
            for x in items:
                if st.dead:
                    break
                self.assign(g.target, x, st)
                skip = False
                for c in g.ifs:
                    d, cond, pol = self.truth(st, self.ev(c, st))
                    if d is False:
                        skip = True
                        break
                    if d is None:
                        unknown[0] = True
                        st.guards = st.guards + ((cond, pol, c),)
                if not skip:
                    gen(i + 1)
                st.guards = saved_guards
            self.loops = saved
        gen(0)
        if unknown[0]:
            return frozenset(out)
        return out

    def any_all(self, gen, st, is_any):
        """any/all over a generator with known items: the short-circuiting disjunction/conjunction"""
        g = gen.generators[0]
        items = self.iter_items(self.ev(g.iter, st), st)
        if items is None or len(items) > 64:
            return None
        items = list(items)

        def test(conds, i, s):
            if not conds:
                v = self.ev(gen.elt, s)
                if s.dead:
                    return TOP
                return self.branch_expr(s, v, gen.elt, lambda q: TRUE if is_any else rest(i + 1, q), lambda q: rest(i + 1, q) if is_any else FALSE)
            v = self.ev(conds[0], s)
            if s.dead:
                return TOP
            return self.branch_expr(s, v, conds[0], lambda q: test(conds[1:], i, q), lambda q: rest(i + 1, q))

        def rest(i, s):
            if i == len(items):
                return const(not is_any)
            self.assign(g.target, items[i], s)
            return test(g.ifs, i, s)
        return rest(0, st)

    # ---------------------------------------------------------------- calls
    def ev_Call(self, node, st):
        fn = self.ev(node.func, st)
        if st.dead:
            return TOP
        if fn in (('ext', 'builtins.any'), ('ext', 'builtins.all')) and len(node.args) == 1 and not node.keywords and \
                isinstance(node.args[0], (ast.GeneratorExp, ast.ListComp)) and len(node.args[0].generators) == 1:
            r = self.any_all(node.args[0], st, fn[1] == 'builtins.any')
            if r is not None:
                return r
        args, kwargs = [], {}
        star = False
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, st)
                items = self.known_items(v, st)
                if items is None:
                    star = True
                    args.append(('app', 'star', v))
                else:
                    args.extend(items)
            else:
                args.append(self.ev(a, st))
            if st.dead:
                return TOP
        for k in node.keywords:
            v = self.ev(k.value, st)
            if k.arg is None:
                h = self.hget(st, v[1]) if v[0] == 'ref' else None
                if h is not None and h.kind == 'dict' and h.items is not None:
                    for kk, vv in h.items:
                        if kk[0] == 'c':
                            kwargs[kk[2]] = vv
                else:
                    kwargs['**'] = v
            else:
                kwargs[k.arg] = v
        if st.dead:
            return TOP
        return self.call(fn, args, kwargs, st, node)

    def call(self, fn, args, kwargs, st, node):
        if fn[0] == 'alts':
            fs = alternatives(fn)
            outs, states = [], []
            for f in fs:
                s = st.copy()
                v = self.call(f, list(args), dict(kwargs), s, node)
                if not s.dead:
                    outs.append(v)
                    states.append(s)
            if not states:
                st.dead = True
                return TOP
            st.replace(self.join_states(states))
            return alts(outs)
        if fn[0] == 'app' and fn[1] == 'ite':
            return self.branch_expr(st, fn[2], node,
                                    lambda s: self.call(fn[3], args, kwargs, s, node),
                                    lambda s: self.call(fn[4], args, kwargs, s, node))
        if fn[0] not in ('bm', 'func', 'class') and not (fn[0] == 'ext' and fn[1] in self.EXTSAFE) \
                or fn[0] == 'bm' and fn[2][0] == 'ext' and fn[2][1] not in self.KEYSAFE:
            self.keyrisk += 1
        if fn[0] == 'bm':
            if fn[2][0] == 'ext':
                return self.call_container(fn[1], fn[2][1], args, kwargs, st, node)
            return self.call(fn[2], [fn[1]] + list(args), kwargs, st, node)
        if fn[0] == 'func':
            return self.call_func(fn, args, kwargs, st, node)
        if fn[0] == 'class':
            return self.instantiate(fn, args, kwargs, st, node)
        if fn[0] == 'ext':
            return self.call_ext(fn[1], args, kwargs, st, node)
        if fn[0] == 'app' and fn[1] == 'attr':
            return self.call_method(fn[2], fn[3][2], args, kwargs, st, node)
        if fn[0] == 'init' or fn[0] == 'sym':
            h = self.hooks.get('*' + str(fn[-1]))
            if h is not None:
                r = h(self, st, fn, args, kwargs, node)
                if r is not None:
                    return r
        self.emit('extcall', (fn, ('tuple', tuple(args)), tuple(sorted(kwargs))), st, node)
        self.escape(args, kwargs, st)
        return TOP

    def escape(self, args, kwargs, st):
        pass

    def func_info(self, fn):
        return self.program.funcs[fn[1]]

    def call_func(self, fn, args, kwargs, st, node):
        f = self.func_info(fn)
        h = self.hooks.get(f.qual) or self.hooks.get('.' + f.name)
        if h is not None:
            r = h(self, st, fn, args, kwargs, node)
            if r is not None:
                return r
        depth = sum(1 for c in self.callstack if c is f)
        if depth >= 2 or len(self.callstack) > MAXDEPTH:
            self.emit('recursion', (const(f.qual),), st, node)
            return TOP
        self.stats['calls'] += 1
        self.visited.add(f.qual)
        env = self.bind(f, args, kwargs, st)
        if env is None:
            self.emit('badcall', (const(f.qual),), st, node)
            return TOP
        self.next_frame[0] += 1
        fid = self.next_frame[0]
        st.frames[fid] = env
        self.frame_parent[fid] = fn[2] if len(fn) > 2 else None
        saved_sites = self.sites
        caller = self.callstack[-1] if self.callstack else None
        self.sites = (node, caller.qual, caller.module.path if caller.module else '?', saved_sites) if caller is not None else None
        self.callstack.append(f)
        self.frame_chain.append(fid)
        saved_loops = self.loops
        try:
            if isinstance(f.node, ast.Lambda):
                v = self.ev(f.node.body, st)
                st.frames.pop(fid, None)
                return v
            if self.program.is_generator(f.node):
                return self.call_generator(f, st, fid, node)
            flow = self.exec_block(f.node.body, st.copy())
        finally:
            self.callstack.pop()
            self.sites = saved_sites
            self.frame_chain.pop()
            self.loops = saved_loops
        rets = list(flow.rets)
        if flow.normal is not None:
            rets.append((flow.normal, NONE))
        rets = [(s, v) for s, v in rets if not s.dead]
        if not rets:
            st.dead = True
            return TOP
        for s, v in rets:
            s.frames[fid] = {'$ret': v}
        j = self.join_ordered([s for s, v in rets])
        v = j.frames[fid]['$ret']
        j.frames.pop(fid, None)
        st.replace(j)
        return v

    def call_generator(self, f, st, fid, node):
        saved = st.copy()
        flow = self.exec_block(f.node.body, st.copy())
        outs = [s for s, v in flow.rets]
        if flow.normal is not None:
            outs.append(flow.normal)
        j = self.join_states(outs)
        if j is not None:
            j.frames.pop(fid, None)
            st.replace(j)
        return ('app', 'generator', const(f.qual))

    def bind(self, f, args, kwargs, st):
        a = f.node.args
        env = {}
        pos = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        for i, v in enumerate(args):
            if v[0] == 'app' and v[1] == 'star':
                # unknown positional expansion: everything from here is unknown
                for name in pos[i:]:
                    env[name] = TOP
                args = args[:i]
                break
        for name, v in zip(pos, args):
            env[name] = v
        extra = args[len(pos):]
        if a.vararg:
            env[a.vararg.arg] = ('tuple', tuple(extra))
        elif extra:
            return None
        kw = dict(kwargs)
        starkw = kw.pop('**', None)
        kwonly = [x.arg for x in a.kwonlyargs]
        left = {}
        for k, v in kw.items():
            if k in pos or k in kwonly:
                env[k] = v
            else:
                left[k] = v
        if a.kwarg:
            env[a.kwarg.arg] = self.alloc(st, HObj('dict', items=tuple((const(k), v) for k, v in left.items())))
        elif left:
            return None
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in env:
                j = i - (len(pos) - nd)
                if j >= 0:
                    env[name] = f.defaults[j]
                elif starkw is not None:
                    env[name] = TOP
                else:
                    return None
        for name, d in zip(kwonly, f.kwdefaults):
            if name not in env:
                env[name] = d if d is not None else TOP
        return env

    def instantiate(self, fn, args, kwargs, st, node):
        cls = fn[1]
        h = self.hooks.get('new:' + cls) or self.hooks.get('new:' + cls.split('.')[-1])
        if h is not None:
            r = h(self, st, fn, args, kwargs, node)
            if r is not None:
                return r
        if self.program.is_exception(cls):
            return ('app', 'exc', const(cls.split('.')[-1])) + tuple(args)
        obj = self.alloc(st, HObj('inst', cls=cls, attrs={}, node=node))
        self.emit('new', (obj, const(cls)), st, node)
        init = self.class_lookup(st, cls, '__init__')
        if init is not None and init[0] == 'func':
            self.call(init, [obj] + list(args), kwargs, st, node)
        elif args:
            self.set_attr_raw(st, obj, '$args', ('tuple', tuple(args)))
        return obj

    def set_attr_raw(self, st, obj, attr, val):
        h = self.hget(st, obj[1])
        at = dict(h.attrs)
        at[attr] = val
        st.heap[obj[1]] = h.copy(attrs=at)

    # containers created by the analysed code
    def call_container(self, ref, name, args, kwargs, st, node):
        h = self.hget(st, ref[1])
        kind, meth = name.split('.', 1)
        if h is None:
            return TOP
        self.emit('container', (ref, meth, ('tuple', tuple(args))), st, node)
        in_loop = False
        if kind == 'list':
            if meth == 'append' and args:
                if h.items is not None and not in_loop:
                    st.heap[ref[1]] = h.copy(items=h.items + (args[0],))
                else:
                    st.heap[ref[1]] = h.copy(items=None, elems=h.elems | {args[0]})
                return NONE
            if meth == 'extend' and args:
                its = self.known_items(args[0], st)
                if its is not None and h.items is not None:
                    st.heap[ref[1]] = h.copy(items=h.items + tuple(its))
                else:
                    st.heap[ref[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()) | frozenset(its or (TOP,)))
                return NONE
            if meth == 'pop':
                if h.items and (not args or is_int_const(args[0])):
                    i = int(args[0][2]) if args else -1
                    if -len(h.items) <= i < len(h.items):
                        l = list(h.items)
                        v = l.pop(i)
                        st.heap[ref[1]] = h.copy(items=tuple(l))
                        return v
                if h.elems:
                    return alts(list(h.elems) + list(h.items or ()))
                return TOP
            if meth == 'sort' or meth == 'reverse':
                if h.items is not None and all(x[0] == 'c' for x in h.items) and not args and not kwargs:
                    try:
                        if meth == 'sort':
                            st.heap[ref[1]] = h.copy(items=tuple(sorted(h.items, key=lambda x: x[2])))
                            return NONE
                    except TypeError:
                        pass
                if meth == 'reverse' and h.items is not None:
                    st.heap[ref[1]] = h.copy(items=tuple(reversed(h.items)))
                    return NONE
                st.heap[ref[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()))
                return NONE
            if meth == 'index' and h.items is not None and args and args[0][0] == 'c':
                for i, x in enumerate(h.items):
                    if x == args[0]:
                        return const(i)
                if len(args) == 1 and all(x[0] == 'c' and x[2] != args[0][2] for x in h.items):
                    self.note_exc(st, 'ValueError', node)
                    return TOP
            if meth == 'copy':
                return self.alloc(st, h.copy())
            if meth == 'insert' and h.items is not None and len(args) == 2 and is_int_const(args[0]):
                l = list(h.items)
                l.insert(int(args[0][2]), args[1])
                st.heap[ref[1]] = h.copy(items=tuple(l))
                return NONE
            if meth == 'clear' and h.items is not None and not h.elems:
                st.heap[ref[1]] = h.copy(items=())
                return NONE
            if meth in ('insert', 'remove', 'clear'):
                st.heap[ref[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()) | frozenset(args[1:]))
                return NONE
            return TOP
        if kind == 'dict':
            if meth == 'get' and args:
                dflt = args[1] if len(args) > 1 else NONE
                key = args[0]
                if h.items is not None:
                    def one(k):
                        if k[0] == 'c':
                            for kk, v in h.items:
                                if kk[0] == 'c' and kk[2] == k[2]:
                                    return v
                            if all(kk[0] == 'c' for kk, v in h.items):
                                return dflt
                            return TOP
                        for kk, v in h.items:
                            if kk == k:
                                return v
                        if not h.items:
                            return dflt
                        if k[0] == 'app' and k[1] == 'ite':
                            return mk_ite(k[2], one(k[3]), one(k[4]))
                        if k == TOP:
                            return alts([v for kk, v in h.items] + [dflt])
                        if len(h.items) <= 80 and all(kk[0] == 'c' for kk, v in h.items):
                            return ('app', 'table', k, ('tuple', tuple(('tuple', kv) for kv in h.items)), dflt)
                        return TOP
                    return each(one, key)
                return TOP
            if meth in ('items', 'keys', 'values', 'iteritems', 'iterkeys', 'itervalues'):
                if h.items is not None:
                    if 'items' in meth:
                        return ('tuple', tuple(('tuple', (k, v)) for k, v in h.items))
                    if 'keys' in meth:
                        return ('tuple', tuple(k for k, v in h.items))
                    return ('tuple', tuple(v for k, v in h.items))
                return ('app', 'dict' + meth, ref)
            if meth == 'update' and args:
                o = self.hget(st, args[0][1]) if args[0][0] == 'ref' else None
                if o is not None and o.kind == 'dict' and o.items is not None and h.items is not None:
                    d = dict(h.items)
                    d.update(o.items)
                    st.heap[ref[1]] = h.copy(items=tuple(d.items()))
                else:
                    st.heap[ref[1]] = h.copy(items=None)
                return NONE
            if meth == 'setdefault' and args:
                if h.items is not None:
                    for k, v in h.items:
                        if k == args[0]:
                            return v
                    v = args[1] if len(args) > 1 else NONE
                    st.heap[ref[1]] = h.copy(items=h.items + ((args[0], v),))
                    return v
            if meth == 'copy':
                return self.alloc(st, h.copy())
            if meth in ('pop', 'clear', 'popitem'):
                st.heap[ref[1]] = h.copy(items=None)
                return TOP
            return TOP
        if kind == 'set' and meth == 'add' and args:
            if h.items is not None:
                its = h.items if args[0] in h.items else h.items + (args[0],)
                st.heap[ref[1]] = h.copy(items=its)
            return NONE
        return TOP

    def call_method(self, base, meth, args, kwargs, st, node):
        if base[0] == 'alts':
            return alts([self.call_method(b, meth, args, kwargs, st, node) for b in base[1]])
        h = self.method_hooks.get(meth)
        if h is not None:
            r = h(self, st, base, args, kwargs, node)
            if r is not None:
                return r
        if base[0] == 'c':
            k = base[1]
            if meth in PURE_METHODS.get(k, ()):
                vals = []
                for a in args:
                    its = None
                    if a[0] == 'c':
                        vals.append(a[2])
                        continue
                    its = self.known_items(a, st)
                    if its is not None and all(i[0] == 'c' for i in its):
                        vals.append([i[2] for i in its])
                        continue
                    vals = None
                    break
                if vals is not None and not kwargs:
                    try:
                        r = getattr(base[2], meth)(*vals)
                    except Exception:
                        return TOP
                    return self.lift(r, st)
            if k == 'bytes' and meth == 'decode' or k == 'str' and meth == 'join':
                pass
        if base[0] == 'app' and base[1] == 'structobj' and meth in ('unpack', 'unpack_from'):
            f = self.x_struct_unpack if meth == 'unpack' else self.x_struct_unpack_from
            return f([base[2]] + list(args), kwargs, st, node)
        if base[0] == 'app' and base[1] == 'structobj' and meth == 'iter_unpack':
            return self.x_struct_iter_unpack([base[2]] + list(args), kwargs, st, node)
        if meth == 'encode' and base[0] == 'app' and base[1] == 'chr' and len(base) == 3:
            enc = args[0] if args else kwargs.get('encoding', const('utf-8'))
            if enc[0] == 'c' and norm_enc(enc[2]) == 'iso8859-1':
                b = rejoin_bytes([base[2]])
                return b if b is not None else ('app', 'byte1', base[2])
        if meth == 'decode':
            enc = args[0] if args else kwargs.get('encoding', const('utf-8'))
            self.emit('decode', (base, enc), st, node)
            return decode_term(base, enc)
        if meth == 'sub' and base[0] == 'app' and base[1] == 'ext:re.compile' and not kwargs:
            r = self.x_re_sub([base[2]] + list(args), {}, st, node) if len(base) == 3 else None
            if r is not None:
                return r
        if base == TOP:
            return TOP
        if meth == 'join' and base[0] == 'c' and base[1] == 'str' and len(args) == 1 and not kwargs:
            its = self.known_items(args[0], st)
            if its is not None and len(its) < 64 and all(x != TOP and x[0] not in ('ref', 'alts') for x in its):
                out = const('')
                for i, x in enumerate(its):
                    if i:
                        out = fold_binop('Add', out, base, True)
                    out = fold_binop('Add', out, x, True)
                return out
        self.emit('mcall', (base, meth, ('tuple', tuple(args)), tuple(sorted(kwargs.items()))), st, node)
        if meth in ('append', 'extend', 'close', 'seek', 'insert', 'sort', 'update', 'add', 'clear', 'write', 'flush'):
            return NONE
        if any(a == TOP for a in args):
            return TOP
        return ('app', 'method', const(meth), base) + tuple(args)

    def lift(self, r, st):
        if isinstance(r, (list,)):
            return self.new_list(st, [self.lift(x, st) for x in r])
        if isinstance(r, tuple):
            return ('tuple', tuple(self.lift(x, st) for x in r))
        return const(r)

    # ------------------------------------------------------------- builtins
    def call_ext(self, name, args, kwargs, st, node):
        h = self.hooks.get(name)
        if h is not None:
            r = h(self, st, ('ext', name), args, kwargs, node)
            if r is not None:
                return r
        short = name[9:] if name.startswith('builtins.') else name
        m = getattr(self, 'x_' + short.replace('.', '_'), None)
        if m is not None:
            r = m(args, kwargs, st, node)
            if r is not None:
                return r
        if short.split('.')[-1] in EXC_NAMES or short in EXC_NAMES:
            return ('app', 'exc', const(short.split('.')[-1])) + tuple(args)
        self.emit('extcall', (('ext', name), ('tuple', tuple(args)), tuple(sorted(kwargs.items()))), st, node)
        if any(a == TOP for a in args):
            return TOP
        if short in PURE_EXT:
            return ('app', short) + tuple(args)
        return ('app', 'ext:' + short) + tuple(args)

    def x_print(self, args, kwargs, st, node):
        self.emit('log', (kwargs.get('file', ('ext', 'sys.stdout')), ('tuple', tuple(args))), st, node)
        return NONE

    def x_len(self, args, kwargs, st, node):
        def one(t):
            its = self.known_items(t, st)
            if its is not None:
                return const(len(its))
            n = exact_len(t)
            if n is not None:
                return const(n)
            if t[0] == 'slice':
                s = slice_len(t)
                if s is not None:
                    return s
            if t[0] == 'app' and t[1] == 'ite':
                return mk_ite(t[2], one(t[3]), one(t[4]))
            if t[0] == 'app' and t[1] == 'array':
                return t[5]
            if t == TOP:
                return TOP
            if t[0] == 'ref':
                hh = self.hget(st, t[1])
                if hh is not None and hh.kind == 'inst' and hh.cls:
                    f = self.class_lookup(st, hh.cls, '__len__')
                    if f:
                        return self.call(f, [t], {}, st, node)
                # length may change as the object is mutated
                self.next_id[0] += 1
                return ('app', 'len', t, const(self.hver(st, t)))
            if self.len_versions and t[0] in ('init', 'app'):
                return ('app', 'len', t, ('c', 'int', len(self.events)))
            return ('app', 'len', t)
        return each(one, args[0]) if args else TOP

    def hver(self, st, t):
        h = self.hget(st, t[1])
        return id(h) if h is not None else 0

    def x_range(self, args, kwargs, st, node):
        if any(a == TOP for a in args):
            return ('app', 'range') + tuple(args)
        return ('app', 'range') + tuple(args)
    x_xrange = x_range

    def x_int(self, args, kwargs, st, node):
        if not args:
            return const(0)
        if len(args) == 2 and args[0][0] == 'c' and is_int_const(args[1]):
            try:
                return const(int(args[0][2], args[1][2]))
            except Exception:
                return TOP

        def one(t):
            if t[0] == 'c':
                try:
                    return const(int(t[2]))
                except Exception:
                    return TOP
            k = self.kind_of(t, st)
            if k == 'int':
                return t
            if t == TOP:
                return TOP
            if t[0] == 'app' and t[1] == 'ite':
                return mk_ite(t[2], one(t[3]), one(t[4]))
            if k == 'bool':
                c, p = canon_cond(t)
                if c[0] == 'c':
                    return const(int(bool(c[2]) == p))
                return bool_int(c, p)
            return ('app', 'int', t)
        return each(one, args[0])

    def x_bool(self, args, kwargs, st, node):
        if not args:
            return FALSE
        d, c, p = self.truth(st, args[0])
        if d is not None:
            return const(d)
        if c == TOP:
            return TOP
        return c if p else ('app', 'not', c)

    def x_float(self, args, kwargs, st, node):
        if args and args[0][0] == 'c':
            try:
                return const(float(args[0][2]))
            except Exception:
                return ('app', 'float', args[0])
        if args and self.kind_of(args[0], st) == 'float':
            return args[0]
        return each(lambda t: TOP if t == TOP else ('app', 'float', t), args[0]) if args else const(0.0)

    def x_ord(self, args, kwargs, st, node):
        if args and args[0][0] == 'c':
            try:
                return const(ord(args[0][2]))
            except Exception:
                return TOP
        if args and args[0][0] == 'slice':
            return byte_at(args[0], const(0))
        return ('app', 'ord') + tuple(args)

    def x_chr(self, args, kwargs, st, node):
        if args and is_int_const(args[0]):
            return const(chr(args[0][2]))
        return ('app', 'chr') + tuple(args)

    def x_str(self, args, kwargs, st, node):
        if not args:
            return const('')
        if len(args) == 2:
            self.emit('decode', (args[0], args[1]), st, node)
            return decode_term(args[0], args[1])
        if args[0][0] == 'c':
            return const(str(args[0][2]))
        if self.kind_of(args[0], st) == 'str':
            return args[0]
        return ('app', 'str', args[0]) if args[0] != TOP else ('app', 'str', TOP)

    def x_bytes(self, args, kwargs, st, node):
        if not args:
            return const(b'')
        if len(args) == 2 and args[0][0] == 'c' and args[1][0] == 'c':
            try:
                return const(bytes(args[0][2], args[1][2]))
            except Exception:
                return TOP
        its = self.known_items(args[0], st)
        if its is not None and all(is_int_const(i) for i in its):
            try:
                return const(bytes(int(i[2]) for i in its))
            except ValueError:
                return TOP
        if its is not None:
            b = rejoin_bytes(its)
            if b is not None:
                return b
        if bytes_src(args[0]):
            return args[0]
        return ('app', 'bytes', args[0])

    def x_bytearray(self, args, kwargs, st, node):
        return self.x_bytes(args, kwargs, st, node)

    def x_type(self, args, kwargs, st, node):
        if len(args) == 1:
            k = self.kind_of(args[0], st)
            if k and k.startswith('inst:'):
                return ('class', k[5:])
            if k:
                return ('ext', 'builtins.' + k)
        return ('app', 'type') + tuple(args)

    def x_tuple(self, args, kwargs, st, node):
        if not args:
            return ('tuple', ())
        its = self.known_items(args[0], st)
        if its is not None:
            return ('tuple', tuple(its))
        if args[0][0] == 'ref':
            h = self.hget(st, args[0][1])
            if h is not None and h.kind == 'list':
                return ('app', 'tupleof', ('tuple', tuple(sorted(h.elems, key=repr))))
        return ('app', 'tuple', args[0])

    def x_list(self, args, kwargs, st, node):
        if not args:
            return self.new_list(st, (), node)
        its = self.iter_items(args[0], st)
        if its is not None:
            return self.new_list(st, its, node)
        return self.alloc(st, HObj('list', items=None, node=node))

    def x_dict(self, args, kwargs, st, node):
        items = []
        if args:
            its = self.iter_items(args[0], st)
            h = self.hget(st, args[0][1]) if args[0][0] == 'ref' else None
            if h is not None and h.kind == 'dict':
                items = list(h.items) if h.items is not None else None
            elif its is not None:
                d = {}
                for x in its:
                    kv = self.known_items(x, st)
                    if kv is None or len(kv) != 2:
                        items = None
                        break
                    d[kv[0]] = kv[1]
                else:
                    items = list(d.items())
            else:
                items = None
        if items is None:
            return self.alloc(st, HObj('dict', items=None, node=node))
        items += [(const(k), v) for k, v in kwargs.items()]
        return self.alloc(st, HObj('dict', items=tuple(items), node=node))

    def x_set(self, args, kwargs, st, node):
        its = self.iter_items(args[0], st) if args else ()
        return self.alloc(st, HObj('set', items=tuple(dict.fromkeys(its)) if its is not None else None, node=node))
    x_frozenset = x_set

    def x_sorted(self, args, kwargs, st, node):
        its = self.iter_items(args[0], st) if args else None
        if its is not None and all(i[0] == 'c' for i in its) and not kwargs:
            try:
                return self.new_list(st, sorted(its, key=lambda t: t[2]))
            except TypeError:
                pass
        return self.alloc(st, HObj('list', items=None, elems=frozenset(its or ())))

    def x_reversed(self, args, kwargs, st, node):
        its = self.iter_items(args[0], st) if args else None
        if its is not None:
            return ('tuple', tuple(reversed(its)))
        return TOP

    def x_zip(self, args, kwargs, st, node):
        ls = []
        n = None
        for a in args:
            its = self.iter_items(a, st)
            ls.append(its)
            if its is not None:
                n = len(its) if n is None else min(n, len(its))
        if n is None:
            return ('app', 'zip') + tuple(args)
        out = []
        for i in range(n):
            row = []
            for a, its in zip(args, ls):
                row.append(its[i] if its is not None else self.get_item(a, const(i), st, node))
            out.append(('tuple', tuple(row)))
        return ('tuple', tuple(out))

    def x_enumerate(self, args, kwargs, st, node):
        its = self.iter_items(args[0], st) if args else None
        start = args[1] if len(args) > 1 else kwargs.get('start', const(0))
        if its is not None:
            return ('tuple', tuple(('tuple', (add(start, const(i)), x)) for i, x in enumerate(its)))
        return ('app', 'enumerate', args[0], start)

    def x_map(self, args, kwargs, st, node):
        its = self.iter_items(args[1], st) if len(args) == 2 else None
        if its is not None and len(its) <= 300:
            return ('tuple', tuple(self.call(args[0], [x], {}, st, node) for x in its))
        return ('app', 'map') + tuple(args[1:])

    def x_min(self, args, kwargs, st, node, pick=min, nm='min'):
        if len(args) == 1:
            its = self.iter_items(args[0], st)
            if its is None:
                return TOP if args[0] == TOP else ('app', nm + 'of', args[0])
            args = list(its)
        if any(a == TOP for a in args):
            return TOP
        if not args:
            return kwargs.get('default', TOP)
        if kwargs.get('key', NONE) != NONE:
            best = args[0]
            keys = [self.call(kwargs['key'], [a], {}, st, node) for a in args]
            bk = keys[0]
            for a, k in list(zip(args, keys))[1:]:
                cond = self.compare('Lt' if nm == 'min' else 'Gt', k, bk, st)
                best, bk = mk_ite(cond, a, best), mk_ite(cond, k, bk)
            return best
        if all(a[0] == 'c' for a in args) and args:
            try:
                return const(pick(a[2] for a in args))
            except TypeError:
                return TOP
        # drop arguments that cannot win
        rs = [term_range(a, self.rangemap(st)) for a in args]
        keep = []
        for i, a in enumerate(args):
            dominated = False
            for j, b in enumerate(args):
                if i == j:
                    continue
                if nm == 'min' and (rs[j][1] < rs[i][0] or rs[j][1] == rs[i][0] and j < i):
                    dominated = True
                if nm == 'max' and (rs[j][0] > rs[i][1] or rs[j][0] == rs[i][1] and j < i):
                    dominated = True
            if not dominated:
                keep.append(a)
        keep = sorted(set(keep), key=repr)
        if len(keep) == 1:
            return keep[0]
        return ('app', nm) + tuple(keep)

    def x_max(self, args, kwargs, st, node):
        return self.x_min(args, kwargs, st, node, max, 'max')

    def x_abs(self, args, kwargs, st, node):
        def one(t):
            if t[0] == 'c':
                return const(abs(t[2]))
            return TOP if t == TOP else ('app', 'abs', t)
        return each(one, args[0])

    def x_round(self, args, kwargs, st, node):
        if all(a[0] == 'c' for a in args):
            return const(round(*[a[2] for a in args]))
        return TOP if TOP in args else ('app', 'round') + tuple(args)

    def x_sum(self, args, kwargs, st, node):
        its = self.iter_items(args[0], st)
        if its is not None:
            r = args[1] if len(args) > 1 else kwargs.get('start', const(0))
            for x in its:
                r = fold_binop('Add', r, x)
            return r
        return TOP

    def x_divmod(self, args, kwargs, st, node):
        if len(args) == 2:
            a, b = args
            return ('tuple', (fold_binop('FloorDiv', a, b), fold_binop('Mod', a, b)))
        return TOP

    def x_isinstance(self, args, kwargs, st, node):
        k = self.kind_of(args[0], st)
        ty = args[1]
        if k is None or ty == TOP:
            return ('app', 'isinstance') + tuple(args)
        tys = ty[1] if ty[0] == 'tuple' else (ty,)
        for t in tys:
            if t[0] == 'ext' and t[1] == 'builtins.' + k:
                return TRUE
            if t[0] == 'ext' and k == 'bool' and t[1] == 'builtins.int':
                return TRUE
            if t[0] == 'class' and k.startswith('inst:') and t[1] in self.program.mro(k[5:]):
                return TRUE
        return FALSE

    def x_hasattr(self, args, kwargs, st, node):
        o, a = args[0], args[1]
        if a[0] == 'c' and o[0] in ('c', 'u', 's', 'd', 'tuple'):
            k = self.kind_of(o, st)
            if k == 'bytes':
                return const(hasattr(b'', a[2]))
            if k == 'int':
                return const(hasattr(0, a[2]))
            if k == 'NoneType':
                return FALSE
        if o[0] == 'ref' and a[0] == 'c':
            h = self.hget(st, o[1])
            if h is not None and (a[2] in h.attrs or h.cls and self.class_lookup(st, h.cls, a[2]) is not None):
                return TRUE
        if o == TOP:
            return TOP
        return ('app', 'hasattr', o, a)

    def x_getattr(self, args, kwargs, st, node):
        if len(args) >= 2 and args[1][0] == 'c':
            v = self.get_attr(args[0], args[1][2], st, node)
            if len(args) == 3 and v[0] == 'app' and v[1] in ('attr', 'undefattr'):
                return alts([v, args[2]])
            return v
        if len(args) >= 2 and args[1][0] == 'app' and args[1][1] == 'ite':
            a = args[1]
            return mk_ite(a[2], self.x_getattr([args[0], a[3]] + list(args[2:]), {}, st, node),
                          self.x_getattr([args[0], a[4]] + list(args[2:]), {}, st, node))
        self.emit('dynattr', (args[0], args[1] if len(args) > 1 else TOP), st, node)
        return TOP

    def x_setattr(self, args, kwargs, st, node):
        if len(args) == 3 and args[1][0] == 'c':
            self.set_attr(st, args[0], args[1][2], args[2], node, 'setattr')
        elif len(args) == 3:
            self.emit('dynsetattr', tuple(args), st, node)
        return NONE

    def x_object___init__(self, args, kwargs, st, node):
        return NONE

    def x_globals(self, args, kwargs, st, node):
        self.emit('extcall', (('ext', 'builtins.globals'), ('tuple', ()), ()), st, node)
        mod = self.cur_module()
        return self.alloc(st, HObj('dict', items=tuple((const(k), v) for k, v in mod.env.items()) if mod else None))

    def x_locals(self, args, kwargs, st, node):
        return TOP

    def x_iter(self, args, kwargs, st, node):
        return args[0] if args else TOP

    def x_array_array(self, args, kwargs, st, node):
        if len(args) > 1:
            its = self.known_items(args[1], st)
            if its is not None:
                r = self.new_list(st, its, node)
                h = self.hget(st, r[1])
                st.heap[r[1]] = h.copy(data=('array', args[0]))
                return r
        return self.alloc(st, HObj('list', items=() if len(args) == 1 else None, node=node, data=('array', args[0] if args else TOP)))

    def x_struct_unpack(self, args, kwargs, st, node):
        fmt, data = args[0], args[1]
        return self.do_unpack(fmt, data, st, node)

    def x_struct_unpack_from(self, args, kwargs, st, node):
        fmt, data = args[0], args[1]
        off = args[2] if len(args) > 2 else kwargs.get('offset', const(0))
        if fmt[0] == 'c':
            try:
                n = _struct.calcsize(fmt[2])
            except _struct.error:
                return TOP
            return self.do_unpack(fmt, self.take_slice(data, off, add(off, const(n)), st), st, node)
        return TOP

    def x_struct_calcsize(self, args, kwargs, st, node):
        if args[0][0] == 'c':
            try:
                return const(_struct.calcsize(args[0][2]))
            except _struct.error:
                return TOP
        return TOP

    def x_struct_pack(self, args, kwargs, st, node):
        if args[0][0] == 'c' and all(a[0] == 'c' for a in args):
            try:
                return const(_struct.pack(*[a[2] for a in args]))
            except _struct.error:
                return TOP
        return ('app', 'pack') + tuple(args)

    def do_unpack(self, fmt, data, st, node):
        if fmt[0] == 'app' and fmt[1] == 'ite':
            return mk_ite(fmt[2], self.do_unpack(fmt[3], data, st, node), self.do_unpack(fmt[4], data, st, node))
        if data[0] == 'app' and data[1] == 'ite':
            return mk_ite(data[2], self.do_unpack(fmt, data[3], st, node), self.do_unpack(fmt, data[4], st, node))
        if fmt[0] == 'alts' or data[0] == 'alts':
            return each(lambda f, d: self.do_unpack(f, d, st, node), fmt, data)
        self.emit('unpack', (fmt, data), st, node)
        if fmt[0] != 'c':
            arr = array_fmt(fmt)
            if arr is not None and data != TOP and bytes_src(data):
                src, base, lim = norm_base(data)
                return ('app', 'array', src, add(base, const(arr[0])), const(arr[1]), arr[2])
            return ('app', 'unpack', fmt, data) if TOP not in (fmt, data) else TOP
        if data[0] == 'c' and isinstance(data[2], bytes):
            try:
                return ('tuple', tuple(const(x) for x in _struct.unpack(fmt[2], data[2])))
            except _struct.error:
                return TOP
        fields = parse_fmt(fmt[2])
        if fields is None or not bytes_src(data):
            return ('app', 'unpack', fmt, data) if data != TOP else TOP
        endian, fs = fields
        return ('tuple', tuple(field_at(data, off, ch, n, endian) for off, ch, n in fs))

    def x_struct_iter_unpack(self, args, kwargs, st, node):
        fmt, data = args[0], args[1]
        if fmt[0] == 'c' and data != TOP and bytes_src(data):
            fields = parse_fmt(fmt[2])
            if fields is not None:
                return ('app', 'iterunpack', fmt, data)
        return TOP

    def x_re_sub(self, args, kwargs, st, node):
        if len(args) == 3 and not kwargs and all(a[0] == 'c' and a[1] == 'str' for a in args):
            import re
            try:
                return const(re.sub(*[a[2] for a in args]))
            except re.error:
                return None
        return None

    def x_struct_Struct(self, args, kwargs, st, node):
        return ('app', 'structobj', args[0])

    def x_int_from_bytes(self, args, kwargs, st, node):
        order = args[1] if len(args) > 1 else kwargs.get('byteorder', const('big'))
        signed = kwargs.get('signed', FALSE)
        b = args[0]
        if order == const('little') and signed[0] == 'c':
            if b[0] == 'slice':
                n = slice_width(b)
                if n in (1, 2, 4, 8):
                    return field_bits(b[1], b[2], 8 * n, bool(signed[2]))
        return TOP

    # ------------------------------------------------------------ iteration
    def iter_items(self, t, st):
        its = self.known_items(t, st)
        if its is not None:
            return its
        if t[0] == 'c' and t[1] in ('str', 'bytes') and len(t[2]) <= 64:
            return [const(x) for x in t[2]]
        if t[0] == 'app' and t[1] in ('dictitems', 'dictkeys', 'dictvalues'):
            return None
        if t[0] == 'app' and t[1] == 'map' and len(t) == 3:
            return None
        return None

    def iter_serial_outer(self):
        return self.outer_serial

    def new_loop(self):
        self.next_loop[0] += 1
        return self.next_loop[0]

    def loop_elem(self, it, lid, st):
        k = ('k', lid)
        if it[0] == 'app' and it[1] == 'range':
            a = it[2:]
            lo = a[0] if len(a) > 1 else const(0)
            step = a[2] if len(a) > 2 else const(1)
            return add(lo, mul(k, step))
        if it[0] == 'app' and it[1] == 'enumerate':
            return ('tuple', (add(it[3], k), self.loop_elem(it[2], lid, st)))
        if it[0] == 'app' and it[1] == 'zip':
            return ('tuple', tuple(self.loop_elem(x, lid, st) for x in it[2:]))
        if it[0] == 'ref':
            h = self.hget(st, it[1])
            if h is not None and h.kind in ('list', 'set') and h.elems and not h.items:
                return alts(list(h.elems))
            return TOP
        if it == TOP:
            return TOP
        if it[0] == 'alts':
            return TOP
        if it[0] == 'app' and it[1] == 'array':
            return array_item(it, k)
        if it[0] == 'app' and it[1] == 'iterunpack':
            n = _struct.calcsize(it[2][2])
            endian, fs = parse_fmt(it[2][2])
            d = mk_slice(it[3], scale(k, n), add(scale(k, n), const(n)))
            return ('tuple', tuple(field_at(d, off, ch, w, endian) for off, ch, w in fs))
        if bytes_src(it) and self.indexes_bytes(it, st):
            return byte_at(it, k)
        return ('app', 'item', it, k)

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st):
        flow = Flow()
        cur = st
        for s in stmts:
            if cur is None or cur.dead:
                cur = None
                break
            f = self.exec_stmt(s, cur)
            flow.rets += f.rets
            flow.brks += f.brks
            flow.conts += f.conts
            cur = f.normal
            if cur is not None and self.try_marks:
                self.try_marks[-1].append(cur.copy())
        flow.normal = cur if cur is not None and not cur.dead else None
        return flow

    try_marks = None

    def exec_stmt(self, s, st):
        self.stats['stmts'] += 1
        m = getattr(self, 'do_' + s.__class__.__name__, None)
        if m is None:
            self.unsupported.append((s.__class__.__name__, s.lineno))
            return Flow(st)
        f = m(s, st)
        if f is None:
            f = Flow(st)
        if f.normal is not None and f.normal.dead:
            f.normal = None
        return f

    def do_Expr(self, s, st):
        self.ev(s.value, st)

    def do_Pass(self, s, st):
        pass

    def do_Assign(self, s, st):
        v = self.ev(s.value, st)
        if st.dead:
            return
        for t in s.targets:
            self.assign(t, v, st)

    def do_AnnAssign(self, s, st):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st), st)

    def do_AugAssign(self, s, st):
        op = s.op.__class__.__name__
        if isinstance(s.target, ast.Name):
            cur = self.lookup(s.target.id, st, s.target)
            v = self.ev(s.value, st)
            if cur[0] == 'ref' and op == 'Add':
                self.call_container(cur, 'list.extend', [v], {}, st, s)
                return
            self.assign(s.target, self.binop(op, cur, v, st, s), st)
        elif isinstance(s.target, ast.Attribute):
            base = self.ev(s.target.value, st)
            cur = self.get_attr(base, s.target.attr, st, s.target)
            v = self.ev(s.value, st)
            if cur[0] == 'ref' and op == 'Add':
                self.call_container(cur, 'list.extend', [v], {}, st, s)
                return
            self.set_attr(st, base, s.target.attr, self.binop(op, cur, v, st, s), s)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, st)
            idx = self.ev(s.target.slice, st) if not isinstance(s.target.slice, ast.Slice) else TOP
            v = self.ev(s.value, st)
            cur = self.get_item(base, idx, st, s.target)
            self.set_item(base, idx, self.binop(op, cur, v, st, s), st, s)

    def assign(self, target, v, st):
        if isinstance(target, ast.Name):
            fid = self.frame_chain[-1] if self.frame_chain else None
            f = self.callstack[-1] if self.callstack else None
            if f is not None and target.id in self.program.globals_of(f.node):
                mod = self.cur_module()
                k = 'mod:' + mod.name
                h = st.heap.get(k) or HObj('mod', attrs={})
                at = dict(h.attrs)
                at[target.id] = v
                st.heap[k] = h.copy(attrs=at)
                self.emit('setglobal', (const(mod.name), target.id, v), st, target)
                return
            st.frames[fid][target.id] = v
        elif isinstance(target, (ast.Tuple, ast.List)):
            self.assign_seq(target, v, st)
        elif isinstance(target, ast.Attribute):
            base = self.ev(target.value, st)
            self.set_attr(st, base, target.attr, v, target)
        elif isinstance(target, ast.Subscript):
            base = self.ev(target.value, st)
            if isinstance(target.slice, ast.Slice):
                lo = self.ev(target.slice.lower, st) if target.slice.lower else const(0)
                hi = self.ev(target.slice.upper, st) if target.slice.upper else END
                self.emit('setslice', (base, lo, hi, v), st, target)
                if base[0] == 'ref':
                    h = self.hget(st, base[1])
                    if h is not None and h.kind == 'list':
                        its = self.known_items(v, st)
                        if h.items is not None and its is not None and lo[0] == 'c' and (hi == END or hi[0] == 'c') and isinstance(lo[2], (int, type(None))) \
                                and (hi == END or isinstance(hi[2], (int, type(None)))) and not self.loops:
                            new = list(h.items)
                            new[lo[2]:None if hi == END else hi[2]] = its
                            st.heap[base[1]] = h.copy(items=tuple(new))
                            return
                        st.heap[base[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()) | frozenset(its or (TOP,)))
                return
            idx = self.ev(target.slice, st)
            self.set_item(base, idx, v, st, target)
        elif isinstance(target, ast.Starred):
            self.assign(target.value, TOP, st)

    def assign_seq(self, target, v, st):
        n = len(target.elts)
        if v[0] == 'c' and isinstance(v[2], (int, float, type(None))) or v[0] == 'sym' and self.symkinds.get(v[1]) == 'int':
            self.note_exc(st, 'TypeError', target)
            return
        its = self.known_items(v, st) if v[0] in ('tuple', 'ref') else None
        if its is not None and len(its) == n and all(isinstance(x, ast.Name) for x in target.elts):
            self.unpacks = self.unpacks + 1
        if v[0] == 'app' and v[1] == 'ite':
            parts = []
            for i in range(n):
                parts.append(self.seq_part(v, i, n, st))
            for t, p in zip(target.elts, parts):
                self.assign(t, p, st)
            return
        its = self.known_items(v, st)
        if its is not None:
            if len(its) != n and not any(isinstance(e, ast.Starred) for e in target.elts):
                self.emit('badunpack', (const(len(its)), const(n)), st, target)
                self.note_exc(st, 'ValueError', target)
                return
            if any(isinstance(e, ast.Starred) for e in target.elts):
                for t in target.elts:
                    self.assign(t, TOP, st)
                return
            for t, x in zip(target.elts, its):
                self.assign(t, x, st)
            return
        for i, t in enumerate(target.elts):
            self.assign(t, self.seq_part(v, i, n, st), st)

    def seq_part(self, v, i, n, st):
        if v[0] == 'app' and v[1] == 'ite':
            a = self.seq_part(v[3], i, n, st)
            b = self.seq_part(v[4], i, n, st)
            return mk_ite(v[2], a, b)
        if v[0] == 'alts':
            return alts([self.seq_part(x, i, n, st) for x in v[1]])
        its = self.known_items(v, st)
        if its is not None:
            return its[i] if i < len(its) else TOP
        if v == TOP:
            return TOP
        return self.get_item(v, const(i), st)

    def set_item(self, base, idx, v, st, node):
        self.emit('setitem', (base, idx, v), st, node)
        if base[0] == 'ref':
            h = self.hget(st, base[1])
            if h is None:
                return
            if h.kind == 'dict':
                if h.items is not None and idx != TOP:
                    d = dict(h.items)
                    if idx[0] == 'c' or idx in d or all(k[0] != 'c' for k in d) or not d:
                        d[idx] = v
                        st.heap[base[1]] = h.copy(items=tuple(d.items()))
                        return
                    d[idx] = v
                    st.heap[base[1]] = h.copy(items=None, elems=h.elems | frozenset(d.items()))
                    return
                st.heap[base[1]] = h.copy(items=None, elems=h.elems | {(idx, v)} | frozenset(h.items or ()))
            elif h.kind == 'list':
                if h.items is not None and is_int_const(idx) and -len(h.items) <= idx[2] < len(h.items):
                    l = list(h.items)
                    l[idx[2]] = v
                    st.heap[base[1]] = h.copy(items=tuple(l))
                else:
                    st.heap[base[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()) | {v})

    def do_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fid = self.frame_chain[-1]
                st.frames[fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.ev(t.value, st)
                if isinstance(t.slice, ast.Slice):
                    lo = self.ev(t.slice.lower, st) if t.slice.lower else const(0)
                    hi = self.ev(t.slice.upper, st) if t.slice.upper else END
                    self.emit('delslice', (base, lo, hi), st, s)
                    if base[0] == 'ref':
                        h = self.hget(st, base[1])
                        if h is not None and h.items is not None and h.kind == 'list' and is_int_const(lo) and (hi == END or is_int_const(hi)):
                            l = list(h.items)
                            del l[lo[2]:None if hi == END else hi[2]]
                            st.heap[base[1]] = h.copy(items=tuple(l))
                        elif h is not None:
                            st.heap[base[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()))
                else:
                    idx = self.ev(t.slice, st)
                    self.emit('delitem', (base, idx), st, s)
                    if base[0] == 'ref':
                        h = self.hget(st, base[1])
                        if h is not None and h.kind == 'dict' and h.items is not None:
                            if any(k == idx for k, v in h.items):
                                st.heap[base[1]] = h.copy(items=tuple((k, v) for k, v in h.items if k != idx))
                            else:
                                st.heap[base[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items))
                        elif h is not None and h.kind == 'list' and h.items is not None and is_int_const(idx) and \
                                -len(h.items) <= idx[2] < len(h.items):
                            l = list(h.items)
                            del l[idx[2]]
                            st.heap[base[1]] = h.copy(items=tuple(l))
                        elif h is not None:
                            st.heap[base[1]] = h.copy(items=None, elems=h.elems | frozenset(h.items or ()))
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, st)
                self.emit('delattr', (base, t.attr), st, s)

    def do_Global(self, s, st):
        pass

    def do_Nonlocal(self, s, st):
        pass

    def do_Assert(self, s, st):
        v = self.ev(s.test, st)
        if st.dead:
            return
        d, c, p = self.truth(st, v)
        if d is True:
            return
        if d is None:
            f = st.copy()
            self.refine(f, c, not p, s)
            self.emit('assert', (c, p), st, s)
            self.emit('raise', (const('AssertionError'),), f, s)
            self.do_raise(f, ('exc', 'AssertionError'), s)
            self.refine(st, c, p, s)
            return
        self.emit('raise', (const('AssertionError'),), st, s)
        self.do_raise(st, ('exc', 'AssertionError'), s)

    def do_Raise(self, s, st):
        name = None
        args = ()
        if s.exc is not None:
            v = self.ev(s.exc, st)
            if st.dead:
                return
            if v[0] == 'app' and v[1] == 'exc':
                name = v[2][2]
                args = v[3:]
            elif v[0] == 'class':
                name = v[1].split('.')[-1]
            elif v[0] == 'ext':
                name = v[1].split('.')[-1]
            else:
                name = '?'
        else:
            name = '<reraise>'
        self.emit('raise', (const(name),) + tuple(args), st, s)
        self.do_raise(st, ('exc', name), s)

    def do_Return(self, s, st):
        v = self.ev(s.value, st) if s.value is not None else NONE
        f = Flow()
        if not st.dead:
            self.emit('return', (v,), st, s)
            f.rets.append((st, v))
        return f

    def do_Break(self, s, st):
        f = Flow()
        f.brks.append(st)
        return f

    def do_Continue(self, s, st):
        f = Flow()
        f.conts.append(st)
        return f

    def do_Import(self, s, st):
        for a in s.names:
            name = a.name
            if name in self.program.modules or name.split('.')[0] in self.program.modules:
                self.program.load(name)
                v = ('mod', name if a.asname else name.split('.')[0])
            else:
                v = ('ext', name if a.asname else name.split('.')[0])
            self.bind_name(a.asname or name.split('.')[0], v, st)

    def bind_name(self, name, v, st):
        fid = self.frame_chain[-1] if self.frame_chain else None
        st.frames[fid][name] = v

    def do_ImportFrom(self, s, st):
        mod = self.cur_module()
        if s.module == '__future__':
            return
        base = s.module or ''
        if s.level:
            pkg = mod.name if mod.name in self.program.packages else mod.name.rsplit('.', 1)[0]
            for _ in range(s.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            base = pkg + ('.' + base if base else '')
        if base in self.program.modpaths:
            m = self.program.load(base)
            for a in s.names:
                if a.name == '*':
                    allv = m.env.get('__all__')
                    names = None
                    if allv is not None:
                        its = self.known_items(allv, st)
                        if its is None and allv[0] == 'ref':
                            h = self.hget(st, allv[1])
                        if its is not None:
                            names = [i[2] for i in its]
                    if names is None:
                        names = [n for n in m.env if not n.startswith('_')]
                    for n in names:
                        if n in m.env:
                            self.bind_name(n, m.env[n], st)
                else:
                    sub = base + '.' + a.name
                    if a.name in m.env:
                        v = m.env[a.name]
                    elif sub in self.program.modpaths:
                        self.program.load(sub)
                        v = ('mod', sub)
                    else:
                        v = ('app', 'undefattr', const(base), const(a.name))
                        self.undefined.add((mod.path, base + '.' + a.name, s.lineno))
                    self.bind_name(a.asname or a.name, v, st)
        else:
            for a in s.names:
                if a.name == '*':
                    continue
                self.bind_name(a.asname or a.name, ('ext', base + '.' + a.name), st)

    def make_func(self, node, st, cls):
        a = node.args
        defaults = [self.ev(d, st) for d in a.defaults]
        kwd = [self.ev(d, st) if d is not None else None for d in a.kw_defaults]
        mod = self.cur_module()
        name = getattr(node, 'name', '<lambda>')
        outer = self.callstack[-1].qual if self.callstack and self.callstack[-1].node is not None and \
            not isinstance(self.callstack[-1].node, ast.Module) else mod.name
        if cls:
            outer = cls
        qual = outer + '.' + name
        fid = self.frame_chain[-1] if self.frame_chain else None
        parent = fid if self.callstack and self.callstack[-1].node is not None and \
            isinstance(self.callstack[-1].node, (ast.FunctionDef, ast.Lambda)) else None
        key = (mod.name, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), tuple(defaults))
        if key not in self.program.funcs:
            self.program.funcs[key] = Func(node, mod, cls, qual, defaults, kwd, None)
        return ('func', key, parent)

    def do_FunctionDef(self, s, st):
        v = self.make_func(s, st, self.cur_class)
        for d in s.decorator_list:
            dv = self.ev(d, st)
            if dv[0] == 'ext' and dv[1] in ('builtins.property',):
                v = ('app', 'property', v)
            elif dv[0] == 'ext' and dv[1] in ('builtins.staticmethod',):
                v = ('app', 'staticmethod', v)
            elif dv[0] == 'ext' and dv[1] == 'contextlib.contextmanager':
                v = ('app', 'contextmanager', v)
            else:
                v = TOP
        self.bind_name(s.name, v, st)

    do_AsyncFunctionDef = do_FunctionDef
    cur_class = None

    def do_ClassDef(self, s, st):
        mod = self.cur_module()
        cid = mod.name + '.' + s.name
        bases = []
        for b in s.bases:
            bv = self.ev(b, st)
            if bv[0] == 'class':
                bases.append(bv[1])
            elif bv[0] == 'ext':
                bases.append('ext:' + bv[1])
        self.next_frame[0] += 1
        fid = self.next_frame[0]
        parent = self.frame_chain[-1] if self.frame_chain else None
        st.frames[fid] = {}
        self.frame_parent[fid] = parent
        self.frame_chain.append(fid)
        saved = self.cur_class
        self.cur_class = cid
        flow = self.exec_block(s.body, st)
        self.cur_class = saved
        self.frame_chain.pop()
        attrs = st.frames.pop(fid, {})
        self.program.classes[cid] = {'bases': bases, 'node': s, 'module': mod, 'attrs': attrs}
        self.program.heap['class:' + cid] = HObj('class', attrs=attrs)
        self.bind_name(s.name, ('class', cid), st)

    def do_If(self, s, st):
        c = self.ev(s.test, st)
        if st.dead:
            return Flow()
        d, cond, pol = self.truth(st, c)
        if d is True:
            return self.exec_block(s.body, st)
        if d is False:
            return self.exec_block(s.orelse, st)
        self.stats['branches'] += 1
        sa, sb = st.copy(), st
        self.refine(sa, cond, pol, s)
        self.refine(sb, cond, not pol, s)
        self.infeasible(sa)
        self.infeasible(sb)
        fa = self.exec_block(s.body, sa) if not sa.dead else Flow()
        fb = self.exec_block(s.orelse, sb) if not sb.dead else Flow()
        out = Flow()
        out.rets = fa.rets + fb.rets
        out.brks = fa.brks + fb.brks
        out.conts = fa.conts + fb.conts
        ns = [x for x in (fa.normal, fb.normal) if x is not None]
        if len(ns) == 2:
            p = self._cpl(ns[0].guards, ns[1].guards)
            out.normal = self.join2(ns[0], ns[1], p)
        elif ns:
            out.normal = ns[0]
        return out

    def infeasible(self, s):
        for t, (lo, hi) in s.ranges.items():
            if lo > hi:
                s.dead = True

    def modified(self, before, after):
        """names/attrs that differ between two states -> list of ('v',fid,name)|('a',hid,attr)|('i',hid)"""
        out = []
        for fid, fa in after.frames.items():
            fb = before.frames.get(fid)
            if fb is None:
                continue
            for k, v in fa.items():
                if k not in fb or fb[k] != v:
                    out.append(('v', fid, k))
        for hid, ha in after.heap.items():
            hb = before.heap.get(hid) or self.program.heap.get(hid)
            if hb is None or hb is ha:
                continue
            for k, v in ha.attrs.items():
                if hb.attrs.get(k) != v:
                    out.append(('a', hid, k))
            if ha.items != hb.items or ha.elems != hb.elems:
                out.append(('i', hid))
        return out

    def loc_get(self, st, loc):
        if loc[0] == 'v':
            return st.frames.get(loc[1], {}).get(loc[2])
        h = self.hget(st, loc[1])
        if h is None:
            return None
        return h.attrs.get(loc[2])

    def loc_set(self, st, loc, v):
        if loc[0] == 'v':
            st.frames[loc[1]][loc[2]] = v
        else:
            h = self.hget(st, loc[1])
            at = dict(h.attrs)
            at[loc[2]] = v
            st.heap[loc[1]] = h.copy(attrs=at)

    def exec_loop(self, s, st, body, lid):
        """Summarise a loop. body(state) -> (normal/continue state joined, Flow, exit states)."""
        self.stats['loops'] += 1
        base = st.copy()
        changed = []
        # discovery: find modified locations, abstract them, iterate to a fixpoint of the *set*
        for _ in range(4):
            probe = base.copy()
            self.havoc(probe, changed, lid)
            probe0 = probe.copy()
            self.recording += 1
            self.sinks.append([])
            marks, self.try_marks = self.try_marks, None
            ev_n = len(self.events)
            try:
                end, flow, exits = body(probe)
            finally:
                self.recording -= 1
                self.sinks.pop()
                self.try_marks = marks
            ends = [end] + []
            new = []
            if end is not None:
                for loc in self.modified(probe0, end):
                    if loc not in changed:
                        new.append(loc)
            for b in flow.brks + [x for x in exits]:
                pass
            if not new:
                break
            changed += new
        # induction variables
        induct = {}
        if end is not None:
            for loc in changed:
                if loc[0] == 'i':
                    continue
                v0 = self.loc_get(probe0, loc)
                v1 = self.loc_get(end, loc)
                if v0 is None or v1 is None:
                    continue
                dlt = None
                if to_lin(v1) is not None and to_lin(v0) is not None:
                    dl = sub(v1, v0)
                    if is_int_const(dl):
                        dlt = dl
                    elif not mentions_loop(dl, lid):
                        dlt = dl
                init = self.loc_get(base, loc)
                if dlt is not None and init is not None and to_lin(init) is not None:
                    induct[loc] = (init, dlt)
                else:
                    # shift registers: v1 = v0 >> c
                    if v1[0] == 'app' and v1[1] == '>>' and v1[2] == v0 and is_int_const(v1[3]) and init is not None:
                        induct[loc] = ('shr', init, v1[3])
        run = base.copy()
        self.havoc(run, changed, lid, induct)
        head = run.copy() if self.loop_log is not None else None
        ev_n = len(self.events)
        end, flow, exits = body(run)
        if self.loop_log is not None and not self.recording and isinstance(s, ast.While):
            self.loop_log.append(LoopRec(self, s, lid, base, head, end, flow, changed, self.events[ev_n:]))
        for loc in changed:
            if loc[0] != 'i':
                self.phis[(lid, '%s' % (loc[2],))] = (self.loc_get(base, loc), self.loc_get(end, loc) if end is not None else None)
        if not self.loops and not self.recording:
            self.iter_ends.append((lid, end.copy() if end is not None else None, base))
        return end, flow, exits, changed, induct, base

    def havoc(self, st, locs, lid, induct=None):
        for loc in locs:
            if loc[0] == 'i':
                h = self.hget(st, loc[1])
                if h is not None:
                    el = h.elems
                    if h.items is not None:
                        el = el | frozenset(h.items)
                    st.heap[loc[1]] = h.copy(items=None, elems=el if not h.kind == 'x' else el)
                continue
            if induct and loc in induct:
                iv = induct[loc]
                if iv[0] == 'shr':
                    self.loc_set(st, loc, ('app', '>>', iv[1], mul(('k', lid), iv[2])))
                else:
                    self.loc_set(st, loc, add(iv[0], mul(('k', lid), iv[1])))
                continue
            old = self.loc_get(st, loc)
            if loc[0] == 'v' and loc[1] not in st.frames:
                continue
            name = '%s' % (loc[2],)
            self.loc_set(st, loc, ('phi', lid, name))

    def do_While(self, s, st):
        # constant-condition unrolling is attempted for loops over known data
        un = self.try_unroll_while(s, st)
        if un is not None:
            return un
        n = self.unroll.get(self.callstack[-1].qual) if self.callstack and self.unroll else None
        if n:
            return self.first_iterations(s, st, n)
        lid = self.new_loop()
        exits_all = []

        def body(x):
            exits = []
            c = self.ev(s.test, x)
            if x.dead:
                return None, Flow(), []
            d, cond, pol = self.truth(x, c)
            if d is False:
                return None, Flow(), [x]
            if d is None:
                e = x.copy()
                self.refine(e, cond, not pol, s)
                self.infeasible(e)
                if not e.dead:
                    exits.append(e)
                self.refine(x, cond, pol, s)
            saved = self.loops
            self.loops = self.loops + ((lid, 'while', cond, pol, s),)
            self.iter_serial += 1
            if len(self.loops) == 1:
                self.outer_serial = self.iter_serial
            f = self.exec_block(s.body, x)
            self.loops = saved
            end = self.join_states([y for y in [f.normal] + f.conts if y is not None])
            return end, f, exits
        end, flow, exits, changed, induct, base = self.exec_loop(s, st, body, lid)
        out = Flow()
        out.rets = flow.rets
        outs = list(exits)
        # zero-iteration exit: condition false on entry is covered by `exits` (values are
        # abstracted); nothing more to add.
        brks = flow.brks
        g = base.guards
        for e in outs:
            e.guards = g
            self.fix_exit(e, lid, base, changed)
        for b in brks:
            self.fix_exit(b, lid, base, changed)
        if s.orelse and outs:
            j = self.join_states(outs)
            f2 = self.exec_block(s.orelse, j)
            out.rets += f2.rets
            out.brks += f2.brks
            out.conts += f2.conts
            outs = [f2.normal] if f2.normal is not None else []
        out.normal = self.join_states(outs + brks)
        return out

    unroll = {}

    def first_iterations(self, s, st, n):
        """Only the first n iterations; whatever would need more is cut off (bounded obligations)."""
        out = Flow()
        ends = []
        x = st
        for _ in range(n):
            c = self.ev(s.test, x)
            if x.dead:
                x = None
                break
            d, cond, pol = self.truth(x, c)
            if d is False:
                ends.append(x)
                x = None
                break
            if d is None:
                e = x.copy()
                self.refine(e, cond, not pol, s)
                self.infeasible(e)
                if not e.dead:
                    ends.append(e)
                self.refine(x, cond, pol, s)
            f = self.exec_block(s.body, x)
            out.rets += f.rets
            ends += f.brks
            x = self.join_states([y for y in [f.normal] + f.conts if y is not None])
            if x is None:
                break
        if x is not None:
            self.stats['cut_loops'] = self.stats.get('cut_loops', 0) + 1
        out.normal = self.join_states(ends)
        return out

    def fix_exit(self, st, lid, base, changed):
        """values expressed with this loop's k become opaque exit values"""
        ren = lambda t: ('exit', lid, 'k') if t == ('k', lid) else None
        for fid, fr in st.frames.items():
            for k, v in list(fr.items()):
                if isinstance(v, tuple) and mentions_loop(v, lid):
                    fr[k] = subst(v, ren)
        for hid, h in list(st.heap.items()):
            if any(isinstance(v, tuple) and mentions_loop(v, lid) for v in h.attrs.values()):
                st.heap[hid] = h.copy(attrs={k: subst(v, ren) if isinstance(v, tuple) and mentions_loop(v, lid) else v
                                             for k, v in h.attrs.items()})

    def try_unroll_while(self, s, st, limit=400):
        """Unroll while the test stays decided (constant data); None if not possible."""
        probe = st.copy()
        self.recording += 1
        self.sinks.append([])
        ok = False
        try:
            c = self.ev(s.test, probe)
            if not probe.dead:
                d, cond, pol = self.truth(probe, c)
                ok = d is not None and not (c[0] == 'c' and isinstance(s.test, ast.Constant))
        finally:
            self.recording -= 1
            self.sinks.pop()
        if not ok:
            return None
        # the test is decided now; unroll, giving up (None) if it becomes undecided
        snap_events = len(self.events)
        snap_sink = len(self.sinks[-1])
        cur = st.copy()
        out = Flow()
        brks = []
        past = []
        for i in range(limit):
            if i > limit - 20 and self.frame_chain:
                past.append({k: v for k, v in cur.frames.get(self.frame_chain[-1], {}).items() if is_int_const(v)})
            c = self.ev(s.test, cur)
            d, cond, pol = self.truth(cur, c)
            if d is None:
                del self.events[snap_events:]
                del self.sinks[-1][snap_sink:]
                return None
            if d is False:
                f2 = self.exec_block(s.orelse, cur)
                out.rets += f2.rets
                out.normal = self.join_ordered([x for x in brks + [f2.normal] if x is not None])
                return out
            f = self.exec_block(s.body, cur)
            out.rets += f.rets
            brks += f.brks
            cur = self.join_ordered([y for y in f.conts + [f.normal] if y is not None])
            if cur is None:
                out.normal = self.join_ordered(brks)
                return out
        names = set(x.id for x in ast.walk(s.test) if isinstance(x, ast.Name))
        sig = [tuple(sorted((k, v) for k, v in p.items() if k in names)) for p in past]
        if sig and sig[-1] and len(set(sig)) <= 8 and sig[-1] in sig[:-1]:
            self.stuck.append((self.callstack[-1] if self.callstack else None, s, sig[-1]))
        del self.events[snap_events:]
        del self.sinks[-1][snap_sink:]
        return None

    def do_For(self, s, st):
        it = self.ev(s.iter, st)
        if st.dead:
            return Flow()
        items = self.iter_items(it, st)
        out = Flow()
        if items is not None and len(items) <= UNROLL:
            cur = st
            brks = []
            for x in items:
                self.assign(s.target, x, cur)
                if cur.dead:
                    cur = None
                    break
                f = self.exec_block(s.body, cur)
                out.rets += f.rets
                brks += f.brks
                cur = self.join_ordered([y for y in f.conts + [f.normal] if y is not None])
                if cur is None:
                    break
            outs = brks
            if cur is not None:
                f2 = self.exec_block(s.orelse, cur) if s.orelse else Flow(cur)
                out.rets += f2.rets
                out.brks += f2.brks
                out.conts += f2.conts
                if f2.normal is not None:
                    outs = outs + [f2.normal]
            out.normal = self.join_ordered(outs)
            return out
        lid = self.new_loop()
        zero = st.copy()

        def body(x):
            elem = self.loop_elem(it, lid, x)
            self.assign(s.target, elem, x)
            if x.dead:
                return None, Flow(), []
            saved = self.loops
            self.loops = self.loops + ((lid, 'for', it, True, s),)
            self.iter_serial += 1
            if len(self.loops) == 1:
                self.outer_serial = self.iter_serial
            f = self.exec_block(s.body, x)
            self.loops = saved
            end = self.join_states([y for y in [f.normal] + f.conts if y is not None])
            return end, f, []
        end, flow, exits, changed, induct, base = self.exec_loop(s, st, body, lid)
        out.rets = flow.rets
        outs = []
        g = base.guards
        trip = range_trip(it)
        if end is not None:
            # the state after the last iteration
            e = end
            e.guards = g
            for loc, iv in induct.items():
                if iv[0] == 'shr':
                    self.loc_set(e, loc, ('exit', lid, str(loc[2])))
                elif trip is not None and not flow.brks:
                    self.loc_set(e, loc, add(iv[0], mul(trip, iv[1])))
                else:
                    self.loc_set(e, loc, add(iv[0], mul(('exit', lid, 'k'), iv[1])))
            self.fix_exit(e, lid, base, changed)
            # zero iterations: merge, except induction values (init + 0*step is the same form)
            for loc, iv in induct.items():
                if iv[0] != 'shr':
                    self.loc_set(zero, loc, self.loc_get(e, loc))
            outs.append(self.join2(zero, e, len(g)) if True else e)
        else:
            outs.append(zero)
        for b in flow.brks:
            self.fix_exit(b, lid, base, changed)
        if s.orelse and outs:
            f2 = self.exec_block(s.orelse, self.join_states(outs))
            out.rets += f2.rets
            out.brks += f2.brks
            out.conts += f2.conts
            outs = [f2.normal] if f2.normal is not None else []
        out.normal = self.join_states(outs + flow.brks)
        return out

    def do_With(self, s, st):
        for item in s.items:
            v = self.ev(item.context_expr, st)
            if item.optional_vars is not None:
                self.assign(item.optional_vars, v, st)
            self.emit('enter', (v,), st, s)
        if st.dead:
            return Flow()
        f = self.exec_block(s.body, st)
        return f

    def do_Try(self, s, st):
        entry = st.copy()
        self.sinks.append([])
        if self.try_marks is None:
            self.try_marks = []
        self.try_marks.append([entry])
        risk = self.keyrisk
        unp = self.unpacks
        flow = self.exec_block(s.body, st)
        # a body that only unpacks a sequence whose length is known cannot raise
        inert = len(s.body) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.body[0].value, ast.Name) \
            and len(s.body[0].targets) == 1 and (self.unpacks > unp or flow.normal is None)
        risk = self.keyrisk - risk
        marks = self.try_marks.pop()
        raised = self.sinks.pop()
        out = Flow()
        out.rets += flow.rets
        out.brks += flow.brks
        out.conts += flow.conts
        normals = []
        if flow.normal is not None:
            if s.orelse:
                f2 = self.exec_block(s.orelse, flow.normal)
                out.rets += f2.rets
                out.brks += f2.brks
                out.conts += f2.conts
                if f2.normal is not None:
                    normals.append(f2.normal)
            else:
                normals.append(flow.normal)
        # states in which some exception may reach the handlers
        hstates = [m for m in marks] + [r[0] for r in raised]
        caught_all = False
        for h in s.handlers:
            names = self.handler_names(h, st)
            # explicit raises that this handler cannot see propagate
            base_states = [m.copy() for m in marks]
            if inert or not risk and set(names) <= {'KeyError', 'IndexError'}:
                # every subscript of the body was decided: only the ones that certainly fail get here
                base_states = []
            for r in raised:
                rc = r[0].copy()
                rc.dead = False
                base_states.append(rc)
            g = entry.guards
            tag = ('app', 'exc_in', const(id(h) and '%s' % ','.join(names)))
            hs = self.join_many_for_handler(base_states, g)
            if hs is None:
                continue
            if inert and flow.normal is None and len(raised) == 1 and raised[0][0].guards == g \
                    and self.catches(h, raised[0][1][1], st):
                hs.guards = g       # the handler is certainly entered
            else:
                hs.guards = g + ((('app', 'except', const(','.join(names)), const(h.lineno)), True, h),)
            if h.name:
                hs.frames[self.frame_chain[-1]][h.name] = ('app', 'exc', const('|'.join(names)))
            f3 = self.exec_block(h.body, hs)
            out.rets += f3.rets
            out.brks += f3.brks
            out.conts += f3.conts
            if f3.normal is not None:
                normals.append(f3.normal)
            if set(names) & {'*', 'BaseException', 'Exception'}:
                caught_all = True
        if not caught_all:
            for r in raised:
                nm = r[1][1]
                if not any(self.catches(h, nm, st) for h in s.handlers):
                    self.sinks[-1].append(r)
        out.normal = self.join_try(normals, entry.guards)
        if s.finalbody and out.normal is not None:
            f4 = self.exec_block(s.finalbody, out.normal)
            out.rets += f4.rets
            out.normal = f4.normal
        elif s.finalbody:
            f4 = self.exec_block(s.finalbody, entry.copy())
        return out

    do_TryStar = do_Try

    def join_try(self, normals, g):
        """join the exits of a try statement, gating the values on whether a handler was entered"""
        n = len(g)
        hs = [x for x in normals if len(x.guards) > n and x.guards[n][0][0] == 'app' and x.guards[n][0][1] == 'except']
        if len(normals) != len(hs) + 1 or not hs:
            return self.join_states(normals)
        base = [x for x in normals if x not in hs][0]
        cur = base
        for h in reversed(hs):
            c = h.guards[n]
            if cur.guards[:n] != g or h.guards[:n] != g:
                return self.join_states(normals)
            cur.guards = g + ((c[0], False, c[2]),)
            h.guards = g + (c,)
            cur = self.join2(cur, h, n)
        return cur

    def join_many_for_handler(self, states, g):
        js = []
        for s in states:
            c = s
            c.guards = g
            c.dead = False
            js.append(c)
        cur = None
        for c in js:
            cur = c if cur is None else self.join2(cur, c, len(g))
        return cur

    def handler_names(self, h, st):
        if h.type is None:
            return ['*']
        v = self.ev(h.type, st.copy())
        ts = v[1] if v[0] == 'tuple' else (v,)
        out = []
        for t in ts:
            if t[0] in ('class', 'ext'):
                out.append(t[1].split('.')[-1] if t[1] != 'struct.error' else 'struct.error')
            else:
                out.append('?')
        return out

    def catches(self, h, name, st):
        names = self.handler_names(h, st)
        for n in names:
            if n in ('*', 'BaseException', 'Exception') or n == name:
                return True
            if n == 'LookupError' and name in ('KeyError', 'IndexError'):
                return True
        return False

    frame_chain = None
    frame_parent = None
    undefined = None

    # ------------------------------------------------------------- entry
    def run(self, fn, args, kwargs, st=None, budget=3000000):
        """Interpret a call of fn from state st; returns (value, state)."""
        if st is None:
            st = State()
        self.frame_chain = []
        self.frame_parent = {}
        self.undefined = set()
        self.callstack = []
        self.sites = None
        self.budget = budget
        v = self.call(fn, list(args), dict(kwargs), st, None)
        return v, st


# ------------------------------------------------------------------ term helpers

def mk_ite(c, a, b):
    if a == b:
        return a
    if c == TOP:
        return alts([a, b])
    c, p = canon_cond(c)
    if c[0] == 'c':
        return a if bool(c[2]) == p else b
    if not p:
        a, b = b, a
    # nested same condition
    if a[0] == 'app' and a[1] == 'ite' and a[2] == c:
        a = a[3]
    if b[0] == 'app' and b[1] == 'ite' and b[2] == c:
        b = b[4]
    if a == b:
        return a
    # ite(c, True, False) == c
    if a == TRUE and b == FALSE:
        return c
    if a == FALSE and b == TRUE:
        return ('app', 'not', c)
    if a in (TRUE, FALSE) or b in (TRUE, FALSE):
        if b == FALSE and is_boolterm(a):
            return mk_and([c, a])
        if a == FALSE and is_boolterm(b):
            return mk_and([neg(c), b])
        if a == TRUE and is_boolterm(b):
            return neg(mk_and([neg(c), neg(b)]))
        if b == TRUE and is_boolterm(a):
            return neg(mk_and([c, neg(a)]))
    bi = bool_int_merge(c, a, b)
    if bi is not None:
        return bi
    if a == TOP and b == TOP:
        return TOP
    return ('app', 'ite', c, a, b)


def is_boolterm(t):
    return t[0] == 'app' and t[1] in BOOL_OPS


def per_iteration(t):
    """mentions a value of one iteration of a summarised loop"""
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, tuple) or not x:
            continue
        if x[0] == 'k' or x[0] == 'app' and len(x) > 1 and x[1] == 'phi':
            return True
        st.extend(y for y in x if isinstance(y, tuple))
    return False


def mk_and(ts):
    lits = set()
    for t in ts:
        c, p = canon_cond(t)
        if c[0] == 'c':
            if bool(c[2]) != p:
                return FALSE
            continue
        if c == TOP:
            return TOP
        if c[0] == 'app' and c[1] == 'and' and p:
            lits |= set(c[2:])
        else:
            lits.add(c if p else ('app', 'not', c))
    for l in lits:
        if neg(l) in lits:
            return FALSE
    if not lits:
        return TRUE
    if len(lits) == 1:
        return next(iter(lits))
    return ('app', 'and') + tuple(sorted(lits, key=repr))


def bool_int_merge(c, a, b):
    """ite(u1==0, 0, 1) -> the bit itself"""
    if c[0] == 'app' and c[1] == 'eq0' and c[2][0] == 'u' and c[2][4] == 1:
        if a == const(0) and b == const(1):
            return c[2]
        if is_int_const(a) and is_int_const(b) and a[1] == b[1] == 'int' and int(a[2]) == 0:
            return scale(c[2], int(b[2]))
    return None


def bool_int(c, p):
    return mk_ite(c, const(1), const(0)) if p else mk_ite(c, const(0), const(1))


def neg(t):
    if t == TOP:
        return TOP
    if t[0] == 'c':
        return const(not t[2])
    if t[0] == 'app' and t[1] == 'not':
        return t[2]
    if t[0] == 'alts':
        return alts([neg(x) for x in t[1]])
    return ('app', 'not', t)


def canon_cond(t):
    """-> (canonical condition term, polarity); constant conditions come back as consts."""
    pol = True
    while t[0] == 'app' and t[1] == 'not':
        t = t[2]
        pol = not pol
    if t[0] == 'c':
        return const(bool(t[2])), pol
    if t[0] == 'tuple':
        return const(len(t[1]) > 0), pol
    if t[0] == 'app':
        if t[1] in ('eq0', 'lt0', 'is', 'in', 'inset', 'truth', 'cmp', 'isinstance', 'hasattr', 'except', 'and'):
            return t, pol
        if t[1] == 'bool' and len(t) == 3:
            c, p = canon_cond(t[2])
            return c, p == pol
        if t[1] == 'len':
            return ('app', 'truth', t[2]) if len(t) == 3 else ('app', 'eq0', t), pol if len(t) == 3 else not pol
        if t[1] == 'ite':
            a, b = t[3], t[4]
            if a[0] == 'c' and b[0] == 'c':
                if bool(a[2]) == bool(b[2]):
                    return const(bool(a[2])), pol
                c, p = canon_cond(t[2])
                return c, (p == bool(a[2])) == pol
            if size(t, 40) < 40:
                # truth(ite(c,a,b)) with a, b as conditions
                c, p = canon_cond(t[2])
                out = []
                for x, cp in ((a, p), (b, not p)):
                    xc, xp = canon_cond(x)
                    if xc == c:
                        out.append(const(xp == cp))
                    elif xc == TOP:
                        out = None
                        break
                    else:
                        out.append(xc if xp else neg(xc))
                if out and (out[0][0] == 'c' or out[1][0] == 'c'):
                    r = mk_ite(t[2], out[0], out[1])
                    if r[0] != 'app' or r[1] != 'ite':
                        c, p = canon_cond(r)
                        return c, p == pol
            return ('app', 'truth', t), pol
    if t == TOP:
        return TOP, pol
    if to_lin(t) is not None and t[0] in ('u', 's', 'lin', 'k', 'd'):
        c = canon_eq0(t)
        if c[0] == 'c':
            return const(not c[2]), pol
        return c, not pol
    return ('app', 'truth', t), pol


def canon_eq0(t):
    l = to_lin(t)
    if l is None:
        return ('app', 'eq0', t)
    c, m = l
    if not m:
        return const(c == 0)
    # sign / gcd normalisation
    import math as _m
    g = 0
    for k in m.values():
        g = _m.gcd(g, abs(k))
    if g > 1:
        if c % g:
            if all(term_range(a)[2] for a in m):
                return FALSE
            g = 1
    items = sorted(m.items(), key=repr)
    s = 1 if items[0][1] > 0 else -1
    if g == 0:
        g = 1
    m2 = {a: k // g * s for a, k in m.items()}
    c2 = c // g * s
    t2 = from_lin(c2, m2)
    if len(m2) == 1:
        (a, k), = m2.items()
        # one-bit field == 1  is  not (field == 0)
        if a[0] == 'u' and a[4] == 1 and k == 1 and c2 == -1:
            return ('app', 'not', ('app', 'eq0', a))
        # multi-byte field compared to const stays
    # bit-sum tests: sum of disjoint bits == 0 stays as is
    lo, hi, i = term_range(t2)
    if lo > 0 or hi < 0:
        return FALSE
    return ('app', 'eq0', t2)


def canon_lt0(t):
    """t < 0"""
    l = to_lin(t)
    if l is None:
        return ('app', 'lt0', t)
    c, m = l
    if not m:
        return const(c < 0)
    lo, hi, isint = term_range(from_lin(c, dict(m)))
    if hi < 0:
        return TRUE
    if lo >= 0:
        return FALSE
    items = sorted(m.items(), key=repr)
    allint = all(term_range(a)[2] or a[0] in ('sym', 'init', 'phi', 'exit') for a in m)
    if items[0][1] < 0 and isint:
        # t < 0  <=>  not (-t-1 < 0)
        t2 = from_lin(-c - 1, {a: -k for a, k in m.items()})
        return ('app', 'not', ('app', 'lt0', t2))
    return ('app', 'lt0', from_lin(c, dict(m)))


CMP = {
    'Eq': lambda a, b: a == b, 'NotEq': lambda a, b: a != b,
    'Lt': lambda a, b: a < b, 'LtE': lambda a, b: a <= b,
    'Gt': lambda a, b: a > b, 'GtE': lambda a, b: a >= b,
}


def fold_compare(op, a, b):
    if a[0] == 'c' and b[0] == 'c':
        try:
            return const(CMP[op](a[2], b[2]))
        except TypeError:
            return TOP
    if a == TOP or b == TOP:
        return TOP
    if a[0] == 'tuple' and b[0] == 'tuple' and op in ('Eq', 'NotEq') and len(a[1]) != len(b[1]):
        return const(op == 'NotEq')
    if a[0] == 'tuple' and b[0] == 'tuple' and all(x[0] == 'c' for x in a[1] + b[1]):
        try:
            return const(CMP[op](tuple(x[2] for x in a[1]), tuple(x[2] for x in b[1])))
        except TypeError:
            return TOP
    # byte strings against constants: as integers
    if op in ('Eq', 'NotEq'):
        for x, y in ((a, b), (b, a)):
            if y[0] == 'c' and y[1] == 'bytes' and x[0] == 'slice':
                n = slice_width(x)
                if n is not None and n == len(y[2]) and n:
                    f = field_bits(x[1], x[2], 8 * n)
                    r = canon_eq0(sub(f, const(int.from_bytes(y[2], 'little'))))
                    return r if op == 'Eq' else neg(r)
    fa, fb = num_like(a), num_like(b)
    if fa and fb:
        d = sub(a, b)
        if op == 'Eq':
            return canon_eq0(d)
        if op == 'NotEq':
            return neg(canon_eq0(d))
        isint = term_range(a)[2] and term_range(b)[2] or int_like(a) and int_like(b)
        if op == 'Lt':
            return canon_lt0(d)
        if op == 'GtE':
            return neg(canon_lt0(d))
        if op == 'Gt':
            return canon_lt0(sub(b, a))
        if op == 'LtE':
            return neg(canon_lt0(sub(b, a)))
    if op in ('Eq', 'NotEq'):
        if a == b and a[0] in ('ref', 'class', 'func', 'slice'):
            return const(op == 'Eq')
        # different known kinds never compare equal
        ka, kb = simple_kind(a), simple_kind(b)
        if ka and kb and ka != kb and not {ka, kb} <= {'int', 'float', 'bool'}:
            return const(op == 'NotEq')
        r = ('app', 'cmp', const('=='), *sorted((a, b), key=repr))
        return r if op == 'Eq' else neg(r)
    if op in ('Gt', 'GtE'):
        a, b = b, a
        op = {'Gt': 'Lt', 'GtE': 'LtE'}[op]
    if op == 'LtE':
        return neg(('app', 'cmp', const('<'), b, a))
    return ('app', 'cmp', const('<'), a, b)


def simple_kind(t):
    if t[0] == 'c':
        return t[1]
    if t[0] in ('u', 's', 'k'):
        return 'int'
    if t[0] == 'd':
        return 'float'
    if t[0] == 'slice' and bytes_src(t):
        return 'bytes'
    if t[0] == 'app':
        if t[1] in ('decode', 'str', 'repr', 'chr', 'join'):
            return 'str'
        if t[1] == 'chunk':
            return 'bytes'
        if t[1] == 'repeat':
            ks = {simple_kind(t[2]), simple_kind(t[3])} & {'bytes', 'str'}
            return ks.pop() if len(ks) == 1 else None
        if t[1] == 'cat':
            ks = {simple_kind(x) for x in t[2:]} - {None}
            return ks.pop() if len(ks) == 1 else None
        if t[1] == 'ite':
            a, b = simple_kind(t[3]), simple_kind(t[4])
            return a if a == b else None
        if t[1] == 'table' and t[3][0] == 'tuple':
            ks = {simple_kind(x[1][1]) for x in t[3][1] if x[0] == 'tuple'}
            return ks.pop() if len(ks) == 1 else None
    return None


def int_like(t):
    return t[0] in ('u', 's', 'k') or is_int_const(t)


def num_like(t):
    if t[0] == 'c':
        return t[1] in ('int', 'bool')
    if t[0] in ('u', 's', 'k', 'lin', 'd'):
        return True
    if t[0] in ('sym', 'init', 'phi', 'exit'):
        return True
    if t[0] == 'app':
        return t[1] in ('len', 'int', '+', '-', '*', '//', '%', '/', '&', '|', '>>', '<<', 'float', 'min', 'max',
                        'abs', 'round', 'item', 'method', 'table', 'attr', 'ord')
    return False


def fold_binop(op, a, b, text=False):
    if a[0] == 'c' and b[0] == 'c':
        try:
            x, y = a[2], b[2]
            if op == 'Add':
                return const(x + y)
            if op == 'Sub':
                return const(x - y)
            if op == 'Mult':
                if isinstance(x, (str, bytes)) and y > 100000:
                    return TOP
                return const(x * y)
            if op == 'Div':
                return const(x / y)
            if op == 'FloorDiv':
                return const(x // y)
            if op == 'Mod':
                return const(x % y)
            if op == 'Pow':
                if abs(y) > 4096:
                    return TOP
                return const(x ** y)
            if op == 'LShift':
                return const(x << y) if y < 4096 else TOP
            if op == 'RShift':
                return const(x >> y)
            if op == 'BitAnd':
                return const(x & y)
            if op == 'BitOr':
                return const(x | y)
            if op == 'BitXor':
                return const(x ^ y)
        except Exception:
            return TOP
    if a == TOP or b == TOP:
        if op == 'Mod' and a[0] == 'c' and a[1] == 'str':
            return ('app', 'str', TOP)
        return TOP
    if op == 'Mod' and a[0] == 'c' and a[1] in ('str', 'bytes'):
        if b[0] == 'tuple' and all(x[0] == 'c' for x in b[1]):
            try:
                return const(a[2] % tuple(x[2] for x in b[1]))
            except Exception:
                return TOP
        return ('app', '%', a, b)
    if op in ('Add',):
        if a[0] == 'tuple' and b[0] == 'tuple':
            return ('tuple', a[1] + b[1])
        ka, kb = simple_kind(a), simple_kind(b)
        if text or ka in ('str', 'bytes') or kb in ('str', 'bytes'):
            pa = a[2:] if a[0] == 'app' and a[1] == 'cat' else (a,)
            pb = b[2:] if b[0] == 'app' and b[1] == 'cat' else (b,)
            parts = [p for p in pa + pb if not (p[0] == 'c' and p[2] in (b'', ''))]
            out = []
            for p in parts:
                if out and out[-1][0] == 'c' and p[0] == 'c' and out[-1][1] == p[1]:
                    out[-1] = const(out[-1][2] + p[2])
                elif out and out[-1][0] == 'slice' and p[0] == 'slice' and out[-1][1] == p[1] and out[-1][3] == p[2]:
                    out[-1] = mk_slice(p[1], out[-1][2], p[3])
                else:
                    out.append(p)
            if len(out) == 1:
                return out[0]
            return ('app', 'cat') + tuple(out)
        if a[0] == 'app' and a[1] == 'cat' or b[0] == 'app' and b[1] == 'cat':
            pa = a[2:] if a[0] == 'app' and a[1] == 'cat' else (a,)
            pb = b[2:] if b[0] == 'app' and b[1] == 'cat' else (b,)
            return ('app', 'cat') + tuple(pa) + tuple(pb)
        return add(a, b)
    if op == 'Sub':
        return sub(a, b)
    if op == 'Pow' and is_int_const(b) and 1 <= b[2] <= 3:
        r = a
        for _ in range(int(b[2]) - 1):
            r = mul(r, a)
        return r
    if op == 'Mult':
        if b[0] == 'tuple' or a[0] == 'tuple':
            t, n = (a, b) if a[0] == 'tuple' else (b, a)
            if is_int_const(n) and n[2] < 1000:
                return ('tuple', t[1] * int(n[2]))
            return ('app', '*', t, n)
        if text or simple_kind(a) in ('bytes', 'str') or simple_kind(b) in ('bytes', 'str'):
            return ('app', 'repeat', a, b)
        return mul(a, b)
    if op == 'BitAnd':
        return bit_and(a, b)
    if op == 'BitOr':
        return bit_or(a, b)
    if op == 'LShift':
        return shl(a, b)
    if op == 'RShift':
        return shr(a, b)
    if op == 'FloorDiv':
        if is_int_const(b) and b[2] > 0:
            n = int(b[2])
            l = to_lin(a)
            if l is not None and l[1] and all(k % n == 0 for k in l[1].values()) and all(term_range(t)[2] for t in l[1]):
                return from_lin(l[0] // n, {t: k // n for t, k in l[1].items()})
            if n & (n - 1) == 0 and is_bitsum(a) is not None and a[0] != 'c':
                return shr(a, const(n.bit_length() - 1))
        return ('app', '//', a, b)
    if op == 'Mod':
        if is_int_const(b) and b[2] > 0:
            n = int(b[2])
            if n & (n - 1) == 0 and is_bitsum(a) is not None:
                return bit_and(a, const(n - 1))
        return ('app', '%', a, b)
    if op == 'Div':
        return ('app', '/', a, b)
    return ('app', op, a, b)


def mk_divmod(t, i):
    return ('app', 'divmod%d' % i) + t[2:]


def bytes_src(t):
    """May t be read as bytes with field terms?"""
    return t[0] in ('sym', 'slice', 'init') or (t[0] == 'app' and t[1] in ('cat', 'item', 'bytes', 'phi', 'chunk')) or \
        t[0] in ('phi', 'elem', 'exit') or (t[0] == 'c' and t[1] == 'bytes')


def norm_base(t):
    """-> (src, offset term, limit term or END)"""
    if t[0] == 'slice':
        return t[1], t[2], t[3]
    return t, const(0), END


def mk_slice(b, lo, hi):
    if TOP in (b, lo, hi):
        return TOP
    if b[0] == 'alts' or lo[0] == 'alts' or hi[0] == 'alts':
        return TOP
    if is_int_const(lo) and lo[2] < 0:
        lo = add(('app', 'len', b), lo)
    if hi != END and is_int_const(hi) and hi[2] < 0:
        hi = add(('app', 'len', b), hi)
    if b[0] == 'app' and b[1] in ('cat', 'chunk') and is_int_const(lo) and (hi == END or is_int_const(hi)):
        n = exact_len(b)
        if n is not None:
            x = range(n)[lo[2]:None if hi == END else hi[2]]
            lo, hi = const(x.start), const(x.stop)
            if x.stop <= x.start:
                return const(b'')
            if len(x) == n:
                return b
    if b[0] == 'slice':
        src, o, lim = b[1], b[2], b[3]
        nlo = add(o, lo)
        nhi = lim if hi == END else add(o, hi)
        return mk_slice(src, nlo, nhi)
    if b[0] == 'app' and b[1] == 'cat' and is_int_const(lo) and (hi != END and is_int_const(hi)):
        # slice inside one constant-length part list
        pos = 0
        out = []
        ok = True
        want_lo, want_hi = lo[2], hi[2]
        for p in b[2:]:
            n = term_len(p)
            if n is None:
                if p is not b[-1] and want_hi > pos:
                    # the parts after one of unknown length cannot be placed
                    return ('slice', b, lo, hi)
                # open ended last part
                n = INF
            a, e = max(want_lo, pos), min(want_hi, pos + n)
            if a < e:
                if p[0] == 'c':
                    out.append(const(p[2][a - pos:e - pos]))
                else:
                    out.append(mk_slice(p, const(a - pos), const(int(e - pos))))
            pos = pos + n
        if out:
            r = out[0]
            for p in out[1:]:
                r = fold_binop('Add', r, p)
            return r
    if is_int_const(lo) and lo[2] == 0 and hi == END:
        return b
    return ('slice', b, lo, hi)


def slice_width(t):
    if t[0] != 'slice' or t[3] == END:
        return None
    d = sub(t[3], t[2])
    return int(d[2]) if is_int_const(d) else None


def term_len(p):
    if p[0] == 'c' and isinstance(p[2], (bytes, str)):
        return len(p[2])
    if p[0] == 'slice':
        return slice_width(p)
    if p[0] == 'app' and p[1] == 'byte1':
        return 1
    if p[0] == 'app' and p[1] == 'chunk':
        return p[3][2]
    return None


def exact_len(t):
    """length of a byte string made of constants and pieces of known length"""
    if t[0] == 'c' and isinstance(t[2], (bytes, str)):
        return len(t[2])
    if t[0] == 'app' and t[1] == 'chunk':
        return t[3][2]
    if t[0] == 'slice' and t[1][0] == 'app' and t[1][1] == 'chunk' and is_int_const(t[2]) and (t[3] == END or is_int_const(t[3])):
        n = t[1][3][2]
        return len(range(n)[t[2][2]:None if t[3] == END else t[3][2]])
    if t[0] == 'app' and t[1] == 'cat':
        ns = [exact_len(x) for x in t[2:]]
        return None if None in ns else sum(ns)
    return None


def slice_len(t):
    """symbolic length of a slice when it is open-ended: len(src) - lo"""
    if t[3] == END:
        return sub(('app', 'len', t[1]), t[2])
    return None


def field_bits(src, off, nbits, signed=False):
    l = to_lin(off)
    if l is None:
        return TOP
    c, m = l
    return ('s' if signed else 'u', src, tuple(sorted(m.items(), key=repr)), c * 8, nbits)


def byte_at(base, idx):
    src, off, lim = norm_base(base)
    if is_int_const(idx) and idx[2] < 0:
        if lim == END:
            o = add(('app', 'len', src), idx)
        else:
            o = add(lim, idx)
        return field_bits(src, o, 8)
    o = add(off, idx)
    if src[0] == 'app' and src[1] == 'cat':
        s = mk_slice(src, o, add(o, const(1)))
        if s[0] == 'c':
            return const(s[2][0]) if s[2] else TOP
        if s[0] == 'slice' and s[1] != src:
            return field_bits(s[1], s[2], 8)
    if src[0] == 'c':
        if is_int_const(o) and 0 <= o[2] < len(src[2]):
            return const(src[2][o[2]])
        return TOP
    return field_bits(src, o, 8)


def rejoin_bytes(items):
    """bytes([...]) of consecutive single bytes of one source -> slice"""
    if not items:
        return const(b'')
    first = items[0]
    parts = []
    for t in items:
        if is_int_const(t):
            parts.append(const(bytes([t[2] & 255])))
        elif t[0] == 'u' and t[4] == 8 and t[3] % 8 == 0:
            o = from_lin(t[3] // 8, dict(t[2]))
            parts.append(mk_slice(t[1], o, add(o, const(1))))
        elif t[0] == 'lin':
            return None
        else:
            return None
    r = parts[0]
    for p in parts[1:]:
        r = fold_binop('Add', r, p)
    return r


def decode_term(b, enc):
    if b == TOP or enc == TOP:
        return ('app', 'decode', TOP, enc if enc != TOP else TOP)
    if enc[0] == 'c':
        enc = const(norm_enc(enc[2]))
    if b[0] == 'app' and b[1] == 'ite':
        return mk_ite(b[2], decode_term(b[3], enc), decode_term(b[4], enc))
    if enc[0] == 'app' and enc[1] == 'ite':
        return mk_ite(enc[2], decode_term(b, enc[3]), decode_term(b, enc[4]))
    if b[0] == 'c' and enc[0] == 'c':
        try:
            return const(b[2].decode(enc[2]))
        except Exception:
            return TOP
    return ('app', 'decode', b, enc)


def norm_enc(e):
    import codecs
    try:
        return codecs.lookup(e).name
    except Exception:
        return e


FIELD_SIZES = {'b': 1, 'B': 1, 'h': 2, 'H': 2, 'i': 4, 'I': 4, 'l': 4, 'L': 4, 'q': 8, 'Q': 8, 'd': 8, 'f': 4,
               'c': 1, '?': 1}


def parse_fmt(fmt):
    """-> (endian, [(offset, char, size)]) for standard-size struct formats, else None"""
    if isinstance(fmt, bytes):
        fmt = fmt.decode('latin1')
    endian = '@'
    i = 0
    if fmt and fmt[0] in '<>=!@':
        endian = fmt[0]
        i = 1
    off = 0
    out = []
    num = ''
    for ch in fmt[i:]:
        if ch.isspace():
            continue
        if ch.isdigit():
            num += ch
            continue
        n = int(num) if num else 1
        if ch == 'x':
            off += n
        elif ch == 's':
            out.append((off, 's', n))
            off += n
        elif ch in FIELD_SIZES:
            for _ in range(n):
                sz = FIELD_SIZES[ch]
                out.append((off, ch, sz))
                off += sz
        else:
            return None
        num = ''
    if endian not in '<':
        if any(sz > 1 and ch != 's' for o, ch, sz in out):
            return endian, [(o, ch + '!', sz) for o, ch, sz in out]
    return endian, out


def array_fmt(fmt):
    """'<xx%dH' % n and friends -> (offset of the first item, item char, n)"""
    if fmt[0] != 'app':
        return None
    import re
    if fmt[1] == '%' and fmt[2][0] == 'c' and isinstance(fmt[2][2], (str, bytes)):
        f = fmt[2][2]
        f = f.decode('latin1') if isinstance(f, bytes) else f
        n = fmt[3]
        if n[0] == 'tuple':
            if len(n[1]) != 1:
                return None
            n = n[1][0]
        m = re.match(r'^(<?x*)%[di]([bBhHiIlLqQfd])$', f)
    elif fmt[1] == 'cat' and len(fmt) == 5 and fmt[2][0] == 'c' and fmt[4][0] == 'c' \
            and fmt[3][0] == 'app' and fmt[3][1] == 'str':
        n = fmt[3][2]
        m = re.match(r'^(<?x*)()$', fmt[2][2])
        if m is None or fmt[4][2] not in tuple('bBhHiIlLqQfd'):
            return None
        return m.group(1).count('x'), fmt[4][2], n
    elif fmt[1] == 'cat' and len(fmt) == 4 and fmt[2][0] == 'c' and fmt[3][0] == 'app' and fmt[3][1] == 'repeat':
        a, b = fmt[3][2], fmt[3][3]
        if b[0] == 'c':
            a, b = b, a
        if a[0] != 'c' or a[2] not in tuple('bBhHiIlLqQfd') or fmt[2][2] != '<':
            return None
        return 0, a[2], b
    else:
        return None
    if m is None:
        return None
    if not m.group(1).startswith('<') and FIELD_SIZES[m.group(2)] > 1:
        return None
    return m.group(1).count('x'), m.group(2), n


def array_item(arr, idx):
    src, base, ch = arr[2], arr[3], arr[4][2]
    w = FIELD_SIZES[ch]
    if is_int_const(idx) and idx[2] < 0:
        idx = add(arr[5], idx)
    return field_at(mk_slice(src, add(base, scale(idx, w)), END), 0, ch, w, '<')


def field_at(data, off, ch, n, endian):
    src, base, lim = norm_base(data)
    o = add(base, const(off))
    if src[0] == 'app' and src[1] == 'cat':
        s = mk_slice(src, o, add(o, const(n)))
        if s[0] == 'c' and len(s[2]) == n:
            return const(_struct.unpack('<' + (ch if ch != 's' else '%ds' % n), s[2])[0])
        if s[0] == 'slice' and s[1] != src:
            src, o = s[1], s[2]
        elif ch in 'df' and s != TOP and s[0] != 'slice':
            return ('app', 'f64of', s)
        elif s == TOP or s[0] == 'alts':
            return TOP
        elif s[0] != 'slice':
            src, o = s, const(0)
    if src[0] == 'c':
        if is_int_const(o):
            try:
                return const(_struct.unpack('<' + (ch if ch != 's' else '%ds' % n), src[2][o[2]:o[2] + n])[0])
            except Exception:
                return TOP
        return TOP
    if ch.endswith('!'):
        return ('app', 'bigendian', const(ch), mk_slice(src, o, add(o, const(n))))
    if ch in 'BHILQ?':
        return field_bits(src, o, 8 * n)
    if ch in 'bhilq':
        return field_bits(src, o, 8 * n, signed=True)
    if ch in 'df':
        l = to_lin(o)
        if l is None:
            return TOP
        return ('d', src, tuple(sorted(l[1].items(), key=repr)), l[0], n)
    if ch in 'sc':
        return mk_slice(src, o, add(o, const(n)))
    return TOP


class LoopRec(object):
    """one summarised while loop: state on entry, at the head of a later iteration, and at its end"""

    def __init__(self, it, node, lid, base, head, end, flow, changed, events):
        self.it, self.node, self.lid = it, node, lid
        self.base, self.head, self.end, self.flow = base, head, end, flow
        self.changed, self.events = changed, events
        f = it.callstack[-1] if it.callstack else None
        self.func = f.qual if f else '?'
        self.path = f.module.path if f else '?'
        self.outer = it.loops


def mentions_loop(t, lid):
    for x in walk(t):
        if x == ('k', lid) or x[0] == 'phi' and x[1] == lid:
            return True
    return False


def range_trip(it):
    if it[0] == 'app' and it[1] == 'range':
        a = it[2:]
        if len(a) == 1:
            return a[0]
        if len(a) == 2 or (len(a) == 3 and a[2] == const(1)):
            d = sub(a[1], a[0])
            return d
        if len(a) == 3 and is_int_const(a[2]) and a[2][2] > 0:
            return None
    return None


import builtins as _b
BUILTINS = set(dir(_b)) | {'unicode', 'long', 'basestring', 'WindowsError'}
BUILTINS -= {'unicode', 'long', 'basestring'}
EXC_NAMES = {n for n in dir(_b) if isinstance(getattr(_b, n), type) and issubclass(getattr(_b, n), BaseException)}
PURE_EXT = {'repr', 'ascii', 'hex', 'oct', 'hash', 'id', 'any', 'all', 'callable', 'filter', 'slice', 'math.floor'}


# ------------------------------------------------------------------- program

class Program(object):
    def __init__(self, root='/repo', package='xlrd', extra=()):
        self.root = root
        self.modpaths = {}
        self.packages = {package}
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.heap = {}
        self.errors = []
        self._globals_cache = {}
        self._gen_cache = {}
        self._inst_attrs = None
        pdir = os.path.join(root, package)
        for fn in sorted(os.listdir(pdir)):
            if fn.endswith('.py'):
                name = package if fn == '__init__.py' else package + '.' + fn[:-3]
                self.modpaths[name] = os.path.join(pdir, fn)
        for name, path in extra:
            self.modpaths[name] = path
        self.loading = []
        for name in list(self.modpaths):
            self.parse(name)
        self.interp = Interp(self)
        self.interp.next_id = [0]      # objects of modules never share a number with objects of a run
        self.interp.frame_chain = []
        self.interp.frame_parent = {}
        self.interp.undefined = set()
        self.loaded = set()
        for name in list(self.modpaths):
            self.load(name)
        self.undefined_at_load = set(self.interp.undefined)

    def parse(self, name):
        path = self.modpaths[name]
        with open(path, 'rb') as f:
            src = f.read()
        tree = ast.parse(src, path)
        self.modules[name] = Module(name, os.path.relpath(path, self.root), tree, src)

    def load(self, name):
        m = self.modules[name]
        if name in self.loaded:
            return m
        self.loaded.add(name)
        parent = name.rsplit('.', 1)[0]
        it = self.interp
        saved = (it.callstack, it.frame_chain, it._mod, it.cur_class)
        modf = Func(m.tree, m, None, name, [], [], None)
        st = State()
        it.next_frame[0] += 1
        fid = it.next_frame[0]
        st.frames[fid] = m.env
        it.frame_parent[fid] = None
        it.callstack = [modf]
        it.frame_chain = [fid]
        it.cur_class = None
        flow = it.exec_block(m.tree.body, st)
        it.callstack, it.frame_chain, it._mod, it.cur_class = saved
        end = flow.normal
        if end is None:
            self.errors.append('module %s did not finish' % name)
            end = st
        env = end.frames.get(fid, {})
        m.env.update(env)
        for hid, h in end.heap.items():
            self.heap[hid] = h
        return m

    def mro(self, cls, seen=None):
        out = [cls]
        c = self.classes.get(cls)
        if c:
            for b in c['bases']:
                for x in self.mro(b):
                    if x not in out:
                        out.append(x)
        return out

    def is_exception(self, cls):
        for c in self.mro(cls):
            if c.startswith('ext:') and c.split('.')[-1] in EXC_NAMES:
                return True
        return False

    def globals_of(self, node):
        g = self._globals_cache.get(id(node))
        if g is None:
            g = set()
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for n in ast.walk(node):
                    if isinstance(n, ast.Global):
                        g |= set(n.names)
            self._globals_cache[id(node)] = g
        return g

    def is_generator(self, node):
        r = self._gen_cache.get(id(node))
        if r is None:
            r = False
            stack = list(node.body) if isinstance(node.body, list) else []
            while stack:
                n = stack.pop()
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                    continue
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                    break
                stack.extend(ast.iter_child_nodes(n))
            self._gen_cache[id(node)] = r
        return r

    def class_attr_never_instance(self, cls, attr):
        """Class-level constants (never assigned on an instance anywhere)."""
        if self._inst_attrs is None:
            s = set()
            for m in self.modules.values():
                for n in ast.walk(m.tree):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)):
                        s.add(n.attr)
            self._inst_attrs = s
        return False

    def func(self, dotted):
        """('func', ...) term of module.func or module.Class.method; None if missing."""
        parts = dotted.split('.')
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                cur = self.modules[mn].env.get(parts[i]) if i < len(parts) else ('mod', mn)
                for p in parts[i + 1:]:
                    if cur is None:
                        return None
                    if cur[0] == 'class':
                        v = None
                        for c in self.mro(cur[1]):
                            h = self.heap.get('class:' + c)
                            if h is not None and p in h.attrs:
                                v = h.attrs[p]
                                break
                        cur = v
                    else:
                        return None
                return cur
        return None

    def value(self, dotted):
        return self.func(dotted)

    def const_table(self, dotted):
        """Plain-Python rendering of a module-level constant (dict/list/tuple/const) or None."""
        v = self.func(dotted)
        return self.plain(v) if v is not None else None

    def plain(self, v):
        if v[0] == 'c':
            return v[2]
        if v[0] == 'tuple':
            return tuple(self.plain(x) for x in v[1])
        if v[0] == 'ref':
            h = self.heap.get(v[1])
            if h is None or h.items is None:
                return None
            if h.kind == 'dict':
                return {self.plain(k): self.plain(x) for k, x in h.items}
            if h.kind == 'list':
                return [self.plain(x) for x in h.items]
            if h.kind == 'set':
                return {self.plain(x) for x in h.items}
        return v
