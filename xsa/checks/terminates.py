"""C27 every loop and every recursion makes progress or stops."""
import random
import struct
import sys
from .common import *
from .. import sweep
from ..intervals import Box, ival, assume
from ..terms import walk as tw
from . import compdoc, strings

LEAF_LIMIT = 3000


def has_top(t):
    return any(x[0] == 'top' for x in tw(t))


def split(t):
    """one level of alternatives of a term with the conditions that choose them; None when there is no choice in it"""
    if t[0] == 'app' and t[1] == 'ite':
        return [(t[3], ((t[2], True),)), (t[4], ((t[2], False),))]
    if t[0] == 'app' and t[1] in ('min', 'max') and len(t) == 4:
        a, b = t[2], t[3]
        if to_lin(a) is None or to_lin(b) is None:
            return None
        lt = ('app', 'lt0', sub(a, b))
        first, second = (a, b) if t[1] == 'min' else (b, a)
        return [(first, ((lt, True),)), (second, ((lt, False),))]
    a = alternatives(t)
    if len(a) > 1:
        return [(x, ()) for x in a]
    if t[0] == 'lin':
        for at, k in t[2]:
            p = split(at) if at[0] != 'lin' else None
            if p:
                rest = sub(t, scale(at, k))
                return [(add(rest, scale(y, k)), cs) for y, cs in p]
    return None


def literals(conds):
    out = []
    for g in conds:
        c, pol = g[0], g[1]
        while c[0] == 'app' and c[1] in ('not', 'truth', 'bool') and c[2][0] == 'app' and c[2][1] in (
                'not', 'and', 'or', 'lt0', 'eq0', 'truth', 'bool'):
            if c[1] == 'not':
                pol = not pol
            c = c[2]
        if c[0] == 'app' and c[1] == 'not':
            c, pol = c[2], not pol
        if c[0] == 'app' and (c[1] == 'and' and pol or c[1] == 'or' and not pol):
            out += literals([(x, pol) for x in c[2:]])
        else:
            out.append((c, pol))
    return out


def lower(d, lits):
    """a lower bound of the integer d under the literals"""
    box = Box()
    for c, pol in lits:
        try:
            b = assume(c, pol, box)
        except Exception:
            b = box
        if b is None:
            return INF                  # not a possible path
        box = b
    v = ival(d, box)
    lo = v[1] if v and v[0] == 'i' else -INF
    for c, pol in lits:
        if c[0] == 'app' and c[1] == 'lt0' and to_lin(c[2]) is not None and to_lin(d) is not None:
            if pol:                     # c[2] <= -1
                r = add(d, c[2])
                if is_int_const(r):
                    lo = max(lo, r[2] + 1)
            else:
                r = sub(d, c[2])
                if is_int_const(r):
                    lo = max(lo, r[2])
        elif c[0] == 'app' and c[1] == 'truth' and pol is True and c[2] == d and v and v[1] >= 0:
            lo = max(lo, 1)
        elif c[0] == 'app' and c[1] == 'eq0' and pol is False and v and v[1] >= 0 and (c[2] == d or c[2] == scale(d, -1)):
            lo = max(lo, 1)
    return lo


class Loop(object):
    def __init__(self, r):
        self.r = r
        self.it = r.it
        self.lid = r.lid
        self.n0 = len(r.base.guards)
        self.conts = self.guards_of(r.end) if r.end is not None else ()
        self.vars = {}
        for loc in r.changed:
            if loc[0] == 'i':
                continue
            h, e, b = (self.it.loc_get(st, loc) for st in (r.head, r.end, r.base)) if r.end is not None else (None, None, None)
            if h is not None:
                self.vars[loc] = (b, h, e)
        self.inside = [e for e in r.events if len(e.loops) > len(r.outer) or e.kind in ('return', 'raise')]
        self.exits = [e for e in self.inside if e.kind in ('raise', 'implicit_raise', 'keyerror', 'badunpack', 'badcall', 'typeerror')
                      or e.kind == 'return' and e.func == r.func and not self.deeper(e)]
        self.where = '%s:%d in %s' % (r.path, r.node.lineno, r.func.replace('xlrd.', '', 1))
        self.obs = self.observed()

    def deeper(self, e):
        return False

    def guards_of(self, x):
        return tuple(x.guards[self.n0:])

    def mine(self, t):
        """head values of this loop's variables inside a term"""
        out = set()
        for x in tw(t):
            if x[0] == 'phi' and x[1] == self.lid or x == ('k', self.lid):
                out.add(x)
        return out

    def observed(self):
        """variables some exit depends on"""
        o = set()
        gs = list(self.conts)
        for b in self.r.flow.brks + self.r.flow.rets:
            st = b[0] if isinstance(b, tuple) else b
            gs += self.guards_of(st) if hasattr(st, 'guards') else []
        for e in self.exits:
            gs += list(e.guards[self.n0:])
        for g in gs:
            o |= self.mine(g[0])
        for e in self.r.events:
            if e.kind in ('unpack', 'load', 'slice', 'item'):
                for d in e.data:
                    if isinstance(d, tuple):
                        o |= self.mine(d)
        # reads of memory at a variable position fail past its end
        for b, h, e in self.vars.values():
            if isinstance(e, tuple):
                for x in tw(e):
                    if x[0] in ('u', 's', 'd'):
                        for at, k in x[2]:
                            o |= self.mine(at)
        while True:
            n = len(o)
            for b, h, e in self.vars.values():
                if isinstance(e, tuple) and isinstance(h, tuple) and self.mine(h) & o:
                    o |= self.mine(e)
            if len(o) == n:
                return o

    def measure(self, proven=None):
        """a quantity that strictly grows or shrinks with every iteration and that an exit depends on"""
        lits0 = literals(self.conts)
        self.moves = {}
        found = None
        for loc in sorted(self.vars, key=lambda x: (str(x[0]), str(x[-1]))):
            b, h, e = self.vars[loc]
            if not isinstance(h, tuple) or not isinstance(e, tuple) or to_lin(h) is None:
                continue
            for sign, word in ((1, 'grows'), (-1, 'shrinks')):
                if self.prove(e, h, sign, lits0, proven or {}, [LEAF_LIMIT]):
                    self.moves[loc[2]] = word
                    if found is None and self.mine(h) & self.obs:
                        found = loc[2], word
        return found

    def prove(self, e, h, sign, lits, proven, left):
        """sign * (e - h) >= 1 for every alternative of e"""
        left[0] -= 1
        if left[0] < 0:
            return False
        if to_lin(e) is None:
            parts = split(e)
            return bool(parts) and all(self.prove(x, h, sign, lits + literals(cs), proven, left) for x, cs in parts)
        if e[0] == 'top':
            return False
        e2 = e
        if sign == 1:
            # what an inner loop leaves behind is not below what it started with
            for _ in range(6):
                hit = False
                for at, k in (e2[2] if e2[0] == 'lin' else ((e2, 1),)):
                    if at[0] == 'phi' and k == 1 and proven.get((at[1], at[2])) == 'grows':
                        init = self.it.phis.get((at[1], at[2]), (None,))[0]
                        if init is None:
                            init = ('phi', self.lid, at[2])        # untouched so far in this iteration
                        if to_lin(init) is not None:
                            e2 = add(sub(e2, at), init)
                            hit = True
                            break
                if not hit:
                    break
        d = scale(sub(e2, h), sign)
        if lower(d, lits) >= 1:
            return True
        parts = split(e2)
        if parts is None:
            return False
        return all(self.prove(x, h, sign, lits + literals(cs), proven, left) for x, cs in parts)

    def shrinking(self):
        """a container the condition looks at loses an element with every iteration"""
        test = set(ast.unparse(x) for x in ast.walk(self.r.node.test) if isinstance(x, (ast.Name, ast.Attribute)))
        for e in self.inside:
            n = e.node
            if e.kind == 'delitem' and len(e.guards) <= len(self.r.end.guards):
                return True
            if e.kind in ('container', 'mcall') and e.data[1] == const('pop') and len(e.guards) <= len(self.r.end.guards):
                return True
        for s in self.r.node.body:
            if isinstance(s, ast.Delete) and any(isinstance(t, ast.Subscript) and ast.unparse(t.value) in test for t in s.targets):
                return True
            for x in ast.walk(s) if isinstance(s, (ast.Expr, ast.Assign)) else ():
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'popleft') and ast.unparse(x.func.value) in test:
                    return True
        return False

    # ---- refutation -------------------------------------------------------------------------------------

    def pool(self):
        p = {0, 1, 2, 3, 4}
        for g in list(self.conts) + [g for e in self.exits for g in e.guards[self.n0:]]:
            for x in tw(g[0]):
                if x[0] == 'lin' and isinstance(x[1], int):
                    p |= {x[1], -x[1]}
                elif x[0] == 'c' and isinstance(x[2], int):
                    p.add(x[2])
        for b, h, e in self.vars.values():
            if isinstance(e, tuple):
                for x in tw(e):
                    if x[0] == 'lin' and isinstance(x[1], int):
                        p |= {x[1], -x[1]}
                    elif x[0] == 'c' and isinstance(x[2], int):
                        p.add(x[2])
        return sorted(v for v in p if abs(v) < 1 << 33)

    def standstill(self, tries=60000, steps=4, seed=7):
        """a history from the loop's entry that comes back to the same values of everything the exits depend on"""
        obs = {}
        for loc, (b, h, e) in self.vars.items():
            if not isinstance(h, tuple):
                return None
            if not isinstance(e, tuple):
                e = TOP
            if self.mine(h) & self.obs:
                if b is None and loc[0] == 'a':
                    b = ('sym', '%s.%s' % (loc[1], loc[2])) if loc[2] != '_position' else ('init', 'book', '_position')
                obs[loc] = (b if isinstance(b, tuple) else TOP, h, e)
        ks = [h for b, h, e in obs.values() if ('k', self.lid) in self.mine(h)]
        if ks:
            return None
        if any(e.kind in ('setitem', 'setslice', 'delitem') for e in self.inside):
            return None             # tables change: another rule
        if any(len(e.loops) > len(self.r.outer) + 1 for e in self.exits):
            return None
        if not self.conts and not isinstance(self.r.node.test, ast.Constant):
            return None
        rnd = random.Random(seed)
        pool = self.pool()
        for _ in range(tries):
            w = World(rnd, pool, self.it.symkinds)
            try:
                if not all(E.truth(g[0], w.env()) == g[1] for g in self.r.base.guards if not isinstance(g[0], str)):
                    continue
                # a variable whose value cannot be folded is left out: whatever looks at it is then not folded either
                state = self.known({h: b for b, h, e in obs.values()}, w.env())
                for k in range(steps):
                    env = w.env(state)
                    if not all(E.truth(g[0], env) == g[1] for g in self.conts):
                        break
                    if not all(any(self.false(g, env) for g in e.guards[self.n0:]) for e in self.exits):
                        break
                    new = self.known({h: e for b, h, e in obs.values()}, env)
                    if new == state and (new or not obs):
                        return k, {h[2]: v for h, v in state.items()}, w
                    state = new
            except (E.Undef, E.Raised, TypeError, OverflowError):
                continue
        return None

    @staticmethod
    def known(terms, env):
        out = {}
        for h, t in terms.items():
            try:
                v = E.ev(t, env) if not has_top(t) else ("top",)
            except (E.Undef, E.Raised, TypeError, OverflowError):
                continue
            if isinstance(v, (int, bytes, type(None))):
                out[h] = v
        return out

    @staticmethod
    def false(g, env):
        try:
            return E.truth(g[0], env) != g[1]
        except (E.Undef, E.Raised, TypeError):
            return False


class World(object):
    """lazily chosen contents of the memories a loop reads"""

    def __init__(self, rnd, pool, kinds):
        self.rnd, self.pool, self.kinds = rnd, pool, kinds
        self.bytes = {}
        self.ints = {}

    def env(self, state=None):
        e = E.Env()
        e.extra = Dyn(self, e, state or {})
        e.noexc = True
        return e

    def pick(self, width):
        v = self.rnd.choice(self.pool) if self.rnd.random() < .85 else self.rnd.getrandbits(width)
        return v & ((1 << width) - 1)


class Dyn(dict):
    def __init__(self, world, env, state):
        dict.__init__(self, state)
        self.world, self.env = world, env

    def __bool__(self):
        return True

    def lazy(self, base):
        """a memory without given contents"""
        if dict.__contains__(self, base):
            return not isinstance(dict.__getitem__(self, base), (bytes, str))
        if base[0] == 'sym':
            return self.world.kinds.get(base[1]) not in ('bytes', 'str')
        return base[0] in ('init', 'phi')

    def __contains__(self, t):
        if dict.__contains__(self, t):
            return True
        if t[0] in ('u', 's'):
            return self.lazy(t[1])
        if t[0] == 'sym' or t[0] == 'init':
            return True
        if t[0] == 'phi' and t[2] == '_position':
            return True                 # the stream position when a surrounding loop is at some record
        return t[0] == 'app' and t[1] == 'len' and t[2][0] in ('sym', 'init') and self.lazy(t[2])

    def __getitem__(self, t):
        if dict.__contains__(self, t):
            return dict.__getitem__(self, t)
        w = self.world
        if t[0] in ('u', 's'):
            off = 0
            for a, k in t[2]:
                off += k * E.ev(a, self.env)
            bit, width = t[3] + 8 * off, t[4]
            if bit < 0:
                raise E.Raised
            mem = w.bytes.setdefault(t[1], {})
            v = w.pick(width)
            r = 0
            for i in range(width):
                by = mem.setdefault(bit + i, (v >> i) & 1)
                r |= by << i
            if t[0] == 's' and r >> (width - 1):
                r -= 1 << width
            return r
        if t not in w.ints:
            if t[0] == 'app':
                w.ints[t] = w.rnd.choice((8, 20, 64, 512, 8192, 100000))
            elif t[0] == 'phi':
                w.ints[t] = 4 * w.rnd.randrange(100)
            elif t[0] == 'sym' and not self.lazy(t):
                n = w.rnd.choice((1, 3, 8, 15, 30))
                b = b''.join(struct.pack('<H', w.pick(16)) for _ in range(n)) + b'AB'[:w.rnd.randrange(2)]
                w.ints[t] = b if w.kinds.get(t[1]) == 'bytes' else 'cp1252'
            else:
                w.ints[t] = w.rnd.choice(w.pool)
        return w.ints[t]


HOOKED = sweep.BIG


def run_function(prog, q, bv, verbosity=0):
    s = Setup(prog, bv, fmt=1, verbosity=verbosity)
    s.it.loop_log = []
    s.it.load_events = True
    s.budget = 60000
    f = s.it.func_info(prog.func(q))
    args = []
    a = f.node.args
    for i, p in enumerate(a.args):
        d = len(a.args) - i
        if i == 0 and f.cls:
            args.append(s.book if f.cls == 'xlrd.book.Book' else s.sheet if f.cls == 'xlrd.sheet.Sheet' else s.it.new_opaque(s.st, f.cls, 'self'))
        elif p.arg in ('book', 'bk', 'wkbook', 'wb'):
            args.append(s.book)
        elif p.arg in ('biff_version', 'bv'):
            args.append(const(bv))
        elif d <= len(a.defaults) and p.arg in ('blah', 'verbosity'):
            break
        else:
            if p.arg in ('data', 'mem', 'filestr', 'strg'):
                s.it.symkinds[p.arg] = 'bytes'
            elif p.arg in ('colx', 'rowx', 'pos', 'ofs', 'dlen', 'stream_offset', 'stream_len', 'base', 'start_sid', 'sec_size', 'size'):
                s.it.symkinds[p.arg] = 'int'
            args.append(('sym', p.arg))
    for h in HOOKED:
        if h != q:
            s.it.hooks[h] = lambda *x: NONE
    try:
        s.run(q, args, budget=s.budget)
    except Unsupported:
        pass
    return s


def with_while(prog):
    out = []
    for q in sorted(prog.funcs):
        n = prog.funcs[q].node
        own = []
        st = list(n.body) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) else []
        while st:
            x = st.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, ast.While):
                own.append(x)
            st += list(ast.iter_child_nodes(x))
        if own:
            out.append((prog.funcs[q].qual, own))
    return out


def C27(c):
    """Every while loop of the package is summarised by one abstract iteration. It is discharged by a quantity an exit depends on that
    strictly grows or shrinks on every way back to the head (a read position, a count, a container that loses an element, a table of
    marks). It is reported when the extracted transfer function of the loop has a reachable fixed point: values of the input for which
    an iteration comes back to the head with everything the exits depend on unchanged."""
    R = 'loops'
    c.rule(R, 'every iteration of a while loop makes progress towards an exit or leaves the loop')
    c.guard(R, loops, c, R)
    R = 'records'
    c.rule(R, 'reading a record always moves the stream position forward')
    c.guard(R, records, c, R)
    c.guard(R, moves, c, R)
    R = 'strings'
    c.rule(R, 'reading a string never moves the read position backwards')
    c.guard(R, string_positions, c, R)
    c.guard(R, shared_positions, c, R)
    R = 'tokens'
    c.rule(R, 'walking a formula moves forward with every token of every version')
    c.guard(R, tokens, c, R)
    R = 'chains'
    c.rule(R, 'a sector chain or directory that comes back to a sector or entry already met stops with an error')
    c.guard(R, chains, c, R)
    R = 'recursion'
    c.rule(R, 'nested evaluation of defined names is bounded')
    c.guard(R, recursion, c, R)


def loops(c, R):
    all_ = with_while(c.prog)
    state = {}              # (path, line) -> list of outcomes
    info = {}
    skip = set(HOOKED[2:])
    for q, own in all_:
        f = c.prog.func(q)
        path = getattr(getattr(f, 'module', None), 'path', None) or 'xlrd/%s.py' % q.split('.')[1]
        for n in own:
            info[n] = (q, '%s:%d' % (path, n.lineno))
    for q, own in all_:
        if q in skip:
            continue
        for bv in (80, 50):
            s = run_function(c.prog, q, bv)
            proven = {}
            for r in s.it.loop_log:
                if r.node in info:
                    judge(c, R, r, state, proven)
            for f, n, sig in s.it.stuck:
                if n in info:
                    state.setdefault(n, []).append(('bad', 'the loop never leaves %s' % dict(sig), ''))
    for n, (q, at) in sorted(info.items(), key=lambda x: x[1][1]):
        res = state.get(n, [])
        name = '%s in %s' % (at, q.replace('xlrd.', '', 1))
        bad = [x for x in res if x[0] == 'bad']
        if idle(n):
            bad.append(('bad', 'nothing in the body can end the loop once it is entered'))
        good = [x for x in res if x[0] == 'ok']
        if bad:
            c.bad(R, name, bad[0][1], key='%s|%s|%s' % (R, q, ast.unparse(n.test)))
        elif good and len(good) == len(res):
            c.ok(R, sample='%s: %s' % (name, good[0][1]))
        elif q in skip:
            c.ok(R, sample='%s: see rule tokens' % name)
        elif q.split('.')[-1] in ('_get_stream', '_locate_stream', '__init__') and q.startswith('xlrd.compdoc.'):
            c.ok(R, sample='%s: see rule chains' % name)
        else:
            c.open(R, '%s: %s' % (name, [x for x in res if x[0] == 'open'][:1] or 'not reached'))


def idle(n):
    """a body without assignments, deletions, calls and exits"""
    if isinstance(n.test, ast.Constant) and not n.test.value:
        return False
    if any(isinstance(x, (ast.Call, ast.NamedExpr)) for x in ast.walk(n.test)):
        return False
    return not any(isinstance(x, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.Delete, ast.Call, ast.Return, ast.Break,
                                  ast.Raise, ast.Assert, ast.Yield, ast.YieldFrom, ast.For, ast.With, ast.Await))
                   for s in n.body for x in ast.walk(s))


def judge(c, R, r, state, proven):
    o = state.setdefault(r.node, [])
    if r.end is None:
        o.append(('ok', 'at most one iteration'))
        return
    l = Loop(r)
    m = l.measure(proven)
    for name, word in l.moves.items():
        proven[(r.lid, name)] = word
    if m:
        o.append(('ok', '%s %s' % m))
        return
    if l.shrinking():
        o.append(('ok', 'a container shrinks'))
        return
    m = l.marks()
    if m:
        o.append(('ok', m))
        return
    w = l.standstill()
    if w:
        k, st, world = w
        o.append(('bad', 'iteration %d comes back with everything its exits depend on unchanged (%s)' % (
            k + 1, ', '.join('%s=%s' % x for x in sorted(st.items())[:6]) or 'no exit depends on what it changes')))
        return
    o.append(('open', 'observed %s' % sorted(brief(x, 30) for x in l.obs)[:6]))


def records(c, R):
    """the record readers, on complete headers of every length"""
    for name, args in (('get_record_parts', []), ('get_record_parts_conditional', [const(0x3C)])):
        q = 'xlrd.book.Book.' + name
        if c.prog.func(q) is None:
            c.open(R, name + ' was not found')
            continue
        s = Setup(c.prog, 80)
        s.run(q, [s.book] + args)
        f = s.it.func_info(c.prog.func(q))
        at = '%s:%d in Book.%s' % (f.module.path, f.node.lineno, name)
        h = s.it.hget(s.st, s.book[1])
        new = h.attrs.get('_position')
        if new is None or not isinstance(s.value, tuple):
            c.open(R, name + ': position')
            continue
        for code in (0x3C, 0x0A, 0x201, 0x809, 0, 0xFFFF):
            for length in (0, 1, 3, 0x7FFF, 0x8000, 0xFFFC, 0xFFFF):
                for pos in (0, 64):
                    mem = bytes(pos) + struct.pack('<HH', code, length) + bytes(70000)
                    env = E.Env({}, {('book', 'mem'): mem, ('book', 'filestr'): mem, ('book', '_position'): pos, ('book', 'base'): 0,
                                     ('book', 'stream_len'): len(mem)})
                    env.noexc = True
                    lab = '%s: record 0x%04X of %d bytes at %d' % (name, code, length, pos)
                    try:
                        v = E.ev(s.value, env)
                        p2 = E.ev(new, env)
                    except E.Raised:
                        c.ok(R)
                        continue
                    except E.Undef:
                        c.open(R, lab)
                        continue
                    if isinstance(v, tuple) and v and v[0] is not None and isinstance(p2, int) and p2 <= pos:
                        c.bad(R, at, '%s is delivered but the position moves to %d' % (lab, p2), key='%s|%s' % (R, name))
                    else:
                        c.ok(R, sample=lab + ' moves to %s' % (p2,))


def moves(c, R):
    """record handlers that place the stream position themselves: never back to the record being handled"""
    pos = ('init', 'book', '_position')
    for q in sorted(c.prog.funcs):
        q = c.prog.funcs[q].qual
        if not q.startswith('xlrd.book.Book.handle_'):
            continue
        for bv in (45, 80):
            s = Setup(c.prog, bv)
            f = s.it.func_info(c.prog.func(q))
            names = [a.arg for a in f.node.args.args]
            args = [s.book] + [('sym', n) for n in names[1:len(names) - len(f.node.args.defaults)]]
            for h in ('xlrd.book.Book.get_sheet', 'xlrd.book.Book.get_record_parts', 'xlrd.book.Book.get_record_parts_conditional', 'xlrd.sheet.Sheet.read'):
                if h != q:
                    s.it.hooks[h] = lambda *a: TOP
            try:
                s.run(q, args, budget=60000)
            except Unsupported:
                pass
            for e in s.it.events:
                if e.kind != 'setattr' or e.data[0] != s.book or e.data[1] != '_position':
                    continue
                v = e.data[2]
                if not any(x == pos for x in tw(v)):
                    c.open(R, '%s sets the position to %s' % (q.replace('xlrd.book.', ''), brief(v, 60)))
                    continue
                n = 0
                for size in (8, 12, 24):
                    for b in ((-4 - size) & 0xFFFFFFFF, 0xFFFFFFFF, 0x80000000, 0):
                        d = struct.pack('<I', b) + bytes(size - 4)
                        env = E.Env({'data': d, 'data_len': size}, {('book', '_position'): 1000})
                        try:
                            got = E.ev(v, env)
                        except (E.Undef, E.Raised):
                            continue
                        n += 1
                        if isinstance(got, int) and got <= 1000 - 4 - size:
                            c.bad(R, e.where(), 'the record at %d with data %s sets the stream position to %d: it is read for ever' % (
                                1000 - 4 - size, d.hex(), got), key='%s|position|%s' % (R, q))
                if n:
                    c.ok(R, n, sample='%s places the position after its record' % q.replace('xlrd.book.', ''))
                else:
                    c.open(R, '%s sets the position to %s' % (q.replace('xlrd.book.', ''), brief(v, 60)))


def string_positions(c, R):
    for name, uni in (('unpack_unicode_update_pos', True), ('unpack_string_update_pos', False)):
        q = strings.BIFFH + name
        if c.prog.func(q) is None:
            c.open(R, name + ' was not found')
            continue
        for lenlen in (1, 2):
            s = Setup(c.prog, 80)
            s.it.symkinds.update({'data': 'bytes', 'pos': 'int', 'enc': 'str'})
            s.run(q, [('sym', 'data'), ('sym', 'pos')] + ([] if uni else [('sym', 'enc')]), {'lenlen': const(lenlen)})
            f = s.it.func_info(c.prog.func(q))
            at = '%s:%d in %s' % (f.module.path, f.node.lineno, name)
            for n in (0, 2):
                for opt in ((0, 1, 4, 5, 8, 12, 13) if uni else (0,)):
                    for big in (0, 5, 0x7FFFFFFF, 0x80000000, 0xFFFFFFF0, 0xFFFFFFFF):
                        d = bytes(3) + struct.pack('<' + 'BH'[lenlen - 1], n) + bytes([opt])
                        d += (struct.pack('<H', big & 0xFFFF) if opt & 8 else b'') + (struct.pack('<I', big) if opt & 4 else b'') + b'A\0' * 12
                        lab = '%s: %d characters, options %02Xh, sizes %X' % (name, n, opt, big)
                        try:
                            v = strings.result(s, E.Env({'data': d, 'pos': 3, 'enc': strings.ENC}, {}, {}, {}))
                        except E.Undef:
                            c.open(R, lab)
                            continue
                        if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], int) and v[1] <= 3:
                            c.bad(R, at, '%s: reading at position 3 leaves the position at %d' % (lab, v[1]), key='%s|%s' % (R, name))
                        else:
                            c.ok(R, sample=lab)


def shared_positions(c, R):
    """a huge phonetic size must not lead back to earlier text"""
    q = 'xlrd.book.unpack_SST_table'
    if c.prog.func(q) is None:
        c.open(R, 'unpack_SST_table was not found')
        return
    first = struct.pack('<iiHB', 2, 2, 1, 4)
    for back in (8, 15, 4):
        d = first + struct.pack('<i', -back) + b'A' + struct.pack('<HB', 1, 0) + b'B' * 12
        s = Setup(c.prog, 80)
        s.it.unroll = strings.Everywhere(8)
        tab = s.it.alloc(s.st, HObj('list', items=(const(d),)))
        s.run(q, [tab, const(2)])
        f = s.it.func_info(c.prog.func(q))
        at = '%s:%d in unpack_SST_table' % (f.module.path, f.node.lineno)
        try:
            v = strings.sst_value(s, E.Env())
        except E.Undef:
            c.open(R, 'phonetic size %d' % -back)
            continue
        if isinstance(v, tuple) and len(v[0]) == 2:
            c.bad(R, at, 'a phonetic size of %08Xh leads back to text already read (%r)' % (2 ** 32 - back, v[0]), key=R + '|shared')
        else:
            c.ok(R, sample='phonetic size %08Xh: %r' % (2 ** 32 - back, v))


WALKERS = ('evaluate_name_formula', 'decompile_formula', 'dump_formula')


def token_job(prog, fn, bv, op):
    out = []
    for prefix in (b'\x16' * 6,):
        s = Setup(prog, bv, verbosity=0, maxsize=3000)
        s.it.loop_log = []
        fm = ('app', 'cat', const(prefix + bytes([op])), sweep.sl_(0, 40))
        n = 7
        s.it.hooks['xlrd.formula.evaluate_name_formula'] = lambda *a: NONE if a[5] is not None else None      # nested names: rule recursion
        try:
            if fn == 'evaluate_name_formula':
                nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=fm, basic_formula_len=const(n))
                s.run('xlrd.formula.' + fn, [s.book, nobj, const(0), const(0)], budget=30000)
            elif fn == 'decompile_formula':
                s.run('xlrd.formula.' + fn, [s.book, fm, const(n)], {'fmlatype': const(1), 'browx': const(10), 'bcolx': const(5), 'blah': const(0)}, budget=30000)
            else:
                s.run('xlrd.formula.' + fn, [s.book, fm, const(n), const(bv), const(0)], {'blah': const(0)}, budget=30000)
        except LookupError:
            continue
        except Unsupported:
            pass
        q = 'xlrd.formula.' + fn
        own = set(x for y, ns in with_while(prog) if y == q for x in ns)
        stuck = [(n2.lineno, sig) for f, n2, sig in s.it.stuck if n2 in own]
        mo = []
        for r in s.it.loop_log:
            if r.node in own and r.end is not None:
                l = Loop(r)
                mo.append(bool(l.measure()))
        out.append((fn, bv, op, stuck, mo))
    return out


def _tokens(args):
    sys.setrecursionlimit(20000)
    try:
        return token_job(_PROG[0], *args)
    except Exception as e:
        return [(args[0], args[1], args[2], None, '%s %s' % (type(e).__name__, str(e)[:80]))]


_PROG = [None]


def tokens(c, R):
    _PROG[0] = c.prog
    js = [(fn, bv, op) for fn in WALKERS for bv in ((20, 21, 30, 40, 45, 50, 70, 80) if fn != 'dump_formula' else (80,))
          for op in list(range(0x40)) + [0x44, 0x61, 0x43, 0x79]]
    import multiprocessing
    with multiprocessing.get_context('fork').Pool(8) as pool:
        res = pool.map(_tokens, js, 8)
    names = {}
    for lst in res:
        for fn, bv, op, stuck, mo in lst:
            f = c.prog.func('xlrd.formula.' + fn)
            if stuck is None:
                c.open(R, '%s, BIFF %d, token 0x%02X: %s' % (fn, bv, op, mo))
            elif stuck:
                c.bad(R, 'xlrd/formula.py:%d in %s' % (stuck[0][0], fn),
                      'BIFF %d, token 0x%02X: the walk returns to where it was (%s)' % (bv, op, ', '.join('%s=%s' % (k, v[2]) for k, v in stuck[0][1])),
                      key='%s|%s' % (R, fn))
            elif mo and not all(mo):
                c.open(R, '%s, BIFF %d, token 0x%02X: size not bounded' % (fn, bv, op))
            else:
                c.ok(R, sample='%s, BIFF %d, token 0x%02X' % (fn, bv, op))
    c.count('token_walks', sum(len(x) for x in res))


class Chains(object):
    """the part of the sector-chain rules that is about coming back to something already met"""
    WORDS = ('already', 'marked', 'used again', 'goes on', 'longer than its table', '4th sector', 'met once', 'is followed', 'too long')

    def __init__(self, c, R):
        self.c, self.R = c, R
        self.prog = c.prog
        self.repo = c.repo

    def rule(self, *a):
        pass

    def hit(self, text):
        return any(w in text for w in self.WORDS)

    def ok(self, rule, n=1, sample=None):
        if sample is None or self.hit(sample):
            self.c.ok(self.R, n, sample)

    def open(self, rule, what, n=1):
        if self.hit(what):
            self.c.open(self.R, what, n)

    def bad(self, rule, where, message, key=None):
        if self.hit(message):
            self.c.bad(self.R, where, message, key='%s|%s' % (self.R, key or message))

    def count(self, *a):
        pass

    def guard(self, rule, fn, *args):
        return self.c.guard(rule, fn, *args)


def chains(c, R):
    p = Chains(c, R)
    c.guard(R, compdoc.c28_init, p, R)
    c.guard(R, compdoc.c28_walk, p, R)
    c.guard(R, compdoc.c28_tree, p, R)


def recursion(c, R):
    """a name evaluated while another name is evaluated is one level deeper, and too many levels are an error"""
    q = 'xlrd.formula.evaluate_name_formula'
    fn = c.prog.func(q)
    if fn is None:
        c.open(R, 'evaluate_name_formula was not found')
        return
    node0 = Setup(c.prog).it.func_info(fn).node
    params = [a.arg for a in node0.args.args]
    if 'level' not in params:
        c.open(R, 'no level parameter')
        return
    calls = {}
    for bv in (50, 70, 80):
        for op in (0x23, 0x43, 0x39, 0x59):
            s = Setup(c.prog, bv, maxsize=3000)
            seen = []

            def nested(it, st, f, args, kwargs, node, seen=seen):
                if node is None:
                    return None
                d = dict(zip(params, args))
                d.update(kwargs)
                seen.append((node, d.get('level', const(0))))
                return NONE
            s.it.hooks[q] = nested
            s.it.symkinds['level'] = 'int'
            fm = ('app', 'cat', const(bytes([op])), sweep.sl_(0, 40))
            nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=fm, basic_formula_len=const(1))
            try:
                s.run(q, [s.book, nobj, const(0)], {'blah': const(0), 'level': ('sym', 'level')}, budget=60000)
            except Unsupported:
                pass
            for node, lv in seen:
                calls.setdefault(node, []).append(lv)
    c.count('nested_calls', len(calls))
    for node, lvs in sorted(calls.items(), key=lambda x: x[0].lineno):
        at = 'xlrd/formula.py:%d in evaluate_name_formula' % node.lineno
        for lv in lvs:
            d = sub(lv, ('sym', 'level')) if to_lin(lv) is not None else ("top",)
            if is_int_const(d) and d[2] >= 1:
                c.ok(R, sample='line %d: level + %d' % (node.lineno, d[2]))
            elif is_int_const(d) or is_int_const(lv):
                c.bad(R, at, 'the nested evaluation gets level %s: names that refer to each other are never cut off' % brief(lv, 40),
                      key='%s|level|%d' % (R, sorted(x.lineno for x in calls).index(node.lineno)))
            else:
                c.open(R, 'line %d: level %s' % (node.lineno, brief(lv, 40)))
    if not calls:
        c.open(R, 'no nested evaluation recognised')
    # a level far beyond any nesting Excel can write must raise
    s = Setup(c.prog, 80, maxsize=3000)
    inner = []
    s.it.hooks[q] = lambda *a: (inner.append(a[5]) or NONE) if a[5] is not None else None
    fm = ('app', 'cat', const(b'\x23'), sweep.sl_(0, 40))
    nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=fm, basic_formula_len=const(1))
    try:
        s.run(q, [s.book, nobj, const(0)], {'blah': const(0), 'level': const(5000)}, budget=60000)
    except Unsupported:
        pass
    raised = [e for e in s.it.events if e.kind == 'raise' and not e.guards]
    at = 'xlrd/formula.py:%d in evaluate_name_formula' % node0.lineno
    if inner:
        c.bad(R, at, 'at level 5000 names are still evaluated in names', key=R + '|limit')
    elif raised:
        c.ok(R, sample='level 5000 raises')
    else:
        c.open(R, 'level 5000')


def _marks(self):
    return None


Loop.marks = _marks
