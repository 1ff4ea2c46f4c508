"""Shared pieces of the decode checks: specification terms and comparison."""
from ..drive import *
from .. import evalterm as E
from ..terms import brief

DATA = ('sym', 'data')
BV_ALL = (20, 21, 30, 40, 45, 50, 70, 80)


# ---- specification terms over one record's bytes (little endian, as published)
def _f(tag, src, off, nbits):
    l = to_lin(off if isinstance(off, tuple) else const(off))
    return (tag, src, tuple(sorted(l[1].items(), key=repr)), 8 * l[0], nbits)


def u8(off, src=DATA):
    return _f('u', src, off, 8)


def u16(off, src=DATA):
    return _f('u', src, off, 16)


def u32(off, src=DATA):
    return _f('u', src, off, 32)


def s8(off, src=DATA):
    return _f('s', src, off, 8)


def s16(off, src=DATA):
    return _f('s', src, off, 16)


def s32(off, src=DATA):
    return _f('s', src, off, 32)


def f64(off, src=DATA):
    l = to_lin(off if isinstance(off, tuple) else const(off))
    return ('d', src, tuple(sorted(l[1].items(), key=repr)), l[0], 8)


def bits(off, lo, n, src=DATA):
    """n bits starting at bit lo of the little-endian integer at byte off"""
    return ('u', src, (), 8 * off + lo, n)


def bit(off, lo, src=DATA):
    return bits(off, lo, 1, src)


def sl(lo, hi, src=DATA):
    return mk_slice(src, lo if isinstance(lo, tuple) else const(lo),
                    END if hi is None else hi if isinstance(hi, tuple) else const(hi))


def dec(b, enc):
    return decode_term(b, enc if isinstance(enc, tuple) else const(enc))


def ite(c, a, b):
    return mk_ite(c, a, b)


def ne0(t):
    return ('app', 'not', eq(t, 0))


def eq(t, v):
    return fold_compare('Eq', t, v if isinstance(v, tuple) else const(v))


def lt(t, v):
    return fold_compare('Lt', t, v if isinstance(v, tuple) else const(v))


K = ('k', 'i')
_VEC = {}


def envs(n=48, inits=None, extra=None, syms=None):
    if n not in _VEC:
        _VEC[n] = E.vectors(n)
    out = []
    for v in _VEC[n]:
        sy = {'data': v, 'data_len': len(v)}
        if syms:
            sy.update(syms)
        out.append(E.Env(sy, inits or {}, {}, extra or {}))
    return out


def has_unknown(t):
    for x in walk(t):
        if x[0] in ('top', 'alts', 'phi', 'exit', 'unbound', 'elem'):
            return True
    return False


def same_value(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b):
        if isinstance(a, (int, float)) and isinstance(b, (int, float)) and not isinstance(a, bool) != (not isinstance(b, bool)):
            return a == b and isinstance(a, float) == isinstance(b, float)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        return False
    return a == b


def differ(got, want, es, exact_type=True):
    """-> ('same', None) | ('agree', n) | ('differ', witness) | ('open', why)"""
    if got == want:
        return 'same', None
    n = 0
    undef = 0
    for e in es:
        try:
            w = E.ev(want, e)
        except (E.Undef, E.Raised):
            continue
        try:
            g = E.ev(got, e)
        except E.Undef:
            undef += 1
            continue
        except E.Raised:
            continue
        n += 1
        if exact_type:
            same = same_value(g, w)
        else:
            same = g == w or (g != g and w != w)
        if not same:
            d = e.syms.get('data')
            return 'differ', 'yields %r instead of %r%s' % (
                _short(g), _short(w), ' for record bytes %s' % bytes(d[:24]).hex() if isinstance(d, bytes) else '')
    if n and not undef:
        return 'agree', n
    return 'open', 'no decided sample' if not n else '%d of %d samples undecided' % (undef, n + undef)


def _short(v):
    return v


def check_term(c, rule, label, got, want, where, es, exact_type=True):
    """one obligation: the extracted term denotes the specified one"""
    if got is None:
        c.open(rule, '%s: not found' % label)
        return None
    r, info = differ(got, want, es, exact_type)
    if r in ('same', 'agree'):
        c.ok(rule, sample='%s = %s' % (label, brief(got, 100)))
        c.count('identical_normal_forms' if r == 'same' else 'equal_by_folding')
        return True
    if r == 'differ':
        c.bad(rule, where, '%s: source computes %s, specification is %s (%s)'
              % (label, brief(got), brief(want), info), key='%s|%s' % (rule, label))
        return False
    c.open(rule, '%s: %s vs %s (%s)' % (label, brief(got, 80), brief(want, 80), info))
    return None


# ---- reading the result of one record
def end_state(s):
    for lid, end, base in s.it.iter_ends:
        if end is not None:
            return end
    return None


def new_objects(s, cls):
    """refs of objects of class cls (short name) created while handling the record"""
    out = []
    for e in s.it.events:
        if e.kind == 'new' and e.data[1][2].split('.')[-1] == cls and e.data[0] not in out:
            out.append(e.data[0])
    return out


def attr_of(s, st, ref, attr):
    h = s.it.hget(st, ref[1]) if ref[0] == 'ref' else None
    if h is None:
        return None
    if attr in h.attrs:
        return h.attrs[attr]
    if h.cls:
        v = s.it.class_lookup(st, h.cls, attr)
        if v is not None:
            return v
    return None


def obj_attr(s, st, ref, attr):
    """value of an attribute once its object has been filled in: the state at the end of the record, or, where that was
    merged with the paths on which the object does not exist, the stores that follow its creation"""
    v = attr_of(s, st, ref, attr) if st is not None else None
    if v is not None and not has_unknown(v):
        return v
    new = [e for e in s.it.events if e.kind == 'new' and e.data[0] == ref]
    if not new:
        return v
    g0 = new[0].guards
    t = None
    for e in s.it.events:
        if e.kind != 'setattr' or e.data[0] != ref or e.data[1] != attr or e.loops != new[0].loops:
            continue
        g = e.guards[len(g0):] if e.guards[:len(g0)] == g0 else e.guards
        val = e.data[2]
        if any(x[0] == TOP for x in g):
            return v
        for x in reversed(g):
            c = x[0] if x[1] else ('app', 'not', x[0])
            val = mk_ite(c, val, t if t is not None else ('unbound', attr))
        t = val
    return t if t is not None and not has_unknown(t) else v


def where_attr(s, ref, attr):
    w = None
    for e in s.it.events:
        if e.kind == 'setattr' and e.data[0] == ref and e.data[1] == attr:
            w = e
    return w.where() if w is not None else '(attribute %s is never assigned)' % attr


# ---- evaluating guarded, looped events on a valuation
def loop_iters(ev, env, skip_outer=1, limit=5000):
    """environments for every iteration of the loops around an event (outermost while skipped)"""
    es = [env]
    for l in ev.loops[skip_outer:]:
        lid, kind, it = l[0], l[1], l[2]
        out = []
        for e in es:
            if kind == 'for':
                n = trip_count(it, e)
            else:
                n = None
            if n is None and kind == 'for':
                raise E.Undef
            if kind == 'while':
                i = 0
                while i < limit:
                    e2 = e.with_k(lid, i)
                    if it is None:
                        raise E.Undef
                    if E.truth(it, e2) != l[3]:
                        break
                    out.append(e2)
                    i += 1
                else:
                    raise E.Undef
            else:
                for i in range(min(n, limit)):
                    out.append(e.with_k(lid, i))
        es = out
    return es


def trip_count(it, e):
    if it[0] == 'app' and it[1] == 'range':
        a = [E.ev(x, e) for x in it[2:]]
        if all(isinstance(x, int) for x in a):
            return len(range(*a))
        raise E.Undef
    if it[0] == 'app' and it[1] in ('enumerate',):
        return trip_count(it[2], e)
    if it[0] == 'app' and it[1] == 'array':
        return E.ev(it[5], e)
    if it[0] == 'app' and it[1] == 'zip':
        return min(trip_count(x, e) for x in it[2:])
    v = E.ev(it, e)
    if isinstance(v, (bytes, str, tuple)):
        return len(v)
    raise E.Undef


def guards_hold(ev, env, ignore=()):
    for g in ev.guards:
        cond, pol = g[0], g[1]
        if cond == TOP:
            raise E.Undef
        if cond[0] == 'app' and cond[1] == 'except':
            if pol:
                return False
            continue
        if E.truth(cond, env) != pol:
            return False
    return True


def run_events(events, env, skip_outer=1):
    """[(event, env)] of the events that happen under a valuation, in order of the iteration"""
    out = []
    for ev in events:
        for e in loop_iters(ev, env, skip_outer):
            if guards_hold(ev, e):
                out.append((ev, e))
    return out


def cells_of(s, env, nodate=True):
    evs = [e for e in s.it.events if e.kind == 'put_cell']
    out = []
    for ev, e in run_events(evs, env):
        out.append((tuple(E.ev(x, e) for x in ev.data), ev))
    return out


def loop_free_guard_terms(ev):
    return [(g[0], g[1]) for g in ev.guards]
