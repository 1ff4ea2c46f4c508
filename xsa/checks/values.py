"""C32 date conversion ranges, C34 slices, C35 format/width fall-back, C15 value types."""
import datetime
import math
from .common import *
from ..interp import *
from ..intervals import Box, ival, num, assume, truth as itruth
from ..terms import *

TOO_LARGE = {0: 2958466, 1: 2958466 - 1462}
DATE_ERRORS = ('XLDateNegative', 'XLDateAmbiguous', 'XLDateTooLarge', 'XLDateBadDatemode', 'XLDateBadTuple', 'XLDateError')


def fn_setup(c, qual, args, kinds=None, bv=80):
    s = Setup(c.prog, bv)
    s.it.symkinds.update(kinds or {})
    s.qual = qual
    s.run(qual, args)
    return s


def outcomes(s):
    return [e for e in s.it.events if (e.kind != 'return' or e.func == s.qual) and e.kind in ('return', 'raise', 'implicit_raise', 'keyerror', 'typeerror')]


def at(e):
    return e.where() if hasattr(e, 'where') else str(getattr(e, 'site', ''))


# ------------------------------------------------------------------ C32

def frac_terms(evs):
    """terms int(round(k * (x - int(x)))) appearing anywhere"""
    out = set()
    for e in evs:
        for t in list(e.data) + [g[0] for g in e.guards]:
            if isinstance(t, tuple):
                for w in walk(t):
                    if w[0] == 'app' and w[1] == 'int' and w[2][0] == 'app' and w[2][1] == 'round':
                        out.add(w)
    return out


X = ('sym', 'x')
NX = ('app', 'int', X)


def cell_box(lo, hi, S, sset):
    """x in [lo, hi+1) (x > 0), the rounded second count in sset"""
    xlo = max(float(lo), 5e-324)
    xhi = math.inf if math.isinf(hi) else math.nextafter(float(hi) + 1, -math.inf)
    m = {X: ('i', xlo, xhi), NX: ('i', lo, hi)}
    if S is not None:
        m[S] = ('i',) + tuple(sset)
    return Box(m, {(X, NX): (0.0, math.nextafter(1.0, 0))}, [X])


def verdict(evs, box):
    """[(event, box, must)] of the outcomes possible in a box"""
    out = []
    for e in evs:
        b = box
        must = True
        for g in e.guards:
            cond, pol = g[0], g[1]
            if cond == TOP:
                must = False
                continue
            if cond[0] == 'app' and cond[1] == 'except':
                if pol:
                    b = None
                    break
                continue
            v = itruth(ival(cond, b))
            if v is None:
                must = False
                b = assume(cond, pol, b)
                if b is None:
                    break
            elif v != pol:
                b = None
                break
        if b is not None:
            out.append((e, b, must))
            if must:
                break       # later events are only reachable when this one is not
    return out


class Spec(object):
    """an event with every choice that a box settles already made"""

    def __init__(self, e, data, guards):
        self.kind, self.data, self.guards, self.e = e.kind, data, guards, e
        self.node, self.func, self.loops = e.node, e.func, e.loops

    def where(self):
        return self.e.where()


def specialise(evs, box):
    memo = {}

    def fn(t):
        k = id(t)
        if k in memo:
            return memo[k][1]
        r = None
        if isinstance(t, tuple) and len(t) == 5 and t[0] == 'app' and t[1] == 'ite':
            v = itruth(ival(t[2], box))
            if v is not None:
                r = subst(t[3] if v else t[4], fn)
        memo[k] = (t, r)
        return r
    out = []
    for e in evs:
        gs = []
        dead = False
        for g in e.guards:
            cond = g[0]
            if isinstance(cond, tuple) and cond != TOP:
                cond = subst(cond, fn)
                if not (cond[0] == 'app' and cond[1] == 'except'):
                    v = itruth(ival(cond, box))
                    if v is not None:
                        if v != g[1]:
                            dead = True
                            break
                        continue
            gs.append((cond,) + tuple(g[1:]))
        if not dead:
            out.append(Spec(e, tuple(subst(x, fn) if isinstance(x, tuple) else x for x in e.data), gs))
    return out


RANGES = (('year', 1900, 9999), ('month', 1, 12), ('day', 1, 31), ('hour', 0, 23), ('minute', 0, 59), ('second', 0, 59))


def expected(lo, hi, S, sset, dm):
    """documented outcome of a cell of the partition; None = it straddles regions"""
    if sset[0] != sset[1] and sset[1] >= 86400:
        return None
    dlo = lo + (1 if sset[0] == 86400 else 0)
    dhi = hi + (1 if sset[0] == 86400 else 0)
    big = TOO_LARGE[dm]
    if dlo >= big:
        return 'XLDateTooLarge'
    if dhi >= big:
        return None
    if dlo == 0:
        return 'time' if dhi == 0 else None
    if dm == 0:
        if dhi < 61:
            return 'XLDateAmbiguous'
        if dlo < 61:
            return None
    return 'date'


def judge(want, e, b):
    """(ok, text) or (None, text) when the interval is too coarse"""
    if e.kind == 'raise':
        name = e.data[0][2] if e.data and e.data[0][0] == 'c' else '?'
        if want in ('time', 'date'):
            return False, 'raises %s instead of returning a %s tuple' % (name, want)
        return name == want, 'raises %s instead of %s' % (name, want)
    if e.kind != 'return':
        return False, 'fails with %s' % (brief(e.data[0], 40) if e.data else e.kind)
    v = ival(e.data[0], b)
    if v is None or v[0] != 't' or len(v[1]) != 6:
        if v is not None and v[0] in 'ib':
            return False, 'returns a number, not a tuple'
        return None, 'result not understood'
    if want not in ('time', 'date'):
        return False, 'returns %s instead of raising %s' % (show_tuple(v), want)
    worst = True
    for (name, lo, hi), iv in zip(RANGES, v[1]):
        if want == 'time' and name in ('year', 'month', 'day'):
            lo = hi = 0
        iv = num(iv)
        if iv is None:
            worst = None if worst else worst
            continue
        if iv[1] >= lo and iv[2] <= hi:
            continue
        if iv[2] < lo or iv[1] > hi:
            return False, 'returns %s, whose %s is outside %d..%d' % (show_tuple(v), name, lo, hi)
        worst = None
    return worst, 'interval %s too coarse' % show_tuple(v)


def show_tuple(v):
    return '(%s)' % ', '.join('?' if num(x) is None else str(num(x)[1]) if num(x)[1] == num(x)[2]
                              else '%s..%s' % (num(x)[1], num(x)[2]) for x in v[1])


def C32(c):
    """Interval analysis of the date conversions: the serial number's sign, whole days and rounded seconds of the day are
    partitioned; on every cell of the partition each outcome whose path condition is not refuted must be the documented one
    and every component of a returned tuple must lie in its range. Cells are halved until that is decided, down to one day."""
    R = 'date-outcome'
    c.rule(R, 'on every interval of serial numbers xldate_as_tuple yields components in range or the documented error')
    for dm in (0, 1):
        c.guard(R, c32_tuple, c, R, dm)
    R1 = 'date-real'
    c.rule(R1, 'the date returned is the calendar date the day number denotes, on every day of one leap cycle and around every kind of year end')
    for dm in (0, 1):
        c.guard(R1, c32_real, c, R1, dm)
    R2 = 'bad-datemode'
    c.rule(R2, 'a date system other than 0 and 1 is always refused with XLDateBadDatemode')
    for dm in (2, -1, 3, 1904):
        c.guard(R2, c32_badmode, c, R2, dm)
    R3 = 'date-object'
    c.rule(R3, 'xldate_as_datetime adds the whole days and the milliseconds of the day to the epoch of the region')
    for dm in (0, 1):
        c.guard(R3, c32_datetime, c, R3, dm)
    R4 = 'date-tuple-accepted'
    c.rule(R4, 'xldate_from_date_tuple accepts exactly the real dates from the first unambiguous one to 9999-12-31')
    for dm in (0, 1):
        c.guard(R4, c32_from_date, c, R4, dm)
    R5 = 'time-tuple-accepted'
    c.rule(R5, 'xldate_from_time_tuple accepts exactly hours below 24 and minutes and seconds below 60')
    c.guard(R5, c32_from_time, c, R5)


def c32_tuple(c, R, dm):
    s = fn_setup(c, 'xlrd.xldate.xldate_as_tuple', [X, const(dm)], {'x': 'float'})
    evs = outcomes(s)
    fs = frac_terms(evs)
    S = sorted(fs, key=repr)[0] if len(fs) == 1 else None
    if S is None:
        c.open(R, 'no single rounded second count found')
        return
    # zero and negative serials
    def whole(box, want, label):
        for e, b, must in verdict(evs, box):
            okv, txt = judge(want, e, b)
            if okv:
                c.ok(R, sample='%s, datemode %d: %s' % (label, dm, want))
            elif okv is False and must:
                c.bad(R, at(e), 'for %s in date system %d: %s' % (label, dm, txt), '%s|%d|%s' % (R, dm, label))
            else:
                c.open(R, '%s datemode %d: %s' % (label, dm, txt))
    whole(Box({X: ('i', 0.0, 0.0), NX: ('i', 0, 0), S: ('i', 0, 0)}, {(X, NX): (0, 0)}, [X]), 'time', 'serial number zero')
    whole(Box({X: ('i', -math.inf, -5e-324), NX: ('i', -math.inf, 0), S: ('i', -86400, 0)},
              {(X, NX): (-math.nextafter(1.0, 0), 0.0)}, [X]), 'XLDateNegative', 'every negative serial number')
    for x in (-1e-300, -1e-9, -0.25, -0.5, -0.75, -1.0, -1.5, -59.0, -60.5, -61.0, -1462.0, -30000.25, -1e10, -1e300):
        r = fold(evs, {'x': x})
        if r is None or r[0] == 'raise' and r[1] is None:
            c.open(R, 'serial %r' % x)
        elif r[:2] == ('raise', 'XLDateNegative'):
            c.ok(R)
        else:
            c.bad(R, at(r[2]), 'serial number %r in date system %d %s instead of raising XLDateNegative'
                  % (x, dm, 'yields %r' % (r[1],) if r[0] == 'return' else 'raises %s' % r[1]), '%s|%d|every negative serial number' % (R, dm))
    big = TOO_LARGE[dm]
    cuts = [0, 1, 60, 61, big - 400, big - 1, big, 3000000, math.inf]
    work = []
    for a, b in zip(cuts, cuts[1:]):
        hi = b - 1 if b != math.inf else b
        work.append((a, hi, (0, 86399)))
        work.append((a, hi, (86400, 86400)))
    steps = 0
    reported = set()
    special = {k: specialise(evs, Box({S: ('i',) + k, X: ('i', 5e-324, math.inf), NX: ('i', 0, math.inf)}, {}, [X]))
               for k in ((0, 86399), (86400, 86400))}
    while work:
        lo, hi, ss = work.pop()
        steps += 1
        if steps > 20000:
            c.open(R, 'partition limit')
            return
        want = expected(lo, hi, S, ss, dm)
        split = want is None
        if not split:
            res = verdict(special[(86400, 86400) if ss[0] == 86400 else (0, 86399)], cell_box(lo, hi, S, ss))
            bad = []
            for e, b, must in res:
                okv, txt = judge(want, e, b)
                if okv is False and must:
                    bad.append((e, txt))
                elif not okv:
                    split = True
            if not res:
                split = True
            if bad:
                e, txt = bad[0]
                key = '%s|%d|%s' % (R, dm, want)
                if key not in reported:
                    reported.add(key)
                    c.bad(R, at(e), 'for %s in date system %d: %s' % (cell_text(lo, hi, ss), dm, txt), key)
                continue
            if not split:
                c.ok(R, sample='%s, datemode %d: %s' % (cell_text(lo, hi, ss), dm, want))
                c.count('partition_cells')
                continue
        # halve the coarser dimension
        if lo < hi:
            if math.isinf(hi):
                if lo > 1 << 40:
                    c.open(R, 'unbounded cell undecided')
                    continue
                work.append((lo, lo * 2, ss))
                work.append((lo * 2 + 1, hi, ss))
            else:
                m = (lo + hi) // 2
                work.append((lo, m, ss))
                work.append((m + 1, hi, ss))
        elif ss[0] < ss[1]:
            m = (ss[0] + ss[1]) // 2
            work.append((lo, hi, (ss[0], m)))
            work.append((lo, hi, (m + 1, ss[1])))
        else:
            c.open(R, '%s datemode %d undecided' % (cell_text(lo, hi, ss), dm))


def c32_real(c, R, dm):
    s = fn_setup(c, 'xlrd.xldate.xldate_as_tuple', [X, const(dm)], {'x': 'float'})
    evs = outcomes(s)
    S = sorted(frac_terms(evs), key=repr)
    base = (datetime.date(1904, 1, 1) if dm else datetime.date(1899, 12, 30)).toordinal()
    days = set(range(36526 - 1462 * dm, 36526 - 1462 * dm + 1463))
    for y in (1900, 1901, 1904, 1999, 2099, 2100, 2101, 2199, 2200, 2400, 4000, 9999):
        for m, d in ((1, 1), (1, 31), (2, 1), (2, 28), (3, 1), (3, 31), (12, 1), (12, 31)):
            n = datetime.date(y, m, d).toordinal() - base
            if n >= (1 if dm else 61):
                days.add(n)
    box = {k: specialise(evs, Box({S[0]: ('i', 0, 86399), X: ('i', 5e-324, math.inf), NX: ('i', 1, math.inf)}, {}, [X])) for k in (0,)}[0] if len(S) == 1 else evs
    for n in sorted(days):
        want = datetime.date.fromordinal(base + n)
        r = fold(box, {'x': n + 0.5})
        if r is None or r[0] == 'raise' and r[1] is None:
            c.open(R, 'day %d' % n)
        elif r == ('return', (want.year, want.month, want.day, 12, 0, 0), r[2]):
            c.ok(R)
        else:
            c.bad(R, at(r[2]), 'day number %d and a half in date system %d %s, it denotes noon of %s'
                  % (n, dm, 'yields %r' % (r[1],) if r[0] == 'return' else 'raises %s' % r[1], want), '%s|%d' % (R, dm))


def cell_text(lo, hi, ss):
    d = 'day number %s' % lo if lo == hi else 'day numbers %s to %s' % (lo, hi)
    return '%s and %s' % (d, 'a time rounding up to midnight' if ss[0] == 86400 else
                          'second %d of the day' % ss[0] if ss[0] == ss[1] else 'seconds %d to %d of the day' % ss)


def c32_badmode(c, R, dm):
    s = fn_setup(c, 'xlrd.xldate.xldate_as_tuple', [X, const(dm)], {'x': 'float'})
    evs = outcomes(s)
    box = Box({X: ('i', -math.inf, math.inf)}, {}, [X])
    res = verdict(evs, box)
    for e, b, must in res:
        name = e.data[0][2] if e.kind == 'raise' and e.data[0][0] == 'c' else None
        if name == 'XLDateBadDatemode':
            c.ok(R, sample='date system %d is refused' % dm)
        elif must:
            c.bad(R, at(e), 'date system %d: %s instead of raising XLDateBadDatemode' % (dm, 'raises %s' % name if name else 'returns'),
                  '%s|%d' % (R, dm))
        elif e.kind == 'return' and all(itruth(ival(g[0], b)) is not None for g in e.guards):
            c.bad(R, at(e), 'date system %d is accepted' % dm, '%s|%d' % (R, dm))
        else:
            # a return that some serial number reaches
            hit = None
            for x in (0.0, 0.5, 1.0, 59.0, 61.0, 1000.25, 40000.5):
                r = fold(evs, {'x': x})
                if r and r[0] == 'return':
                    hit = x
                    break
            if hit is not None:
                c.bad(R, at(e), 'date system %d is accepted for serial number %r' % (dm, hit), '%s|%d' % (R, dm))
            else:
                c.open(R, 'date system %d' % dm)


def fold(evs, syms, extra=None):
    """first outcome under a valuation of the unknowns: (kind, value, event) or None when undecided"""
    env = E.Env(dict(syms), {}, {}, extra or {})
    env.noexc = True
    for e in evs:
        try:
            hold = guards_hold(e, env)
        except E.Undef:
            return None
        except E.Raised:
            return None
        if not hold:
            continue
        if e.kind == 'return':
            try:
                return 'return', E.ev(e.data[0], env), e
            except E.Undef:
                return None
            except E.Raised:
                return 'raise', 'an internal error', e
        if e.kind == 'raise':
            return 'raise', e.data[0][2] if e.data[0][0] == 'c' else None, e
        return 'raise', e.kind, e
    return None


def c32_datetime(c, R, dm):
    s = fn_setup(c, 'xlrd.xldate.xldate_as_datetime', [X, const(dm)], {'x': 'float'})
    evs = outcomes(s)
    xs = [0.0, 0.25, 0.5, 0.999, 1.0, 1.5, 31.0, 58.5, 59.0, 59.999, 60.0, 60.5, 61.0, 61.25, 365.0, 366.75, 1000.123, 36526.5, 40000.000011574,
          41235.9999, 43831.75, 100000.5, 2958465.0, 2958465.5, 2957003.25]
    for x in xs:
        want = (datetime.datetime(1904, 1, 1) if dm else datetime.datetime(1899, 12, 31) if x < 60 else datetime.datetime(1899, 12, 30))
        d = int(x)
        try:
            want = want + datetime.timedelta(d, 0, 0, int(round((x - d) * 86400000.0)))
        except OverflowError:
            continue
        r = fold(evs, {'x': x})
        if r is None:
            c.open(R, 'serial %r datemode %d' % (x, dm))
        elif r[0] == 'return' and r[1] == want:
            c.ok(R, sample='serial %r, datemode %d -> %s' % (x, dm, want))
        else:
            c.bad(R, at(r[2]), 'serial number %r in date system %d yields %s, documented is %s' % (x, dm, r[1], want),
                  '%s|%d' % (R, dm))


_DIM = (31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31)


def real_date(y, m, d):
    if not (1900 <= y <= 9999 and 1 <= m <= 12 and d >= 1):
        return False
    leap = y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return d <= _DIM[m - 1] + (1 if leap and m == 2 else 0)


def c32_from_date(c, R, dm):
    arg = ('tuple', (('sym', 'y'), ('sym', 'm'), ('sym', 'd')))
    s = fn_setup(c, 'xlrd.xldate.xldate_from_date_tuple', [arg, const(dm)], {'y': 'int', 'm': 'int', 'd': 'int'})
    evs = outcomes(s)
    samples = [(0, 0, 0)]
    for y in (-1, 0, 1, 1899, 1900, 1903, 1904, 1905, 1999, 2000, 2001, 2024, 2100, 2400, 9996, 9999, 10000, 20000):
        for m in (-1, 0, 1, 2, 3, 4, 6, 9, 11, 12, 13):
            for d in (-1, 0, 1, 2, 28, 29, 30, 31, 32):
                samples.append((y, m, d))
    for y in range(2000, 2401):
        samples.append((y, 2, 29))
    for t in samples:
        y, m, d = t
        if t == (0, 0, 0):
            want = 0.0
        elif not real_date(y, m, d):
            if (y, m, d) == (1900, 2, 29):
                continue
            want = 'XLDateBadTuple'
        else:
            n = datetime.date(y, m, d).toordinal() - (datetime.date(1904, 1, 1) if dm else datetime.date(1899, 12, 30)).toordinal()
            if dm == 0 and n < 61:
                want = 'XLDateAmbiguous' if n > 1 else ('XLDateAmbiguous', 'XLDateBadTuple')
            elif n <= 0:
                want = 'XLDateBadTuple'
            else:
                want = float(n)
        r = fold(evs, {'y': y, 'm': m, 'd': d})
        if r is None:
            c.open(R, '%r datemode %d' % (t, dm))
            continue
        good = (r[0] == 'return' and isinstance(want, float) and r[1] == want) or \
               (r[0] == 'raise' and (r[1] == want or isinstance(want, tuple) and r[1] in want))
        if good:
            c.ok(R, sample='%r, datemode %d: %s' % (t, dm, want))
        elif r[0] == 'raise' and r[1] is None:
            c.open(R, '%r datemode %d' % (t, dm))
        else:
            c.bad(R, at(r[2]), 'the date %r in date system %d %s, documented is %s'
                  % (t, dm, 'yields %r' % (r[1],) if r[0] == 'return' else 'raises %s' % r[1], want),
                  '%s|%d|%s' % (R, dm, want if isinstance(want, str) else 'accepted'))


def c32_from_time(c, R):
    arg = ('tuple', (('sym', 'h'), ('sym', 'm'), ('sym', 's')))
    s = fn_setup(c, 'xlrd.xldate.xldate_from_time_tuple', [arg], {'h': 'int', 'm': 'int', 's': 'int'})
    evs = outcomes(s)
    for h in (-1, 0, 1, 12, 23, 24, 25):
        for m in (-1, 0, 1, 30, 59, 60, 61):
            for x in (-1, 0, 1, 30, 59, 60, 61):
                want = 0 <= h < 24 and 0 <= m < 60 and 0 <= x < 60
                r = fold(evs, {'h': h, 'm': m, 's': x})
                if r is None:
                    c.open(R, '%r' % ((h, m, x),))
                elif want and r[0] == 'return' and abs(r[1] - (h * 3600 + m * 60 + x) / 86400.0) < 1e-9:
                    c.ok(R)
                elif not want and r[0] == 'raise' and r[1] == 'XLDateBadTuple':
                    c.ok(R)
                else:
                    c.bad(R, at(r[2]), 'the time %r %s' % ((h, m, x), 'yields %r' % (r[1],) if r[0] == 'return' else 'raises %s' % r[1]),
                          '%s|%s' % (R, want))


# ------------------------------------------------------------------ C34

def grid(nr, nc, wider=0):
    return {('sheet', '_cell_values'): tuple(tuple('v%d.%d' % (r, k) for k in range(nc)) for r in range(nr)),
            ('sheet', '_cell_types'): tuple(tuple('t%d.%d' % (r, k) for k in range(nc)) for r in range(nr)),
            ('sheet', '_cell_xf_indexes'): tuple(tuple(100 + 10 * r + k for k in range(nc)) for r in range(nr)),
            ('sheet', 'nrows'): nr, ('sheet', 'ncols'): nc + wider}


class Accessor(object):
    """an extracted Sheet accessor, to be folded over bounds"""

    def __init__(self, c, name, argnames, consts=(), fmt=0, ragged=0, terms_=()):
        self.name = name
        s = self.s = Setup(c.prog, 80, fmt, 0, ragged)
        s.it.symkinds.update({a: 'int' for a in argnames})
        args = [s.sheet] + [('sym', a) for a in argnames] + [const(v) for v in consts] + list(terms_)
        s.qual = 'xlrd.sheet.Sheet.' + name
        f = c.prog.func(s.qual)
        if f is None:
            f = installed_method(c, name)
            if f is None:
                raise LookupError('Sheet.%s is gone' % name)
        s.value, s.st = s.it.run(f, args, {}, s.st, s.budget)
        self.evs = s.it.events

    def rets(self):
        # the function actually run may have another name (an alias): keep top-level returns = those giving the value
        return [e for e in self.evs if e.kind == 'return']

    def result(self, env):
        """list of the elements / the value, folded"""
        v = self.s.value
        return self.fold_value(v, env)

    def fold_value(self, v, env):
        if v[0] == 'app' and v[1] == 'ite':
            return self.fold_value(v[3] if E.truth(v[2], env) else v[4], env)
        if v[0] == 'ref':
            o = self.s.obj(v)
            if o.kind == 'list':
                if o.items is not None:
                    return [self.fold_value(x, env) for x in o.items]
                return self.elements(o, env, 0)
            if o.cls and o.cls.endswith('.Cell'):
                return self.cell(v, env)
            raise E.Undef
        r = E.ev(v, env)
        if isinstance(r, tuple):
            return list(r)
        return r

    def cell(self, ref, env):
        out = []
        for a in ('ctype', 'value', 'xf_index'):
            last = None
            for e in self.evs:
                if e.kind == 'setattr' and e.data[0] == ref and e.data[1] in (a, const(a)):
                    if guards_hold(e, env):
                        last = e.data[2]
            if last is None:
                raise E.Undef
            out.append(E.ev(last, env))
        return ('Cell',) + tuple(out)

    def elements(self, o, env, depth):
        evs = [e for e in self.evs if e.kind == 'element' and e.node is o.node]
        if len(evs) != 1 or len(evs[0].loops) < depth + 1:
            raise E.Undef
        e = evs[0]
        # loops that belong to this comprehension
        mine = [l for l in e.loops if l[4] is o.node]
        if not mine:
            raise E.Undef
        envs_ = [env]
        for l in mine:
            nxt = []
            for x in envs_:
                for k in range(trip_count(l[2], x)):
                    nxt.append(x.with_k(l[0], k))
            envs_ = nxt
        out = []
        for x in envs_:
            if guards_hold(e, x):
                out.append(self.fold_value(e.data[0], x))
        return out


def installed_method(c, name):
    cls = c.prog.func('xlrd.sheet.Sheet')
    if cls is None or cls[0] != 'class':
        return None
    try:
        return c.prog.class_attr('xlrd.sheet.Sheet', name)
    except Exception:
        return None


def bounds(n):
    return sorted(set([-n - 2, -n - 1, -n, -n + 1, -1, 0, 1, n - 1, n, n + 1, n + 3, 2]))


def C34(c):
    """The accessors are interpreted with unknown bounds; the extracted index ranges are folded over every ordering of the
    bounds relative to the table size and compared with the Python slice of the full row or column."""
    R = 'column-slices'
    c.rule(R, 'column slices return the cells of the Python slice of the full column, for any bounds')
    for name, what in (('col_values', 'v'), ('col_types', 't'), ('col_slice', 'c'), ('col', 'c')):
        c.guard(R, c34_slices, c, R, name, what, True)
    R2 = 'row-slices'
    c.rule(R2, 'row slices return the cells of the Python slice of the full row, for any bounds')
    for name, what in (('row_values', 'v'), ('row_types', 't'), ('row_slice', 'c')):
        c.guard(R2, c34_slices, c, R2, name, what, False)
    R3 = 'single-cells'
    c.rule(R3, 'row, row_len, cell, cell_value, cell_type and iteration agree with the tables cell by cell')
    c.guard(R3, c34_single, c, R3)


def expect_cell(what, g, r, k, fmt=0):
    v = g[('sheet', '_cell_values')][r][k]
    t = g[('sheet', '_cell_types')][r][k]
    return v if what == 'v' else t if what == 't' else ('Cell', t, v, g[('sheet', '_cell_xf_indexes')][r][k] if fmt else None)


def c34_slices(c, R, name, what, column):
    variants = [('both', ['i', 'a', 'b'], ()), ('end None', ['i', 'a'], (None,)), ('start only', ['i', 'a'], ()), ('no bounds', ['i'], ())]
    for label, names, consts, ragged in [v + (rg,) for v in variants for rg in ((0,) if column else (0, 1))]:
        acc = Accessor(c, name, names, consts, 0, ragged)
        where = '%s:%d Sheet.%s' % (where_fn(c, 'xlrd.sheet.Sheet.' + name, acc))
        n_bad = False
        for nr, nc in ((4, 3), (1, 2), (3, 4)):
            g = grid(nr, nc, 2 * ragged)
            n = nr if column else nc
            for a in (bounds(n) if 'a' in names else [0]):
                for b in (bounds(n) if 'b' in names else [None]):
                    i = 1 if (nc if column else nr) > 1 else 0
                    full = [expect_cell(what, g, r, i) for r in range(nr)] if column else [expect_cell(what, g, i, k) for k in range(nc)]
                    want = full[a:b]
                    env = E.Env({'i': i, 'a': a, 'b': b}, g)
                    txt = '%s(%d, %s, %s) of a %d-cell %s' % (name, i, a, b, n, 'column' if column else 'row')
                    try:
                        got = acc.result(env)
                    except E.Undef:
                        c.open(R, '%s [%s]' % (txt, label))
                        continue
                    except E.Raised:
                        got = 'an exception'
                    if got == want:
                        c.ok(R, sample='%s = %d cells' % (txt, len(want)))
                    else:
                        c.bad(R, where, '%s yields %s, the slice of the full %s is %s'
                              % (txt, short(got), 'column' if column else 'row', short(want)), '%s|%s' % (R, name))
                        n_bad = True
        if n_bad:
            return


def short(v):
    if isinstance(v, list):
        return '[%s]' % ', '.join(str(x[2] if isinstance(x, tuple) and len(x) > 2 else x) for x in v[:6])
    return repr(v)[:80]


def where_fn(c, qual, acc):
    for e in acc.evs:
        if e.kind == 'return':
            return e.path, e.line, acc.name
    return 'xlrd/sheet.py', 0, acc.name


def c34_single(c, R):
    for fmt, ragged in ((0, 0), (1, 0), (0, 1), (1, 1)):
        g = grid(3, 4, 2 * ragged)
        one = [('cell', ['r', 'k'], lambda r, k: expect_cell('c', g, r, k, fmt)),
               ('cell_value', ['r', 'k'], lambda r, k: expect_cell('v', g, r, k)),
               ('cell_type', ['r', 'k'], lambda r, k: expect_cell('t', g, r, k)),
               ('row_len', ['r'], lambda r, k: 4),
               ('row', ['r'], lambda r, k: [expect_cell('c', g, r, j, fmt) for j in range(4)])]
        for name, names, want in one:
            acc = Accessor(c, name, names, (), fmt, ragged)
            for r in range(3):
                for k in range(4):
                    env = E.Env({'r': r, 'k': k}, g)
                    try:
                        got = acc.result(env)
                    except E.Undef:
                        c.open(R, '%s(%d, %d)' % (name, r, k))
                        continue
                    except E.Raised:
                        got = 'an exception'
                    w = want(r, k)
                    if got == w:
                        c.ok(R, sample='%s at (%d, %d)' % (name, r, k))
                    else:
                        c.bad(R, '%s:%d Sheet.%s' % where_fn(c, '', acc), '%s at row %d column %d yields %s instead of %s'
                              % (name, r, k, short(got), short(w)), '%s|%s' % (R, name))
        for r in range(3):
            for k in (None, 0, 3):
                acc = Accessor(c, '__getitem__', [], (), fmt, ragged, [const(r) if k is None else ('tuple', (const(r), const(k)))])
                w = expect_cell('c', g, r, k, fmt) if k is not None else [expect_cell('c', g, r, j, fmt) for j in range(4)]
                try:
                    got = acc.result(E.Env({}, g))
                except E.Undef:
                    c.open(R, '__getitem__ %s %s' % (r, k))
                    continue
                except E.Raised:
                    got = 'an exception'
                if got == w:
                    c.ok(R, sample='sheet[%s%s]' % (r, '' if k is None else ', %d' % k))
                else:
                    c.bad(R, '%s:%d Sheet.%s' % where_fn(c, '', acc), 'sheet[%s%s] is not the %s at that place'
                          % (r, '' if k is None else ', %d' % k, 'row' if k is None else 'cell'), '%s|__getitem__' % R)
        for name in ('get_rows', '__iter__'):
            acc = Accessor(c, name, [], (), fmt, ragged)
            try:
                got = acc.result(E.Env({}, g))
            except E.Undef:
                c.open(R, name)
                continue
            except E.Raised:
                got = 'an exception'
            w = [[expect_cell('c', g, r, j, fmt) for j in range(4)] for r in range(3)]
            if got == w:
                c.ok(R, sample=name)
            else:
                c.bad(R, '%s:%d Sheet.%s' % where_fn(c, '', acc), '%s does not yield the rows of the sheet in order' % name, '%s|%s' % (R, name))


# ------------------------------------------------------------------ C35

def dict_of(s, d):
    return s.it.alloc(s.st, HObj('dict', items=tuple((const(k), v) for k, v in d.items())))


def C35(c):
    """Both look-ups are interpreted with every combination of present, absent and unset sources; the value returned on each
    combination must come from the first source of the documented order."""
    R = 'xf-fallback'
    c.rule(R, 'format index: cell, else row, else column, else 15')
    c.guard(R, c35_xf, c, R)
    R2 = 'width-fallback'
    c.rule(R2, 'column width: column record, else standard width, else default width times 256, else 2048, in the order of the version')
    c.guard(R2, c35_width, c, R2)
    R3 = 'formatting-required'
    c.rule(R3, 'both look-ups refuse a workbook opened without formatting')
    c.guard(R3, c35_req, c, R3)


def sole_value(s):
    """constant the run returns, ('raise', name) or None"""
    v = s.value
    rs = [e for e in s.it.events if e.kind in ('raise', 'keyerror', 'implicit_raise')]
    if v is not None and v[0] == 'c':
        return v[2]
    if v is not None and v[0] == 'app' and v[1] == 'ite':
        return None
    tops = [e for e in s.it.events if e.kind == 'raise' and not e.guards]
    if tops and tops[0].data and tops[0].data[0][0] == 'c':
        return ('raise', tops[0].data[0][2])
    return None


def c35_xf(c, R):
    for bv in (30, 50, 80):
        for cell in (7, 0, -1):
            for row in (None, -1, 0, 21):
                for col in (None, -1, 0, 33):
                    s = Setup(c.prog, bv)
                    st = s.st
                    ri = {} if row is None else {2: s.it.new_opaque(st, 'xlrd.sheet.Rowinfo', 'ri', xf_index=const(row))}
                    ci = {} if col is None else {1: s.it.new_opaque(st, 'xlrd.sheet.Colinfo', 'ci', xf_index=const(col))}
                    at_ = s.obj(s.sheet).attrs
                    o = s.obj(s.sheet)
                    at_ = dict(o.attrs)
                    at_['rowinfo_map'] = dict_of(s, ri)
                    at_['colinfo_map'] = dict_of(s, ci)
                    rows = [('tuple', tuple(const(cell if (r, k) == (2, 1) else 90 + r + k) for k in range(3))) for r in range(4)]
                    at_['_cell_xf_indexes'] = ('tuple', tuple(rows))
                    at_['_xf_index_stats'] = s.it.new_list(st, [const(0)] * 4)
                    st.heap[s.sheet[1]] = o.copy(attrs=at_)
                    s.run('xlrd.sheet.Sheet.cell_xf_index', [s.sheet, const(2), const(1)])
                    want = cell if cell > -1 else row if row is not None and row > -1 else \
                        (15 if col == -1 else col) if col is not None else 15
                    label = 'cell %d, row %s, column %s' % (cell, row, col)
                    report_value(c, R, s, want, label, 'version %d' % bv)


def report_value(c, R, s, want, label, extra=''):
    got = sole_value(s)
    if got is None:
        c.open(R, '%s (%s): %s' % (label, extra, brief(s.value or TOP, 60)))
    elif got == want and isinstance(got, bool) == isinstance(want, bool):
        c.ok(R, sample='%s -> %s' % (label, want))
    else:
        rets = [e for e in s.it.events if e.kind in ('return', 'raise')]
        c.bad(R, at(rets[-1]) if rets else 'xlrd/sheet.py', '%s (%s): yields %s, documented is %s' % (label, extra, got, want),
              '%s|%s' % (R, label))


def c35_width(c, R):
    for bv in (20, 21, 30, 40, 45, 50, 70, 80):
        for col in (None, 0, 3000):
            for std in (None, 0, 2560):
                for dfl in (None, 0, 9):
                    for gcw in (0, 1):
                        if not 40 <= bv < 80 and gcw:
                            continue
                        s = Setup(c.prog, bv)
                        st = s.st
                        ci = {} if col is None else {1: s.it.new_opaque(st, 'xlrd.sheet.Colinfo', 'ci', width=const(col))}
                        o = s.obj(s.sheet)
                        at_ = dict(o.attrs)
                        at_.update(colinfo_map=dict_of(s, ci), standardwidth=const(std), defcolwidth=const(dfl),
                                   gcw=('tuple', tuple(const(gcw if i == 1 else 1 - gcw) for i in range(256))))
                        st.heap[s.sheet[1]] = o.copy(attrs=at_)
                        s.run('xlrd.sheet.Sheet.computed_column_width', [s.sheet, const(1)])
                        want = None
                        if bv >= 80:
                            want = col if col is not None else std
                        elif bv >= 40:
                            want = std if gcw else col
                        elif bv == 30:
                            want = col
                        else:
                            if col is not None:
                                # versions 2.x keep their column widths in the same map (COLWIDTH); the order is not documented
                                continue
                        if want is None:
                            want = dfl * 256 if dfl is not None else 2048
                        label = 'column record %s, standard width %s, default width %s%s' % (
                            col, std, dfl, ', global flag %d' % gcw if 40 <= bv < 80 else '')
                        report_value(c, R, s, want, label, 'version %d' % bv)


def c35_req(c, R):
    for name, n in (('cell_xf_index', 2), ('computed_column_width', 1)):
        s = Setup(c.prog, 80, 0)
        s.run('xlrd.sheet.Sheet.' + name, [s.sheet] + [const(1)] * n)
        report_value(c, R, s, ('raise', 'XLRDError'), name + ' without formatting')


# ------------------------------------------------------------------ C15

KINDS = {0: ('str',), 1: ('str',), 2: ('float',), 3: ('float',), 4: ('int', 'bool'), 5: ('int',), 6: ('str',)}
CT_NAME = ('EMPTY', 'TEXT', 'NUMBER', 'DATE', 'BOOLEAN', 'ERROR', 'BLANK')


def kinds(t, depth=0):
    """set of Python types a term can have, None = unknown"""
    if depth > 60:
        return None
    tag = t[0]
    if tag == 'c':
        return {type(t[2]).__name__}
    if tag in ('u', 's', 'k'):
        return {'int'}
    if tag == 'd':
        return {'float'}
    if tag == 'lin':
        out = {'int'}
        for a, k in t[2]:
            ks = kinds(a, depth + 1)
            if ks is None or not ks <= {'int', 'float', 'bool'}:
                return None
            if ks == {'float'} or isinstance(k, float):
                out = {'float'}
            elif 'float' in ks and out != {'float'}:
                return None
        return out
    if tag == 'alts':
        return union([kinds(x, depth + 1) for x in t[1]])
    if tag == 'app':
        op = t[1]
        if op == 'ite':
            return union([kinds(t[3], depth + 1), kinds(t[4], depth + 1)])
        if op == 'table':
            return union([kinds(kv[1][1], depth + 1) for kv in t[3][1]])
        if op in ('float', '/', 'f64of'):
            return {'float'}
        if op in ('int', 'len', 'ord'):
            return {'int'}
        if op in ('decode', 'str', 'chr'):
            return {'str'}
        if op == 'cat':
            ks = [kinds(x, depth + 1) for x in t[2:]]
            if any(k == {'str'} for k in ks):
                return {'str'}
            if any(k == {'bytes'} for k in ks):
                return {'bytes'}
            return None
        if op == 'item' and t[2] in (('init', 'book', '_sharedstrings'), ('init', 'sheet', '_sharedstrings')):
            return {'str'}
        if op == 'item' and t[2][0] == 'init' and t[2][2] == '_xf_index_to_xl_type_map':
            return {'ctype'}
        if op in ('//', '%', '>>', '<<', '&', '|', '*', '+', '-') and len(t) == 4:
            a, b = kinds(t[2], depth + 1), kinds(t[3], depth + 1)
            if a is None or b is None:
                return None
            if a == b == {'int'}:
                return {'int'}
            if op in ('*', '+', '-', '//', '%') and a | b <= {'int', 'float'} and {'float'} in (a, b):
                return {'float'}
        if op in ('not', 'eq0', 'lt0', 'truth', 'bool', 'in', 'inset', 'cmp', 'is', 'and', 'or'):
            return {'bool'}
    if tag == 'slice':
        return {'bytes'} if t[1][0] == 'sym' and t[1][1] == 'data' else None
    return None


def union(xs):
    out = set()
    for x in xs:
        if x is None:
            return None
        out |= x
    return out


def ctypes_of(t):
    """set of cell type codes a term can denote, None = unknown"""
    if t == NONE:
        return {2, 3}           # looked up from the format index when the cell is stored (C22)
    if t[0] == 'c':
        return {t[2]}
    if t[0] == 'app' and t[1] == 'ite':
        a, b = ctypes_of(t[3]), ctypes_of(t[4])
        return None if a is None or b is None else a | b
    if t[0] == 'alts':
        return union([ctypes_of(x) for x in t[1]])
    if t[0] == 'app' and t[1] in ('item', 'method', 'get') and any(
            x[0] == 'init' and x[2] == '_xf_index_to_xl_type_map' for x in t[2:] if isinstance(x, tuple)):
        return {2, 3}
    return None


class AnyMap(dict):
    def __init__(self, f):
        self.f = f

    def __missing__(self, k):
        return self.f(k)


def c15_facts(s, job):
    out = []
    for e in s.it.events:
        if e.kind != 'put_cell':
            continue
        rowx, colx, ct, val, xf = e.data
        label = 'record 0x%x, version %d%s' % (job[1], job[2], '' if job[3] else ', no formatting')
        cts = ctypes_of(ct)
        ks = kinds(val)
        if cts is not None:
            odd = [x for x in cts if not (isinstance(x, int) and not isinstance(x, bool) and 0 <= x <= 6)]
            if odd and len(cts) == 1:
                out.append(('bad', e.where(), '%s: stores cell type %r, which does not exist' % (label, odd[0]), 'type'))
                continue
        if cts and ks:
            okk = [ks <= set(KINDS.get(x, ())) for x in cts]
            if all(okk):
                out.append(('ok', e.where(), '%s: type %s holds %s' % (label, '/'.join(CT_NAME[x] for x in sorted(cts)), '/'.join(sorted(ks))), ''))
                continue
            if len(cts) == 1 and not any(k in KINDS.get(x, ()) for x in cts for k in ks) or (
                    cts == {2, 3} and not (ks & {'float'})):
                out.append(('bad', e.where(), '%s: a %s cell is stored with a value of type %s'
                            % (label, '/'.join(CT_NAME[x] for x in sorted(cts) if x < 7), '/'.join(sorted(ks))), 'kind'))
                continue
        out.append(fold_types(s, e, label))
    for e in s.it.events:
        # cells put into the tables directly, past put_cell
        if e.kind == 'setitem' and e.data[0][0] == 'app' and e.data[0][1] == 'item' and e.data[0][2] in (
                ('init', 'sheet', '_cell_values'), ('init', 'sheet', '_cell_types')):
            table = e.data[0][2][2]
            v = e.data[2]
            if table == '_cell_types' and v[0] == 'c' and v[2] not in KINDS:
                out.append(('bad', e.where(), 'stores cell type %r' % (v[2],), 'direct'))
    return out


_C15ENVS = None


def c15_envs():
    global _C15ENVS
    if _C15ENVS is None:
        out = []
        base = E.vectors(24)
        for i, v in enumerate(base):
            for t in (0, 1, 2, 3, 4):
                if t and i % 4:
                    continue
                b = bytearray(v)
                if t:
                    b[6 + (1 if t & 1 else 0)] = (0, 1, 2, 3, 0)[t]
                    b[12:14] = b'\xff\xff'
                syms = {'data': bytes(b), 'data_len': len(b), 'enc': 'latin-1', 'xfx': 5, 'cond.match': 1}
                for n in ('rec1', 'rec2', 'rec3', 'cond'):
                    syms[n + '.data'] = bytes([3, 0, 0]) + v[3:]
                    syms[n + '.len'] = len(v)
                    syms[n + '.rc'] = 0x207
                inits = {('sheet', '_xf_index_to_xl_type_map'): AnyMap(lambda k: 2), ('book', '_xf_index_to_xl_type_map'): AnyMap(lambda k: 2),
                         ('book', '_sharedstrings'): ('s',) * 70000, ('book', '_rich_text_runlist_map'): {}, ('sheet', '_ixfe'): 77}
                out.append(E.Env(syms, inits))
        _C15ENVS = out
    return _C15ENVS


def fold_types(s, e, label):
    n = 0
    for env in c15_envs():
        try:
            its = run_events([e], env)
        except (E.Undef, E.Raised):
            continue
        for ev_, x in its:
            try:
                ct, v = E.ev(e.data[2], x), E.ev(e.data[3], x)
            except (E.Undef, E.Raised):
                continue
            n += 1
            if ct is None:
                ct = 2
            if ct not in KINDS:
                return ('bad', e.where(), '%s: stores cell type %r' % (label, ct), 'type')
            if type(v).__name__ not in KINDS[ct]:
                return ('bad', e.where(), '%s: a %s cell is stored with the %s %r' % (label, CT_NAME[ct], type(v).__name__, v), 'kind')
            if ct in (0, 6) and v != '':
                return ('bad', e.where(), '%s: a %s cell is stored with %r' % (label, CT_NAME[ct], v), 'kind')
    if n:
        return ('ok', e.where(), '%s: %d folded samples' % (label, n), '')
    return ('open', e.where(), '%s: value %s of type %s' % (label, brief(e.data[3], 60), brief(e.data[2], 40)), '')


def C15(c):
    """Every store of a cell found while interpreting each record type of each version is typed: the kinds of Python value its
    value term can have against the cell type codes its type term can have."""
    from ..sweep import sweep, record_opcodes, VERSIONS
    R = 'value-type'
    c.rule(R, 'the value stored has the Python type its cell type code promises, and the code is one of the seven')
    js = [('sheet', rc, bv, fmt, 0) for bv in VERSIONS for fmt in (0, 1) for rc in sorted(set(record_opcodes(c.prog).values()))]
    facts, visited, errs = sweep(c.prog, c15_facts, js)
    for kind, where, text, k in facts:
        if kind == 'ok':
            c.ok(R, sample=text)
        elif kind == 'open':
            c.open(R, '%s %s' % (where, text))
        else:
            c.bad(R, where, text, '%s|%s|%s' % (R, k, text))
    c.count('record_and_version_combinations', len(js))
    c.count('functions_interpreted', len(visited))
    for e in errs[:5]:
        c.errors.append(e)
    R2 = 'default-cells'
    c.rule(R2, 'cells made up to fill a row or a merged range are empty cells holding the empty string')
    c.guard(R2, c15_fill, c, R2)
    R3 = 'cell-object'
    c.rule(R3, 'the shared empty cell has type EMPTY and the empty string')
    c.guard(R3, c15_empty, c, R3)


def c15_empty(c, R):
    v = c.prog.func('xlrd.sheet.empty_cell')
    st = None
    if v is None:
        c.open(R, 'xlrd.sheet.empty_cell not found')
        return
    try:
        ct, val = c.prog.module_obj_attr(v, 'ctype'), c.prog.module_obj_attr(v, 'value')
    except Exception:
        m = c.prog.modules['xlrd.sheet']
        import ast
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == 'empty_cell' and isinstance(n.value, ast.Call):
                vals = []
                for a in n.value.args[:2]:
                    if isinstance(a, ast.Name):
                        x = c.prog.func('xlrd.sheet.' + a.id)
                        vals.append(x[2] if x is not None and x[0] == 'c' else None)
                    elif isinstance(a, ast.Constant):
                        vals.append(a.value)
                    elif isinstance(a, ast.Call) and a.args and isinstance(a.args[0], ast.Constant):
                        vals.append(a.args[0].value)
                    else:
                        vals.append(None)
                if None in vals or len(vals) != 2:
                    c.open(R, 'arguments %s' % vals)
                elif vals == [0, '']:
                    c.ok(R, sample='empty_cell = Cell(EMPTY, "")')
                else:
                    c.bad(R, '%s:%d' % (m.path, n.lineno), 'the shared empty cell has type %r and value %r' % tuple(vals), R)
                return
        c.open(R, 'construction not found')


def c15_fill(c, R):
    s = Setup(c.prog, 80)
    s.hook_put_cell()
    s.run('xlrd.sheet.Sheet.tidy_dimensions', [s.sheet])
    for e in s.it.events:
        if e.kind == 'put_cell':
            if e.data[2] == const(0) and e.data[3] == const(''):
                c.ok(R, sample='filler cell at the edge of a merged range')
            elif e.data[2][0] == 'c' and e.data[3][0] == 'c':
                c.bad(R, e.where(), 'a made-up cell has type %s and value %s' % (brief(e.data[2]), brief(e.data[3])), R + '|merged')
            else:
                c.open(R, brief(e.data[3]))
