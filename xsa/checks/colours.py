"""C86 nearest colour."""
import random
from .common import *

Q = 'xlrd.formatting.nearest_colour_index'


def maps():
    """index -> name of an unknown colour, or None for an entry without colour"""
    yield {5: 'a'}
    yield {64: 'a', 9: 'b'}
    yield {1: None, 12: 'a', 3: 'b'}
    yield {12: 'a', 63: None, 8: 'b', 10: 'c'}
    yield {7: 'a', 65: None, 2: 'b', 66: None, 30: 'c', 0: 'd'}
    yield {0: 'a', 1: 'b', 2: 'c', 3: 'd', 4: 'e', 5: 'f'}


def colours(n, rnd):
    """a target and n candidates; ties and exact matches included"""
    corner = (0, 0, 0), (255, 255, 255), (255, 0, 0), (0, 255, 0), (0, 0, 255), (127, 128, 129), (1, 0, 0), (0, 1, 0), (0, 0, 1)
    for t in corner:
        for i in range(len(corner)):
            yield t, [corner[(i + j * (1 + i % 3)) % len(corner)] for j in range(n)]
    for _ in range(120):
        t = tuple(rnd.randrange(256) for _ in range(3))
        near = [tuple(min(255, max(0, v + rnd.choice((-3, -2, -1, 0, 1, 2, 3)))) for v in t) for _ in range(n)]
        far = [tuple(rnd.randrange(256) for _ in range(3)) for _ in range(n)]
        yield t, near
        yield t, far
        yield t, [rnd.choice((a, b)) for a, b in zip(near, far)]
        p = list(far)
        p[rnd.randrange(n)] = t
        yield t, p


def nearest(c):
    f = c.prog.func(Q)
    if f is None:
        c.open('nearest', 'nearest_colour_index was not found')
        return
    rnd = random.Random(3)
    for m in maps():
        s = Setup(c.prog, 40, maxsize=200000)
        names = [x for x in m.values() if x]
        for x in names + ['t']:
            for ch in 'rgb':
                s.it.symkinds[x + ch] = 'int'

        def rgb(x):
            return ('tuple', tuple(('sym', x + ch) for ch in 'rgb'))
        d = s.it.alloc(s.st, HObj('dict', items=tuple((const(k), rgb(v) if v else NONE) for k, v in m.items())))
        s.run(Q, [d, rgb('t')])
        fi = s.it.func_info(f)
        at = '%s:%d in %s' % (fi.module.path, fi.node.lineno, fi.qual)
        what = 'a palette of %s' % ', '.join('%d%s' % (k, '' if v else ' (no colour)') for k, v in m.items())
        und = n = 0
        bad = None
        for t, cand in colours(len(names), rnd):
            at_ = dict(zip(names, cand))
            env = E.Env({x + ch: v for x, col in list(at_.items()) + [('t', t)] for ch, v in zip('rgb', col)})
            dist = {k: sum((p - q) ** 2 for p, q in zip(at_[v], t)) for k, v in m.items() if v}
            try:
                g = E.ev(s.value, env)
            except E.Undef:
                und += 1
                continue
            except E.Raised:
                g = None
            n += 1
            if g not in dist or dist[g] != min(dist.values()):
                bad = (t, {k: at_[v] for k, v in m.items() if v}, g)
                break
        c.count('samples_folded', n)
        if bad:
            c.bad('nearest', at, '%s: for the colour %s among %s the index %s is chosen, which is not the nearest' % ((what,) + bad), 'nearest')
        elif und:
            c.open('nearest', '%s: %d of %d undecided' % (what, und, n + und))
        else:
            c.ok('nearest', sample=what)


def C86(c):
    """nearest_colour_index is interpreted on palettes of one to six entries in which the colours are unknown and some entries have none; the index it
returns, a term over the colour components, is folded over exact matches, ties, near and far colours and must name an entry at the least squared
distance."""
    c.rule('nearest', 'the index returned is that of an entry with a colour at the least squared distance')
    c.guard('nearest', nearest, c)
