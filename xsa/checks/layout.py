"""C31 binary layouts, C43 operand stack of the formula walkers."""
import ast
import struct

from .common import *
from .. import sweep as W


def unpack_facts(s, j):
    out = set()
    for e in s.it.events:
        if e.kind == 'unpack':
            fmt, data = e.data
            f = fmt[2] if fmt[0] == 'c' else None
            w = None
            if data[0] == 'slice':
                w = slice_width(data)
                if w is None and data[3] == END:
                    w = 'rest'
            elif data[0] == 'c' and isinstance(data[2], bytes):
                w = len(data[2])
            elif data[0] == 'sym':
                w = 'record'
            out.add(('unpack', e.where(), f, w, j[2]))
        elif e.kind == 'badunpack':
            out.add(('targets', e.where(), e.data[0][2], e.data[1][2], j[2]))
    return out


def extra_jobs(prog, visited):
    """functions no record dispatch reaches are interpreted on their own, with unknown arguments"""
    js = []
    for q in W.all_functions(prog):
        if q in visited or '<' in q or '.timemachine' in q:
            continue
        for bv in (21, 50, 80):
            js.append(('fn', q, bv, None, 0))
    return js


def C31(c):
    """Every record handler, formula walker and string reader is interpreted for every file version; at each unpack site
    the layout string and the width of the byte slice it is applied to are extracted, and the number of values is compared
    with the number of targets."""
    c.rule('size', 'the slice handed to a fixed-size layout has exactly the size of the layout')
    c.rule('targets', 'a layout yields exactly as many values as there are targets')
    c.rule('valid', 'the layout string is well formed and little-endian without alignment padding')
    js = [j for j in W.jobs(c.prog) if j[0] != 'formula' or j[2] in (21, 50, 80)]
    facts, visited, errs = W.sweep(c.prog, unpack_facts, js)
    ex = extra_jobs(c.prog, visited)
    f2, v2, e2 = W.sweep(c.prog, unpack_facts, ex)
    facts, visited = set(facts) | set(f2), visited | v2
    c.errors.extend((errs + e2)[:5])
    sites = {}
    for f in facts:
        if f[0] == 'unpack':
            sites.setdefault((f[1], f[2], f[3]), set()).add(f[4])
        else:
            bad_targets(c, f)
    known = set()
    for (where, fmt, w), bvs in sorted(sites.items(), key=repr):
        if fmt is None:
            c.open('valid', '%s: the layout is computed' % where)
            continue
        known.add(where)
        try:
            n = struct.calcsize(fmt)
        except (struct.error, TypeError):
            c.bad('valid', where, 'layout %r is not a struct format' % (fmt,), 'valid|%s|%r' % (where.split(' in ')[-1], fmt))
            continue
        if native(fmt):
            c.bad('valid', where, 'layout %r uses native byte order or alignment' % fmt, 'valid|%s|%r' % (where.split(' in ')[-1], fmt))
        else:
            c.ok('valid')
        if isinstance(w, int):
            if w != n:
                c.bad('size', where, 'layout %r takes %d bytes but is applied to a slice of %d (versions %s)' % (
                    fmt, n, w, sorted(bvs)), 'size|%s|%r|%s' % (where.split(' in ')[-1], fmt, w))
            else:
                c.ok('size', sample='%s %r on %d bytes' % (where, fmt, w))
        else:
            c.count('unpacked_from_%s' % (w or 'computed bounds'))
    static_sites(c, known)
    c.count('functions_interpreted', len(visited))
    c.count('record_cases', len(js))


def native(fmt):
    return not fmt[:1] in ('<', '>', '!', '=') and any(ch not in 'xcbB?sp0123456789' for ch in fmt)


def bad_targets(c, f):
    c.bad('targets', f[1], '%d values are assigned to %d targets (version %d)' % (f[2], f[3], f[4]),
          'targets|%s|%d|%d' % (f[1].split(' in ')[-1], f[2], f[3]))


UNPACKERS = {'unpack', 'local_unpack', 'struct.unpack', 'unpack_from'}


def is_unpack(n):
    if not isinstance(n, ast.Call):
        return False
    if isinstance(n.func, ast.Name):
        return n.func.id.endswith('unpack')
    return isinstance(n.func, ast.Attribute) and n.func.attr in ('unpack', 'unpack_from')


def static_sites(c, known):
    """literal layouts, wherever they are: number of values against number of targets"""
    for m in c.prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Assign) and is_unpack(n.value) and n.value.args and \
                    isinstance(n.value.args[0], ast.Constant) and isinstance(n.value.args[0].value, str):
                fmt = n.value.args[0].value
                try:
                    k = len(struct.unpack(fmt, bytes(struct.calcsize(fmt))))
                except struct.error:
                    continue
                for t in n.targets:
                    if isinstance(t, (ast.Tuple, ast.List)) and not any(isinstance(x, ast.Starred) for x in t.elts):
                        where = '%s:%d' % (m.path, n.lineno)
                        if len(t.elts) != k:
                            c.bad('targets', where, 'layout %r yields %d values for %d targets' % (fmt, k, len(t.elts)),
                                  'targets|%s|%r|%d' % (m.name, fmt, len(t.elts)))
                        else:
                            c.ok('targets', sample='%s %r' % (where, fmt))
