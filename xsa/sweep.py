"""Interpret the whole reader once per record type, file version and formatting option, collecting chosen events.

Used by the rules that are about every construct of the reader rather than about one record."""
import ast
import multiprocessing
import os
import sys

from .drive import *

VERSIONS = (20, 21, 30, 40, 45, 50, 70, 80)


def record_opcodes(prog):
    """every record number the reader could compare with (constants XL_* of the package) plus the published ones"""
    out = dict(OPCODES)
    m = prog.modules.get('xlrd.biffh')
    if m is not None:
        for k, v in m.env.items():
            if k.startswith('XL_') and v[0] == 'c' and isinstance(v[2], int) and v[2] > 6:
                out.setdefault(k, v[2])
    return out


def jobs(prog, versions=VERSIONS, verbosities=(0,), fmts=(1,)):
    ops = sorted(set(record_opcodes(prog).values()))
    js = []
    for bv in versions:
        for vb in verbosities:
            for fmt in fmts:
                for rc in ops:
                    js.append(('sheet', rc, bv, fmt, vb))
                    js.append(('globals', rc, bv, fmt, vb))
        for fn in ('evaluate_name_formula', 'decompile_formula', 'dump_formula'):
            for vb in verbosities:
                js.append(('formula', fn, bv, None, vb))
    return js


# whole-stream drivers: interpreted once per record type, so not again inside their callers
BIG = ('xlrd.sheet.Sheet.read', 'xlrd.book.Book.parse_globals', 'xlrd.formula.evaluate_name_formula',
       'xlrd.formula.decompile_formula', 'xlrd.formula.dump_formula')

FIXED = {'biff_version', 'formatting_info', 'verbosity', 'logfile'}


def run_job(prog, j):
    kind = j[0]
    if kind == 'sheet':
        return [sheet_record(prog, j[1], j[2], fmt=j[3], verbosity=j[4])]
    if kind == 'ragged':
        return [sheet_record(prog, j[1], j[2], fmt=0, verbosity=0, ragged=j[3])]
    if kind == 'globals':
        hooks = {q: (lambda *a: NONE) for q in BIG if q != 'xlrd.book.Book.parse_globals'}
        return [globals_record(prog, j[1], j[2], fmt=j[3], verbosity=j[4], hooks=hooks)]
    if kind == 'formula':
        out = []
        fn, bv, vb = j[1], j[2], j[4]
        for op in range(0, 0x7f):
            s = Setup(prog, bv, verbosity=vb, maxsize=3000)
            s.budget = 30000
            fm = ('app', 'cat', const(b'\x1e\x01\x00' * 2 + bytes([op])), sl_(0, 40))
            n = 7
            try:
                if fn == 'evaluate_name_formula':
                    nobj = s.it.new_opaque(s.st, 'xlrd.book.Name', 'nobj', raw_formula=fm, basic_formula_len=const(n))
                    s.run('xlrd.formula.' + fn, [s.book, nobj, const(0), const(vb)])
                elif fn == 'decompile_formula':
                    s.run('xlrd.formula.' + fn, [s.book, fm, const(n)], {'fmlatype': const(1), 'browx': const(10), 'bcolx': const(5), 'blah': const(vb)})
                else:
                    s.run('xlrd.formula.' + fn, [s.book, fm, const(n), const(bv), const(0)], {'blah': const(1)})
            except LookupError:
                continue
            except Unsupported:
                pass
            out.append(s)
        return out
    if kind == 'fn':
        s = Setup(prog, j[2], fmt=1, verbosity=j[4])
        fn = prog.func(j[1])
        f = s.it.func_info(fn)
        args = []
        a = f.node.args
        cls = f.cls
        for i, p in enumerate(a.args):
            d = len(a.args) - i
            if i == 0 and cls:
                if cls == 'xlrd.book.Book':
                    args.append(s.book)
                elif cls == 'xlrd.sheet.Sheet':
                    args.append(s.sheet)
                else:
                    args.append(s.it.new_opaque(s.st, cls, 'self'))
            elif p.arg in ('book', 'bk', 'wkbook', 'wb'):
                args.append(s.book)
            elif p.arg in ('biff_version', 'bv'):
                args.append(const(j[2]))
            elif d <= len(a.defaults) and p.arg in ('blah', 'verbosity'):
                break
            else:
                if p.arg in ('data', 'mem', 'filestr', 'strg'):
                    s.it.symkinds[p.arg] = 'bytes'
                args.append(('sym', p.arg))
        for q in BIG:
            if q != j[1]:
                s.it.hooks[q] = lambda *a: NONE
        try:
            s.run(j[1], args, budget=60000)
        except Unsupported:
            pass                # what was seen before giving up still counts
        return [s]
    raise ValueError(kind)


def sl_(lo, hi):
    return mk_slice(('sym', 'data'), const(lo), const(hi))


_STATE = {}


def _work(chunk):
    import gc
    gc.disable()
    prog, select = _STATE['prog'], _STATE['select']
    sys.setrecursionlimit(20000)
    out = []
    visited = set()
    errs = []
    for j in chunk:
        try:
            for s in run_job(prog, j):
                visited |= s.it.visited
                out.extend(select(s, j))
        except Exception as e:
            errs.append('%s: %s %s' % (j, type(e).__name__, str(e)[:100]))
    return out, visited, errs


def sweep(prog, select, js, workers=8):
    """select(setup, job) -> picklable facts; -> (facts in job order, functions visited, errors)"""
    _STATE['prog'], _STATE['select'] = prog, select
    import gc
    gc.collect()
    gc.freeze()
    n = max(1, min(workers * 6, len(js)))
    chunks = [js[i::n] for i in range(n)]
    if workers > 1 and len(js) > 4:
        ctx = multiprocessing.get_context('fork')
        with ctx.Pool(workers) as pool:
            res = pool.map(_work, chunks, 1)
    else:
        res = [_work(c) for c in chunks]
    facts, visited, errs = [], set(), []
    for f, v, e in res:
        facts.extend(f)
        visited |= v
        errs.extend(e)
    return facts, visited, errs


def all_functions(prog):
    """qualified names of module-level functions and methods"""
    out = []
    for q in prog.funcs:
        f = prog.funcs[q]
        out.append(f.qual)
    return sorted(set(out))
