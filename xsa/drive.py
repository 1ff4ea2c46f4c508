"""Entry points: interpret one record dispatch / one handler under fixed opcode, version, options."""
import time

from .interp import *

STARTED = time.monotonic()
RUN_SECONDS = 90
ALL_SECONDS = 600


# record numbers as published (OpenOffice.org "Microsoft Excel File Format", MS-XLS)
OPCODES = {
    'XL_ARRAY': 0x221, 'XL_ARRAY2': 0x21, 'XL_BLANK': 0x201, 'XL_BLANK_B2': 0x1, 'XL_BOF': 0x809, 'XL_BOOLERR':
    0x205, 'XL_BOOLERR_B2': 0x5, 'XL_BOTTOMMARGIN': 0x29, 'XL_BOUNDSHEET': 0x85, 'XL_BOUNDSHEET_CHART': 0x2,
    'XL_BOUNDSHEET_VB_MODULE': 0x6, 'XL_BOUNDSHEET_WORKSHEET': 0x0, 'XL_BUILTINFMTCOUNT': 0x56, 'XL_CF': 0x1B1,
    'XL_CODEPAGE': 0x42, 'XL_COLINFO': 0x7D, 'XL_COLUMNDEFAULT': 0x20, 'XL_COLWIDTH': 0x24, 'XL_CONDFMT': 0x1B0,
    'XL_CONTINUE': 0x3C, 'XL_COUNTRY': 0x8C, 'XL_DATEMODE': 0x22, 'XL_DEFAULTROWHEIGHT': 0x225, 'XL_DEFCOLWIDTH':
    0x55, 'XL_DIMENSION': 0x200, 'XL_DIMENSION2': 0x0, 'XL_EFONT': 0x45, 'XL_EOF': 0xA, 'XL_EXTERNNAME': 0x23,
    'XL_EXTERNSHEET': 0x17, 'XL_EXTSST': 0xFF, 'XL_FEAT11': 0x872, 'XL_FILEPASS': 0x2F, 'XL_FONT': 0x31,
    'XL_FONT_B3B4': 0x231, 'XL_FOOTER': 0x15, 'XL_FORMAT': 0x41E, 'XL_FORMAT2': 0x1E, 'XL_FORMULA': 0x6,
    'XL_FORMULA3': 0x206, 'XL_FORMULA4': 0x406, 'XL_GCW': 0xAB, 'XL_HCENTER': 0x83, 'XL_HEADER': 0x14, 'XL_HLINK':
    0x1B8, 'XL_HORIZONTALPAGEBREAKS': 0x1B, 'XL_INDEX': 0x20B, 'XL_INTEGER': 0x2, 'XL_IXFE': 0x44, 'XL_LABEL':
    0x204, 'XL_LABELRANGES': 0x15F, 'XL_LABELSST': 0xFD, 'XL_LABEL_B2': 0x4, 'XL_LEFTMARGIN': 0x26,
    'XL_MERGEDCELLS': 0xE5, 'XL_MSO_DRAWING': 0xEC, 'XL_MSO_DRAWING_GROUP': 0xEB, 'XL_MSO_DRAWING_SELECTION':
    0xED, 'XL_MULBLANK': 0xBE, 'XL_MULRK': 0xBD, 'XL_NAME': 0x18, 'XL_NOTE': 0x1C, 'XL_NUMBER': 0x203,
    'XL_NUMBER_B2': 0x3, 'XL_OBJ': 0x5D, 'XL_PAGESETUP': 0xA1, 'XL_PALETTE': 0x92, 'XL_PANE': 0x41,
    'XL_PRINTGRIDLINES': 0x2B, 'XL_PRINTHEADERS': 0x2A, 'XL_QUICKTIP': 0x800, 'XL_RIGHTMARGIN': 0x27, 'XL_RK':
    0x27E, 'XL_ROW': 0x208, 'XL_ROW_B2': 0x8, 'XL_RSTRING': 0xD6, 'XL_SCL': 0xA0, 'XL_SHEETHDR': 0x8F,
    'XL_SHEETPR': 0x81, 'XL_SHEETSOFFSET': 0x8E, 'XL_SHRFMLA': 0x4BC, 'XL_SST': 0xFC, 'XL_STANDARDWIDTH': 0x99,
    'XL_STRING': 0x207, 'XL_STRING_B2': 0x7, 'XL_STYLE': 0x293, 'XL_SUPBOOK': 0x1AE, 'XL_TABLEOP': 0x236,
    'XL_TABLEOP2': 0x37, 'XL_TABLEOP_B2': 0x36, 'XL_TOPMARGIN': 0x28, 'XL_TXO': 0x1B6, 'XL_UNCALCED': 0x5E,
    'XL_VCENTER': 0x84, 'XL_VERTICALPAGEBREAKS': 0x1A, 'XL_WINDOW2': 0x23E, 'XL_WINDOW2_B2': 0x3E,
    'XL_WORKBOOK_GLOBALS_4W': 0x100, 'XL_WRITEACCESS': 0x5C, 'XL_XF': 0xE0, 'XL_XF2': 0x43, 'XL_XF3': 0x243,
    'XL_XF4': 0x443
}


def const_of(prog, name, mod='xlrd.biffh'):
    if name in OPCODES:
        return OPCODES[name]
    v = prog.func(mod + '.' + name)
    return v[2] if v is not None and v[0] == 'c' else None


class Setup(object):
    budget = 3000000

    def __init__(self, prog, bv=80, fmt=1, verbosity=0, ragged=0, hooks=None, book=None, sheet=None,
                 keep_encoding=False, maxsize=None):
        self.prog = prog
        self.it = Interp(prog)
        if maxsize:
            self.it.maxsize = maxsize
        self.st = State()
        self.bv = bv
        at = {
            'biff_version': const(bv), 'formatting_info': const(fmt), 'verbosity': const(verbosity),
            'logfile': ('sym', 'logfile'), 'ragged_rows': const(ragged),
        }
        at.update(book or {})
        if not keep_encoding:
            # the workbook encoding is one unknown; how it is derived is decided elsewhere
            at.setdefault('encoding', ('sym', 'enc'))
            self.it.hooks['xlrd.book.Book.derive_encoding'] = lambda *a: ('sym', 'enc')
        self.book = self.it.new_opaque(self.st, 'xlrd.book.Book', 'book', **at)
        sat = {
            'biff_version': const(bv), 'formatting_info': const(fmt), 'verbosity': const(verbosity),
            'logfile': ('sym', 'logfile'), 'ragged_rows': const(ragged), 'book': self.book,
        }
        sat.update(sheet or {})
        self.sheet = self.it.new_opaque(self.st, 'xlrd.sheet.Sheet', 'sheet', **sat)
        self.rec = self.it.alloc(self.st, HObj('rec', attrs={'n': const(0)}))
        self.value = None
        self.it.symkinds = {'data': 'bytes', 'data_len': 'int', 'enc': 'str'}
        self.it.initkinds = {('book', 'mem'): 'bytes', ('book', 'filestr'): 'bytes'}
        self.last_serial = -1
        for k, v in (hooks or {}).items():
            self.it.hooks[k] = v

    def hook_records(self, rc):
        """First record read of each iteration of the outermost loop is opcode rc."""
        it = self.it

        def parts(interp, st, fn, args, kwargs, node):
            if interp.iter_serial_outer() != self.last_serial:
                self.last_serial = interp.iter_serial_outer()
                h = interp.hget(st, self.rec[1])
                st.heap[self.rec[1]] = h.copy(attrs={'n': const(1)})
                return ('tuple', (const(rc), ('sym', 'data_len'), ('sym', 'data')))
            h = interp.hget(st, self.rec[1])
            n = h.attrs['n']
            name = 'rec%d' % (n[2] + 1) if n[0] == 'c' else 'recN'
            st.heap[self.rec[1]] = h.copy(attrs={'n': add(n, const(1))})
            interp.symkinds[name + '.data'] = 'bytes'
            interp.symkinds[name + '.rc'] = 'int'
            interp.symkinds[name + '.len'] = 'int'
            interp.emit('nextrec', (const(name),), st, node)
            return ('tuple', (('sym', name + '.rc'), ('sym', name + '.len'), ('sym', name + '.data')))

        def parts_cond(interp, st, fn, args, kwargs, node):
            interp.emit('nextrec', (const('cond'),), st, node)
            it.symkinds['cond.data'] = 'bytes'
            want = args[1] if len(args) > 1 else kwargs.get('reqd_record', TOP)
            return mk_ite(('app', 'truth', ('sym', 'cond.match')),
                          ('tuple', (want, ('sym', 'cond.len'), ('sym', 'cond.data'))),
                          ('tuple', (NONE, const(0), const(b''))))
        it.hooks['xlrd.book.Book.get_record_parts'] = parts
        it.hooks['xlrd.book.Book.get_record_parts_conditional'] = parts_cond

    def hook_put_cell(self):
        def put(interp, st, fn, args, kwargs, node):
            names = ('rowx', 'colx', 'ctype', 'value', 'xf_index')
            vals = list(args)
            d = dict(zip(names, vals))
            d.update(kwargs)
            interp.emit('put_cell', tuple(d.get(n, TOP) for n in names), st, node)
            return NONE
        for q in ('xlrd.sheet.Sheet.put_cell', 'xlrd.sheet.Sheet.put_cell_ragged',
                  'xlrd.sheet.Sheet.put_cell_unragged', '*put_cell'):
            self.it.hooks[q] = put

    def initialise_formatting(self):
        """the module-level half of opening: whatever is installed on the Book class"""
        fn = self.prog.func('xlrd.formatting.initialise_book')
        if fn is None:
            return
        dummy = self.it.new_opaque(self.st, 'xlrd.book.Book', 'dummybook')
        v, self.st = self.it.run(fn, [dummy], {}, self.st)
        del self.it.events[:]
        del self.it.iter_ends[:]

    def run(self, qual, args, kwargs=None, budget=None):
        budget = budget or self.budget
        fn = self.prog.func(qual)
        if fn is None:
            raise LookupError('anchor %s is gone' % qual)
        # a change that makes the terms explode ends undecided, not without an answer
        self.it.deadline = min(time.monotonic() + RUN_SECONDS, STARTED + ALL_SECONDS)
        self.value, self.st = self.it.run(fn, args, kwargs or {}, self.st, budget)
        return self

    def obj(self, ref):
        return self.it.hget(self.st, ref[1])


def sheet_record(prog, rc, bv, fmt=1, verbosity=0, ragged=0, hooks=None, unroll=None, **kw):
    s = Setup(prog, bv, fmt, verbosity, ragged, hooks, **kw)
    s.it.unroll = unroll or {}
    s.hook_records(rc)
    s.hook_put_cell()
    s.initialise_formatting()
    s.run('xlrd.sheet.Sheet.read', [s.sheet, s.book])
    return s


def globals_record(prog, rc, bv, fmt=1, verbosity=0, hooks=None, **kw):
    s = Setup(prog, bv, fmt, verbosity, 0, hooks, **kw)
    s.hook_records(rc)
    s.hook_put_cell()
    s.run('xlrd.book.Book.parse_globals', [s.book])
    return s
