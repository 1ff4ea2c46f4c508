"""Writes /verif/properties.jsonl (kept as code so that the list is easy to review and edit)."""
import json, os
P = []
TESTS = "The existing tests open about twenty fixture files with default options and compare a few values"


def p(id, title, statement, over, text, why, files, mech, state=(), observe=None):
    assert len(title) <= 80, title
    a = {'files': ['xlrd/' + f if '/' not in f else f for f in files],
         'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why, 'anchors': a})


# ------------------------------------------------------------------ resources
p('C01', 'Opening a workbook never leaks the file mapping or file handles',
  'Whenever opening a workbook ends with an exception, and whenever it ends normally without on-demand loading, '
  'every memory mapping and every file handle the call acquired has been closed by the time control returns to the '
  'caller. Leaving a with-block on a workbook closes them as well, whether or not the block raised.',
  ['inputs', 'fault_sequences', 'configurations'],
  'all file contents, all points at which decoding can raise, all option combinations',
  TESTS + '; no test makes decoding fail half way and then looks at open handles.',
  ['book.py', '__init__.py'],
  [('cleanup around the whole load', 'xlrd/book.py open_workbook_xls'),
   ('explicit release', 'xlrd/book.py Book.release_resources, Book.__exit__'),
   ('scoped file handles', 'xlrd/book.py Book.biff2_8_load, xlrd/__init__.py inspect_format/open_workbook')],
  [('map, file and compound-document buffers', 'bytes of the workbook held while loading')])

p('C02', 'Releasing a workbook is complete, repeatable, and keeps loaded sheets usable',
  'Releasing the resources of a workbook closes its memory mapping and drops every raw buffer it holds, and doing it '
  'again is harmless. Sheets already loaded stay fully readable, and asking for a sheet that is not loaded afterwards '
  'raises the library error rather than any other exception.',
  ['histories', 'inputs'], 'all sequences of load, unload and release calls on a workbook',
  TESTS + '; only one test calls release at all.',
  ['book.py'], [('release', 'xlrd/book.py Book.release_resources'),
                ('load gate', 'xlrd/book.py Book.get_sheet'), ('unload', 'xlrd/book.py Book.unload_sheet')],
  [('released flag', 'set once, consulted before loading a sheet')])

p('C03', 'Reading a workbook is free of side effects and hidden inputs',
  'Opening and reading a workbook never creates, writes, renames or deletes files, never executes code or programs '
  'taken from the workbook, never changes interpreter-wide settings, and never lets the clock, random numbers, '
  'environment variables or the current locale influence what is read.',
  ['inputs', 'configurations'], 'all workbooks and options',
  TESTS + '; absence of an effect on every path cannot be sampled.',
  ['book.py', 'sheet.py', 'formula.py', 'formatting.py', 'compdoc.py', 'biffh.py', '__init__.py'],
  [('the only file access is the read-only open of the given path', 'xlrd/book.py Book.biff2_8_load'),
   ('formula evaluator works on a fixed operator table', 'xlrd/formula.py evaluate_name_formula')])

p('C04', 'Diagnostics go only to the log destination the caller chose',
  'Every warning and trace message produced while opening or reading a workbook is written to the logfile object '
  'passed by the caller, and nothing is written to standard output or standard error when another logfile is given.',
  ['inputs', 'configurations'], 'all workbooks, verbosity levels and option combinations',
  TESTS + ' and never inspect which stream a warning reached.',
  ['book.py', 'sheet.py', 'formula.py', 'formatting.py', 'compdoc.py', 'biffh.py', '__init__.py'],
  [('message writers', 'xlrd/biffh.py fprintf, hex_char_dump, BaseObject.dump; every print(...) call')])

p('C05', 'Verbosity never changes what is read',
  'For any workbook, the cells, names, formats and other data obtained, and whether and how opening fails, are the '
  'same at every verbosity level; verbosity only adds log output.',
  ['inputs', 'configurations'], 'all workbooks, all pairs of verbosity levels',
  TESTS + ' at verbosity 0 only; the verbose branches are hardly executed at all.',
  ['book.py', 'sheet.py', 'formula.py', 'formatting.py', 'compdoc.py'],
  [('verbosity-guarded branches', 'all if blah / if self.verbosity >= n statements')])

p('C06', 'The result does not depend on how the workbook bytes were supplied',
  'Opening the same bytes by file name with memory mapping, by file name without it, or as an in-memory string '
  'yields the same workbook or the same error.',
  ['configurations', 'inputs'], 'all workbooks, three ways of supplying the bytes',
  TESTS + ' mostly by file name with mapping enabled.',
  ['book.py', 'compdoc.py', '__init__.py'],
  [('storage selection', 'xlrd/book.py Book.biff2_8_load'), ('stream access', 'xlrd/compdoc.py CompDoc')])

p('C07', 'Workbooks opened in one process are independent of each other',
  'Opening, reading, mutating or failing to open one workbook never changes what any other workbook opened before or '
  'after it in the same process shows.',
  ['histories', 'schedules'], 'all interleavings of operations on several workbooks',
  TESTS + ', one workbook at a time.',
  ['book.py', 'sheet.py', 'formula.py', 'formatting.py', 'compdoc.py', 'biffh.py'],
  [('per-instance containers', 'constructors of Book, Sheet, Name, XF, Font and friends'),
   ('module tables', 'module level dictionaries and lists')])

p('C08', 'Accessors that return rows, columns or lists hand out fresh copies',
  'Every list returned by the row, column, sheet-list and sheet-name accessors is a new object on each call: a caller '
  'that changes it changes neither the workbook nor the result of any later call.',
  ['histories', 'inputs'], 'all sequences of accessor calls and mutations of their results',
  TESTS + ' but never mutate a result and read again.',
  ['book.py', 'sheet.py'],
  [('accessors', 'xlrd/sheet.py Sheet.row, row_types, row_values, row_slice, col_slice, col_types, col_values; '
    'xlrd/book.py Book.sheets, sheet_names')])

p('C09', 'On-demand loading yields the same sheets in every load order',
  'A sheet loaded on demand has exactly the content it has when everything is loaded up front, whichever sheets were '
  'loaded, unloaded or re-loaded before it and in whatever order; loading one sheet does not disturb sheets already '
  'loaded.',
  ['histories', 'configurations'], 'all load/unload orders of the sheets of any workbook',
  TESTS + '; one test loads sheets on demand, in one order.',
  ['book.py', 'sheet.py'],
  [('position save and restore', 'xlrd/sheet.py Sheet.read'), ('loading', 'xlrd/book.py Book.get_sheet, unload_sheet')],
  [('stream position', 'shared read cursor of the workbook')])

p('C10', 'Sheet names, order, visibility and stream positions stay aligned',
  'The n-th sheet name, visibility, sheet object and stream position always belong to the same worksheet: the tables '
  'grow together, by exactly one entry for each worksheet record accepted and by none for records that are skipped, '
  'and look-up by name, by index and by iteration agree.',
  ['inputs'], 'all workbook globals streams of every file version',
  TESTS + '; hidden sheets, macro sheets, chart sheets and version 4 workbooks are barely covered.',
  ['book.py'],
  [('sheet records', 'xlrd/book.py Book.handle_boundsheet, handle_sheethdr, handle_sheetsoffset, fake_globals_get_sheet'),
   ('look-up', 'xlrd/book.py Book.sheet_by_index, sheet_by_name, get_sheet')],
  [('parallel tables', 'names, visibility, absolute positions, sheet list, external sheet map')])

# ------------------------------------------------------------------ cells
p('C11', 'The cell type, value and format tables of a sheet keep the same shape',
  'At any time the table of cell types, the table of cell values and (with formatting) the table of format indexes of '
  'a sheet have the same number of rows and the same length in every row, and one stored cell updates all of them at '
  'the same position and disturbs no other cell. Once a sheet is loaded its row and column counts are the extent of the '
  'stored cells and merged ranges, and without ragged rows every row has that many columns.',
  ['inputs', 'configurations'], 'all sequences of cells in any row/column order, ragged or not, formatting on or off',
  TESTS + ', whose cells arrive in nearly sorted order.',
  ['sheet.py'],
  [('cell storage', 'xlrd/sheet.py Sheet.put_cell_ragged, put_cell_unragged, extend_cells, tidy_dimensions')],
  [('three parallel row tables', 'types, values, format indexes')])

p('C12', 'Numeric cell records decode to the right cell and value',
  'Every numeric cell record of every supported file version is stored at the row and column it names, with the value '
  'its floating-point, integer or packed encoding denotes and the format index it carries; a multi-cell record yields '
  'exactly one cell per packed entry, at consecutive columns from its first column to its last.',
  ['inputs'], 'all record contents of NUMBER, INTEGER, RK and MULRK in versions 2.0 to 8',
  TESTS + '; packed flags, negative packed integers and old versions are sampled at best.',
  ['sheet.py'], [('cell dispatch', 'xlrd/sheet.py Sheet.read'), ('packed numbers', 'xlrd/sheet.py unpack_RK')])

p('C13', 'Text cell records decode to the right cell and string',
  'Every text cell record is stored at the row and column it names, as a text cell, with its format index, and with '
  'the string its version prescribes: the referenced shared string in version 8 label records, the embedded string '
  'with an 8-bit or 16-bit length in the older ones, decoded with the workbook encoding or as UTF-16/Latin-1 by its flag. '
  'Formatting runs attached to it are recorded for that same cell.',
  ['inputs'], 'all record contents of LABEL, LABELSST and RSTRING in versions 2.0 to 8',
  TESTS + '; only version 8 shared strings are well covered.',
  ['sheet.py', 'biffh.py'], [('cell dispatch', 'xlrd/sheet.py Sheet.read'),
                             ('string unpacking', 'xlrd/biffh.py unpack_string, unpack_unicode, unpack_string_update_pos')])

p('C14', 'Formula results, booleans, errors and blanks decode to the right cell',
  'A formula cell shows its cached result: a number, the text of the string record that follows, a boolean, an error '
  'code or empty text, as selected by its result bytes; boolean/error records distinguish the two by their flag. Each is '
  'stored at the row and column the record names with its format index, and blank records are stored only when '
  'formatting information was requested.',
  ['inputs', 'configurations'], 'all record contents of FORMULA, BOOLERR, BLANK, MULBLANK in versions 2.0 to 8',
  TESTS + '; error and empty-string results, and versions before 5, are not covered.',
  ['sheet.py'], [('cell dispatch', 'xlrd/sheet.py Sheet.read'),
                 ('string results', 'xlrd/sheet.py Sheet.string_record_contents')])

p('C15', 'A cell value always has the Python type its cell type promises',
  'Text cells hold str, number and date cells hold float, boolean and error cells hold int, and empty and blank cells '
  'hold the empty string; no other cell type code is ever stored.',
  ['inputs', 'configurations'], 'all cell records of all file versions, including placeholder cells',
  TESTS + ' on the value kinds the fixtures happen to contain.',
  ['sheet.py', 'formatting.py'],
  [('cell stores', 'xlrd/sheet.py every put_cell call and the placeholder rows of put_cell/tidy_dimensions'),
   ('format classification', 'xlrd/formatting.py xf_epilogue, fill_in_standard_formats')])

# -------------------------------------------------------------- formatting
p('C16', 'Cell-format (XF) records decode bit-exactly in every file version',
  'Every attribute of a cell format (font, number format, parent, protection, alignment, rotation, borders, line '
  'colours, background and the used-attribute flags) equals the bit field that the file format assigns to it in that '
  'version, and format indexes are assigned in record order.',
  ['inputs'], 'all XF records of versions 2.1, 3, 4, 5/7 and 8',
  TESTS + '; one fixture checks some borders and backgrounds in version 8.',
  ['formatting.py'], [('XF decoding', 'xlrd/formatting.py handle_xf, upkbits, upkbitsL')])

p('C17', 'Font, style, number-format and palette records decode exactly',
  'Every attribute of a font, of a named or built-in style, of a number format and of a custom palette equals the '
  'field that the file format assigns to it in that version, and fonts, formats and colours are numbered as Excel does '
  '(fonts skip index 4, palette entries start at 8).',
  ['inputs'], 'all FONT, STYLE, FORMAT and PALETTE records of versions 2 to 8',
  TESTS + '; a handful of version 8 records.',
  ['formatting.py'], [('decoders', 'xlrd/formatting.py handle_font, handle_efont, handle_style, handle_format, handle_palette')])

p('C18', 'Row and column format records decode exactly and only when requested',
  'Each row and column attribute (height, width, hidden, outline level, collapsed, format index and the like) equals '
  'the bit field assigned to it by the file format in that version, for exactly the rows or columns named, and is '
  'recorded only when formatting information was requested.',
  ['inputs', 'configurations'], 'all ROW, COLINFO, COLWIDTH, COLUMNDEFAULT, DEFAULTROWHEIGHT, DEFCOLWIDTH, STANDARDWIDTH, GCW records',
  TESTS + '; a few version 8 rows.',
  ['sheet.py'], [('decoders', 'xlrd/sheet.py Sheet.read branches for row and column records')])

p('C19', 'Sheet view, pane and magnification records decode exactly',
  'Window options, first visible row and column, frozen or split panes, grid-line colour and the cached zoom factors '
  'reported for a sheet equal the fields the file format assigns to them in that version.',
  ['inputs'], 'all WINDOW2, PANE and SCL records of versions 2 to 8',
  TESTS + '; no test looks at panes or zoom.',
  ['sheet.py'], [('decoders', 'xlrd/sheet.py Sheet.read branches XL_WINDOW2, XL_WINDOW2_B2, XL_SCL, XL_PANE; update_cooked_mag_factors')])

p('C20', 'Merged ranges, page breaks, label ranges, links and comments decode exactly',
  'Merged-cell ranges, page breaks, label ranges, hyperlinks and comments are reported with the rows and columns the '
  'records name, turned into half-open ranges, one entry per item in the record, for every item count.',
  ['inputs'], 'all MERGEDCELLS, page break, LABELRANGES, HLINK, QUICKTIP and NOTE records',
  TESTS + '; merged cells and a few links in version 8.',
  ['sheet.py', 'biffh.py'], [('decoders', 'xlrd/sheet.py Sheet.read, handle_hlink, handle_quicktip, handle_note'),
                             ('range lists', 'xlrd/biffh.py unpack_cell_range_address_list_update_pos')])

p('C21', 'Asking for formatting does not change the non-empty cells',
  'For any sheet, the non-blank cells and their types and values are the same whether or not formatting information '
  'was requested, and whether or not ragged rows were requested.',
  ['inputs', 'configurations'], 'all workbooks, all combinations of the two options',
  TESTS + ' with one option setting per file.',
  ['sheet.py', 'book.py', 'formatting.py'],
  [('option-guarded branches', 'xlrd/sheet.py Sheet.read, put_cell_*; xlrd/book.py parse_globals')])

p('C22', 'Number cells are classified as dates exactly by their number format',
  'A numeric cell becomes a date cell exactly when the number format its cell format selects is a date format; every '
  'built-in format index has one classification, the same in every table that mentions it, and every format type maps '
  'to a numeric cell type.',
  ['inputs', 'configurations'], 'all format indexes, all combinations of present and missing format records',
  TESTS + '; one or two date formats.',
  ['formatting.py', 'sheet.py', 'biffh.py'],
  [('classification tables', 'xlrd/formatting.py std_format_code_types, std_format_strings, _cellty_from_fmtty'),
   ('mapping', 'xlrd/formatting.py handle_xf, xf_epilogue, handle_format; xlrd/sheet.py put_cell_*')])

# -------------------------------------------------------------- strings
p('C23', 'All string readers interpret lengths, options and encodings alike',
  'Every reader of a Unicode string takes the character width, the presence of formatting runs and of phonetic data '
  'from the same option bits, decodes wide characters as UTF-16 and narrow ones as Latin-1, and reports the position '
  'just after the string and its optional parts; byte-string readers take exactly the announced number of bytes.',
  ['inputs'], 'all strings, option bytes, length-field sizes and starting positions',
  TESTS + '; strings with both phonetic data and formatting runs are rare.',
  ['biffh.py', 'book.py', 'sheet.py'],
  [('readers', 'xlrd/biffh.py unpack_string, unpack_string_update_pos, unpack_unicode, unpack_unicode_update_pos; '
    'xlrd/book.py unpack_SST_table')])

p('C24', 'The caller-supplied encoding overrides what the file says',
  'When an encoding override is given it is used for every byte string of the workbook whatever code page record the '
  'file contains and wherever it appears; otherwise the code page decides, and version 8 text is always Unicode.',
  ['inputs', 'configurations'], 'all positions of the code page record, all versions, with and without override',
  TESTS + '; one test passes an override.',
  ['book.py'], [('derivation', 'xlrd/book.py Book.derive_encoding, handle_codepage, handle_writeaccess')])

# -------------------------------------------------------------- robustness
p('C25', 'Encrypted, unsupported and foreign files are rejected with the library error',
  'Password-protected workbooks, versions the library does not read, and recognised files of other kinds always '
  'raise the library error with no workbook returned, at any verbosity, and every kind of file the detector can '
  'report has a human-readable description.',
  ['inputs', 'configurations'], 'all workbooks and foreign files',
  TESTS + '; one encrypted-looking file.',
  ['book.py', '__init__.py', 'sheet.py'],
  [('rejections', 'xlrd/book.py handle_filepass, getbof; xlrd/__init__.py open_workbook, inspect_format')])

p('C26', 'Every supported file version has an entry in every version-keyed table',
  'Any version number that opening can establish is handled everywhere the reader looks something up by version, so '
  'no workbook that passes version detection fails later for lack of a table entry.',
  ['inputs', 'configurations'], 'all version codes accepted by version detection',
  TESTS + ' of versions 5 to 8 nearly always.',
  ['biffh.py', 'book.py', 'sheet.py', 'formula.py', 'formatting.py'],
  [('version-keyed tables', 'dictionaries and if-chains on the version number')])

p('C27', 'Reading always terminates, whatever the file contains',
  'Every loop that consumes a stream, a record, a sector chain, a directory or a formula makes progress on each '
  'iteration or stops, so no file can make opening or reading run forever.',
  ['inputs'], 'all byte strings offered as a workbook',
  TESTS + '; well-formed files cannot show a hang.',
  ['book.py', 'sheet.py', 'compdoc.py', 'formula.py', 'biffh.py', 'formatting.py'],
  [('loops', 'every while loop and recursive call of the package')])

p('C28', 'Corrupt sector chains and directories of a compound file are reported',
  'When the sector tables or the directory of a compound file chain to a sector that is out of range, already in use '
  'or missing, the library error is raised instead of returning data, unless the caller asked to ignore workbook '
  'corruption.',
  ['inputs', 'configurations'], 'all compound-file sector tables and directories',
  TESTS + '; two fixtures with one kind of corruption.',
  ['compdoc.py', 'book.py'], [('chain walking', 'xlrd/compdoc.py CompDoc.__init__, _get_stream, _locate_stream')],
  [('seen table', 'which sector was used by which chain')])

p('C29', 'Decoding errors are never silently swallowed',
  'An exception raised while decoding is either passed on to the caller or turned into the library error: no handler '
  'of a broad class of exceptions drops one and carries on with partial data.',
  ['inputs', 'fault_sequences'], 'all exception handlers, all exceptions that can reach them',
  TESTS + '; handlers are hardly ever entered.',
  ['book.py', 'sheet.py', 'compdoc.py', 'formula.py', 'formatting.py', 'biffh.py', '__init__.py'],
  [('handlers', 'every except clause of the package')])

p('C30', 'Names and cross references resolve at run time',
  'Every global name, imported name, attribute of a module and option used by the library and its command-line tool '
  'exists, and every call supplies arguments its target accepts, so that no path fails merely because a name is '
  'missing.',
  ['inputs', 'programs'], 'all paths through the library and the command-line script',
  'Paths that no fixture reaches are never executed by the tests; a misspelt name shows only there.',
  ['book.py', 'sheet.py', 'compdoc.py', 'formula.py', 'formatting.py', 'biffh.py', '__init__.py', 'xldate.py', 'scripts/runxlrd.py'],
  [('name use', 'all modules')])

p('C31', 'Format strings, slices and targets of binary unpacking agree in size',
  'Wherever a fixed-size binary layout is unpacked, the number of bytes taken equals the size of the layout and the '
  'number of fields equals the number of variables that receive them, for every file version.',
  ['inputs', 'programs'], 'all unpacking sites of the package in every version branch',
  'A mismatch fails only when a record of that kind and version is present; fixtures contain a fraction of them.',
  ['book.py', 'sheet.py', 'compdoc.py', 'formula.py', 'formatting.py', 'biffh.py'],
  [('unpacking', 'every struct.unpack / local unpack helper')])

# ------------------------------------------------------------------ api
p('C32', 'Date conversion yields only valid dates or a date error',
  'Converting any finite serial number in either date system yields the real calendar date and time of that serial '
  '(year 1900 to 9999, hour below 24, minutes and seconds below 60; a serial below one day yields a time of day with a '
  'zero date), or raises one of the documented date errors; the ambiguous and out-of-range regions always raise. '
  'The inverse conversions return the serial of a real date and raise a documented error for anything else.',
  ['inputs'], 'all float serial numbers, both date modes, all calendar triples for the inverse',
  TESTS + ' a few dozen dates.',
  ['xldate.py'], [('conversion', 'xlrd/xldate.py xldate_as_tuple, xldate_as_datetime, xldate_from_date_tuple, xldate_from_time_tuple')])

p('C33', 'Every option of the open call reaches the place it controls',
  'Each option passed to the open function (log destination, verbosity, mapping, contents, encoding override, '
  'formatting, on-demand, ragged rows, ignore corruption) governs the workbook with the value passed, and omitted '
  'options take their documented defaults.',
  ['configurations'], 'all option combinations',
  TESTS + ' with very few non-default options.',
  ['__init__.py', 'book.py', 'sheet.py'],
  [('wiring', 'xlrd/__init__.py open_workbook; xlrd/book.py open_workbook_xls, Book.biff2_8_load; xlrd/sheet.py Sheet.__init__')])

p('C34', 'Row and column slices follow Python slice semantics for any bounds',
  'For rectangular sheets, column slices for any start and end, negative or beyond the edge, return exactly the cells '
  'the equivalent Python slice of the full column would, and the row and column variants that return cells, types or '
  'values agree cell by cell.',
  ['inputs', 'histories'], 'all start and end arguments, all sheet sizes',
  TESTS + ' a few bounds on one sheet.',
  ['sheet.py'], [('accessors', 'xlrd/sheet.py Sheet.row_slice, row_types, row_values, col_slice, col_types, col_values')])

p('C35', 'Format lookup falls back cell, then row, then column; width likewise',
  'The format index of a cell is its own if the cell exists, else that of its row if the row has one, else that of its '
  'column, else the default; the width of a column is its own record, else the standard width, else the default width '
  'converted to the same unit, in the order documented for the file version.',
  ['inputs'], 'all combinations of present and missing cell, row and column records',
  TESTS + ' at most one of the fall-backs.',
  ['sheet.py'], [('look-ups', 'xlrd/sheet.py Sheet.cell_xf_index, computed_column_width')])

p('C36', 'Defined-name records decode exactly and are scoped to the right sheet',
  'Flags, built-in code, name text, formula bytes and owning sheet of every defined name equal the fields the file '
  'format assigns to them in that version, and the name maps contain each name under its lower-cased text and scope.',
  ['inputs'], 'all NAME records of versions 2 to 8',
  TESTS + '; one fixture with names.',
  ['book.py'], [('decoder', 'xlrd/book.py Book.handle_name, names_epilogue')])

p('C37', 'Cell addresses inside formulas decode exactly, absolute or relative',
  'Row, column and the relative flags of every cell and area reference in a formula equal the bit fields of its '
  'version; relative references are shifted by the base cell, and signed where the file format says so.',
  ['inputs'], 'all reference tokens, both layouts, shared and ordinary formulas',
  TESTS + '; formulas are hardly exercised.',
  ['formula.py'], [('decoders', 'xlrd/formula.py get_cell_addr, get_cell_range_addr, adjust_cell_addr_biff8, adjust_cell_addr_biff_le7')])

p('C38', 'Formula token and function tables are complete and consistent',
  'The token-size tables, token-name tables, function tables and operator tables used to walk formulas agree with '
  'each other and with the published file format, for every token a version can contain.',
  ['inputs', 'programs'], 'all token codes, all function codes, all versions',
  TESTS + '; they touch a dozen of several hundred entries.',
  ['formula.py'], [('tables', 'xlrd/formula.py szdict, onames, func_defs, binop_rules, unop_rules, tAttrNames')])

p('C39', 'The file version is detected by the documented rule',
  'The version established for a workbook is exactly the one its beginning-of-file record denotes: by record type for '
  'versions 2 to 4, and by version field, build and year for 5, 7 and 8; anything else raises the library error.',
  ['inputs'], 'all beginning-of-file records',
  TESTS + ' of a few writers.',
  ['book.py'], [('detection', 'xlrd/book.py Book.getbof')])

p('C40', 'Compound-file header, directory entries and stream choice decode exactly',
  'Sector sizes, table counts and locations and the name, links, start and size of each directory entry equal the '
  'fields of the published layout, and a stream is read from the short-sector container exactly when it is smaller '
  'than the cut-off the header states.',
  ['inputs'], 'all compound-file headers and directory entries',
  TESTS + ' written by a few writers with default sector sizes.',
  ['compdoc.py'], [('decoding', 'xlrd/compdoc.py CompDoc.__init__, DirNode, get_named_stream, locate_named_stream')])

p('C41', 'Error codes, cell type names and public constant tables are complete',
  'Every error code the file format defines has its text and every text its code, every cell type code has a name, and '
  'the public constants keep the values that stored data use.',
  ['inputs', 'programs'], 'all error codes and type codes',
  TESTS + ' a few error codes.',
  ['biffh.py', 'formatting.py'], [('tables', 'xlrd/biffh.py error_text_from_code, constants')])

p('C42', 'Global settings records decode exactly',
  'Date mode, code page, country pair, user name, external-sheet and external-book tables equal the fields of their '
  'records in every version, one entry per record item.',
  ['inputs'], 'all DATEMODE, CODEPAGE, COUNTRY, WRITEACCESS, EXTERNSHEET, SUPBOOK, EXTERNNAME records',
  TESTS + '; a few version 8 files.',
  ['book.py'], [('decoders', 'xlrd/book.py Book.handle_* methods')])

p('C44', 'Every view of a sheet shows the same grid',
  'For every cell, the single-cell accessors, indexing, iteration, row and column sequences and their slices show the '
  'same type, value and format index; slices of rows and columns take their bounds as Python slices do (negative, '
  'missing or too large), and the format index of a cell falls back from the cell to its row, then its column, then 15.',
  ['inputs', 'configurations'], 'all sheets, ragged or not, formatting on or off; all row and column arguments and slice bounds',
  TESTS + '; slices with negative or oversized bounds and the fallback chain are sampled at a handful of points.',
  ['sheet.py'], [('accessors', 'xlrd/sheet.py Sheet.cell, cell_value, cell_type, cell_xf_index, row, row_slice, row_types, '
                  'row_values, col_slice, col_types, col_values, get_rows, __getitem__')])

p('C82', 'Cell, column and range names denote exactly their cell or range',
  'The functions that name columns, cells and ranges give each column its label in the sequence A..Z, AA.., and give each '
  'cell, range, sheet range and relative reference, in A1 and in R1C1 style, the name that denotes exactly it (the base '
  'cell of a relative reference given wholly or not at all); names of sheets are quoted, with apostrophes doubled, where '
  'they contain an apostrophe or a space.',
  ['inputs'], 'all columns a sheet can have, all rows, all combinations of relative flags, base cell and style',
  TESTS + ' a few cells and ranges.',
  ['formula.py', 'book.py'], [('naming', 'xlrd/formula.py colname, cellname, cellnameabs, cellnamerel, rownamerel, colnamerel, rangename2d, '
                  'rangename2drel, rangename3d, rangename3drel, sheetrange, quotedsheetname; xlrd/book.py colname')])

p('C85', 'Formula text keeps operands, operators, arguments and grouping',
  'The text produced for the formula of a defined name or of a cell, read by the precedence rules of spreadsheet formulas, '
  'denotes the formula stored: every operand once and in its place, every operator, every function with its arguments in '
  'order, string constants with their quotes doubled, and the grouping given by the token order and the parenthesis tokens.',
  ['inputs'], 'all token strings of constants, cell references, unary and binary operators, parentheses and built-in function calls',
  TESTS + ' no formula text with nested operators.',
  ['formula.py'], [('walkers', 'xlrd/formula.py evaluate_name_formula (Name.result.text), decompile_formula; binop_rules, unop_rules')])

p('C81', 'Shared strings split over CONTINUE records are read as if unsplit',
  'For every place at which the format lets a record end inside the shared string table - between strings, between '
  'characters (with or without a change of character width), between formatting runs, inside phonetic data - the strings, '
  'their formatting runs and their order are those of the unsplit table, and reading resumes on the record that follows.',
  ['inputs'], 'all shared string tables and all legal placements of record boundaries',
  TESTS + '; the boundaries in them fall where one writer put them.',
  ['book.py'], [('reader', 'xlrd/book.py Book.handle_sst, unpack_SST_table, Book.get_record_parts_conditional')])

p('C86', 'The nearest colour index is at minimal distance',
  'The palette index chosen for a colour is one whose colour has the least squared distance to it, entries without a '
  'colour being left out.',
  ['inputs'], 'all palettes and colours',
  TESTS + ' no old file with a coloured grid.',
  ['formatting.py'], [('search', 'xlrd/formatting.py nearest_colour_index')])

p('C43', 'Constants in defined names are worked out as their operators denote',
  'A defined name whose formula applies arithmetic, comparison, concatenation, sign or percent operators to numbers and '
  'texts ends with the value and kind those operators denote: numbers as floats, comparisons as 0 or 1, concatenation as '
  'text with whole numbers spelt without a fraction, texts that spell numbers counting as numbers in arithmetic. Where the '
  'operation has no value (division by zero, overflow, a text that is no number, a negative number to a fractional power) or '
  'an operand is unknown, the value is None; it never fails and never leaves a value that does not fit its kind.',
  ['inputs'], 'all formulas of one or two operators over all numbers and texts; BIFF 5 to 8',
  TESTS + '; name values are sampled on a handful of references, never on operators.',
  ['formula.py'], [('rules', 'xlrd/formula.py binop_rules, unop_rules, num2strg'),
                   ('evaluator', 'xlrd/formula.py evaluate_name_formula.do_binop, do_unaryop')])

p('C45', 'References to other sheets name exactly the sheets and cells they mean',
  'The sheets of a 3-D reference are the worksheets of this workbook it points at, as worksheet numbers (charts and macro '
  'sheets not counted), or the documented negative marker for an external workbook, an add-in, deleted sheets, an unspecified '
  'sheet or a chart/macro sheet; a broken table never yields a wrong sheet. Union keeps both operands in order, '
  'intersection and range yield exactly the common box and the bounding box.',
  ['inputs'], 'all reference tables, sheet orders and sheet types; BIFF 5 to 8; all pairs of boxes',
  TESTS + '; a few workbooks with references of their own sheets are read.',
  ['formula.py', 'book.py'], [('sheets', 'xlrd/formula.py get_externsheet_local_range, get_externsheet_local_range_b57'),
                              ('operators', 'xlrd/formula.py evaluate_name_formula: tList, tIsect, tRange, do_box_funcs')])

p('C46', 'A name gives its cell or area, or says that it has none',
  'Name.cell() returns the cell of the one absolute cell its name refers to; Name.area2d() returns the sheet and the '
  'rectangle of the one area it refers to, clipped to the used part of the sheet unless asked otherwise, so that '
  '0 <= rowxlo <= rowxhi <= nrows and likewise for columns. For every other name (several areas or sheets, relative, '
  'constant, unknown, unevaluated) both raise XLRDError and nothing else.',
  ['inputs'], 'all results a name can end with, all boxes and sheet sizes',
  TESTS + '; a handful of names with one cell or area are tested.',
  ['book.py'], [('accessors', 'xlrd/book.py Name.cell, Name.area2d')])

# ------------------------------------------------------------ not applicable
NA_ = [
 ('C80', 'Date conversion round-trips', 'Converting a date to a serial number and back yields the same date for every date of either date system.',
  ['xldate.py'], 'xlrd/xldate.py'),
 ('C83', 'Arbitrary number-format strings are recognised as dates correctly', 'A custom number-format string is taken for a date format exactly when Excel would display it as a date.',
  ['formatting.py'], 'xlrd/formatting.py is_date_format_string'),
 ('C84', 'Named formulas evaluate to the value Excel computes', 'The value and kind computed for a defined name equal those Excel computes for its formula.',
  ['formula.py'], 'xlrd/formula.py evaluate_name_formula'),
 ('C87', 'Memory and time stay proportional to the file size', 'Opening a file of n bytes uses memory and time bounded by a fixed multiple of n.',
  ['book.py', 'sheet.py', 'compdoc.py'], 'xlrd/sheet.py put_cell_unragged'),
]
for id, t, s, f, w in NA_:
    p(id, t, s, ['inputs'], 'all inputs', 'The tests sample a few values.', f, [('implementation', w)])

if __name__ == '__main__':
    with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as fh:
        for x in P:
            fh.write(json.dumps(x) + '\n')
    print(len(P))
