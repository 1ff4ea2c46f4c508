"""Registry: property id -> module, deciding technique, what the check assures."""
MODULES = {}
TECHNIQUE = {}
NOTES = {}


def _reg(mod, technique, note, *ids):
    for i in ids:
        MODULES[i] = mod
        TECHNIQUE[i] = technique
        NOTES[i] = note


_DEC = 'abstract interpretation of the record handlers with a bit-field value domain; extracted terms compared with the published layout'
_DECN = ('Every attribute/cell a handler stores is extracted from the source as a term over the record bytes, per opcode, '
         'file version and option; identical normal forms settle it for every record, otherwise the terms are folded over '
         'a fixed family of byte vectors (walking bits, boundary values). Trusts the transcription of the published layout '
         'and the interpreter\'s model of Python; what it cannot decide is counted as undecided and never reported.')
_reg('decode_format', _DEC, _DECN, 'C16', 'C17')
_reg('decode_cells', _DEC, _DECN, 'C12', 'C13', 'C14')
_reg('decode_globals', _DEC, _DECN, 'C36', 'C39', 'C42')
_reg('decode_formula', _DEC, _DECN, 'C37')
_reg('names', 'scope and attribute resolution, signature matching and a may-assigned dataflow over the syntax trees', 'Attributes of objects of unknown class are matched by name only.', 'C30')
_reg('layout', 'abstract interpretation of every unpack site with a slice-width domain, per file version', 'Widths that depend on data are counted, not judged.', 'C31')
_reg('decode_sheet', _DEC, _DECN, 'C18', 'C19', 'C20')

_reg('tables', 'constant evaluation of module-level tables, alias propagation of the file version, and abstract interpretation of the functions that use them',
     'Trusts the transcription of the published tables; values that are not constant are counted as undecided.', 'C22', 'C26', 'C38', 'C41')

_reg('values', 'interval analysis over a partition of the arguments, and folding of the extracted terms at region boundaries',
     'Assumes finite serial numbers and IEEE arithmetic.', 'C15', 'C32', 'C34', 'C35')

_reg('opening', 'abstract interpretation of the opening sequence with symbolic options; value flow and guards of the extracted events',
     'The record readers are replaced by markers while opening is interpreted.', 'C33', 'C24', 'C25', 'C06')

_reg('resources', 'typestate of acquired resources over every path of the syntax tree, interprocedural, and abstract interpretation of the release and opening code',
     'Calls are assumed able to raise except a short list of built-ins; objects kept outside workbooks are judged by attribute.', 'C01', 'C02')

_reg('effects', 'interprocedural origin tracing of output destinations; call-graph effect analysis and taint of hidden inputs', 'Calls on objects of unknown class are resolved by method name.', 'C03', 'C04')

_reg('verbosity', 'interprocedural information flow from the verbosity option over live code, with effect summaries of the functions called', 'Calls on objects of unknown class are resolved by method name; implicit exceptions of subscripts are compared between verbosities by abstract interpretation only.', 'C05')

_reg('errors', 'classification of every exception handler with effect summaries of the code it guards', 'Exception classes are told by name.', 'C29')

_reg('fvalues', "abstract interpretation of the name evaluator over formulas with unknown operands; values folded over operand tuples; handlers around every call of an operator function found in the source",
     "Formulas of one and two operators; how a number is spelt beyond plain decimals, and what a comparison of a text with a number yields, is not claimed.", 'C43')
_reg('refs3d', _DEC, _DECN, 'C45', 'C46')
_UNB = 'quantifies over run-time values no sound static argument in reach can bound: '
NOT_APPLICABLE = {
    'C80': _UNB + 'it equates two integer/float computations over all dates, which needs arithmetic evaluation or a solver, not dataflow',
    'C83': 'the rule for arbitrary format strings is a documented heuristic; there is no specification to compare the code with',
    'C84': _UNB + 'equality with Excel\'s evaluation over all formulas has no static specification',
    'C87': _UNB + 'allocation and time as a function of the file size depend on run-time counts',
}

_reg("shapes", "abstract interpretation of the functions that store cells; the extracted updates are followed in the domain of table shapes", "Grids of 3x3 cells and up to four stored cells stand for all sizes.", "C11")
_reg("options", "relational abstract interpretation: each record handler is interpreted under both settings and the extracted effects compared", "One record of each type at a time; sequences follow because the compared effects include the state later records depend on.", "C21")
_reg("strings", "abstract interpretation of the string readers over partitions of string layouts with unknown text", "Strings of up to five characters in up to three records stand for all sizes.", "C23", "C81")
_reg("terminates", "abstract interpretation: ranking quantities and fixed points of loop transfer functions", "One abstract iteration stands for all; loops whose progress depends on tables changed inside the loop are decided by the chain rules.", "C27")
_reg("sheetlist", "abstract interpretation of the sheet record, loading, opening and look-up code over symbolic records and small concrete tables", "Tables of up to four sheets stand for all sizes.", "C10")
_reg("shared", "interprocedural alias tracing from every in-place change to module-level, class-level and default-argument objects", "Receivers of unknown class are matched by attribute name; aliases through containers are followed one level.", "C07")
_reg("views", "abstract interpretation of the accessors; origin of every returned value, and extracted sequences folded over small grids", "The grids and bounds cover each region of the slice arithmetic.", "C08", "C44")
_reg('compdoc', 'abstract interpretation of the compound-file reader over an unknown file; guards and recurrences folded over boundary valuations', 'Chains are judged one step at a time; the short-stream container is trusted to be long enough for the chain length bound.', 'C28', 'C40')
_reg('ondemand', 'effect analysis of sheet loading by abstract interpretation: what loading writes in the workbook against what it reads', 'One record of each type at a time; the accessors over three sheets in every load state.', 'C09')
_reg('colours', 'abstract interpretation of the colour search; the index returned folded over colour vectors against the least squared distance', 'Palettes of up to six entries stand for all sizes.', 'C86')
_reg('texts', 'abstract interpretation of the naming functions and of the formula walker; extracted texts folded over flags, styles, base cells and boundary addresses', 'Sheet names needing quotes for other characters than space and apostrophe are outside the documented behaviour; equal-rank right operands only with the parenthesis token Excel stores.', 'C82', 'C85')
