p('P13', 'Garbage lists exactly the items unreachable from the roots',
  'The garbage report lists every item that no chain of references connects to the root, and no item that one does, largest first; without the data-segment option unreachable data items are not listed but summarised in one line. The row limit only shortens the list: the remainder and total lines account for every omitted and every listed item, and each percentage is the item\'s size over the whole file. Text, JSON and CSV show the same items, sizes and percentages.',
  ['programs', 'configurations'], 'every item graph, every row limit, both data-segment settings, all three formats',
  'Tests compare three fixture files; they cannot cover every graph shape or limit, and the CSV path has no fixture at all.',
  ['analyze/analyses/garbage.rs'],
  [('graph search from the meta root, filter, sort, take', 'analyze/analyses/garbage.rs garbage / get_unreachable_items'), ('writers', 'analyze/analyses/garbage.rs emit_text/json/csv')])

p('P14', 'Top ranks every item by the chosen size',
  'The top report ranks every item except the artificial root exactly once by shallow size, or by retained size when asked, in descending order, cut at the row limit. The remainder line accounts for exactly the omitted items and the total line for all of them. Percentages are shares of the whole file, and the same values appear in text, JSON and CSV; asking for retaining paths, which are not supported, is refused.',
  ['programs', 'configurations'], 'every item set, every row limit, both size measures, all three formats',
  'Fixtures sample a handful of binaries and limits; ordering, cut-off and totals must hold for all.',
  ['analyze/analyses/top.rs'],
  [('collect, sort, limit', 'analyze/analyses/top.rs top'), ('writers', 'analyze/analyses/top.rs emit_text/json/csv')])

p('P15', 'Dominators prints each root with its dominator subtree',
  'Each chosen root (the whole program, the items with the exact given names, or those matching a given regular expression) is printed with all items it dominates nested below it, siblings by descending retained size. Every row carries that item\'s own sizes and shares of the whole file; the text form stops at the depth and row limits. When no root was named, one line sums up the unreachable items, if their total size is not zero.',
  ['programs', 'configurations'], 'every dominator tree, every selection, every depth and row limit, all three formats',
  'Fixtures cover a few small trees; recursion state (depth, row counter) and the limits interact in ways they do not sample.',
  ['analyze/analyses/dominators/mod.rs', 'analyze/analyses/dominators/emit.rs'],
  [('root selection', 'analyze/analyses/dominators/mod.rs dominators'), ('recursive writers', 'analyze/analyses/dominators/emit.rs')])

p('P16', 'Paths shows the retaining paths of each chosen item',
  'Each starting item (all items by size, the roots when descending, or the items chosen by exact name or regular expression) is printed with, nested below it, every item that directly references it, or that it references when descending, recursively. No chain visits an item twice and the artificial root never appears. The depth and path limits only shorten the output, and every shown size and percentage is the item\'s own.',
  ['programs', 'configurations'], 'every item graph including cycles and self-references, both directions, every selection, depth and path limit, all three formats',
  'Fixtures cover a few small graphs; cycles, self-references and the limits combine in ways they do not sample.',
  ['analyze/analyses/paths/mod.rs', 'analyze/analyses/paths/paths_emit.rs', 'analyze/analyses/paths/paths_entry.rs'],
  [('starting positions', 'analyze/analyses/paths/mod.rs get_starting_positions'), ('recursive entries', 'analyze/analyses/paths/mod.rs create_entry'), ('writers', 'analyze/analyses/paths/paths_emit.rs')])

p('P17', 'Monos groups instantiations and estimates their bloat',
  'Every item that is an instantiation of a selected generic function is counted under that generic, with its own size; generics are ordered by descending estimated savings, then size, and instantiations by size. The estimate is the smaller of removing the largest instantiation and removing all but one of average size, the limits only shorten the lists, and the remainder and total lines account for every omitted and every listed size. All three formats agree.',
  ['programs', 'configurations'], 'every set of items and generics, every selection, every limit, all three formats',
  'Fixtures cover two binaries; ties, rounding, limits of zero and regular expressions combine in ways they do not sample.',
  ['analyze/analyses/monos/mod.rs', 'analyze/analyses/monos/entry.rs', 'analyze/analyses/monos/emit.rs'],
  [('grouping', 'analyze/analyses/monos/mod.rs collect_monomorphizations'), ('estimate', 'analyze/analyses/monos/mod.rs calculate_total_and_bloat'), ('writers', 'analyze/analyses/monos/emit.rs')])

WASM = ['parser/parser.rs', 'parser/wasm_parse/mod.rs']
p('P01', 'Every byte of a wasm section is attributed exactly once',
  'When a well-formed wasm module is read, each entry of a section is given exactly the bytes it occupies and the section itself the bytes left over, so the sizes of a section\'s items always add up to the bytes of that section. A function\'s size is its body plus its entry in the function section.',
  ['inputs'], 'every well-formed wasm module: any number, kind and order of sections and entries',
  'The fixtures are compiler-produced modules that share one layout; byte attribution must hold for any section mix, empty sections and unusual encodings.',
  WASM, [('sizes from reader positions', 'parser/wasm_parse/mod.rs iterate_with_size'), ('left-over bytes', 'parser/wasm_parse/mod.rs parse_items (per section)')])

p('P02', 'The graph builder records exactly what it is given',
  'The finished graph holds every added item under its own identifier with its own name, size and kind, exactly the recorded references, and one extra zero-sized root that references exactly the items added as roots. The running total equals the sum of the added sizes, an identifier cannot be added twice, and identifiers of sections, entries and the root never collide.',
  ['histories'], 'every sequence of add, reference and finish operations',
  'Tests only reach the builder through whole fixture modules; a lost item or reference in an unusual order of operations would not show.',
  ['ir/ir.rs'], [('builder', 'ir/ir.rs ItemsBuilder'), ('identifiers', 'ir/ir.rs Id')])

p('P03', 'Function bodies reference what their instructions name',
  'A function references every function it calls, tail-calls or takes a reference to, every global it reads or writes, and nothing else, apart from its own type and the data segment found for the address of a load that directly follows the 32-bit constant giving that address. Indices are resolved in index spaces that count imports and definitions in module order, and constant addresses are unsigned.',
  ['inputs'], 'every function body of a well-formed module, every instruction of the instruction set, every index space',
  'The fixtures contain a fraction of the instruction set and of the possible index-space layouts.',
  WASM, [('instruction walk', 'parser/wasm_parse/mod.rs CodeSection parse_edges'), ('index spaces', 'parser/wasm_parse/mod.rs IndexSpaces')])

p('P05', 'Exports, start, elements and globals reference their targets',
  'Each export references the function, table, memory or global it exports, the start section its function, the table of an active element segment that segment, an element segment the functions it lists by index, a global the functions and globals its initialiser names, and each function its type. Exports, tables, section headers and name subsections are roots; other entries are not.',
  ['inputs'], 'every well-formed module: any section order, import mix, export kind, segment and initialiser',
  'The fixtures hold few exports and segments and hardly any imports, tables or globals.',
  WASM, [('references', 'parser/wasm_parse/mod.rs parse_edges (per section)'), ('roots', 'parser/wasm_parse/mod.rs parse_items (per section)')])

p('P06', 'Constant loads are resolved against recorded data segments',
  'Every active data segment with a constant non-negative start address inside the 32-bit address space is recorded with that address and its length, before any load is resolved. Looking up an address finds the segment that contains it and never one that does not.',
  ['inputs', 'histories'], 'every set of segments and every address',
  'Only two fixtures have data segments that matter, and none probes the ends of a segment or of the address space.',
  ['ir/ir.rs', 'parser/wasm_parse/mod.rs'], [('recording', 'parser/wasm_parse/mod.rs DataSection parse_items'), ('lookup', 'ir/ir.rs ItemsBuilder::link_data / get_data')])

p('P08', 'Wasm items carry the right name and kind',
  'Functions are named by the name section at their full index, imported functions included, or else by position; data segments likewise, and every other entry, section and subsection gets its documented descriptive name. Functions are code, data segments and globals data, name subsections debug information, and everything else miscellaneous.',
  ['inputs'], 'every well-formed module, with or without a name section',
  'Names are compared on a few fixtures whose name sections are complete and whose imports are few.',
  WASM + ['ir/ir.rs'], [('names', 'parser/wasm_parse/mod.rs parse_names_section / count_imported_functions / parse_items'), ('kinds', 'ir/ir.rs ItemKind')])

p('P09', 'Function symbols are demangled and grouped by generic function',
  'A Rust symbol is shown demangled, a symbol without a C++ prefix is shown as it is, and any other is shown demangled as C++ where possible and unchanged otherwise. The generic function is what precedes a final Rust hash, or else what precedes the first angle bracket that is later closed and not at the start; other functions have none.',
  ['inputs'], 'every symbol string',
  'Tests cover a handful of symbols out of all strings.',
  ['ir/ir.rs'], [('demangling', 'ir/ir.rs Code::demangle'), ('generic', 'ir/ir.rs Code::extract_generic_function')])

p('P10', 'Graph queries return exactly the recorded graph',
  'Iterating yields every item once in identifier order, looking up an identifier or a name yields the item with it, and the neighbours, predecessors and graph-library views list exactly the recorded references in either direction. Computing derived tables never alters the items, references, roots or total size, and a table computed once is kept.',
  ['histories', 'programs'], 'every finished graph, every sequence of computations and queries',
  'Tests query a few small graphs through the command line only.',
  ['ir/ir.rs', 'ir/graph_impl.rs'], [('queries', 'ir/ir.rs Items'), ('graph library views', 'ir/graph_impl.rs')])

p('P11', 'Retained size is own size plus that of dominated items',
  'The dominator tables hold exactly the immediate dominator relation of the graph as seen from the root, for every item that has one, children in identifier order. The retained size of every item is its own size plus the retained sizes of the items it immediately dominates, also for unreachable items.',
  ['programs'], 'every finished graph, given a correct dominator algorithm in the graph library',
  'Tests check retained sizes of a few fixture modules.',
  ['ir/ir.rs'], [('dominator tables', 'ir/ir.rs compute_dominators / compute_dominator_tree'), ('retained sizes', 'ir/ir.rs compute_retained_sizes')])

p('P18', 'Diff reports every changed name with its exact change',
  'Names are compared by the total size of the items that carry them in each file; every selected name whose total changed is listed once with new minus old as a signed number, largest change first, then by name. The limit only shortens the list: a remainder line counts and sums exactly the omitted names, and the total line counts the changed names and gives the change of the whole file, or of the selected names when some were given. Text, JSON and CSV show the same lines.',
  ['programs', 'configurations'], 'every pair of item sets, every selection by exact name or regular expression, every limit, all three formats',
  'Fixtures compare two pairs of files; duplicate names, names present in one file only, ties and limits combine in ways they do not sample.',
  ['analyze/analyses/diff.rs'], [('name totals and differences', 'analyze/analyses/diff.rs diff'), ('writers', 'analyze/analyses/diff.rs emit_text/json/csv')])

OPTF = ['opt/definitions.rs', 'opt/opt.rs']
p('P22', 'Every option means what its documentation says',
  'Each subcommand accepts its documented switches, positional arguments and defaults, and every analysis reads the value the user gave for the switch of that name; a switch that lifts a limit overrides that limit only. Values built by hand start from the same defaults, and setting one option changes that option alone.',
  ['configurations'], 'every subcommand, every combination of switches and values, every sequence of setters',
  'Tests use a few combinations of switches; a swapped accessor, a lost default or a switch that also affects another option shows only for the combinations nobody sampled.',
  OPTF, [('declared switches', 'opt/definitions.rs Top/Dominators/Paths/Monos/Diff/Garbage'), ('accessors', 'opt/opt.rs CommonCliOptions and getters')])

p('P23', 'A run does what was asked and any failure shows in the exit status',
  'A run reads the given file (for a diff both files, in the same mode), performs the requested analysis with the given options and writes its result once, in the chosen format, to the chosen destination. The destination is opened only after the analysis succeeded. A failure to read, parse, analyse, open, write or flush is reported on standard error with a non-zero exit status; otherwise the run succeeds.',
  ['configurations', 'histories'], 'every subcommand and option combination, every outcome of each fallible step',
  'Tests compare the output of successful runs; which step fails, and what then happens to the destination and the status, is not sampled.',
  ['twiggy/twiggy.rs'], [('pipeline', 'twiggy/twiggy.rs run'), ('exit status', 'twiggy/twiggy.rs main')])

p('P24', 'Input modes, output formats and destinations mean what they name',
  'Mode wasm selects the WebAssembly reader and dwarf the object file reader; auto selects the first exactly if the file has the extension wasm or starts with the WebAssembly magic number. The words for modes, formats and destinations select what they name, another destination is a file created or truncated, another mode or format word is refused. The whole file is handed to the reader.',
  ['configurations', 'inputs'], 'every option word, every path, every file content',
  'Tests name a few paths and never the unusual combinations of extension, content and mode.',
  ['parser/parser.rs', 'traits/traits.rs', 'opt/opt.rs'], [('dispatch', 'parser/parser.rs parse_auto/sniff_wasm'), ('words', 'traits/traits.rs FromStr, opt/opt.rs OutputDestination')])

p('P28', 'A failure is passed on, never swallowed',
  'Whenever a step of a run meets a failure (reading, decoding, a regular expression, serialising, writing), the function that met it fails as well or the program stops; no failure is dropped, replaced by a default or skipped. What a buffered writer holds is flushed where a failure can still be reported. Excepted are name subsections of a kind unknown to the reader, and the demangler, for which there is a documented fallback.',
  ['inputs', 'fault points'], 'every place in the program where a failure can arise, every input and every failing device',
  'Tests run on well-formed inputs and working devices; a swallowed failure shows only in the run where that very step fails.',
  ['parser/', 'analyze/', 'opt/opt.rs', 'twiggy/twiggy.rs'], [('every fallible call', 'whole program, type-checked MIR'), ('buffered writers', 'analyze/analyses/*/emit_csv, opt/opt.rs')])

p('P07', 'Object files: one code item per subprogram with its size and name',
  'Every subprogram entry of every compilation unit that has a location becomes one code item, and nothing else does. Its size is the high address minus the low one, or the high value itself where it is an offset, or else the total length of its address ranges; its name is the linkage name, else the plain name, else its position. Its identifier is the unit number and the position of the entry in the unit; addresses given in an unexpected form, inverted addresses and an empty unit are refused.',
  ['programs'], 'every object file with debugging information the reading libraries accept',
  'The tests read one object file; forms of addresses, range lists, missing names and several units are not sampled.',
  ['parser/object_parse/'], [('walk', 'parser/object_parse/compilation_unit_parse'), ('sizes', 'parser/object_parse/die_parse/location_attrs.rs'), ('names', 'parser/object_parse/die_parse/item_name.rs')])

p('P19', 'JSON output is well formed and strings read back unchanged',
  'Every bracket written is closed exactly once, elements and members are separated by single commas and every member has its name and a colon, for any sequence of nested arrays, objects and values. A string is quoted and escaped so that a JSON reader gets back every character of it, whatever it contains. Numbers are written in plain decimal without loss.',
  ['inputs', 'histories'], 'every sequence of calls of the JSON writer, every string, every 32-bit integer and finite double',
  'Tests see a few documents with tame names; names come from the analysed binary and may hold any character.',
  ['analyze/formats/json.rs'], [('writer', 'analyze/formats/json.rs Array/Object'), ('strings', 'analyze/formats/json.rs JsonPrimitive for &str')])

p('P20', 'Text tables show every cell in full, in aligned columns',
  'A table prints its headings, a rule, and every row in the order added, each on a line of its own, with every cell in full. A column is as wide as its longest heading or cell, counted in bytes; right-aligned cells are padded on the left, left-aligned cells and all headings on the right unless they come last in the line.',
  ['inputs'], 'every table: any number of columns and rows with as many cells as headings, any texts',
  'Tests compare a handful of outputs; widths depend on all rows and on both alignments in every position.',
  ['analyze/formats/table.rs'], [('layout', 'analyze/formats/table.rs Display for Table')])

p('P26', 'The same input and options always give the same report',
  'A report is determined by the input files and the options alone. It does not depend on the order in which a hash table happens to hold its entries, on where values lie in memory, on the clock, on random numbers, on the environment, or on the process or thread.',
  ['histories', 'inputs'], 'every two runs of the same build on the same files with the same options',
  'A test that runs once, or twice in a row, can pass by luck: the order of a hash table changes from process to process, and only entries that compare equal otherwise change places.',
  ['analyze/', 'parser/', 'ir/', 'opt/', 'twiggy/twiggy.rs'], [('hash tables', 'analyze/analyses/diff.rs, ir/graph_impl.rs, parser/wasm_parse/mod.rs'), ('order of entries', 'analyze/analyses/*')])

p('P27', 'Twiggy touches nothing but its input files and its output',
  'A run opens only the input files it was given, creates or changes only the output file it was given, and prints its report and nothing else to standard output. Standard error is written and the process ended early only by the program itself, not by the libraries. No other process, thread or network connection is started, and no code escapes the checks of the compiler.',
  ['programs', 'configurations', 'inputs'], 'every call with an effect outside the process, in every function of the workspace',
  'Tests look at the output they expect; an extra file, message or early exit on some unusual input goes unnoticed.',
  ['parser/parser.rs', 'opt/opt.rs', 'twiggy/twiggy.rs', 'analyze/', 'ir/'], [('reading', 'parser/parser.rs read_and_parse'), ('writing', 'opt/opt.rs OutputDestination::open'), ('messages and exit', 'twiggy/twiggy.rs main')])

p('P12', 'Derived tables are computed before any analysis consults them',
  'Whatever the subcommand, options and output format, every analysis and every writer that asks for predecessors, immediate dominators, the dominator tree or retained sizes finds them computed. No combination of options makes a run stop because a table is missing.',
  ['configurations', 'histories'], 'every subcommand, every combination of its options, every output format',
  'Tests run a few option combinations; a table computed only under one condition and consulted under another is missed by all of them.',
  ['analyze/analyses/'], [('computing', 'analyze/analyses/{top,dominators,paths}'), ('consulting', 'analyze/analyses/*/emit*')])

p('P25', 'Bad input and bad options end in an error, not in a crash',
  'A file that cannot be read or decoded, is cut short, lacks a section, has function and code sections of different lengths, or refers to a function, global, table, memory or type that does not exist, a malformed regular expression and a name that no item carries never stop the program with a panic: a number or name from outside is used to look something up only where its absence is handled. Assertions about the own bookkeeping of the program, limits of the machine and arithmetic overflow are not covered.',
  ['inputs', 'configurations'], 'every place where a failure, a missing value or an index from outside could stop the program, every input',
  'Tests read well-formed files; each malformation needs a file of its own.',
  ['parser/', 'analyze/analyses/', 'opt/opt.rs'], [('index lookups', 'parser/wasm_parse/mod.rs lookup'), ('sections', 'parser/wasm_parse/mod.rs'), ('object files', 'parser/object_parse/'), ('names and expressions', 'analyze/analyses/*')])

p('P29', 'The web API reports what the command line reports',
  'Through the web API, data is parsed as a wasm module and each method runs the analysis it is named after on its own items (for a difference: its own as the old ones, the argument as the new ones) with exactly the options given, and returns the JSON report of that analysis as text. Options start from the same defaults as on the command line and every setter changes its own option only. The parser, the analyses and the JSON writer behave in the web build as they do in the command line build.',
  ['programs', 'configurations', 'inputs'], 'every method of the web API, every option object, every function of the parser, analyses and graph below them',
  'The tests run the command line build only; the web API is compiled for another target and has no test at all.',
  ['wasm-api/wasm-api.rs', 'opt/definitions.rs', 'analyze/', 'parser/', 'ir/'], [('methods', 'wasm-api/wasm-api.rs Items'), ('options', 'opt/definitions.rs setters and defaults'), ('both builds', 'analyze/, parser/, ir/ compared function by function')])

p('P30', 'Well-formed input is accepted',
  'A file that keeps the rules of its format is never turned down. A wasm module that wasmparser decodes, that has a function and a code section with one body per function and in which every index refers to an entry of its index space is parsed without an error, whatever its sections, their number and their order. So is an object file whose debug information gimli decodes and in which low addresses are addresses, high addresses are offsets or addresses not below the low one, and ranges are offsets into the range list section.',
  ['inputs'], 'every error exit of the parser, every well-formed module and object file',
  'Tests parse some sixty modules; a needless limit or an off-by-one bound check turns down only files of a shape that none of them has.',
  ['parser/'], [('sections', 'parser/wasm_parse/mod.rs ModuleReader'), ('index lookups', 'parser/wasm_parse/mod.rs lookup'), ('entries', 'parser/wasm_parse/mod.rs iterate_with_size'), ('debug information', 'parser/object_parse/')])

p('P31', 'Every run comes to an end',
  'Whatever the input and the options, twiggy stops. The parser moves on through the input with every turn of its loops (also over damaged or unknown name subsections), all other loops run over collections or ranges that have an end, and no walk follows a cycle of references for ever: an item that is already on the path (also one that refers to itself) is not visited again, and the recursive listings go down the dominator tree or through children they own. No claim is made about how long it takes.',
  ['inputs', 'histories'], 'all loops and recursive calls of the program and its libraries, for every input and option',
  'Tests finish because their inputs are small and mostly free of cycles; a cycle of a shape they lack, or a damaged section, hangs the program.',
  ['ir/', 'analyze/', 'parser/'], [('parser loops', 'parser/wasm_parse/mod.rs ModuleReader'), ('name section', 'parser/wasm_parse/mod.rs parse_items for NameSectionReader'), ('paths walk', 'analyze/analyses/paths/mod.rs create_entry'), ('retained sizes', 'ir/ir.rs compute_retained_sizes'), ('dominators output', 'analyze/analyses/dominators/emit.rs')])