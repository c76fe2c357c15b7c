P('P01', 'Network access only through a client the caller supplied',
  'The library opens no network connection except through the HTTP client its caller put into the compilation context, and compiling a '
  'string never has one. The command line creates a client only when --allow-http was given. Nothing else in the program uses sockets or starts processes.',
  ['inputs', 'programs', 'configurations'], 'every source text, every combination of options, every import reachable from it',
  'the suite has no network and samples a handful of imports; absence of an effect on all programs cannot be sampled',
  ['src/compiler/context.rs', 'src/compiler/module_loader.rs', 'src/bin/papyri.rs'],
  [('http_client is None unless supplied', 'src/compiler/context.rs'), ('client built under allow_http', 'src/bin/papyri.rs')],
  'who-may-call over MIR + value-flow of receivers + path-sensitive guard',
  'Every call into a network crate or std::net/process in library and binary is classified; receivers are traced to the context field.')
P('P02', 'Compiling a string touches no file',
  'Compiling a source string through the string API never reads, queries or writes the file system, whatever the source imports, lists or asks for; '
  'such requests are reported as errors.',
  ['inputs', 'programs'], 'every source string given to the string API',
  'tests try a few sources; that no program whatsoever reaches a file API is a statement about all paths',
  ['src/lib.rs', 'src/compiler/context.rs', 'src/compiler/module_loader.rs', 'src/compiler/native.rs'],
  [('allow_file_access tested before a path is resolved', 'src/compiler/context.rs'), ('switched off by compile_str', 'src/lib.rs')],
  'bottom-up guard (effect-domination) analysis over the call graph',
  'Each filesystem call site is shown to be dominated by the permission test, or unreachable from compile_str.')
P('P03', 'Output files are written only by an error-free command-line compilation',
  'The library itself never writes files, prints to standard output, ends the process or starts another. The command line creates or writes output '
  'files only after the compilation finished with no error counted.',
  ['inputs', 'programs', 'configurations'], 'every source tree and every option combination',
  'tests check results in memory; none runs the command line, and no sample shows absence of an effect',
  ['src/bin/papyri.rs', 'src/compiler', 'src/errors/sink_base.rs'],
  [('error count tested before writing', 'src/bin/papyri.rs')],
  'effect classification of all external calls + path-sensitive guard on the error count',
  'All external calls are classified; each file-writing call of the binary is explored path by path.')
P('P04', 'Output files never escape the output directory',
  'Every file the command line writes for a source lies under the configured output directory (or next to the source when none is configured); '
  'a program cannot choose an output path outside it.',
  ['inputs', 'programs', 'configurations'], 'every output path a program can ask for, every source and output directory',
  'path strings are unbounded and tests use plain relative ones',
  ['src/utils/outfiles.rs', 'src/utils/relpath.rs', 'src/bin/papyri.rs'],
  [('paths are normalised and made relative before collection', 'src/utils/outfiles.rs'), ('joined to the base when drained', 'src/utils/outfiles.rs')],
  'value-flow of path values from collection to the file-creating call',
  'Shows each path is base.join(strip_prefix(normalize(..), base)); symbolic links are out of scope.')
P('P05', 'HTML output escapes all text and attribute values',
  'In HTML output, no text and no attribute value of the document can produce markup: every <, > and & in text, and every quote in an attribute value as well, is '
  'written as an entity, whatever element it occurs in. Attribute values are always written inside quotes, and a tag once opened is closed with > before any text follows.',
  ['inputs', 'programs'], 'every document tree, every text, every attribute',
  'tests render a few dozen documents; injection needs one text in one position that none of them has',
  ['src/compiler/render.rs', 'src/utils/text.rs'],
  [('text and attributes pass through the entity encoder', 'src/compiler/render.rs'), ('encoder configuration', 'src/utils/text.rs')],
  'output-automaton abstract interpretation (taint + typestate of the HTML lexer position) of the renderer',
  'Every write of the renderer, for every kind of node and every tag name with its own branch, is run through an automaton of HTML lexical positions.')
P('P06', 'Plain text output has the text of the document and no markup',
  'When the output format is plain text, what is written is the text of the document\'s text nodes, each exactly once, in order and without entity encoding, plus '
  'fixed layout characters (white space and a rule). No tag names, attributes or angle brackets are added.',
  ['inputs', 'programs', 'configurations'], 'every document tree',
  'only a handful of documents are rendered to text in tests',
  ['src/compiler/render.rs'],
  [('text-mode branch of each node kind', 'src/compiler/render.rs')],
  'output abstract interpretation of the text-mode paths of the renderer',
  'Renderer entered with the text-mode flag fixed; every written string is classified.')
P('P07', 'Rendered elements are balanced and void elements are never closed',
  'In HTML output every element\'s start tag is matched by exactly one end tag of the same name after its content, and elements nest properly. The void elements of '
  'HTML (area, base, br, col, embed, hr, img, input, link, meta, source, track, wbr) have no end tag, and every other element has one, even when it is empty.',
  ['inputs', 'programs'], 'every document tree, every tag name',
  'tests cover a few tag names and shapes',
  ['src/compiler/render.rs', 'src/utils/taginfo.rs'],
  [('end tag unless self-closing', 'src/compiler/render.rs'), ('table of void elements', 'src/utils/taginfo.rs')],
  'typestate (open/close stack) abstract interpretation, enumerated over every interned tag name',
  'The renderer is explored once per interned tag name and once for any other name.')
P('P08', 'Rendering writes every node once, in order, and reports write failures',
  'Rendering a document to HTML writes each of its texts, elements, attributes and contents exactly once and in document order, dropping and duplicating none. '
  'If writing fails at any point, rendering returns the failure.',
  ['inputs', 'programs', 'faults'], 'every document tree, every write that fails',
  'tests compare some documents and never make a write fail',
  ['src/compiler/render.rs'],
  [('recursive rendering of children', 'src/compiler/render.rs')],
  'event-trace abstract interpretation of the renderer against the shape of the node type',
  'Per node kind: the multiset and order of visits of its parts on every path; error results tracked to the return value.')
P('P09', 'An error raised during compilation is never silently dropped',
  'Once an error value has been created while compiling, it is passed on or reported as a diagnostic on every path; none is discarded, replaced by a default or '
  'counted as already reported when it was not. Diagnostics go to the collection the caller sees, except while colouring a quoted Papyri code sample.',
  ['inputs', 'programs'], 'every function of the library, every path on which it holds an error',
  'each error path would need its own test input; the error paths of loaders, natives and binders outnumber the tests',
  ['src/compiler', 'src/parser', 'src/errors/sink.rs'],
  [('reporting converts an error into a token', 'src/compiler/context.rs'), ('results carry errors or tokens', 'src/errors')],
  'linear-use (drop) analysis of error values over MIR + path-sensitive token provenance',
  'Every drop of a value that may hold an error, every discarding combinator and every creation of the already-reported token is an obligation. '
  'The Reported token itself may be dropped; errors that should exist but are never created are outside.')
P('P10', 'Success is reported exactly when there were no diagnostics or failed files',
  'The string API and --stdin return output exactly when no error and no warning was counted, and otherwise the diagnostics. The command line ends with a '
  'nonzero exit status whenever compiling some source file counted an error.',
  ['inputs', 'programs', 'configurations'], 'every source, every sequence of source files',
  'tests never run the command line and check few combinations of warnings and output',
  ['src/lib.rs', 'src/bin/papyri.rs', 'src/errors/sink_base.rs'],
  [('is_empty decides the result', 'src/lib.rs'), ('failed files make the run fail', 'src/bin/papyri.rs')],
  'path-sensitive exploration of the entry points with symbolic counters',
  'Each return of the entry points is compared with the facts about the counters on its path; loops over files are summarised by widening.')
P('P11', 'Errors and warnings are counted fully and shown by severity',
  'Each reported error adds exactly one to the error count and each warning one to the warning count, whatever is shown; only clearing resets them. A diagnostic '
  'is kept for display exactly when its severity reaches the reporting level, which on the command line hides warnings only under --ignore-warnings. Every kind of error other than warnings has error severity.',
  ['inputs', 'configurations'], 'every kind of diagnostic at every reporting level',
  'the combinations of severity, level and kind are not enumerated by tests',
  ['src/errors/sink.rs', 'src/errors/sink_base.rs', 'src/bin/papyri.rs'],
  [('counting precedes filtering', 'src/errors/sink_base.rs'), ('severity per kind', 'src/errors/sink.rs')],
  'exhaustive enumeration of severities, levels and error kinds over an abstract interpretation of the sink',
  'Finite case analysis with the discriminants fixed, plus confinement of writes to the counters.')
P('P12', 'The command line loses no output: buffers flushed, failures reported',
  'After rendering into a file or standard output, the command line reports success only when the output was flushed successfully and no creation or write '
  'failed. After an error-free compilation every collected output file is written before success is reported.',
  ['inputs', 'faults'], 'every failing write, flush or file creation; every list of output files',
  'tests never run the command line, let alone with a full disk',
  ['src/bin/papyri.rs'],
  [('flush before success', 'src/bin/papyri.rs')],
  'typestate of buffered writers + path-sensitive propagation of failures',
  'Each output call is split into success and failure; the state at each success return is checked.')
P('P13', 'Each module is compiled at most once, and circular imports are errors',
  'Whatever the spelling of its path, a module file is compiled at most once per run: every later import yields the result of the first, an import of a module still '
  'being loaded is a circular-import error, and a module that failed to load stays failed. Output files asked for by an imported module are not collected, and the '
  'importer\'s own collection is in place again afterwards.',
  ['inputs', 'programs', 'histories'], 'every import graph, every order of imports, every module that fails',
  'tests have few modules and no cycles through several spellings; the cache is correct only if it is on every path of the loader',
  ['src/compiler/module_loader.rs', 'src/compiler/context.rs'],
  [('cache keyed by canonical path', 'src/compiler/module_loader.rs'), ('busy mark before compiling, result afterwards', 'src/compiler/module_loader.rs')],
  'typestate of the module cache, explored for every cached state of the module',
  'The loader is run with the module absent and in each state of the cache; the states stored, the key and the collector are checked on every path.')
P('P14', 'Scopes are left exactly when they were entered, also on errors',
  'Whatever happens while a function body, block or match branch is evaluated, including errors, each variable scope entered for it is left again exactly once before control '
  'returns to the caller, and no scope of a caller is left. Compilation of a source always starts with exactly one scope.',
  ['inputs', 'programs', 'faults'], 'every program, every error raised while a scope is entered',
  'the error exits of each construct would need a test, and a leaked scope only shows in a later lookup',
  ['src/compiler/base.rs', 'src/compiler/func.rs', 'src/compiler/frame.rs'],
  [('frames pushed before and popped after the body', 'src/compiler/base.rs')],
  'path-sensitive typestate analysis of the scope stack over MIR',
  'Each function that changes the stack is explored on all paths; the balance at each return must be zero.')
P('P15', 'Variables are lexically scoped',
  'A user-defined function runs in a fresh scope holding its bound arguments, whose parent is the scope it was defined in and not its caller\'s; a module starts in a fresh child of the standard library scope. '
  'A lookup asks its own scope first and the parent only if the name is not there, and implicit arguments are only taken from variables declared implicit. Declarations change the current scope only.',
  ['inputs', 'programs'], 'every program, every nesting of definitions and calls',
  'wrong scoping only shows in programs that shadow or capture in a particular way',
  ['src/compiler/frame.rs', 'src/compiler/base.rs', 'src/compiler/func.rs'],
  [('closure captured at definition', 'src/compiler/func.rs'), ('frame with the closure as parent', 'src/compiler/func.rs'), ('recursive lookup', 'src/compiler/frame.rs')],
  'value-flow analysis of scope pointers + path enumeration of the lookup',
  'Every scope entered, every evaluation of a function body, every function value built and every variable insertion is traced.')
P('P16', 'A match evaluates the first branch whose pattern accepts the value',
  'A match expression tries its branches in order, each in a fresh scope, evaluates only the handler of the first branch whose pattern accepts the value, and is an error if none does. '
  'A pattern accepts exactly the values whose parts its parts accept: sequences of equal length element by element (with a spread: the elements before and after it counted from the start and the end, the spread taking the rest), dictionaries with every key named and, without a spread, no others; and it binds exactly the names written in it. '
  'An alternative accepts what either side accepts; names bound by a side that failed are unset, names only the other side binds are set to nothing.',
  ['inputs', 'programs'], 'every pattern, every value, every list of branches',
  'patterns nest arbitrarily and the mistakes (an index off by one, a length not checked, a stale name) only show for particular lengths and failures',
  ['src/compiler/matcher.rs', 'src/parser/matcher.rs', 'src/parser/ast.rs'],
  [('pattern semantics, one case per kind', 'src/compiler/matcher.rs'), ('branch selection', 'src/compiler/matcher.rs'), ('names of alternatives', 'src/parser/matcher.rs')],
  'path enumeration per pattern kind with linear index normal forms',
  'The binder is explored once per kind of pattern; on every path the parts matched, their positions, the comparisons known and the names bound are compared with the meaning of the pattern.')
P('P17', 'Calls bind every parameter as the signature says',
  'Positional arguments fill the positional parameters in order, further ones go to the positional spread or are an error; a named argument fills the parameter of its name, others go to the named spread or are an error, and a second value for a name (or for the content) is an error; every value bound is coerced to the type of its parameter, or for a spread to its element type. '
  'A parameter not given takes its default, an implicit one the implicit variable in scope before its default; if there is none, the call is an error. '
  'A partially applied function keeps the arguments bound so far, and parameters have the type, default and implicitness they were declared with.',
  ['inputs', 'programs'], 'every signature, every list of arguments, every chain of partial applications',
  'the combinations of parameter kinds, spreads, defaults and partial application are endless, and a missing coercion or check only shows for particular ones',
  ['src/compiler/signature.rs', 'src/compiler/func.rs'],
  [('argument binder', 'src/compiler/signature.rs'), ('calls and partial application', 'src/compiler/func.rs')],
  'path enumeration of the binder with value-flow terms (parameter, type, default)',
  'Each operation of the binder is explored on all paths, with one arbitrary element per loop; each value stored is traced to the parameter and the type it belongs to.')
P('P18', 'HTML is kept in one normal form; values are compared by their structure',
  'Every HTML value is normalised: text is never empty, a single space or a single newline, and joining items drops the empty ones, flattens sequences and merges texts that touch into one, keeping all other items, all text and their order; a sequence always has at least two items; text content is a string value, never an HTML value. '
  'Two values are equal only if they have the same structure: the same kind with equal parts, and for tags the same name, attributes and content.',
  ['inputs', 'programs'], 'every list of items that is joined, every nesting of sequences, every pair of values compared',
  'matching and equality of HTML rely on the normal form; one path that breaks it shows only for a particular sequence of items',
  ['src/compiler/html.rs', 'src/compiler/tag.rs'],
  [('the only constructions of text items and sequences', 'src/compiler/html.rs'), ('joining of items', 'src/compiler/html.rs'), ('structural comparison', 'src/compiler/html.rs')],
  'case analysis per kind of item over the path-enumerated builder, with length facts',
  'Each place that makes a text item or sequence is found in the type-checked program; the builder is explored once per kind of item, one arbitrary element per loop.')


P('P19', 'Coercing a value to a type gives a value of that type, or an error',
  'HTML content that is not empty is either block or inline, never both (a link is what its content is), and a value is accepted as a value of a type exactly if it is one, elements of lists and dictionaries included. '
  'Coercion to a type returns a value of that type: a value already of the type unchanged, collections element by element, and otherwise only what is documented is converted (booleans and integers to strings, everything but functions to html and block, where inline content is wrapped in a paragraph, and all but functions, collections and block content to inline); anything else is an error. '
  'The type reported for a value accepts that value, and the common type of several values accepts all of them.',
  ['inputs', 'programs'], 'every type, every kind of value, every list and dictionary with any elements',
  'types nest and values nest: a wrong answer for one pair, one position or one order of operands shows only for particular values',
  ['src/compiler/types.rs', 'src/compiler/value.rs', 'src/compiler/html.rs', 'src/parser/types.rs'],
  [('membership, coercion and common types', 'src/compiler/types.rs'), ('type of a value', 'src/compiler/value.rs'), ('block and inline content', 'src/compiler/html.rs')],
  'case analysis over all pairs of type and kind of value, recursion as an uninterpreted function (structural induction)',
  'Each function is explored from its type-checked IR once per pair of variants; every outcome is compared with a table of what the types mean.')
P('P20', 'Where a type is expected, only values of that type arrive',
  'An expression evaluated where a type is expected yields a value of that type or a reported error, whatever the expression is: calls, names, lists, matches, coalesced accesses with nothing there. '
  'So attribute values, tag names, template parts, spread arguments, functions called, lists indexed, results of callbacks, content, and arguments and default values of parameters (built-in ones too) always have the declared type. '
  'Every value of the declared type is converted unchanged, and a mismatch is reported, never an internal error.',
  ['inputs', 'programs'], 'every expression form at every place that expects a type',
  'the expected type travels through every form of expression: one form that forgets it shows only for that form, with a value of another type, where it is used',
  ['src/compiler/value.rs', 'src/compiler/names.rs', 'src/compiler/func.rs', 'src/compiler/value_convert.rs', 'src/compiler/native.rs', 'src/compiler/native_gen.rs', 'src/compiler/tag.rs', 'src/compiler/matcher.rs'],
  [('evaluation with an expected type', 'src/compiler/value.rs'), ('calls and parameters', 'src/compiler/func.rs'), ('conversion of values', 'src/compiler/value_convert.rs')],
  'typestate analysis: each value carries the type it was coerced to, and every use requires the type it expects',
  'Evaluation functions are explored with the others uninterpreted (assume-guarantee by induction on the expression); conversions are matched with the expected types they rely on.')

P('P21', 'Content is placed in tags as the content model of each tag says',
  'Each tag allows what is documented for it: void tags nothing; lists, tables, description lists and heads particular tags; sections, articles and documents blocks; divisions, list items, links, groups and the like blocks or inline; paragraphs and headings inline without breaks; others inline. '
  'Items are placed in order and nothing but whitespace between blocks or at an end is lost: what is not allowed is wrapped, with the content around it, in the first tag allowed (a paragraph where blocks are), but inline content alone stays unwrapped where both are allowed; paragraph breaks end what is being wrapped, or are line breaks. '
  'Blocks in inline content, breaks in paragraphs and headings, and content in void tags are errors, and nothing else is.',
  ['inputs', 'programs'], 'every tag, every kind of item in any order',
  'the outcome depends on what came before in the same tag: one order of items, one parent and one state of pending content shows a mistake',
  ['src/compiler/sequence.rs', 'src/utils/taginfo.rs', 'src/compiler/html.rs', 'src/compiler/tag.rs'],
  [('placing and wrapping', 'src/compiler/sequence.rs'), ('content models', 'src/utils/taginfo.rs')],
  'typestate analysis of the content builder: every operation in every state, for each kind of content, against the content model',
  'Each operation is explored from its type-checked IR once per kind of content, with the builder in any state; the tables are evaluated for every interned tag name.')

P('P22', 'The outcome depends only on the sources, what they read, and the options',
  'Output and diagnostics never depend on the clock, the environment, chance, memory addresses, threads, a hash order or the order in which the file system lists files, and nothing global changes while compiling. '
  'The command line looks at the times of files only under --skip-unchanged. It compiles each source with no diagnostics and no unique identifiers left from the sources before it.',
  ['inputs', 'schedules', 'histories'], 'every program, every order of the same run, every file system order',
  'the same test on the same machine gives the same result: a dependence on order, address or time shows on another machine or another day',
  ['src/utils/relpath.rs', 'src/bin/papyri.rs', 'src/compiler/context.rs', 'src/utils/text.rs', 'src/utils/string_pool.rs'],
  [('listing of files', 'src/utils/relpath.rs'), ('sources of a run', 'src/bin/papyri.rs'), ('reset between sources', 'src/compiler/context.rs')],
  'who-may-call over all sources of variation, type analysis of globals, typestate of listings, value of the context when a source is loaded',
  'Every call, cast, type and global of library and binary is classified; listings must be sorted on every path before they leave; the state is read where a source is loaded.')

P('P23', 'Integers are exact: what does not fit in 64 bits is a reported error',
  'Computing with integers never wraps around, saturates, drops digits or crashes, whatever the operands: sums, negation, numbering of list items and code lines, positions and lengths. '
  'An integer is read from a literal or a text exactly as written in decimal, and what is no integer or does not fit in 64 bits is an error that is reported.',
  ['inputs', 'programs'], 'every integer a program can write, read or compute',
  'overflow needs operands at the edge of 64 bits in one particular operation',
  ['src/compiler/native.rs', 'src/compiler/names.rs', 'src/compiler/highlight.rs', 'src/parser/base.rs'],
  [('integer functions', 'src/compiler/native.rs'), ('positions in lists', 'src/compiler/names.rs'), ('literals', 'src/parser/base.rs')],
  'interval analysis with linear constraints of every integer computation + who-may-call + path-sensitive failure propagation',
  'Every computation with 64-bit integers in the type-checked program is judged on every path that reaches it; failing branches are followed to the result.')
P('P24', 'List and dict functions use every element once, in order, with no others',
  'The built-in list and dict functions (map, filter, flat, enumerate, join, reversed, sorted, html_nodes, items, keys, values, contains, length) give exactly the elements due for their whole argument, in the right order, and sorted is stable by integer or string keys. '
  'all, any and find ask the function about the elements from the first on and stop only at the one that decides. '
  'list::get accepts exactly the positions from -n to n-1, list::slice clamps both positions to the list, and a part of a list behaves like a list of its elements.',
  ['inputs', 'programs'], 'every list and dict, every position, every callback',
  'tests call each function once or twice on a list of a few elements, rarely with positions at the bounds',
  ['src/compiler/native.rs', 'src/compiler/names.rs', 'src/utils/sliceref.rs'],
  [('list and dict functions', 'src/compiler/native.rs'), ('positions', 'src/compiler/names.rs'), ('parts of lists', 'src/utils/sliceref.rs')],
  'path-sensitive abstract interpretation of each built-in function (per-iteration effects on an arbitrary element, provenance of iterators) + linear (polyhedral) entailment of positions',
  'What one iteration over an arbitrary element contributes is compared with what is due under the conditions of the path; iterators are traced to the whole argument; positions are compared as linear expressions.')
P('P25', 'Text, truth and regular expression functions answer about all they are given',
  'The built-in functions on booleans, strings and html (and, or, negate, the truth of any value, starts_with, ends_with, is_empty, is_whitespace, len, lower, upper, trim, split, escape_html) answer exactly about their whole arguments, whatever these are. '
  'Regular expressions are compiled as written; test, count, split, find and find_all use all matches in order, and a match is given as its text if the expression has no groups, as the list of all groups (the whole match first) if its groups have no names, and as the dict of its groups if all have names; a group that took no part is the unit value, and mixing both kinds is an error. '
  'The name of a function is the one it was defined with, also after arguments were bound to it.',
  ['inputs', 'programs'], 'every string, value and regular expression',
  'tests use one short string and one expression for each function',
  ['src/compiler/native.rs', 'src/compiler/regex_value.rs', 'src/utils/text.rs', 'src/compiler/html.rs', 'src/compiler/func.rs'],
  [('functions on booleans, strings, html', 'src/compiler/native.rs'), ('regular expressions', 'src/compiler/regex_value.rs'), ('white space', 'src/utils/text.rs')],
  'path-sensitive abstract interpretation of each built-in function: term equality and boolean entailment of answers, per-iteration effects and provenance of iterators',
  'The answer on each path is compared with the one due under the conditions of the path; loops must look at every element; how groups are given is tied to how the expression was classified.')
P('P26', 'A name finds its variable, entry, element or built-in function, or an error',
  'A simple name gives the value of that variable; x::n gives the element of a list at position n; x::name gives the entry of that name if x is a dict that has one, the name of the tag for tag_name of a tag, and else the built-in function of that name for values of its kind, with x bound as the value it works on; each is coerced to the type expected there. '
  'Nothing (the unit value) is given for such an access only when it is a coalescing one (?::) to nothing; whatever else has no meaning is an error that is reported. '
  'Every built-in function can be named by its own name, in its own group, from the start.',
  ['inputs', 'programs'], 'every name, at every nesting, on every value, and all built-in functions',
  'tests name a handful of functions and values; most pairs of a kind of value and a name never occur',
  ['src/compiler/names.rs', 'src/compiler/native.rs', 'src/compiler/native_gen.rs', 'src/compiler/func.rs', 'src/utils/const_strs.rs'],
  [('names', 'src/compiler/names.rs'), ('table of built-in functions', 'src/compiler/native.rs'), ('its expansion', 'src/compiler/native_gen.rs')],
  'path-sensitive abstract interpretation: provenance of what a name gives; enumeration of the table of built-in functions from the type-checked program',
  'Each path that evaluates a name must give what is due under its conditions; the table of functions is evaluated symbolically and compared, function by function, with attributes and global names.')
P('P27', 'Expressions evaluate to what was parsed, in order; exports are all recorded',
  'Evaluating a parsed literal, bare word, quoted text, group, tag or function definition gives the value written; a list has the values of its items in order, and for a spread item the elements of its value; a template is the texts of its parts in order, with nothing for a part that is the unit value. '
  'A let declares each name in order, with the value and implicitness given for it, before its body is evaluated; what is exported, by a list of names, a let or a function definition, is recorded under its name with its value, and a second export of a name is reported. '
  'Every expression is coerced to the type expected, and evaluation fails only if that of a part does, or the value is not of that type.',
  ['inputs', 'programs'], 'every expression, with any number of items, parts or names, in any context',
  'tests evaluate lists of two or three items and templates of a few parts',
  ['src/compiler/value.rs', 'src/compiler/exports.rs', 'src/compiler/func.rs', 'src/parser/token.rs'],
  [('expressions', 'src/compiler/value.rs'), ('exports', 'src/compiler/exports.rs'), ('function definitions', 'src/compiler/func.rs')],
  'path-sensitive abstract interpretation of the evaluator: provenance of results, per-iteration effects on an arbitrary item',
  'For each kind of expression every path must give what that kind means; a round of a loop over items is compared with what is due for an arbitrary item, and the loop must take all in order.')
P('P28', 'Tags are built as written, and values shown in content as documented',
  'A tag has the name written, or the value given for it if that can be the name of a tag (in lower case; !DOCTYPE in any case), else it is an error; each attribute, written or spread, is there once, in order, with its value, an optional one being left out if its value is nothing, and one given twice is an error; its content is what is written in it. '
  'A value in content is shown as True or False, its number, its text, itself if it is HTML, a list (ul) with an item for each element in order, a table with a row for each entry in order with its name and value, or code naming the function or regular expression. '
  'Code quotes and code blocks give the text between the quotes, as it is, to the function called code or code_block.',
  ['inputs', 'programs'], 'every tag and every value, with any number of attributes, elements and entries, at any nesting',
  'tests build tags with a few attributes and show lists and dicts of two or three items',
  ['src/compiler/tag.rs', 'src/compiler/value.rs', 'src/utils/text.rs', 'src/parser/token.rs'],
  [('tags', 'src/compiler/tag.rs'), ('values in content, code', 'src/compiler/value.rs'), ('names', 'src/utils/text.rs')],
  'path-sensitive abstract interpretation: provenance of names, attributes and content; character-class decision for names',
  'Each path that builds a tag or shows a value must give what is due for that kind; a round over attributes, elements or entries is compared with what is due for an arbitrary one; the predicate for names is decided on every ASCII character and a representative of each other class.')
P('P29', 'Everything written is in the syntax tree, once, in order, as what it is',
  'On every way through the parser on which no error is reported, each word, name, number, code, escape and entity read, and each part parsed, is in the node made of them; nothing but white space is taken out again, and parts are in the order in which they were read. '
  'The first token decides which kind of node is made; a mark (spread, implicit, ?, ?::, =, a type, the truth of a literal, quotes of a block of code) is in the node exactly where it was written, a name is the text written (tag names in lower case), and a signature counts the parameters it has. '
  'A text in quotes is made longer only by what follows it directly, and of alternative patterns all names that either one binds are known.',
  ['inputs', 'programs'], 'every sequence of tokens, and so every source text',
  'tests parse some forty short texts; the combinations of constructs, marks and white space are not sampled',
  ['src/parser/base.rs', 'src/parser/func.rs', 'src/parser/tag.rs', 'src/parser/matcher.rs', 'src/parser/template.rs', 'src/parser/text.rs', 'src/parser/types.rs', 'src/parser/queue.rs', 'src/parser/ast.rs'],
  [('expressions, lists, names', 'src/parser/base.rs'), ('functions, parameters, arguments', 'src/parser/func.rs'), ('tags', 'src/parser/tag.rs'), ('patterns', 'src/parser/matcher.rs'), ('texts in quotes', 'src/parser/template.rs')],
  'path-sensitive abstract interpretation of every parsing function over a symbolic queue of tokens; compositional by the kind of the first token',
  'Each path, and each round of each loop, that reports nothing must have all content tokens taken and all parts parsed in what it returns or gathers; marks and counts of nodes are compared with the kinds of the tokens taken on the path.')

P('P30', 'The text is cut into tokens without gap, overlap or loss',
  'Every piece of the text, from the first character to the last, becomes one token with exactly the range and the kind that were read; left out are only comments, where they are not wanted, and white space next to white space, so that no two white space tokens follow each other and a paragraph break stays. '
  'A quote mark is an opening one at the start of the text and after white space, {, (, [, = or the end of a tag (>), else a closing one; a comment in between changes nothing. '
  'What is wrong with a piece is reported once, at that piece, and the parser gets the tokens in the order in which they are written.',
  ['inputs'], 'every text',
  'tests cut some sixty short pieces of text, one at a time',
  ['src/parser/tokenizer.rs', 'src/parser/token.rs', 'src/parser/queue.rs'],
  [('cutting, quotes, comments', 'src/parser/tokenizer.rs'), ('order', 'src/parser/queue.rs')],
  'path-sensitive abstract interpretation of the loop that cuts the text: what one round does to the position, the list of tokens and the direction of quotes, for an arbitrary piece',
  'Each round is compared, for each kind of piece and of the last token, with what is due: the next position is the end of what was read, the token has that range and kind, the direction follows the table, and the loop ends only at the end of the text.')
P('P31', 'What a text starts with decides its first token: kind, length, and error',
  'Names (letters, digits, _), numbers, True, False, _, $names, @names and keywords, escapes (a backslash with x and 2, u and 4, or U and 8 hexadecimal digits, or with any other character but a line break), entities (& and a letter or #, up to ; or white space), white space (a paragraph break if it has two line breaks), # comments (up to the end of the line, with the white space after it unless that has a paragraph break), <!-- --> comments, quotes of backticks closed by as many backticks, closing tags, punctuation (the longest mark there is) and other text up to the next character of another kind are each the token they look like, of exactly that length. '
  'An error is reported exactly for an entity without ;, a malformed escape, a malformed closing tag, and a quote of backticks that is not closed, is closed by more of them, or has a line break within fewer than three.',
  ['inputs'], 'every text: every first character, every one after it as far as it is looked at, and runs of any length',
  'tests read some sixty short texts; other characters and combinations are not sampled',
  ['src/parser/tokenizer.rs', 'src/utils/text.rs'],
  [('reading one token', 'src/parser/tokenizer.rs'), ('letters of names', 'src/utils/text.rs')],
  'path-sensitive abstract interpretation over a symbolic row of characters, with decision of every character test on all ASCII characters and one of each other class; each way is compared with a table of the language',
  'For each way through the reader, the characters that can take it are enumerated by class, and the kind, the length (as a sum of runs) and the report must be what the table of the language gives for them.')
P('P32', 'Literal text, escapes and entities stand for the characters they denote',
  'Every word, number, mark or other piece of literal text stands as written, an ellipsis and the two kinds of quote marks, by direction, stand as the typographic ones, and a bar as the character that joins words; a text goes on as long as there is such a piece and no < follows, and in the whole of it, once, the longest of ---, --, <->, <-, ->, !=, <=, >=, +/-, (c), ~ and a hyphen before a digit are replaced by the characters they denote. '
  'An escape is the character with the code after \\x, \\u or \\U, a line feed for \\n, a tab for \\t, else the character after the backslash; an entity is the one character that it decodes to. '
  'An escape that is no character and an entity that is not exactly one are reported where they are written, and nothing else is.',
  ['inputs'], 'every text: every sequence of tokens, every escape, every entity (how the library decodes its name is taken for granted)',
  'tests compile some twenty short texts with a few of the escapes, entities and replacements',
  ['src/parser/text.rs', 'src/parser/base.rs', 'src/parser/template.rs'],
  [('literal text, replacements, escapes, entities', 'src/parser/text.rs')],
  'path-sensitive abstract interpretation of the functions that read literal text, over all kinds of tokens, and of those that decode a token, over a symbolic row of characters; the table of replacements is read from the source and compared as a function on all texts of up to five of its characters',
  'What each token adds to the text, before the loop and in each of its rounds, is compared with the table of the language; the term that the text of a node is made of is read as a sequence of replacements, and decoded characters are compared with the test of the characters on each way.')
P('P33', 'Diagnostics name the file, line, column and calls of what they are about',
  'The line of a place in a file is one more than the line feeds before it, and the column one more than the characters after the last of these; every file that is read is kept with its own number, path and text, and a diagnostic is shown with its message, the path of its file, and the line and column of the start of its range. '
  'An error of a running program lists before that all the calls that have not returned, the earliest first, each at the place and in the file where it is written, and what is called in the line after it. '
  'Every node of the syntax tree starts at the first of what was read for it, and a syntax error is reported at the token that it names, at what was read, or at the end of the file.',
  ['inputs'], 'every text, every error, every depth of calls',
  'tests look for the kind of an error and never at its place; positions in text beyond ASCII were wrong until now',
  ['src/utils/sourcefile.rs', 'src/errors/sink_base.rs', 'src/errors/sink.rs', 'src/compiler/context.rs', 'src/compiler/frame.rs', 'src/compiler/func.rs', 'src/parser/base.rs', 'src/parser/func.rs', 'src/parser/tag.rs', 'src/parser/matcher.rs', 'src/parser/queue.rs', 'src/parser/ast.rs'],
  [('lines and columns, files', 'src/utils/sourcefile.rs'), ('how a diagnostic is shown', 'src/errors/sink_base.rs'), ('calls', 'src/compiler/frame.rs'), ('places of nodes', 'src/parser/ast.rs')],
  'path-sensitive abstract interpretation of the function that finds the line and the column (one round of its loop for an arbitrary character), of the ones that make, list and show diagnostics, and of each function of the parser, with the order in which tokens are read',
  'Each value that reaches a diagnostic (file, start, message, calls) is compared with the argument that it must come from; each node built by the parser must start at the earliest of the tokens and parts that its fields are made of; each report of the parser must be at the token that its error names.')
P('P34', 'Ill-formed arguments, parameters, patterns and attributes are refused, no others',
  'After any well-formed items, the next argument of a call, parameter of a function, declared variable, part of a dictionary or list pattern, or attribute of a tag is refused with an error if, and only if, it does not fit: a name that is there already, an argument or parameter by position after one by name, a required parameter after an optional one of its sort, anything after the spread of its sort, a spread without, or with, an underscore, an implicit parameter by position, spread, or with a default. '
  'The error says what is wrong with the item. '
  'So are a spread argument with a name, a spread parameter with a default value, a parameter for the content that is spread, has a default or the name of another, a function without a name where it needs one, a declaration of nothing, and variables for a literal that cannot use them.',
  ['inputs'], 'every list of items of any length, every sort of item at every place',
  'tests try about one list for each kind of error; what is refused depends on all the items before, and lists that are refused by mistake are not sampled',
  ['src/parser/func.rs', 'src/parser/matcher.rs', 'src/parser/tag.rs', 'src/parser/base.rs'],
  [('arguments and parameters', 'src/parser/func.rs'), ('parts of patterns', 'src/parser/matcher.rs'), ('attributes', 'src/parser/tag.rs'), ('declarations', 'src/parser/base.rs')],
  'path-sensitive abstract interpretation of each function of the parser; the rounds of a loop over a list of items, as found at its fixpoint, are read as an automaton over sorts of items and compared with the automaton of the language by a product construction',
  'The variables of the loop that its reports depend on are the states; for each state that is reached after well-formed items and each sort of item, the rounds that are possible must report exactly if the language refuses the item, with one of the errors that hold.')
N('P35', 'No input crashes the compiler',
  'Whatever the sources are, compiling ends in output or in reported errors and never in a crash. '
  'A document, pattern or expression that is nested deeply, and a function that calls itself often, is no exception.',
  ['inputs'], 'every text, every depth of nesting and of calls',
  'tests try a few dozen short texts, none nested deeply',
  ['src/parser/base.rs', 'src/compiler/func.rs', 'src/errors/mod.rs'],
  [('nested values', 'src/parser/base.rs'), ('calls', 'src/compiler/func.rs'), ('internal errors', 'src/errors/mod.rs')],
  'the parser and the evaluator recurse once per level of nesting and per call, so whether the stack overflows depends on depths at run time that nothing in the source bounds; of the other crashes, the ones that follow from a claimed property (integer overflow P23, malformed escapes P31 and P32, missing parameters P17) are decided there, but the rest are some two hundred assertions that depend on the libraries and on relations between tables and runtime values')
N('P36', 'Compiling takes no more time and memory than the document asks for',
  'Compiling a document whose functions return ends, and takes no more time and memory than the size of the sources and the number of calls and values that they ask for account for.',
  ['inputs'], 'every document',
  'tests compile small documents and measure nothing',
  ['src/compiler/func.rs', 'src/compiler/regex_value.rs'],
  [('calls', 'src/compiler/func.rs'), ('regular expressions', 'src/compiler/regex_value.rs')],
  'how often a loop or a call of a document runs is a runtime quantity, the language can express every computation, and the cost inside the regular expression and highlighting libraries is not in this source')
N('P37', 'Highlighted code is coloured as its language asks',
  'Each piece of a highlighted code block has the class of what it is in its language.',
  ['inputs'], 'every piece of code in every language',
  'tests compare a few blocks of two languages',
  ['src/compiler/highlight.rs', 'src/compiler/highlight_papyri.rs'],
  [('classes of pieces', 'src/compiler/highlight.rs')],
  'what a piece of code is is decided by grammars loaded at run time as data of the highlighting library, which are no source in this repository, and there is no other definition of the right class to compare with')
