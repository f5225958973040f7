"""Writes properties.jsonl (kept as a program so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in (state or [])],
                               mechanism=[dict(name=a, where=b) for a, b in mechanism],
                               observe_at=observe, hook_needed=hook)))

D = 'datashape/'
p('C01', 'A datashape text denotes exactly the type it spells',
  'Every text derived from the published grammar is accepted and yields exactly the dimensions, measure, field names and constructor arguments it spells, in the written order. '
  'Layout (whitespace, newlines, comments, trailing commas in records and tuples, quote and escape style) and the choice between sugar and constructor spelling of options, records, tuples, functions and aliases never change the resulting type.',
  ['inputs'], 'all texts of the grammar, in every layout and spelling',
  'The tests parse a few dozen fixed texts; nesting, argument and layout combinations are unbounded.',
  [D+'parser.py', D+'lexer.py', D+'type_symbol_table.py', D+'util/__init__.py'],
  [('recursive descent over a token array with backtracking', 'parser.DataShapeParser'), ('default symbol table', 'type_symbol_table.TypeSymbolTable.add_default_types')],
  ['datashape.dshape(text)', 'datashape.parser.parse(text, sym)'])
p('C02', 'Malformed text is always refused, with the right kind of error',
  'A text that the grammar does not derive never yields a type: it is refused with DataShapeSyntaxError, also when only its tail or an inner fragment is wrong. '
  'A grammatical text whose constructor arguments or structure are invalid is refused with TypeError, ValueError or NotImplementedError, and no other kind of exception ever escapes from parsing, short of nesting too deep for the stack of the interpreter.',
  ['inputs'], 'all strings, in particular every near miss of a valid text',
  'The tests try about fifty malformed texts; the set of near misses is unbounded.',
  [D+'parser.py', D+'lexer.py', D+'error.py', D+'coretypes.py'],
  [('raise_error and the end-of-input check', 'parser.parse'), ('constructor argument checks', 'coretypes')],
  ['datashape.dshape(text)'])
p('C03', 'Syntax errors point at the offending place',
  'The syntax error raised for a malformed text carries an offset inside the text, and its line number, line text, column and rendered pointer all describe that same offset, as those of a copied or pickled error do. '
  'The offset never lies beyond the first offending token, other than at an unrecognisable character further on, nor before the innermost dimension, type, field or argument in which that token stands, and is exactly the start of the offending item when that is an unrecognisable character or a surplus token after a complete datashape. '
  'Where the text is fine and the given symbol table lacks what its punctuation stands for, the offset is that of the punctuation.',
  ['inputs'], 'all malformed texts, over any number of lines',
  'Tests only check the exception class, never the location.',
  [D+'error.py', D+'parser.py', D+'lexer.py'],
  [('line/column computation', 'error.DataShapeSyntaxError'), ('token spans', 'lexer.lex'), ('error position selection', 'parser.raise_error')],
  ['attributes and str() of the raised DataShapeSyntaxError'])
p('C04', 'Tokenising accounts for every character',
  'Tokenising any text yields tokens with increasing, non-overlapping spans separated only by whitespace and comments, each having the class and the decoded value the published token rules assign to exactly the characters in its span. '
  'Either the tokens cover the whole text, or tokenising stops with DataShapeSyntaxError at the first position where no token can start, after having produced every token before it.',
  ['inputs'], 'all strings over all of Unicode',
  'Tests lex isolated tokens and one hand-written sequence.',
  [D+'lexer.py'], [('token table and combined regular expression', 'lexer._tokens, lexer.lex'), ('string literal decoding', 'lexer._str_val')],
  ['datashape.lexer.lex(text)'])
p('C05', 'Printing a type and parsing the result gives the type back',
  'For every type expressible in the grammar, with arbitrary Unicode field names and string parameters, parsing what str() or pprint() at any width prints gives an equal type (categoricals, abbreviated beyond ten categories, excepted beyond ten). '
  'Two types that print alike are equal, and printing is stable: printing the re-parsed type gives the same text.',
  ['inputs', 'configurations'], 'all types, all line widths',
  'Tests round-trip some forty hand-picked types at the default width.',
  [D+'coretypes.py', D+'internal_utils.py', D+'parser.py', D+'lexer.py'],
  [('__str__ of each type', 'coretypes'), ('pprint', 'coretypes.pprint'), ('identifier test deciding on quoting', 'internal_utils.isidentifier')],
  ['str(ds)', 'datashape.pprint(ds, width)', 'datashape.dshape(text)'])
p('C06', 'repr of a datashape evaluates back to it',
  'For every datashape, record and tuple, with arbitrary Unicode field names and string parameters, evaluating its repr in a namespace with the public names gives an equal type, whether repr is on one line or many. '
  'The repr itself is always a single well-formed Python expression.',
  ['inputs'], 'all datashapes',
  'Tests evaluate the repr of about forty types, none of them needing escapes.',
  [D+'coretypes.py'], [('DataShape.__repr__, CollectionPrinter.__repr__', 'coretypes')],
  ['repr(ds)'])
p('C07', 'Pickling and copying reproduce the type',
  'For every type, pickling at any protocol and unpickling (in the same or another process), copying and deep-copying give an object of the same class that is equal, has the same hash as the original within a process, and prints and represents itself identically. '
  'The reproduced object and all its parts are fully usable: component access, further construction, indexing and NumPy conversion behave as on the original.',
  ['inputs', 'configurations'], 'all types x all pickle protocols x same/other process',
  'One test pickles one type at the default protocol and compares strings.',
  [D+'coretypes.py'], [('__getstate__/__setstate__', 'coretypes.Mono, coretypes.DataShape'), ('slot based state', 'coretypes.Mono.parameters')],
  ['pickle.loads(pickle.dumps(x, proto))', 'copy.copy, copy.deepcopy'],
  state=[('_hash', 'cached hash, must not travel with the pickle', 'coretypes.Mono.__hash__')])
p('C08', 'Equality and hashing are structural and consistent',
  'Two types are equal exactly when they have the same dimensions in the same order and structurally the same measure, a measure and the zero-dimensional datashape holding it being the same type; equality is reflexive, symmetric and transitive, != is its negation, and comparing with a foreign object is False without raising (but a fixed dimension also equals exactly the whole number of its size). '
  'Equal types have equal hashes, and neither equality nor hash changes over an object\'s life, whatever was called on it in between.',
  ['inputs', 'histories'], 'all pairs and triples of types, and all call histories on them',
  'Tests compare a dozen pairs.',
  [D+'coretypes.py', D+'typesets.py'], [('Mono.__eq__/__hash__/info', 'coretypes'), ('Fixed.__eq__', 'coretypes')],
  ['==, !=, hash(), set and dict membership'], state=[('_hash', 'hash cached on first use', 'coretypes.Mono.__hash__')])
p('C09', 'Every construction route gives the same type',
  'The same type obtained by parsing text, by multiplying dimension objects or integers onto a measure (or dimension objects onto its text), from a list or tuple of elements, or from the component classes directly is equal and prints identically. '
  'Constructing from an existing type returns that type, and aliases (int, real, complex, intptr, ...) denote the very type they stand for; a categorical keeps the measure of the type it is given, and of the one its plain categories have if it is given none. '
  'Every part of a type other than a registered scalar is rebuilt by calling its class with its parameters, and is a sequence of its dimensions and its measure (a record one of fields, by name).',
  ['inputs'], 'all types x all mixes of construction routes',
  'Tests compare routes for a handful of one and two dimensional arrays.',
  [D+'coretypes.py', D+'util/__init__.py'], [('Mono.__mul__/__rmul__, DataShape.__rmul__', 'coretypes'), ('_launder', 'coretypes'), ('dshape', 'util')],
  ['datashape.dshape, *, DataShape(...), Record(...), Option(...), Tuple(...), Map(...), Function(...)'])
p('C10', 'Ill-formed types cannot be obtained',
  'No datashape obtained from dshape(), given text, lists, products or objects of the type classes, ever has a dimension in measure position, a measure in dimension position, a negative fixed size, a second ellipsis among the dimensions of any array type at any nesting depth, an ellipsis as measure, a duplicate field name, a field without name or type in a record literal, a type variable not starting with a capital, or a built-in scalar type with a string length that is negative or no integer, an unknown string encoding or time unit, a decimal precision or scale that is no integer, or a time zone or physical unit that is no text: the attempt raises TypeError, ValueError or DataShapeSyntaxError at the latest when dshape() is given the result. '
  'The same requests without the flaw succeed.',
  ['inputs'], 'all attempted constructions at every nesting position',
  'Tests try one attempt per rule, at top level only.',
  [D+'coretypes.py', D+'validation.py', D+'util/__init__.py'], [('constructor checks', 'coretypes.DataShape/Fixed/TypeVar/Record'), ('validate/traverse', 'validation')],
  ['datashape.dshape and constructors'])
p('C11', 'Indexing a type gives the type of the indexed data',
  'Indexing a datashape through subshape gives the type of the same indexing applied per axis to conforming data: an integer drops a dimension, a slice with any start, stop and non-zero step keeps it with the number of elements it selects (a var dimension stays var unless both bounds are non-negative, then the nominal count), None inside a tuple inserts a dimension of one, a list keeps one with its length, and names, positions, lists and slices select record fields in the requested order, also combined in a tuple. '
  'subarray(n) drops exactly the first n dimensions, and removing more dimensions than exist, selecting a field twice by a list or indexing with an unsupported object is refused.',
  ['inputs'], 'all shapes x all index expressions',
  'Tests and doctests index about twenty fixed cases; bounds outside the dimension are never tried.',
  [D+'coretypes.py'], [('DataShape._subshape, subarray', 'coretypes'), ('IndexCallable', 'internal_utils')],
  ['ds.subshape[index]', 'ds.subarray(n)'])
p('C12', 'NumPy types are imported faithfully',
  'For every NumPy shape and dtype, from_numpy gives a datashape whose dimensions are exactly the shape and whose measure has the same kind, width, unit, field names, field order and nested or sub-array structure, regardless of byte order, alignment, padding or field titles; dtypes without a counterpart are refused with an exception, never approximated. '
  'Exporting the imported type again gives the same dtype up to byte order, field packing and the calendar/clock unit of datetimes.',
  ['inputs'], 'all shapes and dtypes, structured ones to any depth',
  'Tests import about forty dtypes, one of them nested.',
  [D+'coretypes.py'], [('from_numpy', 'coretypes'), ('CType.from_numpy_dtype', 'coretypes')],
  ['datashape.from_numpy(shape, dtype)', 'datashape.CType.from_numpy_dtype'],
  state=[('Type._registry', 'dtype names are looked up here', 'coretypes.Type')])
p('C13', 'Types are exported to NumPy faithfully or refused',
  'to_numpy gives the fixed sizes as the shape (-1 for a type variable) and a dtype with the kind, width, field names, order and fixed-size sub-array structure of the measure; integral decimals get an integer dtype wide enough for every value of their precision, sized scalar types get the item size they declare, and text of any length the object dtype tagged as such (vlen). '
  'A type NumPy cannot express (var or ellipsis dimensions, optional values other than dates, datetimes and timedeltas, types without dtype) is refused with TypeError.',
  ['inputs'], 'all types',
  'Tests export about twenty-five types.',
  [D+'coretypes.py'], [('to_numpy, to_numpy_dtype and the to_numpy_dtype methods', 'coretypes')],
  ['datashape.to_numpy(ds)', 'datashape.to_numpy_dtype(ds)', 'CType.itemsize'])
p('C14', 'Promotion is symmetric, NumPy-conformant and option-preserving',
  'promote(a, b) returns an operand unchanged when the two are equal; otherwise it is the type of NumPy\'s result type of the two payloads (string with string staying string), and promote(a, b) equals promote(b, a). '
  'The result is optional exactly when an operand is and option promotion was requested, options never nest, wrapping an operand in a zero-dimensional datashape changes nothing, and what NumPy cannot promote is refused with TypeError.',
  ['inputs', 'configurations'], 'all pairs of scalar types, optional or not, wrapped or not, with either flag value',
  'Tests promote about thirty pairs, mostly strings and datetimes.',
  [D+'promote.py', D+'coretypes.py'], [('promote, optionify', 'promote')],
  ['datashape.promote', 'datashape.optionify'])
p('C15', 'A discovered type describes the data it was discovered from',
  'For any nesting of lists, tuples, sets and dictionaries over supported scalars, discover succeeds and the type describes the value: every fixed dimension equals the length of every sequence it stands for, tuples have one component per element, records name exactly the keys present, every scalar is of, or widens under the documented order to, the scalar type given, and whatever is missing (None or empty text) is only ever described by an optional or null type; sequences of one element type but different lengths make one array with a var dimension; a dictionary by itself gives the record of the types of its values in key order, and a set the type of its members listed in some order. '
  'Discovery never modifies the value.',
  ['inputs'], 'all nested Python data over supported scalars',
  'Tests discover about forty values, nesting at most two deep.',
  [D+'discovery.py'], [('discover on sequences, mappings', 'discovery.discover'), ('unite_identical/unite_base/unite_merge_dimensions', 'discovery')],
  ['datashape.discover(value)'])
p('C16', 'Scalars and scalar text are classified by what they hold',
  'discover gives each Python scalar its type (bool, int64, float64, complex, string, ASCII bytes, date, time, datetime, timedelta in microseconds, null for None), and text the type of what it spells: empty text null, integers int64, other numbers float64, True/False words bool, "<whole number> <time unit>" a timedelta in that unit, clock times time, dates and date-times by whether they carry a non-zero time, everything else (in particular purely alphabetic or blank text) string. '
  'Every text whatsoever gets a type: discovery of text never raises.',
  ['inputs'], 'all strings and all scalar values',
  'Tests classify about sixty texts.',
  [D+'discovery.py', D+'coretypes.py'], [('string_coercions chain, dateparse fallback', 'discovery.discover(str)'), ('deltaparse, timeparse', 'discovery'), ('normalize_time_unit', 'coretypes')],
  ['datashape.discover(text)', 'datashape.discover(scalar)'])
p('C17', 'Table columns get the least common type, optional iff data is missing',
  'For a list of equally long rows, or a list of dictionaries, each column gets the least type all its present values widen to under the documented order (int32 < int64 < float64 < string, date < datetime < string, bool, timedelta < string), made optional exactly when some value is missing (None, empty text or absent key), and null when all are. '
  'A list of dictionaries gives a record over the sorted union of the keys, the outer dimension is the number of rows, and neither the order of rows nor the order of keys matters.',
  ['inputs'], 'all tables of scalars, all row and key orders',
  'Tests discover about fifteen small tables.',
  [D+'discovery.py', D+'internal_utils.py'], [('lowest_common_dshape over edges', 'discovery'), ('unite_base', 'discovery'), ('_toposort, groupby', 'internal_utils')],
  ['datashape.discover(rows)', 'datashape.discovery.lowest_common_dshape'])
p('C18', 'NumPy data is discovered with its exact shape and type',
  'For every NumPy array and scalar of a supported dtype, discover gives exactly the shape and the imported dtype, for structured arrays including nested fields; arrays (or record columns) of Python objects are string when they hold text and object otherwise, and a NumPy scalar of text or bytes is discovered like the Python one. '
  'The contents, memory order, strides and byte order of an array never influence its type otherwise.',
  ['inputs'], 'all arrays: shapes, dtypes, layouts',
  'Tests discover seven arrays and scalars.',
  [D+'discovery.py', D+'coretypes.py'], [('discover on ndarray and numpy scalars', 'discovery'), ('is_string_array', 'discovery')],
  ['datashape.discover(array)'])
p('C19', 'Type predicates answer for the type, not for its spelling',
  'Each predicate (isscalar, isrecord, iscollection, istabular, isfixed, ishomogeneous, isnumeric, isreal, isboolean, isdatelike, isdimension) gives the answer its definition implies for the structure of the type, through any number of dimensions and through option where it looks at the measure. '
  'The answer is the same for the text, the datashape and (where accepted) the bare measure, and asking never changes the type.',
  ['inputs'], 'all types in all spellings',
  'Tests and doctests ask about fifty questions.',
  [D+'predicates.py', D+'typesets.py', D+'util/__init__.py'], [('predicate functions, launder', 'predicates')],
  ['datashape.predicates.*'])
p('C20', 'Searching a type finds every part at any depth',
  'has_var_dim and has_ellipsis are true exactly when a var or ellipsis dimension (respectively an ellipsis) occurs anywhere in the type, inside any nesting of records, tuples, options, maps and functions. '
  'collect returns exactly the outermost parts satisfying its predicate, in order of appearance, each as often as it occurs, and never fails on a well-formed type.',
  ['inputs'], 'all types and predicates',
  'Tests use a dozen types, nesting at most two deep.',
  [D+'util/__init__.py'], [('has, collect', 'util')], ['datashape.has_var_dim, has_ellipsis, datashape.util.collect'])
p('C21', 'Validation accepts exactly the conforming values',
  'validate(schema, value) is true exactly when a value conforms to an option-free schema: sequences match fixed sizes exactly and var with any length at every level, dictionaries supply every field of a record and sequences exactly one item per field in order, and each scalar is of the schema\'s scalar type (bool, integer, float, complex, string, date, time or datetime); otherwise the result is false. '
  'A tuple of schemas accepts what any member accepts, a Python type what isinstance accepts, a NumPy array exactly its own datashape, and issubschema is true exactly for equal types.',
  ['inputs'], 'all (schema, value) pairs',
  'The value tests are skipped on current NumPy; only a handful of scalar and array checks run.',
  [D+'user.py', D+'predicates.py'], [('validate, issubschema dispatch', 'user')], ['datashape.validate', 'datashape.issubschema'])
p('C22', 'Concatenation adds leading sizes and nothing else',
  'cat_dshapes of one or more types with fixed leading dimension and equal remainder is the type whose leading size is the exact sum and whose remainder is unchanged, independently of order and grouping. '
  'An empty list and, among two or more, a non-fixed leading dimension, a missing dimension or any difference in the remaining dimensions or measure is refused with an exception, and the inputs are never modified.',
  ['inputs'], 'all lists of datashapes', 'Tests concatenate two lists.',
  [D+'util/__init__.py'], [('cat_dshapes', 'util')], ['datashape.cat_dshapes'])
p('C23', 'Type sets behave as sets and maxtype widens within the family',
  'A type set contains exactly the types it was built from, union contains exactly the members of both, iteration keeps order, and two sets are equal, with equal hash, exactly when name and members, in order, agree. '
  'maxtype of a numeric type is the widest type of its own family (signed, unsigned, floating, complex; bool, decimal and timedelta unchanged), is idempotent, keeps optionality, and refuses non-numeric types with TypeError; supertype names the family containing the type, and matching against a signature compares item by item, a type set standing for any of its members.',
  ['inputs', 'histories'], 'all types and all unions of type sets', 'Tests and doctests use a dozen types.',
  [D+'typesets.py'], [('TypeSet', 'typesets'), ('supertype, maxtype, matches_typeset', 'typesets')],
  ['datashape.TypeSet, maxtype, typesets.supertype'])
p('C24', 'The equality assertion accepts equal types only',
  'assert_dshape_equal returns normally exactly when the two types are equal up to the differences its flags tell it to ignore (the dimensions as a whole, time zones, timedelta units, string encoding, string length, record field order), at any nesting depth. '
  'In every other case it raises AssertionError, never anything else, and for a single difference the message names the path through fields, tuple items, arguments and options to it.',
  ['inputs', 'configurations'], 'all pairs of types x all flag settings', 'Tests compare about thirty pairs.',
  [D+'util/testing.py'], [('assert_dshape_equal dispatch', 'util.testing')], ['datashape.util.testing.assert_dshape_equal'])
p('C25', 'Records keep their fields: order, names and types',
  'A record built from any sequence or ordered mapping of (name, type) pairs, or from literal R[...] syntax, has exactly those fields in that order, and fields, names, types, dict, indexing by name, printing and NumPy export all agree. '
  'Records with the same fields in another order, or other names or types, are different; duplicate names and malformed literals are refused.',
  ['inputs'], 'all field lists', 'Tests build about fifteen records of one or two fields.',
  [D+'coretypes.py'], [('Record, RecordMeta._unpack_slice', 'coretypes')], ['datashape.Record, datashape.R'])
p('C26', 'Parsing uses the given symbol table only, and passes arguments as written',
  'Parsing with a custom symbol table resolves dimension and data type names solely in that table: entries added to, replaced in or removed from one table affect parsing with that table at once and with no other table, and names it lacks are refused. '
  'A type constructor is called with exactly the positional and keyword arguments written (integers, strings, booleans, datashapes, and homogeneous lists of these) in order, and what it returns, or raises, is what the text denotes.',
  ['inputs', 'histories'], 'all symbol tables and argument lists, all update histories', 'Tests use two constructors and about forty argument lists.',
  [D+'parser.py', D+'type_symbol_table.py'], [('TypeSymbolTable', 'type_symbol_table'), ('parse_type_arg_list', 'parser'), ('syntactic_sugar', 'parser')],
  ['datashape.parser.parse(text, sym)', 'datashape.TypeSymbolTable'],
  state=[('sym', 'module-level default table', 'type_symbol_table.sym')])
p('C27', 'Operations leave no trace: types are immutable, calls are repeatable',
  'Parsing, printing, comparing, hashing, indexing, converting, promoting, discovering and validating never modify their arguments, existing types, the default symbol table or the registries, and repeating any call at any later time, after any other calls including ones that failed or were interrupted at any point, gives an equal result. '
  'Containers passed in or handed out can be modified afterwards without affecting any type.',
  ['histories', 'crash_points', 'inputs'], 'all call histories, and every interruption point inside a call', 'Tests make single calls and never interrupt one or look for side effects.',
  [D+'coretypes.py', D+'parser.py', D+'discovery.py', D+'type_symbol_table.py', D+'util/__init__.py'],
  [('immutable tuples in _parameters and slots', 'coretypes'), ('per-call parser objects', 'parser')],
  ['public API calls in sequence'], state=[('Type._registry', 'registered types', 'coretypes.Type'), ('sym', 'default symbol table', 'type_symbol_table.sym'), ('registry', 'type set registry', 'typesets.registry')])
p('C28', 'Concurrent use gives the results of sequential use',
  'Any number of threads parsing, printing, comparing, hashing, indexing, discovering, promoting and validating at the same time, on shared or separate types, each get exactly the results (or errors) the same calls give in a single thread, under every interleaving. '
  'No interleaving leaves a shared type, symbol table or registry changed.',
  ['schedules', 'inputs'], 'all interleavings at line granularity of concurrent public calls', 'No test uses a thread.',
  [D+'parser.py', D+'coretypes.py', D+'discovery.py'],
  [('no shared mutable state apart from idempotent caches', 'coretypes.Mono.__hash__')],
  ['results of public calls made concurrently'], state=[('_hash', 'lazily cached hash', 'coretypes.Mono')])
p('C29', 'Results do not depend on hash seed or process',
  'The printed form, field order, discovered type, promoted type, validation verdict and error class for a given input are identical in every process, whatever the hash seed and object addresses, and whatever order earlier inputs came in.',
  ['configurations', 'inputs', 'histories'], 'all hash seeds and processes', 'Tests run in one process with a fixed hash seed.',
  [D+'discovery.py', D+'internal_utils.py', D+'coretypes.py'], [('sorted keys, topological order of edges', 'discovery'), ('_toposort over sets', 'internal_utils')],
  ['transcripts of public calls compared across processes'])
p('C30', 'Registered names are never rebound',
  'Once a name is registered in the type registry or the type set registry, looking it up gives the registered object for ever: registering the name again, directly or by creating another scalar type, named datashape or named type set, is refused with TypeError and changes nothing. '
  'The built-in types and named type sets are registered under their own names; names never registered are not found, and a creation that fails registers nothing.',
  ['histories'], 'all sequences of registrations and look-ups', 'Two tests register one duplicate each.',
  [D+'coretypes.py', D+'typesets.py'], [('Type.register/lookup_type', 'coretypes.Type'), ('TypesetRegistry', 'typesets')],
  ['Type.register, Type.lookup_type, CType(...), TypeSet(name=...), typesets.registry'],
  state=[('Type._registry', 'name to type', 'coretypes.Type'), ('TypesetRegistry.registry', 'name to type set', 'typesets')])

p('C31', "A user's own types, classes and values are treated like built-in ones",
  'A type class derived from the component classes, with or without slots and parameters, once entered in the symbol table and registered, parses, prints, evaluates, compares, hashes, pickles, copies, indexes, exports, promotes, validates, searches and concatenates wherever a built-in type may stand, as its own definition says, and is never taken for another type that merely shares its name, parent or text. '
  'A value class for which a discoverer was registered, whenever it was, contributes the type its nearest discoverer answers, inside containers as on its own; without one it is refused with NotImplementedError.',
  ['inputs', 'histories'], 'all classes a user may derive, all nests they may stand in, all orders of registration', 'Tests define two classes and never put them inside other types.',
  [D+'coretypes.py', D+'parser.py', D+'discovery.py', D+'promote.py', D+'user.py', D+'typesets.py', D+'util/testing.py'],
  [('Mono/Unit slots protocol', 'coretypes'), ('generic functions dispatched by class', 'discovery, user, util.testing'), ('TypeSymbolTable', 'type_symbol_table')],
  ['subclasses of datashape.coretypes.Unit/Mono', 'datashape.discover.register', 'datashape.validate.register', 'datashape.type_symbol_table.sym'],
  state=[('sym', 'default symbol table', 'type_symbol_table.sym'), ('discover', 'dispatch table', 'discovery.discover')])

p('C32', 'The work an operation does grows moderately with its input',
  'Parsing (also of malformed text), printing, evaluating, comparing, hashing, copying, pickling, searching, asserting, exporting, validating and uniting types, and discovering values, take a number of steps bounded by a low power of the size of what they are given, however deeply it is nested and however wide it is; no input makes the work double with every level. '
  '(Listed finding: discovering tables nested in each other whose columns have no common type.)',
  ['inputs'], 'all growing families of types, texts and values', 'Tests use small inputs only and never measure work.',
  [D+'parser.py', D+'coretypes.py', D+'discovery.py', D+'validation.py', D+'util/__init__.py', D+'util/testing.py', D+'predicates.py', D+'user.py'],
  [('recursive descent with one look at every token', 'parser'), ('_hash cache', 'coretypes.Mono.__hash__')],
  ['steps executed by public calls on families of inputs'])
p('C33', 'Nothing a call was given, made or returned is kept alive',
  'However many different texts, types, values, arrays, schemas and malformed inputs a process parses, prints, hashes, compares, discovers, promotes, searches and validates, the memory it holds afterwards does not grow with their number: arguments, results and errors are released once the caller drops them, and only explicit registrations (named types and type sets, classes, discoverers) last. Bounded caches are allowed.',
  ['histories', 'inputs'], 'all call histories', 'Tests make a handful of calls and do not look at memory.',
  [D+'parser.py', D+'coretypes.py', D+'discovery.py', D+'typesets.py', D+'error.py', D+'predicates.py', D+'user.py'],
  [('no module-level tables but the registries', 'coretypes.Type, typesets.registry'), ('_hash cached on the type itself', 'coretypes.Mono.__hash__')],
  ['blocks allocated, objects alive and weak references after public calls'],
  state=[('Type._registry', 'registered types', 'coretypes.Type'), ('registry', 'type set registry', 'typesets.registry')])

p('C34', 'The width given to pprint decides the layout and nothing else',
  'At every width pprint shows exactly the tokens of the printed type, only white space differs; without a width it is 80. '
  'A record or tuple (with fields or items, and standing in arrays, records and tuples only) is, with the dimensions before it, on one line exactly when that is shorter than the width left to it: the width given less the dimensions and (unquoted) field names it stands behind. '
  'Otherwise each of its fields or items begins a line of its own, two columns deeper than the line it is in, as does the closing bracket. Whatever is no record, tuple or array of these is printed as by str(), and a great width breaks nothing.',
  ['inputs'], 'all types and widths', 'Tests print two types at two widths.',
  [D+'coretypes.py', D+'internal_utils.py'],
  [('pprint', 'coretypes.pprint'), ('Record.__str__', 'coretypes.Record')],
  ['datashape.pprint(ds, width)', 'str(record)'])

p('C35', 'The graph helpers under the type lattice lose and invent nothing',
  '_toposort lists every node of a graph (dict of node to the nodes depending on it) exactly once, each before all that depend on it, and raises ValueError exactly if the graph has a cycle, wherever it is; '
  'reverse_dict turns round every edge once; descendents gives the start and exactly the nodes reachable from it, on cyclic graphs too; groupby puts every element, in order of occurrence, under its key and nowhere else, calling the key function once per element; '
  'remove keeps, in order, exactly the elements its predicate is not true (in the sense of Python) for; IndexCallable passes the index as it is given. No argument is changed.',
  ['inputs'], 'all finite graphs and sequences', 'Tests sort a graph or two of three nodes.',
  [D+'internal_utils.py', D+'discovery.py'],
  [('_toposort', 'internal_utils._toposort'), ('descendents', 'discovery.descendents'), ('groupby', 'internal_utils.groupby')],
  ['datashape.internal_utils', 'datashape.discovery.descendents'])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
print(len(P))
