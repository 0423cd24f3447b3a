"""Writes /verif/properties.jsonl.  Run by hand after editing the table."""
import json, os

P = []


def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files,
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))


T = 'marsh/schema/types/'
TM = 'marsh/schema/template/'
UM = ['unmarshal return value', 'exception raised by unmarshal']

p('C01', 'Input elements are never mutated',
  'Unmarshaling, casting, merging, overriding, removing, selecting, resolving and marshaling never modify the element, the value or any container the caller passed in: the caller\'s nested containers compare equal before and after the call, whether the call succeeds or raises.',
  ['inputs', 'fault_sequences'], 'every input element or value, every target type, and every point at which the call can fail',
  'Tests compare outputs; a handful compare inputs afterwards. Mutation shows only for particular nesting/error combinations (e.g. a union whose first member fails half way).',
  [TM + 'structured.py', TM + 'mapping.py', TM + 'sequence.py', T + 'namespace.py', 'marsh/element.py', 'marsh/_functional.py'],
  [('copies element into fresh dict/list before popping', TM + 'structured.py StructuredUnmarshalSchema.unmarshal'),
   ('copies mapping before removing the name key', T + 'namespace.py NamespaceUnmarshalSchema.unmarshal'),
   ('override/remove rebuild containers', 'marsh/element.py override, remove, merge')])

p('C02', 'Bad input surfaces only as the library error type',
  'When an input element does not fit a built-in type, unmarshaling raises an error of the library\'s own error hierarchy and never leaks a conversion error (value, type, overflow, lookup, OS error) raised while interpreting the element.',
  ['inputs'], 'every element of every kind (missing, null, boolean, number, string, sequence, mapping, arbitrary object) against every built-in schema',
  'The set of conversion failures (overflowing timestamps, huge exponents, undecodable base64, unhashable keys, ...) is open ended; tests try a few.',
  [T, TM, 'marsh/utils.py'],
  [('broad except around every partial conversion', T + 'primitive.py, bytes.py, complex.py, datetime.py, enum.py, literal.py, slice.py'),
   ('container construction wrapped', TM + 'mapping.py, sequence.py')], UM)

p('C03', 'Error paths locate the failing sub-element',
  'An error raised while unmarshaling a nested element carries a path whose fields, outermost first, are exactly the keys, field names or indices leading to the failing sub-element, and no other error passes through unlocated; the same holds when a nested type cannot be given a schema. The type and element an error names are the ones at fault.',
  ['inputs', 'programs'], 'every nesting of containers and every failing position',
  'Paths are asserted for a few shapes; the number of (shape, failing position) combinations is unbounded.',
  [TM, T, 'marsh/errors.py', 'marsh/path.py', 'marsh/element.py'],
  [('prepend context manager around every child call', TM + 'mapping.py, sequence.py, structured.py'),
   ('prepend implementation re-raises after extending the path', 'marsh/errors.py prepend')], ['err.path'])

p('C04', 'A missing value yields the default',
  'For every built-in type except null, if the element is missing and a default (or default factory) was given, the result is that default, respectively one fresh call of the factory, without consulting the element or the nested schemas; an explicitly given element is never replaced by the default.',
  ['inputs', 'programs'], 'every type, default and default factory',
  'Tests exercise defaults for a few types; each schema implements the rule itself.',
  [T, TM, 'marsh/schema/core/unmarshal.py'],
  [('has_default/get_default guard at the top of every unmarshal', 'marsh/schema/core/unmarshal.py UnmarshalSchema.has_default, get_default')], UM)

p('C05', 'A missing required leaf is an error',
  'Unmarshaling a missing element into a leaf type with no default raises a missing-value error; it never produces a value made from the missing marker.',
  ['inputs'], 'every leaf type (primitive, bytes, complex, datetime, enum, literal, logger, any)',
  'The missing marker is a string, so forgetting the guard silently yields plausible values (e.g. for str).',
  [T, 'marsh/element.py'],
  [('missing guard raising MissingValueError', T + '*.py unmarshal'), ('deep missing scan', 'marsh/element.py has_missing')], UM)

p('C06', 'No surplus input is silently ignored',
  'Unmarshaling into a type with a fixed set of fields either uses every key and every item of the input or raises: keys that name no field and items beyond the last positional field are rejected unless the type takes arbitrary ones.',
  ['inputs', 'programs'], 'every element and every set of fields, with or without variadic fields and supplied defaults',
  'Surplus detection is checked for one or two shapes; the interplay of defaults, variadics and positional-only fields is combinatorial.',
  [TM + 'structured.py'],
  [('consume by pop and reject leftovers', TM + 'structured.py StructuredUnmarshalSchema.unmarshal')], UM)

p('C07', 'Every item goes through its own child schema, once, in order',
  'Unmarshaling a container or structured type converts every item, key and field of the input exactly once with the schema belonging to that position, keeps their order, and hands exactly these converted values to the constructor; none is dropped, duplicated, passed through unconverted or paired with another field\'s schema.',
  ['inputs', 'programs'], 'containers of every length and every set of fields',
  'Tests use short containers; an error for the last, first, repeated or falsy item is invisible to them.',
  [TM + 'mapping.py', TM + 'sequence.py', TM + 'structured.py', T + 'set.py', T + 'tuple.py', T + 'typeddict.py'],
  [('per item loop', TM + 'mapping.py, sequence.py'), ('per field loop', TM + 'structured.py')], UM)

p('C08', 'Unions return the first member that accepts the element',
  'Unmarshaling into a union, enum or protocol tries the members in declaration order with the unmodified element, returns the result of the first that succeeds, and raises only if all fail; an optional additionally turns null or a missing value its member rejects into null and nothing else.',
  ['inputs', 'programs'], 'every number and order of members and every element',
  'Order sensitivity only shows for elements several members accept; tests have a few pairs.',
  [TM + 'union.py', T + 'union.py', T + 'protocol.py', T + 'enum.py'],
  [('ordered attempts', TM + 'union.py UnionUnmarshalSchema.unmarshal')], UM)

p('C09', 'Annotation hooks run once each, in order, around the conversion',
  'For an annotated type all pre-hooks run first in declaration order, each on the previous one\'s result, then the underlying conversion runs once on the last result, then all post-hooks run in order, each on the previous result; hook failures surface as library errors and the last result is returned.',
  ['inputs', 'programs'], 'every mixture and number of pre-, post- and foreign annotations',
  'Order matters only for non-commuting hooks; tests use single hooks.',
  [T + 'annotated.py', 'marsh/utils.py'],
  [('two passes around schema.unmarshal', T + 'annotated.py AnnotatedUnmarshalSchema.unmarshal')], UM)

p('C10', 'Value validators reject exactly the stated region',
  'The positive/negative/non-positive/non-negative and non-empty constraints accept exactly the values their name states: zero is on the documented side, not-a-number is never accepted by a sign constraint, and an accepted value is returned unchanged.',
  ['inputs'], 'all numbers including zero, infinities and NaN, and all containers',
  'Boundary values and unordered values are sampled at best.',
  ['marsh/annotation.py'],
  [('comparison guards', 'marsh/annotation.py Positive, Negative, NonPositive, NonNegative, NotEmpty')], UM)

p('C11', 'Marshal output is plain data that loses nothing',
  'Marshaling yields only null, booleans, numbers, strings, sequences and string-keyed mappings at every depth: every nested value is itself marshaled, every item, field and key of the value appears in the output, in order, and nothing is passed through raw.',
  ['inputs'], 'every value of every supported type at every depth',
  'Nested user types inside containers, slices, namedtuples and literals are sampled only.',
  [T, 'marsh/_functional.py'],
  [('recursive marsh.marshal on every component', T + '*.py marshal methods')], ['marshal return value'])

p('C12', 'Overlapping types are dispatched to the most specific schema',
  'For every type or value that several built-in schemas recognise, the schema chosen is the most specific one (annotated before wrapped type, registered components before their shape, enums before mixed-in types, named tuples before tuples before sequences, typed dicts and default dicts before mappings, dataclasses before the containers they extend, specific shapes before generic iterables and callables).',
  ['programs', 'configurations'], 'every ordered pair of registered schemas with overlapping domains',
  'Precedence is an emergent result of registration order and priorities spread over some 25 modules.',
  [T, 'marsh/schema/core/base.py', 'marsh/utils.py'],
  [('priority arguments of register decorators', T + '*.py'), ('first match wins', 'marsh/schema/core/base.py SchemaRegistry.match')])

p('C13', 'Schema lookups always reflect the current registrations',
  'After registering, replacing or removing a schema, or registering or removing a component, every later lookup behaves as if no lookup had happened before; cached results are never altered by building from them and values that merely compare equal but have different types are never confused.',
  ['histories', 'programs'], 'every interleaving of lookups and registrations',
  'Staleness needs a lookup, a registration and a second lookup of the same type; tests rarely look up before registering.',
  ['marsh/schema/core/unmarshal.py', 'marsh/schema/namespace.py', 'marsh/schema/core/base.py', 'marsh/utils.py'],
  [('cache clears after registration', 'marsh/schema/core/unmarshal.py UnmarshalSchemaRegistry.register'),
   ('namespace cache clears', 'marsh/schema/namespace.py Namespace, Namespaces')])

p('C14', 'Caching never changes what a call returns',
  'A memoised function returns for every call what the undecorated function returns for that call\'s own receiver and arguments: the receiver is passed through, distinct argument lists never share an entry, un-hashable arguments bypass the cache, and a failed call caches nothing.',
  ['inputs', 'histories'], 'all receivers, argument lists and call histories',
  'Cache confusion needs two particular calls in a particular order.',
  ['marsh/utils.py'],
  [('cache decorator and key construction', 'marsh/utils.py cache, CachePool, make_hash_key, _CachedHashKey')])

p('C15', 'Path fields survive joining and splitting',
  'Escaping a field, joining fields into a path and splitting it again gives back the same non-empty fields for every delimiter the library uses, whatever quotes, delimiters or backslashes they contain; prepending and appending add exactly one field.',
  ['inputs'], 'all strings',
  'Only strings with particular combinations of delimiter, quote and escape fail.',
  ['marsh/path.py', 'marsh/errors.py'],
  [('escape_field', 'marsh/path.py'), ('iterative_split state machine', 'marsh/path.py')])

p('C16', 'Merging follows the documented table',
  'Merging two elements keeps every key of both mappings in order of first appearance with equal keys merged recursively, concatenates sequences only when asked to, and otherwise lets the later, non-missing element win; a missing element never replaces a present one, on either side and at any depth.',
  ['inputs'], 'all pairs of elements of every kind, and all longer argument lists',
  'Kind combinations at depth are sampled only.',
  ['marsh/element.py'], [('merge', 'marsh/element.py merge')], ['merge return value'])

p('C17', 'Path edits address exactly the named sub-element',
  'Selecting, overriding or removing by path touches exactly the named key or in-range index, leaves every sibling as it was and in place, honours the combine option at every depth, and raises the path error, carrying the path walked, for anything that does not exist or cannot be traversed.',
  ['inputs'], 'all elements, paths and indices, including negative and boundary ones',
  'Index boundaries and mixed nestings are sampled only.',
  ['marsh/element.py'], [('select, override, remove', 'marsh/element.py')], UM)

p('C18', 'The override parser accepts or rejects whole inputs',
  'Parsing an override consumes the complete text or raises the parse error: it always terminates, never ignores trailing text, never raises anything else on malformed text, and quoted text is never re-interpreted as another kind of value.',
  ['inputs'], 'all strings',
  'Malformed inputs are unbounded; tests hold a list.',
  ['marsh/parse.py'], [('recursive descent parser', 'marsh/parse.py ElementParser, OverrideParser')], ['parse result', 'ParseError'])

p('C19', 'Integer text is converted exactly',
  'Integer text, whatever its length, becomes exactly that integer: no conversion of text to an integer passes through floating point.',
  ['inputs'], 'all integers',
  'Needs integers beyond 2**53, which no test has.',
  ['marsh/parse.py', 'marsh/utils.py', T + 'slice.py'], [('int before float', 'marsh/parse.py, marsh/utils.py cast_primitive')])

p('C20', 'The command line never runs the program on bad input',
  'The user\'s function is called at most once, only after all arguments, configuration files, removals and overrides were applied in the documented order and unmarshaled successfully; any library error ends the process with a message and a non-zero status, and help or bad options never reach the function.',
  ['inputs', 'fault_sequences'], 'all argument vectors and every point of failure',
  'The order of effects is only visible when several options touch the same key, and failures at each stage are not all tested.',
  ['marsh/entry_point.py', 'marsh/_functional.py', 'marsh/errors.py'], [('EntryPoint.__call__', 'marsh/entry_point.py')], ['process exit status', 'calls of the user function'])

p('C21', 'The working directory is always restored',
  'Loading configuration and running a program through the command line (with or without an output directory) never leave the process in another working directory, whether they succeed, fail or are interrupted.',
  ['inputs', 'fault_sequences'], 'all configurations and all failure points',
  'A failure inside nested configuration loading has to be provoked at the right moment.',
  ['marsh/config.py', 'marsh/utils.py'], [('try/finally around os.chdir', 'marsh/config.py')], ['os.getcwd()'])

p('C22', 'Configuration files are read safely and written atomically enough',
  'Configuration text is only ever parsed with safe loaders and only written in a form they accept, the kind of a file is decided by the kinds registered at that time, a file is opened for writing only after its whole new content has been encoded, and absent, unsupported or ambiguous file names are reported as configuration errors.',
  ['inputs', 'fault_sequences', 'crash_points'], 'all file contents and every point at which encoding or I/O can fail',
  'Encoding failures after truncation, ambiguous names and I/O faults are not provoked by tests.',
  ['marsh/config.py', 'marsh/utils.py'], [('load/save', 'marsh/config.py'), ('FileHandler types', 'marsh/utils.py')], ['file content', 'raised error'])

p('C23', 'The metadata section never reaches the program',
  'The configuration\'s metadata section is available for interpolation but is removed before the result is unmarshaled into the program\'s types, on every path through the command line.',
  ['configurations', 'inputs'], 'all configurations with and without metadata',
  'Only one configuration shape is tested.',
  ['marsh/entry_point.py', 'marsh/config.py'], [('drop of the meta section after resolve', 'marsh/entry_point.py')])

p('C24', 'Component namespaces dispatch on the registered name only',
  'A component name resolves to the component registered under it or raises, an existing name is never silently replaced, names that could not be addressed are refused, the name key itself is never passed to the component, and marshaling a component adds its own registered name or raises.',
  ['inputs', 'histories'], 'all names, registrations and elements',
  'Name collisions and reserved names are sampled.',
  ['marsh/schema/namespace.py', T + 'namespace.py'], [('register guards', 'marsh/schema/namespace.py Namespace'), ('name pop and lookup', T + 'namespace.py')])

p('C25', 'Delegating schemas forward everything unchanged',
  'Types that merely wrap another (annotated, constrained type variable, wrappers, recursive references) return for conversion and selection exactly what the wrapped schema returns for the same arguments, and pass the default on to it.',
  ['programs', 'inputs'], 'every wrapped type, argument and default',
  'Each forwarding method is separate code; a dropped argument shows for particular wrapped types only.',
  ['marsh/schema/core/unmarshal.py', 'marsh/schema/core/marshal.py', T + 'annotated.py', T + 'typevar.py'], [('forwarding methods', 'WrapperUnmarshalSchema, AnnotatedUnmarshalSchema, TypeVarUnmarshalSchema')], UM)

p('C26', 'Element kinds partition plain data',
  'Every plain value is exactly one of null, primitive, sequence or mapping for the library: text and bytes are never sequences, mappings are never sequences, the missing marker is recognised wherever it occurs, classes are never taken for instances, and the kind of every type can be told.',
  ['inputs'], 'all plain values', 'Predicates are duck typed; tests sample values.',
  ['marsh/utils.py', 'marsh/element.py'], [('is_mapping, is_sequence, is_primitive, is_missing', 'marsh/utils.py')])

p('C27', 'Only JSON-like, hashable-agnostic element traversal',
  'Deep scans over elements (missing detection, standardizing, closest-match suggestions) visit every nested item of every mapping and sequence, keep what they do not convert, and never fail on keys or items of any plain kind.',
  ['inputs'], 'all nested elements', 'Deep or oddly keyed elements are not sampled.',
  ['marsh/element.py', 'marsh/utils.py'], [('has_missing', 'marsh/element.py'), ('standardize', 'marsh/element.py'), ('get_closest', 'marsh/utils.py')])

p('C28', 'Primitive conversion is strict',
  'A primitive is converted only when the text or number denotes a value of the target type exactly: fractional or non-finite numbers never become integers, only the documented words and the numbers zero and one become booleans, and null, sequences and mappings never become primitives.',
  ['inputs'], 'all primitives against all primitive types',
  'Tables of samples only.',
  ['marsh/utils.py', T + 'primitive.py'], [('primitive_to_bool/int/float/str, cast_primitive', 'marsh/utils.py')], UM)

p('C29', 'Literals and enums yield declared members only',
  'Unmarshaling into a literal or enum returns one of the declared members, the object itself and not the input, or raises; a member is accepted only for input that denotes its value or (for enums) its name.',
  ['inputs', 'programs'], 'all members of all kinds against all elements',
  'Cross-kind equality (True/1/1.0/"1") makes sampling weak.',
  [T + 'literal.py', T + 'enum.py', 'marsh/utils.py'], [('cast_literal', 'marsh/utils.py'), ('return of the member', T + 'literal.py, enum.py')], UM)

p('C30', 'Every constructor parameter gets exactly one schema',
  'For callables, data classes, named tuples and fixed tuples each parameter or field that the constructor accepts, of every parameter kind, gets a schema built from its own annotation and its own default, in the constructor\'s order, and is passed back by a route that parameter kind accepts; fields the constructor does not accept get none.',
  ['programs'], 'all signatures and field lists',
  'Parameter-kind combinations are combinatorial.',
  [TM + 'callable.py', T + 'dataclass.py', T + 'namedtuple.py', T + 'tuple.py', T + 'typeddict.py'], [('schema tables built in constructors', TM + 'callable.py CallableUnmarshalSchema.__init__')])

p('C31', 'Optional typed-dict keys stay absent, required keys are present',
  'Unmarshaling a typed dict yields every required key or raises, includes an optional key exactly when the input gave it, and never exposes an internal placeholder value.',
  ['inputs', 'programs'], 'all typed dicts (total, partial, inherited) and inputs',
  'Mixed totality via inheritance and positional input are sampled once.',
  [T + 'typeddict.py'], [('sentinel default removed in construct', T + 'typeddict.py')], UM)

p('C32', 'Priority orders honour every stated constraint',
  'Iterating a priority order yields every added value once, higher priority first, and respects every stated relation to other values or raises when relations contradict; adding an existing value without asking for replacement is refused and a failed addition leaves the order unchanged; a slice is an order of its own.',
  ['histories'], 'all sequences of additions and removals', 'Constraint combinations are combinatorial.',
  ['marsh/utils.py'], [('PriorityOrder', 'marsh/utils.py')])

p('C33', 'Lazily buffered iterables replay the complete sequence',
  'Every iteration over a buffered iterator, including interleaved, nested and abandoned ones, yields all items of the source once and in order, and its length and truth value agree with that.',
  ['histories', 'schedules'], 'all interleavings of iterations', 'Interleavings are not tested.',
  ['marsh/utils.py'], [('IterableFromIterator', 'marsh/utils.py')])

p('C34', 'The unhashable-safe dictionary behaves like a dictionary',
  'For every sequence of set, get, delete and iterate operations the dictionary variants used for caching agree with a plain dictionary on hashable keys, never raise for unhashable ones where they promise not to, and keep their index and order structures consistent after a failed operation.',
  ['histories'], 'all operation sequences', 'Operation histories are unbounded.',
  ['marsh/utils.py'], [('SafeDict, ValueCache', 'marsh/utils.py')])

p('C35', 'Unmarshal inverts marshal',
  'For every value of a supported type, marshaling it and unmarshaling the result into its type gives an equal value.',
  ['inputs', 'programs'], 'all values of all supported types', 'Round trips are sampled.',
  ['marsh/_functional.py', T], [('marshal/unmarshal pairs', T)])

p('C36', 'Concurrent use never corrupts schemas or caches',
  'Concurrent unmarshaling, marshaling and schema building from several threads gives each caller the result it would get alone.',
  ['schedules'], 'all thread interleavings', 'No test is concurrent.',
  ['marsh/utils.py', 'marsh/schema/core/unmarshal.py'], [('per-thread recursion cache, cache locks', 'marsh/schema/core/unmarshal.py, marsh/utils.py')])

p('C37', 'Recursive types terminate and terminate correctly',
  'Building a schema for a directly or mutually recursive type terminates, and unmarshaling finite data into it gives the full nested value.',
  ['programs', 'inputs'], 'all recursive type graphs', 'Two recursive types are tested.',
  ['marsh/schema/core/unmarshal.py'], [('recursive reference schema', 'marsh/schema/core/unmarshal.py UnmarshalSchemaMeta._build')])

p('C38', 'Dates are read as day-month-year',
  'Textual dates are interpreted day first, and numbers as UTC timestamps, into the requested date, time or datetime.',
  ['inputs'], 'all date texts', 'A few formats are tested.',
  [T + 'datetime.py'], [('dateparser settings', T + 'datetime.py')])

p('C39', 'Help text documents every field',
  'Generated documentation lists every field of a type once and in declaration order, down to the requested depth and no further, with its type, its description and the default it effectively takes (the argument given in the call where there is one, else the default of its schema); a type that stands for another is documented as that one, a type inside itself is named and not expanded again, a namespaced type lists the names registered for its subclasses and no others; the help text made of it has an entry for every documented field; and asking for it raises nothing and calls no default factory.',
  ['programs', 'configurations'], 'all types, depths, call arguments and terminal widths', 'A few layouts are compared.',
  ['marsh/doc/', 'marsh/schema/core/unmarshal.py', 'marsh/schema/template/structured.py', 'marsh/schema/types/namespace.py'], [('doc, doc_fields', 'marsh/schema/core/unmarshal.py'), ('StructuredUnmarshalSchema.doc', 'marsh/schema/template/structured.py'), ('SchemaDoc', 'marsh/doc/')])

p('C40', 'Forward references resolve to the right type',
  'A type named by a string resolves to the type that name denotes where it was written, or raises.',
  ['programs'], 'all modules and names', 'Two references are tested.',
  ['marsh/schema/core/unmarshal.py'], [('resolve_forward_ref', 'marsh/schema/core/unmarshal.py')])

p('C41', 'A path selects the schema of the field it names',
  'Selecting by a dotted path answers with what the schema of the first field selects for the rest of the path: the empty path selects the schema itself, collections hand the path to their items, a type that stands for another (annotated, lazy, type variable, optional) answers as that one, a namespaced type selects by registered name; a path that names no field is refused with a PathError, and an error from below a field carries the name of that field.',
  ['programs', 'configurations'], 'all types and paths', 'Two paths are tested.',
  ['marsh/schema/core/unmarshal.py', 'marsh/schema/template/', 'marsh/schema/types/namespace.py'], [('UnmarshalSchema.select', 'marsh/schema/core/unmarshal.py'), ('StructuredUnmarshalSchema.select', 'marsh/schema/template/structured.py'), ('NamespaceUnmarshalSchema.select', 'marsh/schema/types/namespace.py')])

p('C42', 'The result is an instance of the class that was asked for',
  'Unmarshaling into a concrete class, a built-in one or a subclass of a built-in class that the same schema serves (of int, float, str, bytes, complex, the date and time classes, lists, dictionaries, sets, default dictionaries), gives an instance of that very class and never of a base class of it. Abstract classes give an instance of the documented concrete class, and date accepts a datetime.',
  ['programs', 'inputs'], 'all types and elements', 'The tests unmarshal into the built-in classes themselves.',
  ['marsh/schema/types/', 'marsh/schema/template/', 'marsh/utils.py'], [('cast_primitive', 'marsh/utils.py'), ('DefaultDictUnmarshalSchema.construct', 'marsh/schema/types/defaultdict.py'), ('BytesUnmarshalSchema.unmarshal', 'marsh/schema/types/bytes.py'), ('DatetimeUnmarshalSchema.unmarshal', 'marsh/schema/types/datetime.py')])

if __name__ == '__main__':
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl')
    with open(out, 'w') as f:
        for x in P:
            assert len(x['title']) <= 80, x['title']
            f.write(json.dumps(x) + '\n')
    print(len(P))
