"""Writes /verif/properties.jsonl (kept as a script so that the statements stay reviewable)."""
import json, pathlib
P = []
def p(id, title, statement, over, text, why, files, mech, observe=(), state=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                               state=[dict(name=n, where=w) for n, w in state], observe_at=list(observe), hook_needed=None)))
REC='records/record.py'; FLD='records/field.py'; SEL='records/select.py'; FIL='records/fillers/filler.py'
STD='records/fillers/builtin_fillers/std_fillers.py'; TYP='records/fillers/builtin_fillers/typing_fillers.py'
VAL='records/fillers/validators.py'; BVAL='records/fillers/builtin_validators.py'; COE='records/fillers/coercers.py'; GET='records/fillers/get_filler.py'

p('C01','Keyword construction binds exactly the declared fields',
  'For every record class and every set of keyword arguments, construction succeeds exactly when every argument names a declared field, every field without a default is supplied, and every supplied value is accepted by its field. The resulting instance is of that class and holds, for each declared field and nothing else, the processed supplied value or else the default, independent of the order in which arguments were given. In every other case an exception is raised (TypeError for unknown or missing arguments) and no instance is produced.',
  ['programs','inputs'],'all class shapes (up to 5 fields, each required / defaulted / factory-defaulted / checked, frozen or not, inherited or not) x all sets and orders of supplied argument names, including unknown ones, and accepted or rejected values',
  'Tests build a three-field Point with a few argument sets; the guarantee is over every combination of field kinds and argument subsets.',
  [REC],[('argument binding, default filling','RecordBase.__new__')],['constructor result, instance attributes, raised exception'])
p('C02','Defaults are used exactly when omitted; factories run fresh each time',
  'A field given a plain default holds that very object in every instance whose construction omitted the field, without type checking, coercion or validation, and a field given a factory holds the result of a call of the factory made for that instance alone. A factory is called exactly once per construction that omits its field and never when the field is supplied, even when the supplied value equals a default or is None or falsish. Whatever is supplied is never replaced by the default.',
  ['inputs','histories','programs'],'all class shapes with up to 4 defaulted fields x all omission patterns x all sequences of constructions up to length 4, with falsish, None and equal-to-default supplied values',
  'Tests compare two instances of one factory-defaulted class; they do not count factory calls nor vary what is omitted across a history.',
  [FLD,REC],[('Factory / make_default / is_default',FLD),('default filling','RecordBase.__new__')],['instance attributes by identity, factory call log'])
p('C03','Type checking accepts exactly the conforming values and keeps them as is',
  'A field with (non-strict) type checking and no coercer or validator accepts a value exactly when the value conforms to the declared type: isinstance for classes, None, Ellipsis, callables, Any, NewType; subclass-of for Type[...]; equal to a member and of that same type for Literal; any alternative for Union/Optional; right length and position types for tuples; and element-, key- and value-wise for lists, sets, deques, mappings and sequences whose element types are checked. An accepted value is stored as the identical object, and a rejected one raises TypeError (a wrong type) or ValueError (a right type with an inadmissible value or length).',
  ['inputs','programs'],'every type expression of a grammar of type constructors up to nesting depth 2 (3 in thorough) x every value of a universe with subclasses, look-alikes (1/True/1.0), wrong lengths and wrong element at each position',
  'Tests try about 20 hand-picked types with a handful of values each; the guarantee is over all combinations of nesting and position.',
  [FIL,TYP,STD,GET],[('type_check of each filler','SimpleFiller, NoneFiller, EllipsisFiller, CallableFiller, LiteralFiller'),('element validators','TupleFiller, GenericIterableFiller, GenericMappingFiller, TypeFiller')],['constructor result and stored object identity'])
p('C04','Strict checking accepts only exact types',
  'A field with strict type checking and no coercer accepts exactly those values that non-strict checking accepts and whose own type (and, for strictly checked elements, keys, values and union alternatives, their type) is exactly the declared class rather than a subclass. Values of a subclass such as a bool for an int are rejected with TypeError at every nesting position. Declaring strict checking for an abstract class is rejected when the record class is declared.',
  ['inputs','programs'],'every type expression of the C03 grammar with strict and mixed strict/non-strict checking x every value of the universe, including subclass instances at each position',
  'Tests cover one subclass value for a few types.',
  [FIL,STD,TYP],[('TypeMatch.exact vs inexact','AnnotatedFiller.fill'),('abstract rejection','SimpleFiller.bind')],['constructor result, class-declaration result'])
p('C05','Checking style: most specific declaration wins, hollow fields store anything',
  'The checking style of every (sub)type is the one written on it, else the one its enclosing union was annotated with, else the default of the record class that declares the field; a style written on a container or tuple does not extend to its elements. A hollow field without validators stores whatever object it is given, unchanged and unchecked. Combinations that could never be honoured (hollow with a coercer, a checked element type inside a hollow container, a checked element type inside a generic that cannot be checked, checking of a non-type annotation) are rejected when the class is declared.',
  ['programs','configurations','inputs'],'every placement of a style (none, hollow, check, check_strict) on a type expression, its alternatives and its elements x every class default style x a probe value set that tells the styles apart',
  'Tests use one style per class and a few invalid declarations; the interplay of class default, outer and inner styles is not covered.',
  [FIL,TYP,GET,REC],[('style resolution','AnnotatedFiller.bind, UnionFiller.bind, WrapperFiller.apply'),('default style','RecordBase.default_type_check_style')],['class-declaration result, constructor result'])
p('C06','Coercion only on failed check, first well-typed result of the original wins',
  'A value that passes its type check is never given to a coercer; otherwise the coercers of the field are tried in the order declared, each being given the original value, until one returns without an exception a value of the declared type (exactly that type under strict checking). That returned value is what goes on to validation; later coercers are not called. If no coercer does so, construction fails and nothing of any failed coercion attempt is stored.',
  ['inputs','programs','fault_sequences'],'every sequence of up to 4 coercers whose behaviours range over {raises any of several exception types, returns wrong type, returns subclass, returns well-typed} x checking style x target type x argument conforming or not',
  'Tests use one or two coercers with one argument; which coercer sees what after which failure is not observable there.',
  [FIL],[('coercion loop','AnnotatedFiller.fill')],['call log of the coercers (argument identity), stored value, raised exception'])
p('C07','Every accepted value passes all validators in order; failures prevent creation',
  'Every value that passed type checking or coercion, or that was supplied to a hollow field, goes through all validators of the field in declaration order, each receiving the previous one\'s result, and the last result is what the instance stores, even if it is None or falsish. A validator that raises stops the chain and construction fails; an assertion validator never alters the value, and one in warning mode issues exactly one warning (or one logger warning) per failing value and lets construction go on. Validators never run for a value that failed type checking and coercion, nor for defaults.',
  ['inputs','programs','fault_sequences'],'every sequence of up to 4 validators over {transforming, passing, raising, asserting, asserting-with-warning, asserting-with-logger, custom error} x checking style x argument accepted / coerced / rejected',
  'Tests use one validator per class.',
  [FIL,VAL],[('validation loop','AnnotatedFiller.fill'),('assertion modes','AssertValidation')],['validator call log, warnings, stored value'])
p('C08','Unions resolve to the single best match, independent of alternative order',
  'A value for a checked union is processed by every alternative, and the result is that of the accepting alternative with the best match: exact type, then subclass match, then coercion, then unchecked. If several alternatives accept with the same, best quality and yield objects that are not the same object, construction fails with ValueError; if none accepts it fails; and a worse-matching alternative never affects the outcome. Reordering or duplicating the alternatives of a union, or nesting them as an unannotated union, never changes whether a value is accepted or which result is stored.',
  ['inputs','programs'],'all unions of 2-4 alternatives drawn from a pool of typed alternatives with styles, coercers and validators, in all orders and nestings x a value universe',
  'Tests cover about six unions with one order each.',
  [TYP],[('best-match selection','UnionFiller.fill')],['constructor result per permutation'])
p('C09','Containers are processed element by element and never mutated in place',
  'For a container field whose element (key, value, or position) types are checked, every element is processed exactly once in iteration order by its element type\'s full checking, coercion and validation; if all elements come out as the identical objects the given container itself is stored, otherwise a new container of the same class is stored holding exactly the processed elements in order, keeping a deque\'s maximum length and a default mapping\'s factory. The container supplied by the caller is never modified. One inadmissible element anywhere makes construction fail.',
  ['inputs','programs'],'every container kind (list, tuple fixed and variadic, set, frozenset, deque, str, namedtuple, dict, defaultdict, OrderedDict, Counter, subclasses, nested) x every pattern of per-element outcome {kept, replaced, rejected} up to length 5',
  'Tests exercise patterns such as "second element changes" for lengths up to 3; the guarantee is for each position pattern and container class.',
  [TYP],[('element loops and reconstruction','TupleFiller, GenericIterableFiller, GenericMappingFiller, _split_at, reconstruct')],['stored container identity, class, contents; element call log; original after the call'])
p('C10','A record class behaves the same whatever happened to it before',
  'The outcome of constructing, parsing, exporting, comparing or copying depends only on the class declaration and the arguments, never on earlier uses of the class, of its sibling, parent or derived classes, or of other instances, whether those uses succeeded or failed. In particular equal-but-different values (such as 1, True and 1.0), failed attempts and repeated attempts each give the same result as on a freshly declared class. Values held by existing instances never change because another instance was created or an operation on it failed.',
  ['histories'],'all histories of length up to 4 (5 in thorough) over an alphabet of construction, parse, export, select, copy and failing operations on a set of class declarations, compared with a fresh declaration',
  'Tests run each operation on a fresh class; no test compares an operation before and after a history.',
  [FIL,TYP,REC,SEL],[('statelessness of fill','AnnotatedFiller, UnionFiller, LiteralFiller'),('class-level state','RecordBase._fields, _parsers, possible_values')],['outcome of each operation in each history'],[('class-level dictionaries','RecordBase._fields/_parsers/_required_keys, LiteralFiller.possible_values')])
p('C11','Built-in validators enforce their documented range or predicate',
  'Clamp returns the value if it lies within its inclusive bounds and else the nearest bound; Cyclic returns the unique value in [minimum, maximum) that differs from its input by a whole number of periods; Within accepts exactly the values inside its bounds with each bound inclusive or exclusive as declared; FullMatch accepts exactly the strings or bytes its pattern matches completely; Truth accepts exactly truthy values. Missing bounds impose no limit, values inside pass unchanged (the identical object), and contradictory bounds of Clamp and Within are rejected when the validator is created. Patterns are compiled by the library the extras module holds at that time.',
  ['inputs','configurations'],'all bound combinations (absent, each of a grid of ints, floats, fractions, strings, dates; inclusive flags) x all grid values, including the bounds, their neighbours and values many periods away',
  'Tests try a few values of one bound configuration.',
  [BVAL,VAL],[('inner / assert_','Clamp, Cyclic, Within, FullMatch, Truth')],['stored value and raised error'])
p('C12','Built-in coercers convert exactly what they document',
  'Each built-in coercer yields exactly its documented conversion and otherwise fails: Loose/LooseUnpack/LooseUnpackMap call the target type with the value (unpacked) plus preset arguments and only for inputs meeting a declared constraint; Whole converts numbers equal to a whole number (up to rounding) to that whole number and no others; FromInteger maps only 0 and 1 to booleans; ToBytes yields a byte string that decodes back to the integer (unsigned and without a given length: no longer than needed); Falsish creates an empty target only from falsish input; Eval/LiteralEval evaluate only strings and only with the declared names; the map, class-method, call and compose coercers apply precisely the given callables (composition right to left). A conversion never yields a value that misrepresents its input silently.',
  ['inputs','configurations'],'all coercer configurations of a grid (constraints, preset arguments, signedness, byte order, lengths) x all values of an input universe (integers around powers of 256, near-whole floats, fractions, complex, strings, sequences, mappings, None)',
  'Tests try a few values per coercer.',
  [STD,COE],[('func_args / __call__ of each token',STD+', '+COE)],['stored value or failure'])
p('C13','A positional argument means one thing or is an error',
  'A single positional argument fills the field of a class with exactly one required field, or is parsed when unary parsing is enabled (by default exactly when the class does not have exactly one required field) and no keyword arguments are given. When both readings succeed TypeError is raised; when exactly one succeeds its result is returned; when neither succeeds an error is raised; and a positional argument alongside the same field by keyword, or for a class where neither reading is available, raises TypeError. When two or more parsers accept the argument TypeError is raised.',
  ['inputs','programs','fault_sequences'],'all combinations of number of required/optional fields x unary parsing on/off/default x frozen x outcome of parsing (none, one, many; falsish results) x outcome of filling x outcome of the post-creation hook x accompanying keywords',
  'Tests cover around ten of the several hundred combinations.',
  [REC],[('positional handling','RecordBase.__new__')],['result or exception'])
p('C14','Parsing succeeds exactly when one registered parser succeeds',
  'Parsing an object with a class tries every parser registered on the class or inherited from its ancestors, including the built-in mapping, instance and JSON parsers, and returns the result of the only one that succeeds. If none succeeds it raises ParseFailure and if more than one succeeds it raises a TypeError that is not a ParseFailure, regardless of the order of definition or of what the results are (equal, identical, falsish). A parser\'s own exception never escapes, and parsers of derived or sibling classes are never used.',
  ['programs','inputs','fault_sequences'],'all sets of up to 3 custom parsers distributed over an inheritance chain (defined, inherited, overridden), each with outcome {raise one of several exceptions, succeed} x arguments accepted by 0, 1, 2 or 3 of the built-in parsers',
  'Tests use one custom parser and one multiply-parsable object.',
  [REC],[('parse','RecordBase.parse'),('registration','RecordBase.__init_subclass__, parser')],['parse result or exception'],[('_parsers','RecordBase._parsers')])
p('C15','Instances of frozen classes never change',
  'No attribute of an instance of a frozen class can be assigned or deleted, whether a field or a new name: the attempt raises TypeError and every field, the hash, equality, ordering and exports stay as they were. Whether a class is frozen is decided by its own declaration alone, not by its parents. Instances of non-frozen classes, including those derived from frozen ones, accept assignment of fields and new attributes, which takes effect on that instance only.',
  ['histories','programs'],'all inheritance chains of depth up to 3 with frozen flags x all sequences of attribute set/delete attempts, hashing, exporting, comparing and copying up to length 4',
  'Tests make a single assignment on a depth 1 or 2 chain; the mutable test is skipped unconditionally.',
  [REC],[('__setattr__/__delattr__ selection','RecordBase.__init_subclass__')],['attributes, hash, equality before and after'],[('_frozen, _hash','RecordBase')])
p('C16','Equality is by class and field values; equal frozen records hash equal',
  'Two records are equal exactly when they have the same class and every field compares equal, whatever operations (hashing, comparing, copying, exporting, pickling in this or another process) they went through before; records of different classes, and a record and a non-record, are unequal, and != is the negation of ==. Equal records of a frozen class with hashable values have equal hashes, an instance\'s hash never changes, and it can be found in sets and dictionaries also after having been pickled into a process with another hash seed. Instances of non-frozen classes are unhashable, and their equality always reflects current field values.',
  ['histories','inputs'],'all pairs of instances over a small value grid (including equal values of different types, defaults given or omitted, unhashable values) x histories of {hash, compare, copy, pickle here, pickle under another hash seed, set attribute} up to length 3',
  'Tests compare three points once; no test hashes, pickles across processes, then compares.',
  [REC],[('__eq__, __hash__, hash caching, pickling','RecordBase.__eq__, __hash__, __reduce_ex__')],['==, !=, hash, set membership'],[('_hash cache','RecordBase._hash')])
p('C17','Ordered classes order lexicographically by non-excluded fields',
  'For two instances of the same ordered class, <, <=, > and >= give the result of comparing the tuples of the values of their fields not tagged as excluded from ordering, in field declaration order with inherited fields first; they are consistent with each other, and transitive and total when the values are. Values of excluded fields never influence ordering (but do influence equality). Comparing instances of classes not declared ordered, or with objects of unrelated types, raises TypeError.',
  ['inputs','programs'],'all classes with up to 4 fields (inherited or own) x all exclusion masks x all pairs and triples of instances over a value grid, current values after assignment included',
  'Tests compare two pairs of points for one class.',
  [REC],[('ordering key','RecordBase.__lt__ .. __ge__')],['comparison results'])
p('C18','Exports contain exactly the requested fields with current values',
  'Exporting a record to a dictionary yields exactly the fields that are whitelisted or that carry no blacklisted tag and (unless defaults are included) differ from their plain default, each with the instance\'s current value, in declaration order (inherited first), or sorted ascending, descending or by the given key function of the name; export arguments given in several steps count like those given at once. The result is a fresh dictionary: changing it never affects the record, nor does exporting change anything. Exporting a foreign object through the class reads the same fields from its attributes, skipping missing ones that have a default (or using the default when defaults are included) and raising AttributeError for a missing one that has none.',
  ['inputs','programs'],'all classes with up to 4 fields over {required, plain default, factory default} x tag assignments x instance value patterns (default / other / equal to default) x all option combinations (include defaults, blacklist subsets, whitelist subsets, sort modes) x foreign objects with every subset of attributes',
  'Tests cover about ten option combinations of a three-field class.',
  [REC,SEL],[('_to_dict','RecordBase._to_dict'),('option passing','Exporter, NoArgExporter, export_with')],['resulting dict, its order'])
p('C19','Selections rewrite mappings exactly as declared and never interfere',
  'Applying a selection to an export or import removes, renames and adds keys in that order exactly as declared: missing keys to remove or rename raise KeyError and existing rename targets or keys to add raise ValueError, except that the "maybe" variants skip missing sources and keys already present to add. Merging or chaining selections equals declaring all their keys at once in order, and a selection may be given with any iterables or mappings. Selections, exporters and factories are immutable: deriving one from another with select or export options never changes what the original, or anything derived from it, does.',
  ['inputs','histories'],'all selections with up to 3 entries over 4 keys in all six categories x all source mappings over those keys; all ways to split a selection in merged parts; all derivation trees of bound exporters/factories up to depth 3',
  'Tests apply about ten selections to two dictionaries and never reuse a base object after deriving from it.',
  [SEL],[('Select','Select.__call__, _merge, merge'),('handles','Exporter.Bound.select/export_with, SelectableFactory.Bound.select')],['resulting mapping or exception, behaviour of earlier handles'],[('cached truthiness','Select._bool')])
p('C20','All import routes agree and leave their inputs alone',
  'Importing from mappings, keyword arguments, another object\'s attributes, or JSON text or files builds the same instance, or fails, as keyword construction with the same data (an attribute equal to a plain default counting as omitted): for mappings earlier ones take precedence over later ones and over keyword arguments, while for an object, mappings override its attributes and keyword arguments override both. Selections apply to the imported data the same way on each route, an object being read only for declared fields and keys the selection names, and not for keys it adds. The mappings, objects and selections given are never modified, and only for a frozen class importing one of its own instances unchanged may return that instance.',
  ['inputs','histories'],'all splits of a data set over up to 3 mappings plus keywords (with overlaps) x routes x selections x classes with required/default/factory fields, frozen or not',
  'Tests import one or two dictionaries per route, never with several mappings.',
  [REC,SEL],[('import routes','RecordBase.from_mapping, from_instance, from_json, from_json_io'),('extraction','RecordBase._to_dict')],['instance or exception; inputs afterwards'])
p('C21','Serialisation round trips preserve the record',
  'For every constructible record whose stored values its fields accept unchanged, importing its dictionary export, its JSON export (for JSON-representable values), its pickle (any protocol able to represent it, text or file variants) and evaluating its repr gives a record of the same class equal to it, whether defaults are included in the export or not; pickling also preserves the exact stored values and extra attributes. A pickle of something else is parsed by the receiving class, failing if it cannot be parsed. Replacing the JSON or pickle library in the extras module takes effect on every later import and export.',
  ['inputs','programs','configurations'],'all classes with up to 3 fields over {required, default, factory, checked, coerced} x frozen x value grid (default, falsish, nested records, containers, unicode) x all routes and protocols',
  'Tests round trip one point per route.',
  [REC,SEL,'records/extras.py'],[('export and import routes','RecordBase.to_dict/to_json/to_pickle, from_*, __getnewargs_ex__, __repr__')],['re-imported record'])
p('C22','Copies are equal and independent, deep copies preserve sharing',
  'For records whose stored values their fields accept unchanged, copy of a frozen record returns the record itself and of a non-frozen one returns a new equal record of the same class sharing the field values (one equal to a plain default may become that default); deepcopy returns an equal record of the same class whose mutable field values (other than plain defaults, which all instances share) are themselves copied. Changing a copy never affects the original nor the other way around. Within one deepcopy call an object reachable by several paths, inside or outside records, is copied once, so sharing between the copied parts mirrors the original.',
  ['inputs','histories'],'all acyclic object graphs with up to 3 records and 2 shared mutable values, wrapped in list/tuple/dict roots x frozen flags x subsequent mutations',
  'Tests copy a two-node chain; sharing is never tested.',
  [REC],[('__copy__, __deepcopy__','RecordBase')],['identity structure of the copy, state after mutations'])
p('C23','Inheritance combines fields without altering parents or siblings',
  'A record class derived from one or more record classes has all their fields, in order of its bases and before its own, each processed with the checking, coercion, validation, default and tags it was declared with, including the default style of the class that declared it. Hooks of mixins that run for derived classes get the keywords that the record does not take. Redeclaring an inherited field name, or inheriting the same name from two parents, is rejected. Declaring or using a derived class never changes the fields, behaviour, freezing, ordering or parsers of its parents or siblings.',
  ['programs','histories'],'all inheritance trees with up to 4 classes (chains, siblings, two-parent joins, plain mixins) x field counts x flags (frozen, ordered, default style) with all orders of declaration and use',
  'Tests have depth-1 inheritance with checked ints.',
  [REC],[('parent fields','RecordBase.__init_subclass__')],['fields of each class, behaviour of each class before and after deriving'],[('_fields','RecordBase._fields')])
p('C24','Tokens added before binding act on exactly the addressed part',
  'A coercer, validator or assertion added to a field while its class is being declared acts like the same token written in the annotation, and with a sub-key it acts on exactly that element of a tuple, list, mapping (key or value) or union and on nothing else, also when several are added. The function given is returned unchanged, so it can be used as a decorator with or without arguments. Adding tokens after the class has been declared, or with a sub-key that does not exist, raises and changes nothing.',
  ['programs','histories'],'all field type shapes with addressable parts x every sub-key (valid and invalid) x sequences of up to 3 token additions of each kind x probe values',
  'Tests use a single addition per class for four shapes.',
  [FLD,TYP,FIL],[('add_validator, add_coercer, add_assert_validator','RecordField'),('sub_filler','Filler subclasses'),('apply after bind','Filler.apply')],['constructor results'])
p('C25','Concurrent use of record classes gives the sequential results',
  'When several threads construct, parse, hash, compare, copy, export or import records of the same classes, or use shared instances of frozen classes, selections or bound exporters at the same time, every operation has the same outcome as when run alone. No interleaving mixes values of different constructions, loses, duplicates or adds elements or calls, raises an extra error or deadlocks.',
  ['schedules'],'all interleavings, at every line executed inside the library, of 2 threads (3 in thorough) running 1-2 operations on shared classes, up to 1 preemption (2 in thorough)',
  'Tests are single threaded.',
  [REC,FIL,TYP,SEL,COE,VAL],[('absence of shared scratch state','all fillers, Select, Exporter'),('hash caching','RecordBase.__hash__')],['outcome of each operation per schedule'],[('_hash','RecordBase._hash'),('_bool','Select._bool'),('possible_values','LiteralFiller')])
p('C26','A rejected field is reported by name, keeping error type and cause',
  'When a supplied value is rejected, the exception raised by construction names the offending field, is of the same type as the underlying error whenever that type can be created from a message and is a ValueError otherwise, and has the underlying error as its cause. The underlying error is that of the failing type check, coercion or validation. A failing construction leaves arguments, class and all other instances as they were.',
  ['inputs','fault_sequences','programs'],'all exception classes of a universe (built-in, with custom constructors, not constructible from one string) x stage (check, coercer, validator, element, union alternative) x which of up to 4 fields fails',
  'One test checks the message of one TypeError.',
  [REC],[('error wrapping','RecordBase.__new__')],['exception type, message, cause'])
p('C27','Declarations make exactly the annotated, non-class-variable names fields',
  'A record class\'s own fields are exactly its own annotated names that are not class variables, in order; un-annotated attributes, methods and class variables stay ordinary class attributes, annotations given as strings or referring to the class itself work, and Annotated, Final and Tag wrappers in any order mean the same. A declaration without any field, with a bare Final, or with Final in a non-frozen class is rejected. A class attribute assigned to an annotated name is that field\'s default, also when it is None or falsish.',
  ['programs'],'all class bodies with up to 4 entries over {plain attribute, method, annotated, annotated with default, ClassVar forms, Final forms, string annotations, self references, Annotated nestings} x frozen',
  'Tests declare one class per kind of entry.',
  [REC,FLD,'records/utils/typing_compatible.py'],[('field collection','RecordBase.__init_subclass__'),('qualifiers','RecordField.from_type_hint')],['fields, class attributes, instances'])
p('C28','The post-creation hook runs once on the complete instance and may replace it',
  'After a successful fill of all fields the post-creation hook is called exactly once, on an instance with every field set to its processed value or default, and never when filling failed. If it returns None the instance is the result, otherwise the object it returned is, even if falsish; an exception it raises propagates unless a parsing of the same argument succeeded, in which case that parsing is returned. This holds for every route that creates instances: keywords, positional argument, parsing, import, copies and unpickling.',
  ['inputs','programs','fault_sequences'],'all hook behaviours {None, self, other instance, falsish instance, mutate self, raise} x creation routes x frozen x fill outcome',
  'Tests have three hooks on the keyword route.',
  [REC],[('post_new call','RecordBase.__new__')],['hook call log, result'])
p('C29','User callbacks may use the same class re-entrantly',
  'Factories, coercers, validators, parsers, selections\' factories and post-creation hooks may themselves construct, parse, export, compare or copy records, including of the class being constructed and including failing attempts, at any point. Neither the outer operation nor the nested one is affected: each has the outcome it would have alone. Recursive record types built to any depth behave the same at every level.',
  ['histories','schedules','programs'],'all placements of one or two nested operations (succeeding or failing) in any callback of an outer operation, nesting depth up to 3',
  'No test nests an operation in a callback; recursion is tested to depth 2.',
  [REC,FIL,TYP,SEL],[('no scratch state shared between activations','Filler.fill, RecordBase.__new__, RecordBase.parse')],['outcome of the outer and nested operations'])
p('C30','Tags compare by content and select exactly the fields carrying them',
  'Tags are equal, and hash equal, exactly when they wrap equal objects, and can wrap any hashable object. A field carries exactly the tags written in its annotation, wherever among the other annotations, and filtering a class\'s fields by tag gives exactly the fields that carry an equal tag, in order, inherited ones included. Tags never influence how values are checked, coerced or validated.',
  ['inputs','programs'],'all assignments of subsets of 3 tags to up to 4 own and inherited fields with other tokens interleaved x all queried tags, including equal but distinct ones',
  'One test filters three fields by one tag.',
  ['records/tags.py',FLD,REC],[('Tag.__eq__/__hash__','records/tags.py'),('FieldDict.filter_by_tag',FLD),('RecordField._apply',FLD)],['filter results, blacklist exports, construction'])
out = pathlib.Path(__file__).resolve().parent.parent/'properties.jsonl'
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
out.write_text(''.join(json.dumps(x)+'\n' for x in P))
print(len(P))
