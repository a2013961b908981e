"""what each check enumerates, against which oracle, and why tests cannot settle it (read by gen_design.py)"""
P = {
'C01': ('All class shapes (fields required / defaulted / factory / checked, own or inherited, frozen) x every subset and order of argument names, unknown ones included, x accepted and rejected values.',
        'Set arithmetic on the declared names; stored values are compared by identity; nothing but the fields may be in the instance.'),
'C02': ('Kinds of defaults (mutable, falsish, callables, types, wrongly typed, raising and misbehaving ones) and of factories (29 in all) x omitted/supplied (falsish, equal-to-default, None) x construction routes, and construction *histories*; earlier instances are re-examined after each step.',
        'Identity with the default object; the list of objects the factory made.'),
'C03': ('Every leaf type form and every composition up to depth 3 x every value of an alphabet of ~60 atoms and all small containers of them, in all surroundings.', 'mc/model.py (written from the typing semantics, not from the fillers).'),
'C04': ('As C03, with strict checking on every possible set of nodes.', 'mc/model.py.'),
'C05': ('Every assignment of {unmarked, hollow, check, strict} to the nodes of specifications of up to 4 nodes x class defaults x coercer on every node, in all surroundings.', 'mc/model.py: style resolution and declaration-time rejections.'),
'C06': ('All sequences of coercers over outcome alphabets (good, subclass, wrong type, None, identical, each exception type ...) for 20 types in all positions.', 'mc/model.py; the log of coercer calls has to be equal, so laziness and order are compared too.'),
'C07': ('All sequences of validators over 17+ behaviours in 25 positions.', 'A fold over the sequence: calls (with the identity of the argument), warnings, log records, stored object.'),
'C08': ('All ordered unions of up to 3 (4) alternatives, nested/duplicated/optional variants, inside containers, with tokens on the union.', 'Best-match resolution in mc/model.py, which sorts nothing: permutations share their oracle.'),
'C09': ('All patterns of per-element fates (kept, replaced by an equal object, coerced, rejected) x container class x hint, nested to depth 3.', 'mc/model.py incl. deque maxlen, default factory, namedtuples, subclasses; supplied container compared before/after.'),
'C10': ('14 families of classes with 9-16 operations; **all** operation sequences up to length 3 (4).', 'Each operation on a freshly declared family: differential, no model needed.'),
'C11': ('All bounds of a grid x all values, per domain (int, float, Fraction, Decimal, str, date, ...).', 'Arithmetic definition (exact rationals).'),
'C12': ('~150 coercer configurations x targets x values x positions x shared use of tokens.', 'A hand-written oracle per coercer.'),
'C13': ('Decision table: class shapes x unary_parse x parser sets x arguments x keywords.', 'Each reading is performed separately (every parser alone, keyword construction); the outcome has to be their combination.'),
'C14': ('Hierarchies x every assignment of behaviours to parsers x arguments.', 'Count of accepting parsers over the MRO.'),
'C15': ('Freezing patterns of hierarchies x creation routes; breadth-first over states reached by operation sequences.', 'A dictionary model: frozen state never changes.'),
'C16': ('All pairs over values; all operation histories on pairs; pickles exchanged with processes of other hash seeds.', 'Tuples of (class, values).'),
'C17': ('Class shapes x all pairs x 4 operators; all triples.', 'Tuple comparison of non-excluded values.'),
'C18': ('Classes x instances/foreign objects x all export options x ways of passing them.', 'Filter written from the documentation.'),
'C19': ('All selections up to 3 (4) entries x mappings x ways of giving them; all derive/call histories of handles.', 'Sequential rewrite of a dict; handles compared with a fresh one built from all options at once.'),
'C20': ('Classes x data x routes x selections; every distribution of keys over sources.', 'Keyword construction with the merged data.'),
'C21': ('Record shapes x values x 40 route combinations; replacement sequences of the extras libraries.', 'Equality, exact state for pickle; markers for replaced libraries.'),
'C22': ('All acyclic object graphs of up to 3 nodes, copied in 6 ways, followed by every single mutation.', 'Graph isomorphism of the copy, with identity classes.'),
'C23': ('All inheritance shapes of up to 4 classes over 9 configurations; every class is probed after every declaration.', 'Computed field table per class; a probe before and after further declarations has to be equal.'),
'C24': ('Field types x all sequences of token additions at all addresses x values; invalid addresses and late additions.', 'mc/model.py after placing the tokens on the addressed node.'),
'C25': ('Two or three real threads on shared classes and instances, also ones that make instances of each other: **all** interleavings up to a preemption bound, at line (thorough: bytecode) granularity.', 'Outcomes, callback logs and shared state of the same operations run alone.'),
'C26': ('Exception classes x stages x field positions x routes.', 'Type and cause identity; name contained in the message.'),
'C27': ('Class bodies as sequences of up to 4 entries out of 93, in 4 settings, with children.', 'Meaning of each entry, composed.'),
'C28': ('Hook behaviours x shapes x places x creation routes x successions.', 'Count of calls, completeness of the instance seen, replacement rule.'),
'C29': ('Every callback of every operation performing every other operation on the same class (depth 2-3); recursive types over all small trees.', 'Outcomes of the operations run separately.'),
'C30': ('Pairs of wrapped objects; assignments of tag sets to fields over hierarchies; annotations with tags at every place.', 'Set algebra over the declared tags.'),
}
