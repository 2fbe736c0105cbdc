"""writes properties.jsonl (kept as a script so that the texts stay readable)"""
import json
ENC, DEC = 'asn1PERser/codec/per/encoder.py', 'asn1PERser/codec/per/decoder.py'
DATA, CONS = 'asn1PERser/classes/data/builtin/', 'asn1PERser/classes/types/constraint.py'
P = []


def p(id, title, statement, over, text, why, files, mech):
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}})


p('C01', 'INTEGER: exact aligned-PER bits and exact inverse for every constraint, value',
  'For every INTEGER type (unconstrained, lower bound only, upper bound only, both bounds, extensible or not) and every value the type admits, the '
  'encoding is exactly the one X.691 aligned PER prescribes, at whatever bit offset it starts. Decoding those bits gives back exactly that value and '
  'leaves the read position right behind it. Values whose length would need fragmentation are refused.',
  ['inputs', 'configurations'], 'all integers, all bounds, all starting bit offsets, anything before and after',
  'The tests sample some bounds and values at few offsets; widths, octet counts and alignment change at every power of two, and two bounds and a value are unbounded integers.',
  [ENC, DEC, DATA + 'IntegerType.py'],
  [('choice of integer form, width tables, octet counts', ENC + ':encode_integer..get_twos_complement_octet_len'), ('inverse', DEC + ':decode_integer, twos_comp, decode_*_whole_number*')])
p('C02', 'ENUMERATED: index in order of numbers, additions in textual order, exact inverse',
  'For every enumeration, whatever numbers its items carry and in whatever order they are written, a root item is encoded as its rank among the root numbers in the width of the root, '
  'and an extension item as extension bit plus its position among the additions, exactly as X.691 prescribes. Decoding gives back the same item.',
  ['inputs', 'configurations'], 'all numbers of root and addition items, all number assignments, all items, all bit offsets',
  'The tests have a handful of small enumerations; the index width changes with the item count and the addition index changes form at 64.',
  [ENC, DEC, DATA + 'EnumeratedType.py'], [('index selection', ENC + ':encode_enumerated'), ('inverse', DEC + ':decode_enumerated'), ('normally small number', ENC + ':encode_normally_small_non_negative_whole_number')])
p('C03', 'BIT STRING: exact aligned-PER bits and exact inverse, every size and content',
  'For every BIT STRING type (any SIZE constraint, extensible or not) and every content the type admits, the encoding is exactly the X.691 aligned one at whatever bit offset it starts, '
  'including empty strings and leading zero bits. Decoding gives back exactly the same bits, no more and no fewer, and leaves the read position right behind them. Lengths that would need fragmentation are refused.',
  ['inputs', 'configurations'], 'all lengths, contents, SIZE bounds and starting bit offsets',
  'Length form and alignment change at 0, 16/17, 127/128, 255/256, 64K and at the SIZE bounds; the tests hit some combinations only.',
  [ENC, DEC, DATA + 'BitStringType.py'], [('form selection', ENC + ':encode_bitstring'), ('inverse', DEC + ':decode_bitstring'), ('length', ENC + ':encode_length_determinant')])
p('C04', 'OCTET STRING: exact aligned-PER bits and exact inverse, every size, content',
  'For every OCTET STRING type (any SIZE constraint, extensible or not) and every content the type admits, the encoding is exactly the X.691 aligned one at whatever bit offset it starts, '
  'including empty strings and leading zero octets. Decoding gives back exactly the same octets and leaves the read position right behind them. Lengths that would need fragmentation are refused.',
  ['inputs', 'configurations'], 'all lengths, contents, SIZE bounds and starting bit offsets',
  'Length form and alignment change at 0, 2/3, 127/128, 255/256, 64K and at the SIZE bounds; leading zero octets matter only for contents tests rarely use.',
  [ENC, DEC, DATA + 'OctetStringType.py'], [('form selection', ENC + ':encode_octetstring'), ('inverse', DEC + ':decode_octetstring')])
p('C05', 'Framing: fields are laid out, padded and read back bit-exactly',
  'A complete encoding is the concatenation of its fields, aligned fields starting on an octet boundary behind zero bits, padded with zero bits to whole octets, at least one octet. '
  'Reading any sequence of field sizes and alignments off any octets returns exactly the bits at those positions and advances by exactly what was read; a BOOLEAN is one unaligned bit.',
  ['inputs', 'histories'], 'all field sequences of any length, all read sequences, all octet strings',
  'An off-by-one in the alignment or the cursor shows only after particular sequences of fields; tests fix a few sequences.',
  [ENC, DEC], [('layout', ENC + ':_produce_complete_encoding'), ('cursor', DEC + ':Offset, PerBytes'), ('BOOLEAN', ENC + ':encode_boolean')])
p('C06', 'SEQUENCE root: presence bitmap, order, OPTIONAL and DEFAULT',
  'A SEQUENCE value is encoded as one presence bit per OPTIONAL or DEFAULT component in order, followed by the encodings of exactly the present components in order, a component equal to its DEFAULT counting as absent. '
  'Decoding gives back the same components and the default for an absent DEFAULT component.',
  ['inputs', 'configurations'], 'all root component lists, all presence combinations, all component types and values',
  'The number of presence combinations is exponential and components of every type interact through alignment; tests take a few.',
  [ENC, DEC, DATA + 'SequenceType.py'], [('bitmap and order', ENC + ':encode_sequence'), ('inverse', DEC + ':decode_sequence')])
p('C07', 'SEQUENCE extension additions and groups round-trip exactly',
  'For an extensible SEQUENCE the extension bit is set exactly when some addition or addition group is present; then the additions bitmap has one bit per addition and group, and each present one follows as an open type (a group as the SEQUENCE of its components), as X.691 prescribes. '
  'Decoding restores exactly the components that were present.',
  ['inputs', 'configurations'], 'all lists of additions and groups (up to 64), all presence combinations, all component types and values',
  'Presence combinations, group contents and nested open types multiply; the tests have fixed examples.',
  [ENC, DEC], [('additions', ENC + ':encode_sequence'), ('open type', ENC + ':encode_open_type_field'), ('inverse', DEC + ':decode_sequence, decode_open_type_field')])
p('C08', 'Version skew: unknown additions are skipped, missing ones are absent',
  'A receiver built from an older version of an extensible SEQUENCE decodes every message of a newer version, giving the components it knows and ignoring the rest, and continues correctly with what follows; '
  'a newer receiver decodes every message of an older version with the unknown additions absent.',
  ['inputs', 'configurations'], 'all pairs of versions differing in trailing additions or groups, all values, anything following',
  'Needs two schema versions and every presence combination; the tests use one version on both sides.',
  [DEC], [('bitmap length from the wire, skipping', DEC + ':decode_sequence, skip_open_type_field')])
p('C09', 'SEQUENCE OF: length form, component order and SIZE enforcement',
  'A SEQUENCE OF value is encoded as its component count in the form its SIZE constraint prescribes followed by the components in order, and decodes to the same components in the same order. '
  'A count outside a SIZE constraint that is not extensible is refused when encoding and when decoding.',
  ['inputs', 'configurations'], 'all counts, SIZE bounds, component types and values, bit offsets',
  'The count is unbounded and its form changes at several thresholds; each component shifts the alignment of the next.',
  [ENC, DEC, DATA + 'SequenceOfType.py'], [('form and order', ENC + ':encode_sequence_of'), ('inverse', DEC + ':decode_sequence_of')])
p('C10', 'CHOICE: alternative index, open type for additions, exact inverse',
  'A CHOICE value is encoded as the position of its alternative among the root alternatives in the width of their number (nothing for a single one), or for an extension alternative as extension bit, small number and open type, followed by the alternative; it decodes to the same alternative with the same value.',
  ['inputs', 'configurations'], 'all alternative lists, selections, component types and values',
  'Index width and form depend on the number of alternatives; tests have small CHOICEs.',
  [ENC, DEC, DATA + 'ChoiceType.py'], [('index', ENC + ':encode_choice'), ('inverse', DEC + ':decode_choice')])
p('C11', 'What the codec cannot represent is refused, never mis-encoded',
  'A value that would need a fragmented length (16384 units or more where the length is not bounded below 64K) or more than 64 extension additions is refused with an exception by encoding, and no wrong octets are produced; '
  'decoding refuses the corresponding length forms instead of misreading them.',
  ['inputs'], 'all values beyond the limits, in every type and nested position',
  'Tests stay far below the limits.',
  [ENC, DEC], [('length determinant', ENC + ':encode_length_determinant'), ('inverse', DEC + ':decode_length_determinant')])
p('C12', 'Malformed or truncated octets are refused or give a value of the type',
  'Decoding arbitrary octets with any type always ends, and either raises an exception or returns a value that satisfies the constraints of the type; in particular every proper prefix of a needed encoding is refused and never completed with invented bits.',
  ['inputs', 'configurations'], 'all octet strings, all types',
  'The space of malformed input is unbounded; tests decode valid encodings.',
  [DEC], [('bounds of the bit cursor', DEC + ':PerBytes'), ('range checks', DEC + ':decode_constrained_whole_number*, decode_sequence_of')])
p('C13', 'Encoding and decoding are pure: no effect on values, schema or later calls',
  'Encoding a value, decoding octets or converting to a dictionary changes neither the value, nor the schema object, nor the types, so the same call made again, or any call made after any history of other calls, successful or failed, gives the same result as it would alone.',
  ['histories'], 'all sequences of encode, decode and conversion calls over shared types, schema objects and values',
  'Tests call once and throw the objects away; state leaks show only in later calls.',
  [ENC, DEC, DATA + '*.py'], [('fresh result objects', DEC + ':decode_sequence, decode_sequence_of, decode_choice'), ('field lists local to a call', ENC + ':encode')])
p('C14', 'Dictionary conversion shows exactly the set components',
  'Converting a value to a dictionary gives for every structured value exactly its set components under their names in schema order with the defaults of absent DEFAULT components, lists element by element, numbers, booleans, item names and lower-case hexadecimal octets exactly as in the value.',
  ['inputs', 'configurations'], 'all types and values',
  'Tests convert a few decoded messages.',
  [DATA + '*.py'], [('conversion', DATA + '*.py:to_dict')])
p('C15', 'Constraints admit exactly their values and carry their effective bounds',
  'A range, single-value, size or combined constraint that is not extensible accepts exactly the values it describes and refuses all others when a value is set; an extensible one accepts all. '
  'The bounds used for encoding are the least and greatest value it admits (none where unbounded); those of an intersection are the tightest bounds of its parts.',
  ['inputs', 'configurations'], 'all bounds, value sets, sizes and combinations, all candidate values',
  'Bounds and values are unbounded; tests check a few.',
  [CONS], [('constraint classes', CONS)])
p('C16', 'Schema compiler: constraints in generated code are the schema\'s',
  'For every type in an accepted schema, the generated class has exactly the value or size constraint written in the schema: the same bounds (open endpoints included), value references resolved, extensible exactly when marked so.',
  ['programs'], 'all schemas built from the notation README lists as supported (single value, value range, SIZE, extension marker; no unions, named numbers, structured values)',
  'Schemas are unbounded programs; tests compile a fixed set.',
  ['asn1PERser/classes/parse_actions.py', 'asn1PERser/classes/types/builtin/', 'asn1PERser/asn_definitions/constraint_def.py'],
  [('constraint translation', 'asn1PERser/classes/parse_actions.py:parse_Constraint'), ('rendering', 'asn1PERser/classes/types/builtin/*.py:fill_template')])
p('C17', 'Schema compiler: generated structure is the schema\'s',
  'For every accepted schema the generated classes have exactly the components, alternatives, items, optionality, defaults, extension markers, additions and groups written in the schema, under their names and in their order.',
  ['programs'], 'all schemas built from the notation README lists as supported (single value, value range, SIZE, extension marker; no unions, named numbers, structured values)',
  'Schemas are unbounded programs; tests compile a fixed set.',
  ['asn1PERser/classes/types/builtin/', 'asn1PERser/classes/parse_actions.py', 'asn1PERser/classes/templates/'],
  [('structure translation', 'asn1PERser/classes/types/builtin/*.py'), ('templates', 'asn1PERser/classes/templates/files')])
p('C18', 'Schema compiler: definitions come out complete and in usable order',
  'Every assignment of an accepted schema is generated exactly once, and every generated definition comes after all definitions it refers to, whatever the order in the schema and whatever the names (a name that is a Python keyword gets a trailing underscore); so the generated code always loads.',
  ['programs'], 'all schemas with acyclic references, in every textual order',
  'Orders are factorial in the number of definitions; tests fix a few.',
  ['asn1PERser/classes/module.py'], [('ordering', 'asn1PERser/classes/module.py')])
p('C19', 'Schema compiler: comments and layout never change the result',
  'Adding, removing or moving comments (line and block) and white space between lexical items of a schema never changes the generated code.',
  ['programs'], 'all schemas and all placements of comments and white space',
  'Placements are unbounded; tests have a few comments.',
  ['asn1PERser/classes/module.py', 'asn1PERser/__init__.py'], [('comment removal', 'asn1PERser/classes/module.py:remove_comments')])
p('C20', 'Schema compiler: result depends on the schema alone, not on earlier compilations',
  'Compiling a schema gives the same code whatever schemas were compiled before it in the same process, successfully or not, and however often.',
  ['histories'], 'all sequences of compilations',
  'Tests compile independent schemas and do not compare with a fresh process.',
  ['asn1PERser/classes/parse_actions.py', 'asn1PERser/classes/module.py'], [('module-level tables', 'asn1PERser/classes/parse_actions.py'), ('resolution', 'asn1PERser/classes/module.py')])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
print(len(P))
