"""The properties, in one place: tools/gen.py derives properties.jsonl and MANIFEST.json from this table."""
B = 'src/infi/instruct/'
P = []


def prop(id, title, statement, over, text, why, files, mech, technique=None, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                  files=[B + f for f in files], mech=mech, technique=technique, note=note, na=na))


prop('S01', 'Numeric codecs: exact width, signedness, byte order, range',
     'Every named integer and float type writes exactly its declared number of bytes in its declared signedness and byte order '
     'and reads the same layout back, on little and big endian hosts alike. A value that does not fit the declared range, or is '
     'not a number, ends in the library\'s error with nothing written, both as a bare marshal and as a struct field.',
     ['inputs', 'configurations'], 'all values (in and out of range) x 30 named numeric types x both host byte orders',
     'Tests write a handful of values per width on one host; a wrong bit for other values or on another host is never seen.',
     ['numeric.py', 'numeric_macros.py'], [('NumericMarshal', B + 'numeric.py'), ('MarshalWithField', B + 'numeric_macros.py')],
     'bit-provenance abstract interpretation')

prop('S02', 'Truncated input is never decoded; full input is consumed exactly',
     'For every kind of stream declaration (numbers, fixed and length-prefixed strings and buffers, arrays, bit groups, padding, '
     'lazy groups, optional fields, constants, nested structs, selectors), reading from input shorter than its encoding ends in '
     'the library\'s error and never yields an object. Reading from the whole encoding consumes exactly its bytes, '
     'whatever follows them.',
     ['inputs', 'programs'], 'every declaration kind, every cut position, all contents, any trailing bytes',
     'Tests feed complete inputs; the handful of short-input tests cover single kinds and single cut points.',
     ['numeric.py', 'string.py', 'array.py', 'padding.py', 'struct/bit.py', 'struct/lazy.py', 'struct/selector.py'],
     [('short read checks', B + 'numeric.py'), ('length-prefixed read', B + 'string.py'), ('bit group read', B + 'struct/bit.py')],
     'path-sensitive abstract interpretation, exhaustive cut enumeration')

prop('S03', 'Writing and reading walk the same fields in declaration order',
     'The bytes written for a struct are exactly the concatenation, in declaration order, of the encodings its fields promise, with '
     'every length, count and byte-sum prefix counting exactly what follows it. Reading those bytes gives back the written values '
     'and leaves the following bytes untouched.',
     ['inputs', 'programs'], 'all field kinds and every ordered pair (thorough: triples), all values, symbolic lengths',
     'Round-trip tests exist for a few concrete structs; order and prefix mistakes for other combinations go unseen.',
     ['struct/__init__.py', 'string.py', 'array.py', 'struct/bit.py', 'struct/lazy.py', 'struct/optional.py', 'mapping.py'],
     [('field container walks', B + 'struct/__init__.py'), ('prefixed marshals', B + 'string.py'), ('array marshals', B + 'array.py')],
     'product comparison of abstract writer and reader walks')

prop('S04', 'The reported size of an object equals the bytes writing it produces',
     'For every struct object the size it reports is the number of bytes writing it produces, for every field kind and combination, '
     'including length-prefixed strings with strippable padding, optional fields present or absent, and objects of a subclass '
     'measured through a base class.',
     ['inputs', 'programs'], 'all field kinds and ordered pairs, all values, symbolic string lengths',
     'Tests compare sizes for a few literals only.',
     ['struct/__init__.py', 'string.py', 'array.py', 'struct/optional.py', 'base.py'],
     [('sizeof walk', B + 'struct/__init__.py'), ('string sizes', B + 'string.py'), ('array sizes', B + 'array.py')],
     'product comparison of the size walk and the write walk')

prop('S05', 'Reported size bounds bracket every size that can be written',
     'The minimum and maximum size reported for a declaration bracket the size of every value it can write, never leave the range from '
     'zero to the platform maximum, and coincide exactly when the declaration reports a fixed size. Bounds of a composite '
     'are the sum of its parts; bounds of a choice cover every alternative.',
     ['inputs', 'programs'], 'all declarations of the catalogue, all values and element counts, all integer bound pairs',
     'Tests check bounds of a few declarations, never against the sizes of the values they admit.',
     ['base.py', 'array.py', 'string.py', 'struct/selector.py', 'struct/optional.py'],
     [('MinMax', B + 'base.py'), ('array bounds', B + 'array.py'), ('selector bounds', B + 'struct/selector.py')],
     'interval comparison over symbolic sizes')

prop('S06', 'A constant field always encodes, and only accepts, its constant',
     'Whatever a constructor argument or assignment supplied, a constant field writes its constant, and its value reads as the constant. '
     'Input carrying any other value, and assignment of any other value, ends in the library\'s error.',
     ['inputs', 'programs'], 'all stream values and assigned values for integer, byte string and struct constants',
     'Tests try one wrong value per case.',
     ['struct/const.py', 'struct_macros.py'], [('ConstField', B + 'struct/const.py')],
     'path-sensitive abstract interpretation over opaque input')

prop('S07', 'An optional field is present exactly when set (write) or asked (read)',
     'An optional field whose value is set, including falsy values such as zero and empty, is written in full; an unset one contributes '
     'no bytes and no size. On reading, the declared condition alone decides presence: it is evaluated once and sees the fields that '
     'precede it, and when false nothing is consumed.',
     ['inputs', 'programs'], 'all values and both condition outcomes, every position of the optional field',
     'Tests cover one truthy value and one condition.',
     ['struct/optional.py'], [('OptionalField', B + 'struct/optional.py')],
     'path-sensitive abstract interpretation with opaque conditions')

prop('S08', 'A selector is decided by its key; peeked bytes are never lost',
     'The class used to read a selected struct is determined by the key bytes alone (or by the user function), and those bytes remain part '
     'of what the chosen class reads. An unmapped key without a default, and bytes that were read ahead but not consumed, are '
     'library errors, never silently dropped; writing dispatches on the class of the object itself.',
     ['inputs', 'programs'], 'all keys (mapped and all others at once), key widths, read-ahead lengths, with and without default',
     'Tests try one or two keys and no leftover bytes.',
     ['struct/selector.py', 'struct_macros.py', 'utils/read_ahead_stream.py'],
     [('StructSelectorMarshal', B + 'struct/selector.py'), ('ReadAheadStream', B + 'utils/read_ahead_stream.py')],
     'path-sensitive abstract interpretation over opaque keys')

prop('S09', 'Looking ahead never loses, duplicates or reorders stream bytes',
     'For every sequence of look-ahead reads and ordinary reads, each ordinary read returns exactly the next bytes of the stream that no '
     'ordinary read returned before, whether they were peeked at or not. Writing is refused while peeked bytes are held back.',
     ['histories'], 'all sequences of up to three peeks and three reads (thorough: four), all contents, short streams',
     'Tests run one or two fixed sequences; buffer bookkeeping errors show only in particular orders and sizes.',
     ['utils/read_ahead_stream.py', 'struct/selector.py'], [('ReadAheadStream', B + 'utils/read_ahead_stream.py')],
     'bounded typestate enumeration against a cursor model, opaque contents')

prop('S10', 'Bit groups place every field on its own bits, least significant first',
     'Fields of a sequential bit group occupy consecutive bits starting at the least significant bit of the first byte; fields of a '
     'positional group exactly the bit ranges they name. Writing a field touches no other bit, padding is written as zero and ignored '
     'on reading, and a group that does not fill whole bytes is rejected when declared.',
     ['inputs', 'programs'], 'all 128 compositions of a byte, wider and positional layouts, all values and input bytes',
     'Tests use a few layouts and constants; a displaced bit needs a specific layout and value.',
     ['struct/bit.py', 'utils/bitstringio.py', 'struct_macros.py'],
     [('BitMarshal and bit containers', B + 'struct/bit.py'), ('BitStringIO', B + 'utils/bitstringio.py')],
     'bit-provenance dataflow')

prop('S11', 'Lazy groups behave as eager ones, decoding once on first access',
     'Reading a lazy group consumes exactly its bytes without decoding them; the first access to any of its fields decodes the group once, '
     'with the context and arguments of the read. Every access, assignment, size and write afterwards sees the values an eager group '
     'would have, and the groups of different objects or declarations never mix.',
     ['inputs', 'histories'], 'all access orders up to length three, all contents, nested groups and constants',
     'Tests access fields in one order on one object.',
     ['struct/lazy.py', 'struct/__init__.py'], [('Lazy containers and descriptors', B + 'struct/lazy.py')],
     'abstract interpretation of access histories compared with eager declarations')

prop('S12', 'Fields start from the given value, else the default, never shared',
     'Every field of a new object holds the value given to the constructor, whatever it is, otherwise its declared default, otherwise '
     'nothing. User constructors run once with the arguments they declare along the inheritance chain, and neither two objects nor an '
     'object and its declaration share a mutable default.',
     ['inputs', 'histories'], 'all subsets of given fields, constructor chains to depth three, mutation histories',
     'Tests create single objects; sharing shows only after a mutation and a second object.',
     ['struct/__init__.py', 'base.py'], [('Struct construction', B + 'struct/__init__.py'), ('field defaults', B + 'base.py')],
     'abstract interpretation with a heap aliasing domain')

prop('S13', 'Context and arguments reach every nested component unchanged',
     'The caller\'s context, and the arguments of a read, reach every component however deeply nested, on reading and on writing. A '
     'reference from a field to its struct means the struct that declares the field, and no operation changes the caller\'s context, '
     'a context declared by a class, or the context of another operation.',
     ['inputs', 'programs'], 'every container kind and every pair of nested containers, both directions, opaque contexts',
     'Tests pass contexts through one or two containers only.',
     ['base.py', 'struct/__init__.py', 'struct/lazy.py', 'struct/optional.py', 'array.py', 'struct/selector.py', 'struct/pointer.py'],
     [('contexts', B + 'base.py'), ('container walks', B + 'struct/__init__.py')],
     'interprocedural dataflow with probe components')

prop('S14', 'Mapped values translate only through their mapping, both ways',
     'A mapped field writes exactly the encoding of the value its name maps to and reads exactly the name that maps to the stream value. '
     'Names and values outside the mapping end in an error, never another entry, and a mapping that gives one value two names is '
     'rejected when declared.',
     ['inputs', 'programs'], 'mappings of up to four entries over several carriers, all stream values and names at once',
     'Tests use one mapping and one unknown value.',
     ['mapping.py'], [('MappingMarshal', B + 'mapping.py')],
     'path-sensitive abstract interpretation with opaque keys')

prop('S15', 'Fixed size means fixed size: values that do not fit are rejected',
     'A fixed-size buffer, padded string, fixed-count array or padding writes exactly its declared size for every value it accepts. A value '
     'that does not fit is rejected with the library\'s error, never truncated, extended or written short, wherever it is nested.',
     ['inputs', 'programs'], 'contents of every length at once, declared sizes 0..9, counts 0..4 with 0..6 elements',
     'Tests try a correct size and at most one wrong one.',
     ['string.py', 'array.py', 'padding.py', 'numeric.py'], [('fixed size marshals', B + 'string.py'), ('FixedSizeArray', B + 'array.py')],
     'symbolic length analysis')

prop('S16', 'Padding and stripping agree on side and character',
     'The side and character with which a string is padded when written are the side and characters stripped when it is read or measured; '
     'nothing else of the content is touched and a stripped string reads back as written.',
     ['inputs', 'programs'], 'all directions, default and custom paddings, sizes 0..6, contents with and without edge padding',
     'Tests cover right padding with zero bytes on a few literals.',
     ['string.py', 'string_macros.py'], [('PaddedStringMarshal', B + 'string.py'), ('padding declarations', B + 'string_macros.py')],
     'path-sensitive abstract interpretation over opaque edge bytes')

prop('S17', 'The string interface is the stream interface; text is refused',
     'Reading from a byte string yields exactly what reading the same bytes from a stream yields, and writing to a byte string exactly what '
     'writing to a stream produces, wherever the stream stands and whatever follows, for objects, subclasses and bare marshals. Text '
     'given where bytes are required is refused with TypeError, and turning an object into text is refused.',
     ['inputs', 'programs'], 'every field kind and pair, both interfaces, all contents, trailing bytes, text of any length',
     'Tests use one interface per struct and never text.',
     ['base.py', 'struct/__init__.py'], [('Marshal string interface', B + 'base.py'), ('Struct string interface', B + 'struct/__init__.py')],
     'product comparison of both interfaces by abstract interpretation')

prop('S18', 'Writing, measuring and representing never change the object',
     'Writing an object, asking for its size, bounds or representation, reading other objects of its class, and failing while doing so '
     'change neither the values it holds, nor the containers its owner put in, nor what the next write produces. Values read from '
     'one stream are not shared with another read.',
     ['histories', 'inputs'], 'every field kind, all operation sequences up to two (thorough: three), made and read objects',
     'Tests write each object once and never look at it again.',
     ['struct/__init__.py', 'array.py', 'string.py', 'struct/lazy.py', 'struct/bit.py', 'struct/optional.py'],
     [('field walks', B + 'struct/__init__.py'), ('array walks', B + 'array.py'), ('Lazy', B + 'struct/lazy.py')],
     'effect analysis over operation histories with heap snapshots')

prop('S19', 'Declarations are immutable in use, whatever failed or is in progress',
     'After any history of successful and failing operations, and while another operation of the same declaration is in progress, a '
     'declaration reads and writes as on its first use. The field lists, mappings and defaults the user declared it from, and other '
     'classes using the same declarations, stay as they were.',
     ['histories', 'schedules'], 'every field kind x operation histories incl. failures; re-entry at every stream operation',
     'Tests declare a struct, use it once or twice and throw it away; nothing interleaves two uses.',
     ['struct/__init__.py', 'struct/bit.py', 'struct/lazy.py', 'struct/selector.py', 'mapping.py', 'array.py', 'base.py'],
     [('containers', B + 'struct/__init__.py'), ('selector', B + 'struct/selector.py'), ('mapping', B + 'mapping.py')],
     'effect analysis over histories and re-entrant schedules')

prop('B01', 'Buffer numbers: exact bits, width, signedness, byte order, and no misfits',
     'A numeric buffer field writes exactly the bits of its value into exactly the bytes and bits of its declared range, in its declared '
     'signedness and byte order, and reads exactly those bits back, for whole bytes and for bit ranges inside and across bytes, on either '
     'host. A value that does not fit, or a range of an impossible width, ends in the library\'s error.',
     ['inputs', 'configurations'], 'all values, all whole-byte widths, sub-byte ranges of every offset and length, both hosts',
     'Tests pack a few literals in a few layouts; wrong bits elsewhere are invisible to them.',
     ['buffer/serialize.py', 'buffer/io_buffer.py', 'buffer/macros.py'],
     [('pack_int/unpack_int', B + 'buffer/serialize.py'), ('bit views', B + 'buffer/io_buffer.py')],
     'bit-provenance abstract interpretation')

prop('B02', 'Packing and unpacking visit every field exactly when its condition holds',
     'Packing writes, and unpacking reads, every field of a buffer class and all its bases exactly when its condition holds; the value '
     'is the one assigned, or the one its declaration computes. A field whose condition is false writes nothing and reads as None, '
     'an overriding field replaces the inherited one, unset fields have their own defaults, and only declared names are accepted.',
     ['inputs', 'programs'], 'all condition and value sources (constants, references, callables), inheritance shapes, all values',
     'Tests use few combinations of condition, computed value, default and inheritance.',
     ['buffer/buffer.py', 'buffer/field_reference_builder.py', 'buffer/macros.py'],
     [('Buffer pack/unpack', B + 'buffer/buffer.py'), ('field declarations', B + 'buffer/field_reference_builder.py')],
     'path-sensitive abstract interpretation')

prop('B03', 'Buffer failures surface as the library error naming class and field',
     'Whatever goes wrong while a field of a buffer is packed, unpacked or measured (a bad value, a failing callback, short input, an impossible '
     'position) surfaces as the buffer error, which is one of the library\'s errors and names the class and the field at fault. '
     'The object, its class and later operations are unaffected by the failure.',
     ['inputs', 'histories'], 'every step of every field kind failing in every operation, then further operations',
     'Tests check a few error types and no message or behaviour after a failure.',
     ['buffer/buffer.py', 'buffer/reference/reference.py', 'buffer/serialize.py'],
     [('InstructBufferError', B + 'buffer/buffer.py'), ('reference evaluation', B + 'buffer/reference/reference.py')],
     'exception-flow analysis by abstract interpretation')

prop('B04', 'A reference is evaluated once per operation; cycles are errors',
     'Within one pack, unpack or size operation every reference is evaluated at most once and all its users see that one value. A value '
     'that depends on itself is reported as an error and never recurses without end; a failed evaluation leaves no trace, and nothing '
     'is remembered from one operation to the next.',
     ['histories', 'programs'], 'custom references and fields, evaluation histories with failures, cycles of length 1 to 5',
     'Tests contain one cycle and no counting of evaluations.',
     ['buffer/reference/reference.py', 'buffer/buffer.py'], [('Context and Reference', B + 'buffer/reference/reference.py')],
     'typestate analysis by abstract interpretation')

prop('B05', 'A static buffer packs to exactly its declared or computed byte size',
     'The byte size of a buffer class whose positions are all constant is the highest byte any own or inherited field reaches; packing '
     'yields exactly that many bytes, padded with zeros, and content that does not fit a declared size is refused. A class whose size '
     'varies reports no static size.',
     ['inputs', 'programs'], 'all field layouts of the catalogue incl. bit ranges, gaps, inheritance and declared sizes; all values',
     'Tests check the size of a few classes.',
     ['buffer/buffer.py', 'buffer/range.py'], [('static size', B + 'buffer/buffer.py'), ('range lists', B + 'buffer/range.py')],
     'abstract interpretation of positions and sizes')


prop('B06', 'Reported, packed and consumed sizes of a varying layout agree byte for byte',
     'What total_size, calc_byte_size and unpack report is exactly the number of bytes packing yields and unpacking consumes. A field '
     'placed after another starts exactly where that one ends, also when that one is absent of content, nested, a list, or in several '
     'places. Length, minimum, maximum and input-length references stand for exactly the packed or unpacked values they name.',
     ['inputs', 'programs'], 'all ordered pairs (thorough: triples) of 18 field kinds behind one another; all contents of sizes 0 to 3',
     'Tests chain one or two fields with one content each; an offset that is wrong for one combination stays unseen.',
     ['buffer/buffer.py', 'buffer/reference/total_size.py', 'buffer/reference/after_field.py', 'buffer/range.py'],
     [('sizes', B + 'buffer/buffer.py'), ('range lists', B + 'buffer/range.py'), ('references', B + 'buffer/reference/after_field.py')],
     'abstract interpretation of generated layouts')

prop('B07', 'Overlapping positions are rejected; an open range takes exactly the rest',
     'A field whose own byte or bit ranges overlap is rejected whenever it is packed or unpacked, whatever the order they are listed in, '
     'and ranges that merely touch never are. An open range takes exactly the bytes the other ranges of its field leave when packing '
     'and everything up to the end of the input when unpacking.',
     ['inputs', 'configurations'], 'all pairs and triples of ranges over a grid, in every order; opaque bounds; open range in any place',
     'Tests try two overlapping declarations and one open range at the end of the list.',
     ['buffer/range.py', 'buffer/buffer.py'], [('has_overlaps', B + 'buffer/range.py'), ('open ranges', B + 'buffer/buffer.py')],
     'abstract interpretation of interval arithmetic')

prop('B17', 'Byte and bit references select exactly the positions they name',
     'bytes_ref[...] with indexes, slices, lists and sums, and .bits[...] of any of them, select exactly the bytes and bits they name, '
     'counting bits along the byte ranges in the order given. Impossible positions (negative, backwards, past the end, stepped, not '
     'numbers) are errors and never another position; range lists measure, sort, close and map offsets consistently.',
     ['inputs', 'configurations'], 'all single ranges and lists of up to three, with every bit index and slice; opaque references as bounds',
     'Tests select a handful of bits of one byte range.',
     ['buffer/range.py', 'buffer/reference/range.py'],
     [('ranges', B + 'buffer/range.py'), ('range references', B + 'buffer/reference/range.py')],
     'abstract interpretation of interval arithmetic')

prop('B12', 'Buffer declarations are not changed by use, whatever happened before',
     'A buffer class packs, measures and unpacks as on its first use whatever was done with it before, however it failed, and whatever '
     'is in progress: other objects, subclasses, mixins, elements of its own class, use from its own callbacks. Fields of plain base '
     'classes belong to every buffer class made with them; positions, expressions, element types and defaults may be shared freely.',
     ['histories', 'programs'], '17 kinds of classes x histories of up to two (thorough: all) of 12 operations, re-entrancy, inheritance and sharing',
     'Tests use each class once or twice, in one order.',
     ['buffer/buffer.py', 'buffer/reference/contexts.py', 'buffer/field_reference_builder.py', 'buffer/reference/field.py'],
     [('class set-up', B + 'buffer/buffer.py'), ('per-operation context', B + 'buffer/reference/contexts.py')],
     'abstract interpretation of operation histories, class state compared through behaviour')
prop('B13', 'Packing and unpacking share no memory with what they are given',
     'Packing leaves every value as it was, except the fields declared to be computed, and each packed result is a new bytearray. '
     'Unpacking leaves its input as it was, whichever kind of byte sequence it is, and the values read are independent of the input, of '
     'each other, of the values they replace and of whatever was unpacked before.',
     ['inputs', 'histories'], '17 kinds of classes x 6 forms of input; changes in place before, between and after; overlapping fields',
     'Tests pass literals and never change them afterwards.',
     ['buffer/buffer.py', 'buffer/io_buffer.py', 'buffer/serialize.py'],
     [('views', B + 'buffer/io_buffer.py'), ('values', B + 'buffer/serialize.py')],
     'abstract interpretation with an explicit heap: aliasing decided by in-place changes')
prop('B14', 'A buffer class used as a struct type reads and writes just what the buffer does',
     'A buffer class adapted to the struct interface writes exactly what the buffer packs, reports exactly its size, and reads exactly as '
     'many bytes as the buffer occupies (a fractional size rounded up), on its own and as struct field, array element or optional field. '
     'A short stream is a NotEnoughDataError, non-bytes input a TypeError, and a class of unknown size is refused before anything is read.',
     ['inputs', 'configurations'], '17 kinds of classes x every adapter operation x streams of every shortage; 6 ways of embedding',
     'Tests adapt one fixed-size class and never a short stream.',
     ['buffer/compat.py', 'buffer/buffer.py'],
     [('adapter', B + 'buffer/compat.py'), ('sizes', B + 'buffer/buffer.py')],
     'abstract interpretation of the adapter against the buffer it adapts')
prop('B16', 'Bit views and arrays hold exactly the bits ordinary list operations would leave',
     'Indexing, slicing, assigning, inserting, appending, deleting, extending, searching, padding and joining a BitView or '
     'BitAwareByteArray gives exactly the bits or bytes the same operation on a list of its elements would, for bounds given in bytes, '
     'bits or fractions, whatever the alignment. A value of the wrong size or kind is refused, and nothing outside the array changes.',
     ['inputs', 'histories'], 'all start/stop/size combinations over arrays up to 4 bytes; every bit of every byte symbolic',
     'Tests try chosen bit patterns at chosen offsets; each pair of offset and length has its own shifting path.',
     ['buffer/io_buffer.py'], [('bit views', B + 'buffer/io_buffer.py'), ('bit arrays', B + 'buffer/io_buffer.py')],
     'abstract interpretation with bit provenance')

prop('B08', 'Each field lands on exactly the bits its position names, and nowhere else',
     'However the bits of several fields interleave in the same bytes, and in whatever order the fields are processed, packing places '
     'every bit of every value at exactly the position its field names and leaves all other bits zero; unpacking gathers exactly those '
     'bits whatever lies between them. Where fields share bits the one packed last decides. A value shorter than its range is refused.',
     ['inputs', 'configurations'], 'bit partitions of 1 to 4 bytes, byte layouts with gaps, fields of several pieces, all name orders',
     'Tests place a few fields; a wrong mask shows only for one combination of offset, width and neighbour value.',
     ['buffer/io_buffer.py', 'buffer/buffer.py', 'buffer/field_reference_builder.py'],
     [('output placement', B + 'buffer/io_buffer.py'), ('pack and unpack', B + 'buffer/buffer.py')],
     'abstract interpretation with bit provenance over generated layouts')

prop('B09', 'Text and JSON buffer fields write, pad and read back exactly their value',
     'A text field writes its text in the declared encoding, padded to its range on the side its justification says, and reading takes '
     'off exactly that padding: strip characters on the outside first, then padding. JSON fields write and read the JSON text of any '
     'value. Text that cannot be encoded or decoded, input shorter than the range and text that is no JSON are errors.',
     ['inputs', 'configurations'], 'ranges of 0 to 6 bytes, all text lengths and paddings, three justifications, arbitrary input of up to 3 bytes',
     'Tests read one left and one right justified text and one JSON object.',
     ['buffer/serialize.py', 'buffer/macros.py'], [('text packing', B + 'buffer/serialize.py'), ('text fields', B + 'buffer/macros.py')],
     'abstract interpretation of text codecs')

prop('B10', 'Lists hold their elements back to back, each read where the last one ended',
     'A list field writes its elements in order with nothing between them, and reading yields exactly the elements that fill its range, or '
     'the first n of them, each starting where the one before it ended, whatever the element type or the selector choosing it. '
     'Selectors see the index, the elements read so far and the right bytes; a partial element, or elements that consume nothing, are errors.',
     ['inputs', 'programs'], '24 named integer types, text, 7 kinds of buffers and selectors x 0 to 4 elements x 7 kinds of ranges and counts',
     'Tests read a few lists of one-byte numbers and fixed buffers.',
     ['buffer/serialize.py', 'buffer/macros.py'], [('pack_list/unpack_list', B + 'buffer/serialize.py'), ('list_field', B + 'buffer/macros.py')],
     'abstract interpretation of generated layouts')

prop('B11', 'An expression over references is the same expression over their values',
     'An expression over references stands, when packing and when unpacking, for what the same Python expression gives on the values '
     'they stand for: each operator applied once to its operands in the order written. Calls get their evaluated arguments and names '
     'mean the field before the attribute. Expressions Python or the library does not define are refused where they are written, and '
     'a reference has no truth value.',
     ['inputs', 'programs'], '11 operators x 17 operand forms on both sides, 22 expression shapes, all values; every unsupported operator',
     'Tests add and subtract one constant; operand order and other operators are not looked at.',
     ['buffer/reference/reference.py', 'buffer/reference/func_call.py', 'buffer/reference/field_or_attr.py', 'buffer/reference/builtins.py'],
     [('operators', B + 'buffer/reference/reference.py'), ('calls', B + 'buffer/reference/func_call.py')],
     'abstract interpretation of generated expressions')
